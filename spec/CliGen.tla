------------------------------- MODULE CliGen -------------------------------
(* Random scenarios for the real client: calls of users and steps of the   *)
(* servers.  Which connection carries a call is up to the client, so       *)
(* frames are addressed by the call they belong to.  Run with -simulate;   *)
(* every behaviour prints one scenario.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils

G == JsonDeserialize(IOEnv.GEN)   \* nk, na, steps, max: <<..>>, frames: <<..>>, hs: <<..>>, pings: <<..>>, w: weights
NK == G.nk
NA == G.na
W(k) == IF k \in DOMAIN G.w THEN G.w[k] ELSE 0
Pick(S) == RandomElement(S)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES calls, addrs, script, n, done, jumped
vars == <<calls, addrs, script, n, done, jumped>>

Ops == <<"call", "burst", "resp", "fail", "bad", "odd", "stray", "drop", "close", "down", "up", "hs", "hsok", "ping", "pause", "resume",
         "yield", "sleep", "sync", "probe", "jump", "age", "long">>
Weighted == UNION {{<<Ops[i], k>> : k \in 1 .. W(Ops[i])} : i \in 1 .. Len(Ops)}

\* st: new, started, done (outcome decided), dropped;  arr: known to have arrived;  left: frames of the response
Init == /\ calls = [k \in 1 .. NK |-> [a |-> 1, st |-> "new", arr |-> FALSE, left |-> 0, nf |-> 0]]
        /\ addrs = [a \in 1 .. NA |-> [up |-> TRUE, hs |-> "ok", ping |-> "ok", paused |-> FALSE, muted |-> FALSE]]
        /\ script = <<>> /\ n = 0 /\ done = FALSE /\ jumped = FALSE

\* A handshake or ping which will not be answered is given up some time.
Blocked(a) == ~addrs[a].up \/ addrs[a].hs # "ok" \/ addrs[a].paused \/ addrs[a].muted
Reach(k) == calls[k].arr \/ ~Blocked(calls[k].a)
Unused == {k \in 1 .. NK : calls[k].st = "new"}
Open == {k \in 1 .. NK : calls[k].st = "started"}
Sendable == {k \in Open : calls[k].left > 0 /\ Reach(k)}
Via == {k \in 1 .. NK : calls[k].st \in {"started", "done"} /\ Reach(k)}
Past == {k \in 1 .. NK : calls[k].st \in {"done", "dropped"}}
Droppable == {k \in 1 .. NK : calls[k].st \in {"started", "done"}}

Add(s) == script' = script \o s /\ n' = n + 1

NewCall(k, a, nf) == [calls EXCEPT ![k] = [a |-> a, st |-> "started", arr |-> FALSE, left |-> nf, nf |-> nf]]
Frames == {G.frames[i] : i \in 1 .. Len(G.frames)}

DoCall(jump) ==
  \E a \in {Pick(1 .. NA)}, nf \in {Pick(Frames)}, z \in {Pick(1 .. 4)} :
    LET k == Min(Unused)
        s == [op |-> "call", k |-> k, a |-> a, nf |-> nf]
        j == IF jump = 0 THEN s ELSE IF z = 1 THEN s @@ [jump |-> [of |-> 0, id |-> "4294967295"]]
             ELSE s @@ [jump |-> [of |-> jump, id |-> ""]]
    IN  /\ calls' = NewCall(k, a, nf) /\ Add(<<j>>) /\ jumped' = (jumped \/ jump # 0)
        /\ UNCHANGED <<addrs, done>>

\* a call which cannot be put into frames: the name of its service is too long
DoLong ==
  \E a \in {Pick(1 .. NA)} :
    LET k == Min(Unused)
    IN  /\ calls' = [calls EXCEPT ![k].st = "void"] /\ Add(<<[op |-> "call", k |-> k, a |-> a, nf |-> 1, long |-> TRUE]>>)
        /\ UNCHANGED <<addrs, done, jumped>>

\* several calls to one address at once
DoBurst ==
  \E a \in {Pick(1 .. NA)}, nf \in {Pick(Frames)}, c \in {Pick(2 .. 4)} :
    LET u == Unused
        RECURSIVE Take(_, _)
        Take(S, x) == IF S = {} \/ x = 0 THEN <<>> ELSE <<Min(S)>> \o Take(S \ {Min(S)}, x - 1)
        ks == Take(u, c)
    IN  /\ calls' = [k \in 1 .. NK |-> IF \E i \in 1 .. Len(ks) : ks[i] = k
                                       THEN [a |-> a, st |-> "started", arr |-> FALSE, left |-> nf, nf |-> nf] ELSE calls[k]]
        /\ Add([i \in 1 .. Len(ks) |-> [op |-> "call", k |-> ks[i], a |-> a, nf |-> nf]])
        /\ UNCHANGED <<addrs, done, jumped>>

Sent(k, kind) ==
  LET fin == calls[k].left = 1 \/ kind # "next"
  IN  /\ calls' = [calls EXCEPT ![k].left = IF fin THEN 0 ELSE @ - 1, ![k].st = IF fin THEN "done" ELSE @, ![k].arr = TRUE]
      /\ Add(<<[op |-> "send", k |-> k, kind |-> kind, i |-> calls[k].nf - calls[k].left, last |-> calls[k].left = 1]>>)
      /\ UNCHANGED <<addrs, done, jumped>>
DoSend(kind) == \E k \in {Pick(Sendable)} : Sent(k, kind)
\* an odd frame: the call may fail then, or go on
DoOdd == \E k \in {Pick(Sendable)} :
            /\ calls' = [calls EXCEPT ![k].arr = TRUE]
            /\ Add(<<[op |-> "send", k |-> k, kind |-> "odd", i |-> 0, last |-> FALSE]>>)
            /\ UNCHANGED <<addrs, done, jumped>>

DoStray == \E v \in {Pick(Via)}, z \in {Pick(1 .. 3)} :
  \E j \in {IF Past = {} \/ z = 1 THEN 0 ELSE Pick(Past)} :
     /\ Add(<<[op |-> "stray", via |-> v, of |-> j]>>) /\ UNCHANGED <<calls, addrs, done, jumped>>

DoDrop == \E k \in {Pick(Droppable)} :
     /\ calls' = [calls EXCEPT ![k].st = "dropped"] /\ Add(<<[op |-> "drop", k |-> k]>>) /\ UNCHANGED <<addrs, done, jumped>>

Hows == <<"fin", "fin", "rst", "garbage", "half">>
DoClose == \E k \in {Pick({x \in 1 .. NK : calls[x].st \notin {"new", "void"}})}, h \in {Pick(1 .. Len(Hows))} :
     /\ Add(<<[op |-> "close", k |-> k, how |-> Hows[h]]>>) /\ UNCHANGED <<calls, addrs, done, jumped>>

SetAddr(a, x, s) == addrs' = [addrs EXCEPT ![a] = x] /\ Add(<<s>>) /\ UNCHANGED <<calls, done, jumped>>
DoDown == \E a \in {Pick({x \in 1 .. NA : addrs[x].up})} : SetAddr(a, [addrs[a] EXCEPT !.up = FALSE], [op |-> "down", a |-> a])
DoUp == \E a \in {Pick({x \in 1 .. NA : ~addrs[x].up})} : SetAddr(a, [addrs[a] EXCEPT !.up = TRUE], [op |-> "up", a |-> a])
DoHs(ok) == \E a \in {Pick({x \in 1 .. NA : (addrs[x].hs = "ok") # ok})}, i \in {Pick(1 .. Len(G.hs))} :
     LET h == IF ok THEN "ok" ELSE G.hs[i] IN
     SetAddr(a, [addrs[a] EXCEPT !.hs = IF h = "dup" THEN "ok" ELSE h, !.muted = @ \/ h = "mute"], [op |-> "hs", a |-> a, how |-> h])
DoPing == \E a \in {Pick(1 .. NA)}, i \in {Pick(1 .. Len(G.pings))} :
     SetAddr(a, [addrs[a] EXCEPT !.ping = G.pings[i], !.muted = @ \/ G.pings[i] = "mute"], [op |-> "ping", a |-> a, how |-> G.pings[i]])
DoPause == \E a \in {Pick({x \in 1 .. NA : ~addrs[x].paused})} : SetAddr(a, [addrs[a] EXCEPT !.paused = TRUE], [op |-> "pause", a |-> a])
DoResume == \E a \in {Pick({x \in 1 .. NA : addrs[x].paused})} : SetAddr(a, [addrs[a] EXCEPT !.paused = FALSE], [op |-> "resume", a |-> a])
Simple(s) == Add(<<s>>) /\ UNCHANGED <<calls, addrs, done, jumped>>
DoSync == /\ calls' = [k \in 1 .. NK |-> IF calls[k].st = "started" /\ ~Blocked(calls[k].a) THEN [calls[k] EXCEPT !.arr = TRUE] ELSE calls[k]]
          /\ Add(<<[op |-> "sync"]>>) /\ UNCHANGED <<addrs, done, jumped>>

\* Everybody waits for longer than any timeout.
Ages == Cardinality({i \in 1 .. Len(script) : script[i].op = "age"})
DoAge == /\ calls' = [k \in 1 .. NK |-> IF calls[k].st = "started" /\ ~Blocked(calls[k].a) THEN [calls[k] EXCEPT !.arr = TRUE] ELSE calls[k]]
         /\ addrs' = [a \in 1 .. NA |-> [addrs[a] EXCEPT !.muted = @ /\ "mute" \in {addrs[a].hs, addrs[a].ping}]]
         /\ Add(<<[op |-> "sync"], [op |-> "age"]>>) /\ UNCHANGED <<done, jumped>>

Act(op) ==
  CASE op = "call" -> DoCall(0)   [] op = "burst" -> DoBurst
    [] op = "jump" -> DoCall(Pick(Open))
    [] op = "resp" -> DoSend("next") [] op = "fail" -> DoSend("error") [] op = "bad" -> DoSend("bad") [] op = "odd" -> DoOdd
    [] op = "stray" -> DoStray    [] op = "drop" -> DoDrop   [] op = "close" -> DoClose
    [] op = "down" -> DoDown      [] op = "up" -> DoUp       [] op = "hs" -> DoHs(FALSE) [] op = "hsok" -> DoHs(TRUE)
    [] op = "ping" -> DoPing      [] op = "pause" -> DoPause [] op = "resume" -> DoResume
    [] op = "age" -> DoAge        [] op = "long" -> DoLong
    [] op = "sync" -> DoSync      [] op \in {"yield", "sleep", "probe"} -> Simple([op |-> op])

Can(op) ==
  CASE op \in {"call", "burst", "long"} -> Unused # {}
    [] op = "jump" -> Unused # {} /\ Open # {}
    [] op \in {"resp", "fail", "bad", "odd"} -> Sendable # {}
    [] op = "stray" -> Via # {} /\ ~jumped
    [] op = "drop" -> Droppable # {}
    [] op = "close" -> \E k \in 1 .. NK : calls[k].st \notin {"new", "void"}
    [] op = "down" -> \E a \in 1 .. NA : addrs[a].up
    [] op = "up" -> \E a \in 1 .. NA : ~addrs[a].up
    [] op = "hs" -> \E a \in 1 .. NA : addrs[a].hs = "ok"
    [] op = "hsok" -> \E a \in 1 .. NA : addrs[a].hs # "ok"
    [] op = "pause" -> \E a \in 1 .. NA : ~addrs[a].paused
    [] op = "resume" -> \E a \in 1 .. NA : addrs[a].paused
    [] op = "age" -> Ages < G.ages /\ \A a \in 1 .. NA : ~addrs[a].paused
    [] OTHER -> TRUE

\* The end: everything works again, all calls are answered, every address serves another call.
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
MapSeq(s, F(_)) == [i \in 1 .. Len(s) |-> F(s[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rest(k) == [i \in 1 .. calls[k].left |->
              [op |-> "send", k |-> k, kind |-> "next", i |-> calls[k].nf - calls[k].left + i - 1, last |-> i = calls[k].left]]
Finale ==
  LET A == SetSeq(1 .. NA)
      fix == Flat(MapSeq(A, LAMBDA a :
               (IF addrs[a].up THEN <<>> ELSE <<[op |-> "up", a |-> a]>>)
               \o (IF addrs[a].hs = "ok" THEN <<>> ELSE <<[op |-> "hs", a |-> a, how |-> "ok"]>>)
               \o (IF addrs[a].ping = "ok" THEN <<>> ELSE <<[op |-> "ping", a |-> a, how |-> "ok"]>>)
               \o (IF addrs[a].paused THEN <<[op |-> "resume", a |-> a]>> ELSE <<>>)))
      fin == Flat(MapSeq(SetSeq({k \in Open : calls[k].left > 0}), Rest))
      more == Flat(MapSeq(A, LAMBDA a : <<[op |-> "call", k |-> NK + a, a |-> a, nf |-> 1],
                                          [op |-> "send", k |-> NK + a, kind |-> "next", i |-> 0, last |-> TRUE]>>))
      again == Flat(MapSeq(A, LAMBDA a : <<[op |-> "call", k |-> NK + NA + a, a |-> a, nf |-> 1],
                                          [op |-> "send", k |-> NK + NA + a, kind |-> "next", i |-> 0, last |-> TRUE]>>))
      S == <<[op |-> "sync"]>>
      z0 == Pick(1 .. 1000)
      crowd == IF z0 > W("crowd") THEN <<>> ELSE <<[op |-> "crowd", n |-> Pick({5, 20, 70, 140, 300}), slow |-> FALSE]>>
      y0 == Pick(1 .. 1000)
      slow == IF y0 > W("slow") THEN <<>> ELSE <<[op |-> "crowd", n |-> Pick({80, 110, 140}), slow |-> TRUE]>>
      \* what was not answered has to be given up
      wait == IF \E a \in 1 .. NA : addrs[a].muted THEN S \o <<[op |-> "age"]>> ELSE <<>>
      all == script \o fix \o wait \o S \o fin \o S \o <<[op |-> "probe"]>> \o more \o S \o again \o S \o <<[op |-> "probe"]>> \o crowd \o slow
  IN  /\ \E z \in {Pick(1 .. Len(G.max))} :
           PrintT(<<"SCRIPT", ToJson([max |-> G.max[z], na |-> NA, nk |-> NK + 2 * NA, steps |-> all])>>)
      /\ done' = TRUE /\ UNCHANGED <<calls, addrs, script, n, jumped>>

Next ==
  /\ ~done
  /\ IF n >= G.steps THEN Finale
     ELSE IF n = 0 THEN DoBurst
     ELSE LET S == {x \in Weighted : Can(x[1])}
          IN  \E x \in {Pick(S)} : Act(x[1])
Spec == Init /\ [][Next]_vars
=============================================================================
