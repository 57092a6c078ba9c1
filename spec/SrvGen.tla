------------------------------- MODULE SrvGen -------------------------------
(* Random scenarios for the real server: steps of the environment only,    *)
(* with the observations due at each "sync", computed by SrvObs.           *)
(* Run with -simulate; every behaviour prints one scenario.                *)
EXTENDS SrvObs, Json, TLC, IOUtils

G == JsonDeserialize(IOEnv.GEN)     \* np, nr, steps, hs: <<[sync, json]>>, tasks: <<..>>, bufs, w: weights
NP == G.np
NR == G.nr
NH == Len(G.hs)
W(k) == IF k \in DOMAIN G.w THEN G.w[k] ELSE 0

VARIABLES m, script, left, n, done
vars == <<m, script, left, n, done>>
\* left: frames to be sent per request; script: steps so far; n: number of steps

Ops == <<"conn", "call", "cont", "ping", "stray", "gate", "sync", "eof", "rst", "wild", "part", "fatal", "resume", "badhs", "reuse", "yield", "silent", "hello", "age">>
Weighted == UNION {{<<Ops[i], k>> : k \in 1 .. W(Ops[i])} : i \in 1 .. Len(Ops)}

Pick(S) == RandomElement(S)

Blank == [p |-> 1, id |-> "", h |-> 0, ok |-> FALSE, wh |-> 0, json |-> FALSE, out |-> "ok", open |-> FALSE]
Init == /\ m = InitM(0, NP, NH, [r \in 1 .. NR |-> Blank])
        /\ script = <<>> /\ left = [r \in 1 .. NR |-> 0] /\ n = 0 /\ done = FALSE

\* applies events, appends the step
Do(step, evs) ==
  LET RECURSIVE Run(_, _)
      Run(x, s) == IF s = <<>> THEN x ELSE Run(Step(x, Head(s)).m, Tail(s))
  IN  /\ m' = Run(m, evs)
      /\ script' = Append(script, step)
      /\ n' = n + 1

TxE(p, f) == f @@ [e |-> "tx", p |-> p]
Send(p, f) == Do([op |-> "send", p |-> p, f |-> <<f>>], <<TxE(p, f)>>)

Ups == {p \in 1 .. NP : m.conns[p].st = "up" /\ m.conns[p].ended = "no" /\ ~m.conns[p].tail}
Fresh == {p \in 1 .. NP : m.conns[p].st = "none"}
Unused == {r \in 1 .. NR : m.reqs[r].st = "new"}
Partials == {r \in 1 .. NR : left[r] > 0 /\ m.reqs[r].p \in Ups}
Ungated == {r \in 1 .. NR : m.reqs[r].st # "new" /\ ~m.reqs[r].gate}
Reusable == {r \in 1 .. NR : m.reqs[r].st # "new" /\ m.reqs[r].p \in Ups /\ ~Busy(m, m.reqs[r].p, m.reqs[r].id)}
Idle == UNCHANGED <<m, script, left>> /\ n' = n + 1 /\ UNCHANGED done

DoConn ==
  /\ Fresh # {}
  /\ LET p == Min(Fresh) IN
     \E z \in {Pick(1 .. 100)} :
       LET paused == z <= W("paused") IN
       /\ Do([op |-> "conn", p |-> p, paused |-> paused, init |-> TRUE],
             <<[e |-> "conn", p |-> p, paused |-> paused],
               TxE(p, [t |-> "init", id |-> "1", d |-> "", v |-> 2, more |-> FALSE, r |-> 0])>>)
  /\ UNCHANGED <<left, done>>

\* a connection which introduces itself later, or never
DoSilent ==
  /\ Fresh # {}
  /\ LET p == Min(Fresh) IN Do([op |-> "conn", p |-> p, paused |-> FALSE, init |-> FALSE], <<[e |-> "conn", p |-> p, paused |-> FALSE]>>)
  /\ UNCHANGED <<left, done>>
Silents == {p \in 1 .. NP : m.conns[p].st = "open" /\ m.conns[p].ended = "no" /\ ~m.conns[p].tail}
DoHello ==
  /\ \E p \in {Pick(Silents)} : Send(p, [t |-> "init", id |-> "1", d |-> "", v |-> 2, more |-> FALSE, r |-> 0])
  /\ UNCHANGED <<left, done>>

BadFirst == << [t |-> "init", v |-> 1, d |-> ""], [t |-> "init", v |-> 3, d |-> ""], [t |-> "init", v |-> 0, d |-> ""], [t |-> "init", v |-> 258, d |-> ""], [t |-> "init", v |-> 512, d |-> ""],
               [t |-> "init", v |-> 2, d |-> "trunc"], [t |-> "init", v |-> 2, d |-> "half"], [t |-> "init", v |-> 2, d |-> "over"],
               [t |-> "ping", v |-> 0, d |-> ""], [t |-> "other", v |-> 0, d |-> ""], [t |-> "fatal", v |-> 0, d |-> ""],
               [t |-> "call", v |-> 0, d |-> ""] >>
\* a connection that begins with something else than an init request of version 2,
\* followed by what would be fine after a handshake
DoBadHs ==
  /\ Fresh # {} /\ Unused # {}
  /\ LET p == Min(Fresh)
         r == Min(Unused)
     IN \E i \in {Pick(1 .. Len(BadFirst))}, h \in {Pick(1 .. NH)} :
        LET b == BadFirst[i]
            id == "3"
            f == [t |-> b.t, id |-> id, d |-> b.d, v |-> b.v, more |-> FALSE, r |-> IF b.t = "call" THEN r ELSE 0]
            call == [t |-> "call", id |-> "4", d |-> "", v |-> 0, more |-> FALSE, r |-> r]
            fs == IF b.t = "call" THEN <<f>> ELSE <<f, call>>
            m1 == [m EXCEPT !.reqs[r] = NewReq([p |-> p, id |-> IF b.t = "call" THEN id ELSE "4", h |-> h, ok |-> TRUE, wh |-> 0,
                                                json |-> G.hs[h].json, out |-> "ok", open |-> TRUE])]
            Ev == <<[e |-> "conn", p |-> p, paused |-> FALSE]>> \o [j \in 1 .. Len(fs) |-> TxE(p, fs[j])]
            RECURSIVE Run(_, _)
            Run(x, s) == IF s = <<>> THEN x ELSE Run(Step(x, Head(s)).m, Tail(s))
            void == [Run(m1, Ev) EXCEPT !.reqs[r].st = "void"]
        IN /\ m' = void
           /\ script' = script \o <<[op |-> "conn", p |-> p, paused |-> FALSE, init |-> FALSE],
                                    [op |-> "send", p |-> p, f |-> fs]>>
           /\ n' = n + 1
  /\ UNCHANGED <<left, done>>

Outs == <<"ok", "ok", "ok", "msg", "gen", "int">>
SeqOf(S) == S
BadCallSeq == <<"csum", "csumbad", "noas", "as", "asutf8", "svcutf8", "trunc", "lenover", "half", "empty", "nhover", "flags", "tflags", "args1", "args2", "args4", "args1", "args2">>
BadContSeq == <<"csum", "csumbad", "trunc", "lenover", "half", "flags">>

CallWith(p, r, id) ==
  \E h \in {Pick(1 .. NH)}, zbad \in {Pick(1 .. 100)}, zdef \in {Pick(1 .. 100)}, o \in {Pick(1 .. Len(Outs))},
     nf \in {Pick({G.frames[i] : i \in 1 .. Len(G.frames)})}, d \in {Pick(1 .. Len(BadCallSeq))}, bk \in {Pick({"svc", "ep", "scheme", "utf8"})},
     zg \in {Pick(1 .. 100)} :
    LET defect == IF zdef <= W("defect") THEN BadCallSeq[d] ELSE ""
        bad == zbad <= W("unserv")
        hd == G.hs[h]
        open == hd.sync \/ zg <= W("open") \/ defect # ""
        more == nf > 1 /\ defect = ""
        def == [p |-> p, id |-> id, h |-> IF bad THEN 0 ELSE h, ok |-> ~bad, wh |-> IF bad /\ bk \in {"scheme", "utf8"} THEN h ELSE 0, json |-> hd.json,
                out |-> Outs[o], open |-> open \/ bad]
        f == [t |-> "call", id |-> id, d |-> defect, v |-> 0, more |-> more, r |-> r]
        m1 == [m EXCEPT !.reqs[r] = NewReq(def)]
        m2 == Step(m1, TxE(p, f)).m
    IN /\ m' = m2
       /\ script' = Append(script, [op |-> "send", p |-> p, f |-> <<f>>,
                                    new |-> def @@ [r |-> r, hh |-> h, bad |-> IF bad THEN bk ELSE "", nf |-> IF more THEN nf ELSE 1]])
       /\ left' = [x \in 1 .. NR |->
                     IF x = r THEN IF more /\ m2.reqs[r].st # "void" THEN nf - 1 ELSE 0
                     ELSE IF m2.reqs[x].p = p /\ m2.reqs[x].id = id /\ m2.reqs[r].st # "void" THEN 0 ELSE left[x]]
       /\ n' = n + 1
       /\ UNCHANGED done

DoCall ==
  /\ Ups # {} /\ Unused # {}
  /\ \E p \in {Pick(Ups)} : CallWith(p, Min(Unused), ToString(10 + Cardinality({x \in ReqsOf(m, p) : m.reqs[x].st # "new"})))

\* An id is used again: after its answer, or amid the fragments of a request (which then fails).
\* Two requests in progress with one id are misuse of which the outcome is not defined.
DoReuse ==
  /\ Ups # {} /\ Unused # {}
  /\ Reusable # {}
  /\ \E r \in {Pick(Reusable)} : CallWith(m.reqs[r].p, Min(Unused), m.reqs[r].id)

DoCont ==
  /\ Partials # {}
  /\ \E r \in {Pick(Partials)}, zdef \in {Pick(1 .. 100)}, d \in {Pick(1 .. Len(BadContSeq))} :
       LET q == m.reqs[r]
           defect == IF zdef <= W("defect") THEN BadContSeq[d] ELSE ""
           f == [t |-> "cont", id |-> q.id, d |-> defect, v |-> 0, more |-> left[r] > 1, r |-> r]
       IN /\ Send(q.p, f)
          /\ left' = [left EXCEPT ![r] = @ - 1]
          /\ UNCHANGED done

DoPing ==
  /\ Ups # {}
  /\ \E p \in {Pick(Ups)}, z \in {Pick(1 .. 3)} :
       LET parts == {r \in Partials : m.reqs[r].p = p}
           id == IF z = 1 /\ parts # {} THEN m.reqs[Min(parts)].id ELSE ToString(500 + n)
       IN Send(p, [t |-> "ping", id |-> id, d |-> "", v |-> 0, more |-> FALSE, r |-> 0])
  /\ UNCHANGED <<left, done>>

\* frames that do not belong where they are: of a type a server does not expect, or fragments of no message
DoStray ==
  /\ Ups # {}
  /\ \E p \in {Pick(Ups)}, z \in {Pick(1 .. 4)}, y \in {Pick({"callres", "callrescont", "cancel", "claim", "error", "initres", "initreq", "pingres"})} :
       LET parts == {r \in 1 .. NR : m.reqs[r].st = "partial" /\ m.reqs[r].p = p}
           answered == {r \in 1 .. NR : m.reqs[r].settled /\ m.reqs[r].p = p
                                           /\ \A x \in WithId(m, p, m.reqs[r].id) : m.reqs[x].st # "partial"}
           id == IF z = 4 /\ parts # {} THEN m.reqs[Min(parts)].id ELSE ToString(700 + n)
           idc == IF z <= 2 /\ answered # {} THEN m.reqs[Min(answered)].id ELSE ToString(700 + n)
       IN IF z >= 3 THEN Send(p, [t |-> "other", ty |-> y, id |-> id, d |-> "", v |-> 0, more |-> FALSE, r |-> 0])
          ELSE Send(p, [t |-> "cont", id |-> idc, d |-> "", v |-> 0, more |-> z = 1, r |-> 0])
  /\ UNCHANGED <<left, done>>

DoGate == /\ Ungated # {}
          /\ \E r \in {Pick(Ungated)} : Do([op |-> "gate", r |-> r], <<[e |-> "gate", r |-> r]>>)
          /\ UNCHANGED <<left, done>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
MapSeq(s, F(_)) == [i \in 1 .. Len(s) |-> F(s[i])]
Answers(mm, p, id) == Cardinality({r \in WithId(mm, p, id) : mm.reqs[r].settled})

DueList(mm) ==
  LET after == Sync(mm, [e |-> "sync"]).m
  IN  MapSeq(SetSeq(DueAns(mm)), LAMBDA r : <<"ans:" \o ToString(mm.reqs[r].p) \o ":" \o mm.reqs[r].id,
                                              Answers(after, mm.reqs[r].p, mm.reqs[r].id)>>)
      \o MapSeq(SetSeq({r \in DueAns(mm) : mm.reqs[r].st = "complete"}), LAMBDA r : <<"hend:" \o ToString(r), 1>>)
      \o MapSeq(SetSeq(DueStart(mm)), LAMBDA r : <<"hstart:" \o ToString(r), 1>>)
      \o MapSeq(SetSeq(DueInit(mm)), LAMBDA p : <<"initres:" \o ToString(p), 1>>)
      \o MapSeq(SetSeq(DueInit(mm)), LAMBDA p : <<"pongs:" \o ToString(p), Len(mm.conns[p].pings)>>)
      \o MapSeq(SetSeq(DueClosed(mm)), LAMBDA p : <<"closed:" \o ToString(p), 1>>)
SyncStep(mm) == [op |-> "sync", due |-> DueList(mm)]
\* In the generated state pings stay outstanding, so that their number is the number of all pings.

DoSync == Do(SyncStep(m), <<[e |-> "sync"]>>) /\ UNCHANGED <<left, done>>

DoEof == /\ Ups # {}
         /\ \E p \in {Pick(Ups)} : Do([op |-> "eof", p |-> p], <<[e |-> "eof", p |-> p]>>)
         /\ UNCHANGED <<left, done>>
DoRst == /\ Ups # {}
         /\ \E p \in {Pick(Ups)} : Do([op |-> "rst", p |-> p], <<[e |-> "rst", p |-> p]>>)
         /\ UNCHANGED <<left, done>>
DoOdd(t) == /\ Ups # {}
            /\ \E p \in {Pick(Ups)} : Send(p, [t |-> t, id |-> "9", d |-> "", v |-> 0, more |-> FALSE, r |-> 0])
            /\ UNCHANGED <<left, done>>
DoResume == LET P == {p \in 1 .. NP : m.conns[p].paused} IN
            /\ P # {}
            /\ \E p \in {Pick(P)} : Do([op |-> "resume", p |-> p], <<[e |-> "resume", p |-> p]>>)
            /\ UNCHANGED <<left, done>>
\* long idle times: whatever is in progress stays so
Ages == Cardinality({i \in 1 .. Len(script) : script[i].op = "age"})
DoAge == Do([op |-> "age"], <<>>) /\ UNCHANGED <<left, done>>
DoYield == Do([op |-> "yield"], <<>>) /\ UNCHANGED <<left, done>>

Act(op) ==
  CASE op = "conn" -> DoConn      [] op = "call" -> DoCall    [] op = "cont" -> DoCont   [] op = "ping" -> DoPing
    [] op = "stray" -> DoStray    [] op = "gate" -> DoGate    [] op = "sync" -> DoSync   [] op = "eof" -> DoEof
    [] op = "rst" -> DoRst        [] op = "wild" -> DoOdd("wild") [] op = "part" -> DoOdd("part")
    [] op = "fatal" -> DoOdd("fatal") [] op = "resume" -> DoResume [] op = "badhs" -> DoBadHs
    [] op = "reuse" -> DoReuse    [] op = "yield" -> DoYield    [] op = "silent" -> DoSilent
    [] op = "hello" -> DoHello    [] op = "age" -> DoAge

Can(op) ==
  CASE op = "hello" -> Silents # {}
    [] op \in {"conn", "badhs", "silent"} -> Fresh # {} /\ (op = "badhs" => Unused # {})
    [] op = "age" -> Ages < W("ages")
    [] op = "call" -> Ups # {} /\ Unused # {}
    [] op = "reuse" -> Unused # {} /\ Reusable # {}
    [] op = "cont" -> Partials # {}
    [] op = "gate" -> Ungated # {}
    [] op = "resume" -> \E p \in 1 .. NP : m.conns[p].paused
    [] op \in {"sync", "yield"} -> TRUE
    [] OTHER -> Ups # {}

\* The end: finish messages, open all gates, resume, sync, end of all streams, sync.
RECURSIVE RunAll(_, _)
RunAll(x, s) == IF s = <<>> THEN x ELSE RunAll(Step(x, Head(s)).m, Tail(s))
Finale ==
  LET gates == SetSeq(Ungated)
      res == SetSeq({p \in 1 .. NP : m.conns[p].paused})
      m1 == RunAll(m, MapSeq(gates, LAMBDA r : [e |-> "gate", r |-> r]) \o MapSeq(res, LAMBDA p : [e |-> "resume", p |-> p]))
      m2 == Step(m1, [e |-> "sync"]).m
      ends == SetSeq({p \in 1 .. NP : m.conns[p].st \in {"open", "up", "bad"} /\ ~m.conns[p].closed /\ m.conns[p].ended \in {"no", "fatal", "wild"}})
      m3 == RunAll(m2, MapSeq(ends, LAMBDA p : [e |-> "eof", p |-> p]))
      z == Pick(1 .. 1000)
      crowd == IF z > W("crowd") THEN <<>> ELSE <<[op |-> "crowd", n |-> Pick({5, 20, 40, 100, 300}), slow |-> FALSE]>>
      y == Pick(1 .. 1000)
      slow == IF y > W("slow") THEN <<>> ELSE <<[op |-> "crowd", n |-> Pick({80, 110, 140}), slow |-> TRUE]>>
      all == script \o (IF Ages < W("ages") THEN <<[op |-> "age"]>> ELSE <<>>) \o crowd \o slow \o MapSeq(gates, LAMBDA r : [op |-> "gate", r |-> r]) \o MapSeq(res, LAMBDA p : [op |-> "resume", p |-> p])
             \o <<SyncStep(m1)>> \o MapSeq(ends, LAMBDA p : [op |-> "eof", p |-> p]) \o <<SyncStep(m3), [op |-> "probe", srv |-> 0]>>
  IN  /\ PrintT(<<"SCRIPT", ToJson([tasks |-> m.tasks, np |-> NP, steps |-> all])>>)
      /\ done' = TRUE /\ UNCHANGED <<m, script, left, n>>

Next ==
  /\ ~done
  /\ IF n >= G.steps THEN Finale
     ELSE IF n = 0 THEN \E t \in {Pick({G.tasks[i] : i \in 1 .. Len(G.tasks)})} :
                          m' = [m EXCEPT !.tasks = t] /\ n' = 1 /\ UNCHANGED <<script, left, done>>
     ELSE IF n = 1 THEN DoConn
     ELSE LET S == {x \in Weighted : Can(x[1])}
          IN  \E x \in {Pick(S)} : Act(x[1])
Spec == Init /\ [][Next]_vars
=============================================================================
