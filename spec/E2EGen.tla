------------------------------- MODULE E2EGen -------------------------------
(* Random scenarios for real clients and servers.  Run with -simulate;     *)
(* every behaviour prints one scenario.                                    *)
EXTENDS E2EObs, Json, IOUtils

G == JsonDeserialize(IOEnv.GEN)   \* nk, nc, ns, nh, steps, tasks: <<..>>, w: weights, storm: % of scenarios which end with one
W(k) == IF k \in DOMAIN G.w THEN G.w[k] ELSE 0
Pick(S) == RandomElement(S)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NK == G.nk

VARIABLES calls, tasks, script, n, done
vars == <<calls, tasks, script, n, done>>

Ops == <<"call", "gated", "burst", "open", "drop", "cut", "cutat", "yield", "sleep", "sync">>
Weighted == UNION {{<<Ops[i], k>> : k \in 1 .. W(Ops[i])} : i \in 1 .. Len(Ops)}

Init == /\ calls = <<>> /\ script = <<>> /\ n = 0 /\ done = FALSE
        /\ tasks = 0

Add(s) == script' = script \o s /\ n' = n + 1 /\ UNCHANGED <<tasks, done>>
\* handler h belongs to server 1 + (h % ns)
New(c, h, open) == [c |-> c, h |-> h, s |-> 1 + (h % G.ns), open |-> open, st |-> "started"]
Op(k, q) == [op |-> "call", k |-> k, c |-> q.c, h |-> q.h, s |-> q.s, open |-> q.open]
DoCall(open) ==
  \E c \in {Pick(1 .. G.nc)}, h \in {Pick(1 .. G.nh)} :
    LET q == New(c, h, open) IN calls' = Append(calls, q) /\ Add(<<Op(Len(calls) + 1, q)>>)
DoBurst ==
  \E x \in {Pick(2 .. 5)}, c \in {Pick(1 .. G.nc)}, z \in {Pick(1 .. 3)} :
    LET qs == [i \in 1 .. x |-> New(IF z = 1 THEN Pick(1 .. G.nc) ELSE c, Pick(1 .. G.nh), Pick(1 .. 4) # 1)]
    IN  \E all \in {qs} : /\ calls' = calls \o all
                          /\ Add([i \in 1 .. x |-> Op(Len(calls) + i, all[i])])
DoOpen == \E k \in {Pick(Shut(calls))} : calls' = [calls EXCEPT ![k].open = TRUE] /\ Add(<<[op |-> "open", k |-> k]>>)
Live == {k \in DOMAIN calls : calls[k].st = "started"}
DoDrop == \E k \in {Pick(Live)} : calls' = [calls EXCEPT ![k].st = "dropped"] /\ Add(<<[op |-> "drop", k |-> k]>>)
DoCut == \E s \in {Pick(1 .. G.ns)} : UNCHANGED calls /\ Add(<<[op |-> "cut", s |-> s]>>)
DoCutAt == \E s \in {Pick(1 .. G.ns)} : UNCHANGED calls /\ Add(<<[op |-> "cutat", s |-> s]>>)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
SyncOp(cs) == [op |-> "sync", due |-> SetSeq(DueSet(cs, tasks))]
DoSync == /\ calls' = [k \in DOMAIN calls |-> IF k \in DueSet(calls, tasks) THEN [calls[k] EXCEPT !.st = "returned"] ELSE calls[k]]
          /\ Add(<<SyncOp(calls)>>)
Act(op) ==
  CASE op = "call" -> DoCall(TRUE) [] op = "gated" -> DoCall(FALSE) [] op = "burst" -> DoBurst [] op = "open" -> DoOpen
    [] op = "drop" -> DoDrop [] op = "cut" -> DoCut [] op = "cutat" -> DoCutAt [] op = "sync" -> DoSync
    [] op \in {"yield", "sleep"} -> UNCHANGED calls /\ Add(<<[op |-> op]>>)
Can(op) ==
  CASE op \in {"call", "gated"} -> Len(calls) < NK [] op = "burst" -> Len(calls) < NK - 4
    [] op = "open" -> Shut(calls) # {} [] op = "drop" -> Live # {} [] op = "cut" -> calls # <<>>
    [] OTHER -> TRUE

\* Many calls of many tasks, some of them dropped.
FinalStorm(i) == IF Pick(1 .. 100) <= G.storm
         THEN <<CASE Pick(1 .. 5) \in {1, 2} -> [op |-> "storm", rounds |-> TRUE, fresh |-> Pick({TRUE, FALSE}), tasks |-> Pick({1, 2, 3, 4, 5}), calls |-> Pick({20, 50, 100}), drop |-> Pick({0, 0, 1, 10}), big |-> 0]
                  [] OTHER ->
                     IF Pick(1 .. 5) = 1      \* one after another, but many
                     THEN [op |-> "storm", rounds |-> FALSE, fresh |-> FALSE, tasks |-> Pick({1, 2}), calls |-> Pick({300, 700, 1100}), drop |-> Pick({0, 0, 10}), big |-> 0]
                     ELSE [op |-> "storm", rounds |-> FALSE, fresh |-> FALSE, tasks |-> Pick({2, 4, 8, 16, 64}), calls |-> Pick({10, 20, 40, 80}), drop |-> Pick({0, 1, 10, 30}), big |-> Pick({0, 1, 5})],
                [op |-> "sync", due |-> <<>>], [op |-> "probe"]>>
         ELSE <<>>

\* The end: all gates open, every handler is called once more by every client.
Finale ==
  LET opens == SetSeq(Shut(calls))
      open == [k \in DOMAIN calls |-> [calls[k] EXCEPT !.open = TRUE]]
      ret == [k \in DOMAIN calls |-> IF open[k].st = "started" THEN [open[k] EXCEPT !.st = "returned"] ELSE open[k]]
      last == [i \in 1 .. G.nh |-> New(1 + (i % G.nc), i, TRUE)]
      all == script \o [i \in 1 .. Len(opens) |-> [op |-> "open", k |-> opens[i]]] \o <<SyncOp(open), [op |-> "probe"]>>
             \o [i \in 1 .. G.nh |-> Op(Len(calls) + i, last[i])] \o <<SyncOp(ret \o last), [op |-> "probe"]>> \o FinalStorm(n)
  IN  /\ PrintT(<<"SCRIPT", ToJson([tasks |-> tasks, nc |-> G.nc, ns |-> G.ns, nh |-> G.nh, nk |-> Len(calls) + G.nh, steps |-> all])>>)
      /\ done' = TRUE /\ UNCHANGED <<calls, tasks, script, n>>

Next ==
  /\ ~done
  /\ IF n = 0 THEN \E i \in {Pick(1 .. Len(G.tasks))} : tasks' = G.tasks[i] /\ n' = 1 /\ UNCHANGED <<calls, script, done>>
     ELSE IF n >= G.steps THEN Finale
     ELSE LET S == {x \in Weighted : Can(x[1])} IN \E x \in {Pick(S)} : Act(x[1])
Spec == Init /\ [][Next]_vars
=============================================================================
