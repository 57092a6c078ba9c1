------------------------------- MODULE E2EImpl ------------------------------
(***************************************************************************)
(* An implementation-shaped model of calls from end to end: clients with   *)
(* pools of connections, what is on the wires, the requests of a server    *)
(* with its permits per connection and the locks of its handlers, and a    *)
(* relay in between which breaks connections.  Client and server are       *)
(* coarser than in CliImpl and SrvImpl; what matters here is what they do  *)
(* together.  Its events are judged by E2EObs.                             *)
(***************************************************************************)
EXTENDS E2EObs

CONSTANTS NK,        \* calls
          NC, NS, NH,
          Tasks,     \* requests of a connection that are handled at the same time
          Max,       \* connections of a client to a server
          Buf,       \* size of the frame channels
          Who,       \* call -> [c |-> client, h |-> handler, out |-> outcome, nf |-> frames of the request, rf |-> frames of the response]
          Cuts, Drops,
          \* defects
          Retry,        \* a call whose connection is lost is sent again
          PartialOk,    \* a response is complete when the connection ends
          Oldest,       \* a response belongs to the oldest call of its connection
          PermitFirst,  \* a request takes its permit with its first frame
          OneLock,      \* the handlers of a server share a lock
          NoMutex,      \* a handler is not locked
          NoNotice,     \* calls do not notice the loss of their connection
          RunPartial    \* a request runs although its connection ended before its last frame

Ks == 1 .. NK
Srv(h) == 1 + (h % NS)
Defs(opens) == [k \in Ks |-> [c |-> Who[k].c, s |-> Srv(Who[k].h), h |-> Who[k].h, out |-> Who[k].out, open |-> opens[k]]]

VARIABLES m, bad,
          cs,      \* call -> new, conn, send, recv, done
          cc,      \* call -> its connection
          cf,      \* call -> frames sent
          got,     \* call -> frames of the response received: whose
          cn,      \* connection -> [c, s, up: not broken, cl: the client has noticed, sv: the server has noticed]
          upq,     \* connection -> frames to the server: calls; the last frame of a request is the nf-th
          down,    \* connection -> frames to the client: [k: whose, last]
          rq,      \* call -> state of its request: none, part, full, lock, run, answer, done
          rf,      \* call -> frames of the request received, of the response sent
          use,     \* connection -> requests which hold a permit
          hq,      \* handler -> who waits for, or has (the first), its lock
          left, armed
vars == <<m, bad, cs, cc, cf, got, cn, upq, down, rq, rf, use, hq, left, armed>>

RECURSIVE Obs(_, _, _)
Obs(mm, b, es) == IF es = <<>> THEN [m |-> mm, bad |-> b]
                  ELSE LET r == Step(mm, Head(es)) IN Obs(r.m, b \cup r.bad, Tail(es))
Emit(es) == LET o == Obs(m, bad, es) IN m' = o.m /\ bad' = o.bad
Quiet == UNCHANGED <<m, bad>>

Init == /\ \E opens \in [Ks -> BOOLEAN] : m = InitM(Tasks, NS, NH, Defs(opens))
        /\ bad = {}
        /\ cs = [k \in Ks |-> "new"] /\ cc = [k \in Ks |-> 0] /\ cf = [k \in Ks |-> 0] /\ got = [k \in Ks |-> <<>>]
        /\ cn = <<>> /\ upq = <<>> /\ down = <<>>
        /\ rq = [k \in Ks |-> "none"] /\ rf = [k \in Ks |-> 0] /\ use = <<>>
        /\ hq = [h \in 1 .. NH |-> <<>>]
        /\ left = [cut |-> Cuts, drop |-> Drops] /\ armed = {}

Ns == 1 .. Len(cn)
Server == <<rq, rf, use, hq>>
Client == <<cs, cc, cf, got>>
Env == <<left, armed>>

------------------------------------------------------------------------------
(* Users and faults *)

Call(k) == /\ cs[k] = "new" /\ (k > 1 => cs[k - 1] # "new")
           /\ cs' = [cs EXCEPT ![k] = "conn"]
           /\ Emit(<<[e |-> "call", k |-> k]>>)
           /\ UNCHANGED <<cc, cf, got, cn, upq, down, Server, Env>>
Open(k) == /\ ~m.calls[k].open /\ cs[k] # "new"
           /\ Emit(<<[e |-> "open", k |-> k]>>)
           /\ UNCHANGED <<Client, cn, upq, down, Server, Env>>
Drop(k) == /\ cs[k] \in {"conn", "send", "recv"} /\ left.drop > 0
           /\ cs' = [cs EXCEPT ![k] = "done"] /\ left' = [left EXCEPT !.drop = @ - 1]
           /\ Emit(<<[e |-> "drop", k |-> k]>>)
           /\ UNCHANGED <<cc, cf, got, cn, upq, down, Server, armed>>

\* What is on the wire is lost, too.
Broken(s) == /\ cn' = [n \in Ns |-> IF cn[n].s = s THEN [cn[n] EXCEPT !.up = FALSE] ELSE cn[n]]
             /\ upq' = [n \in Ns |-> IF cn[n].s = s THEN <<>> ELSE upq[n]]
             /\ down' = [n \in Ns |-> IF cn[n].s = s THEN <<>> ELSE down[n]]
Cut_(s) == /\ left.cut > 0 /\ left' = [left EXCEPT !.cut = @ - 1]
           /\ Emit(<<[e |-> "cut", s |-> s, now |-> TRUE]>>) /\ Broken(s)
           /\ UNCHANGED <<Client, Server, armed>>
\* After some bytes.
CutAt(s) == /\ left.cut > 0 /\ left' = [left EXCEPT !.cut = @ - 1]
            /\ Emit(<<[e |-> "cut", s |-> s, now |-> FALSE]>>) /\ armed' = armed \cup {s}
            /\ UNCHANGED <<Client, cn, upq, down, Server>>
CutNow(s) == /\ s \in armed /\ (\E n \in Ns : cn[n].s = s /\ cn[n].up) /\ armed' = armed \ {s} /\ Broken(s) /\ Quiet
             /\ UNCHANGED <<Client, Server, left>>

------------------------------------------------------------------------------
(* Client *)

Mine(k) == {n \in Ns : cn[n].c = Who[k].c /\ cn[n].s = Srv(Who[k].h) /\ ~cn[n].cl}
Return(k, es) == /\ cs' = [cs EXCEPT ![k] = "done"] /\ Emit(es)
Err(k) == <<[e |-> "ret", k |-> k, out |-> "err", m |-> <<>>]>>

CheckOut(k) ==
  /\ cs[k] = "conn"
  /\ \/ \E n \in Mine(k) : /\ cc' = [cc EXCEPT ![k] = n] /\ UNCHANGED <<cn, upq, down, use>>
     \/ /\ Cardinality(Mine(k)) < Max
        /\ cn' = Append(cn, [c |-> Who[k].c, s |-> Srv(Who[k].h), up |-> TRUE, cl |-> FALSE, sv |-> FALSE])
        /\ upq' = Append(upq, <<>>) /\ down' = Append(down, <<>>) /\ use' = Append(use, {})
        /\ cc' = [cc EXCEPT ![k] = Len(cn) + 1]
  /\ cs' = [cs EXCEPT ![k] = "send"] /\ cf' = [cf EXCEPT ![k] = 0] /\ got' = [got EXCEPT ![k] = <<>>]
  /\ Quiet /\ UNCHANGED <<rq, rf, hq, Env>>

SendFrame(k) ==
  LET n == cc[k] IN
  /\ cs[k] = "send" /\ ~cn[n].cl /\ Len(upq[n]) < Buf
  /\ cf' = [cf EXCEPT ![k] = @ + 1]
  /\ cs' = [cs EXCEPT ![k] = IF cf[k] + 1 = Who[k].nf THEN "recv" ELSE "send"]
  \* what is written to a broken connection is lost
  /\ upq' = IF cn[n].up THEN [upq EXCEPT ![n] = Append(@, k)] ELSE upq
  /\ Quiet /\ UNCHANGED <<cc, got, cn, down, Server, Env>>

\* A frame for a call which is gone is thrown away.
Owner(n, k) == IF ~Oldest THEN k
               ELSE LET S == {x \in Ks : cc[x] = n /\ cs[x] = "recv"} IN IF S = {} THEN k ELSE CHOOSE x \in S : \A y \in S : x <= y
Receive(n) ==
  /\ down[n] # <<>> /\ ~cn[n].cl
  /\ LET f == Head(down[n])
         k == Owner(n, f.k)
     IN  IF cs[k] # "recv" \/ cc[k] # n THEN UNCHANGED got
         ELSE got' = [got EXCEPT ![k] = Append(@, f)]
  /\ down' = [down EXCEPT ![n] = Tail(@)]
  /\ Quiet /\ UNCHANGED <<cs, cc, cf, cn, upq, Server, Env>>

Complete(k) == got[k] # <<>> /\ got[k][Len(got[k])].last
Whole(k) == IF \A i \in 1 .. Len(got[k]) : got[k][i].k = got[k][1].k THEN <<got[k][1].k>> ELSE <<>>
Answer(k) ==
  /\ cs[k] = "recv" /\ Complete(k)
  /\ LET x == got[k][1].k
     IN  Return(k, <<[e |-> "ret", k |-> k, out |-> IF Who[x].out = "gen" THEN "err" ELSE Who[x].out, m |-> Whole(k)]>>)
  /\ UNCHANGED <<cc, cf, got, cn, upq, down, Server, Env>>

\* The reader of the connection finds its end.
NoticeC(n) == /\ ~cn[n].up /\ down[n] = <<>> /\ ~cn[n].cl
              /\ cn' = [cn EXCEPT ![n].cl = TRUE] /\ Quiet
              /\ UNCHANGED <<Client, upq, down, Server, Env>>
Fail(k) ==
  /\ cs[k] \in {"send", "recv"} /\ cn[cc[k]].cl /\ ~Complete(k) /\ ~NoNotice
  /\ IF Retry /\ cs[k] = "recv" THEN cs' = [cs EXCEPT ![k] = "conn"] /\ Quiet
     ELSE IF PartialOk /\ got[k] # <<>> THEN Return(k, <<[e |-> "ret", k |-> k, out |-> "ok", m |-> <<>>]>>)
     ELSE Return(k, Err(k))
  /\ UNCHANGED <<cc, cf, got, cn, upq, down, Server, Env>>

------------------------------------------------------------------------------
(* Server.  rf counts frames received until the request is complete, then frames of its answer sent. *)

Lk(k) == IF OneLock THEN 1 ELSE Who[k].h
\* With a retry a request is there twice; the second one starts over.
Read(n) ==
  /\ upq[n] # <<>> /\ ~cn[n].sv
  /\ LET k == Head(upq[n])
         first == rq[k] # "part"
     IN  /\ (first /\ PermitFirst /\ Tasks > 0) => Cardinality(use[n]) < Tasks
         /\ rf' = [rf EXCEPT ![k] = IF first THEN 1 ELSE @ + 1]
         /\ rq' = [rq EXCEPT ![k] = IF rf'[k] = Who[k].nf THEN (IF PermitFirst THEN "lock" ELSE "full") ELSE "part"]
         /\ use' = IF first /\ PermitFirst THEN [use EXCEPT ![n] = @ \cup {k}] ELSE use
         /\ hq' = IF rq'[k] = "lock" THEN [hq EXCEPT ![Lk(k)] = Append(@, k)] ELSE hq
  /\ upq' = [upq EXCEPT ![n] = Tail(@)]
  /\ Quiet /\ UNCHANGED <<Client, cn, down, Env>>
Permit(k) ==
  LET n == cc[k] IN
  /\ rq[k] = "full" /\ (Tasks > 0 => Cardinality(use[n]) < Tasks)
  /\ use' = [use EXCEPT ![n] = @ \cup {k}]
  /\ rq' = [rq EXCEPT ![k] = "lock"] /\ hq' = [hq EXCEPT ![Lk(k)] = Append(@, k)]
  /\ Quiet /\ UNCHANGED <<Client, cn, upq, down, rf, Env>>
Start(k) ==
  /\ rq[k] = "lock" /\ (NoMutex \/ Head(hq[Lk(k)]) = k)
  /\ rq' = [rq EXCEPT ![k] = "run"]
  /\ Emit(<<[e |-> "hstart", r |-> IF rf[k] = Who[k].nf THEN k ELSE 0, h |-> Who[k].h]>>)
  /\ UNCHANGED <<Client, cn, upq, down, rf, use, hq, Env>>
Ends(k) ==
  /\ rq[k] = "run" /\ m.calls[k].open
  /\ rq' = [rq EXCEPT ![k] = "answer"] /\ rf' = [rf EXCEPT ![k] = 0]
  /\ hq' = [hq EXCEPT ![Lk(k)] = SelectSeq(@, LAMBDA j : j # k)]
  /\ Emit(<<[e |-> "hend", r |-> k, h |-> Who[k].h]>>)
  /\ UNCHANGED <<Client, cn, upq, down, use, Env>>
\* Sends a frame of the answer; the permit is given back after the last one.  Once the connection is gone there is nothing to wait for.
SendBack(k) ==
  LET n == cc[k]
      gone == cn[n].sv
      end == gone \/ rf[k] + 1 = Who[k].rf
  IN
  /\ rq[k] = "answer" /\ (gone \/ Len(down[n]) < Buf)
  /\ rf' = [rf EXCEPT ![k] = @ + 1]
  /\ rq' = [rq EXCEPT ![k] = IF end THEN "done" ELSE "answer"]
  /\ use' = IF end THEN [use EXCEPT ![n] = @ \ {k}] ELSE use
  /\ down' = IF cn[n].up THEN [down EXCEPT ![n] = Append(@, [k |-> k, last |-> end])] ELSE down
  /\ Quiet /\ UNCHANGED <<Client, cn, upq, hq, Env>>
\* Requests which are not complete end with the connection.
NoticeS(n) ==
  /\ ~cn[n].up /\ upq[n] = <<>> /\ ~cn[n].sv
  /\ cn' = [cn EXCEPT ![n].sv = TRUE]
  /\ LET S == {k \in Ks : cc[k] = n /\ rq[k] = "part"}
     IN  rq' = [k \in Ks |-> IF k \in S THEN (IF RunPartial THEN "full" ELSE "done") ELSE rq[k]]
  /\ Quiet /\ UNCHANGED <<Client, upq, down, rf, use, hq, Env>>

------------------------------------------------------------------------------
Code == \/ \E n \in Ns : Receive(n) \/ NoticeC(n) \/ Read(n) \/ NoticeS(n)
        \/ \E k \in Ks : CheckOut(k) \/ SendFrame(k) \/ Answer(k) \/ Fail(k) \/ Permit(k) \/ Start(k) \/ Ends(k) \/ SendBack(k)
        \/ \E s \in 1 .. NS : CutNow(s)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Settled == /\ ~ENABLED Code
           /\ Emit(<<[e |-> "sync", due |-> SetSeq(DueSet(m.calls, Tasks))]>>)
           /\ UNCHANGED <<Client, cn, upq, down, Server, Env>>
Next == \/ Code \/ Settled
        \/ \E k \in Ks : Call(k) \/ Open(k) \/ Drop(k)
        \/ \E s \in 1 .. NS : Cut_(s) \/ CutAt(s)
Spec == Init /\ [][Next]_vars

RulesKept == bad = {}
\* Permits are not lost, locks are not kept by requests that ended.
Permits == ~ENABLED Code => \A n \in Ns : \A k \in use[n] : rq[k] \in {"part", "lock", "run"}
Locks == \A h \in 1 .. NH : \A i \in 1 .. Len(hq[h]) : rq[hq[h][i]] \in {"lock", "run"}
=============================================================================
