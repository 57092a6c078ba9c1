------------------------------ MODULE LifeImpl ------------------------------
(***************************************************************************)
(* An implementation-shaped model of the life of servers: TChannel's       *)
(* start_server, shutdown_server and Drop (src/channel.rs) and Server::run *)
(* (src/server.rs).  A start spawns a task: it waits for the lock held by  *)
(* an earlier task of the same channel, binds the address, listens and     *)
(* accepts.  A stop aborts the task, which ends, and releases address and  *)
(* lock, some time later.  Its events are judged by LifeObs.               *)
(***************************************************************************)
EXTENDS LifeObs

CONSTANTS NCh, NA, On(_), Budget, Fails,
          \* defects
          NoLock,      \* a task binds its address at once ("a server started again right after a stop ...")
          AcceptEnds,  \* a failure to accept ends the task ("a server keeps accepting connections after a failure ...")
          NoDrop,      \* a channel which is dropped does not stop its server
          NoCheck,     \* a second start is not refused
          KeepHandle   \* a stop forgets to clear the handle

Chs == 1 .. NCh
Addrs == 1 .. NA

VARIABLES m, bad,
          handle,  \* channel -> its task, or 0
          tasks,   \* [ch, st: lock, bind, listen, dead, abort]
          pend,    \* attempts not accepted yet
          left     \* budgets: ops of the environment, failures to accept
vars == <<m, bad, handle, tasks, pend, left>>

RECURSIVE Obs(_, _, _)
Obs(mm, b, es) == IF es = <<>> THEN [m |-> mm, bad |-> b]
                  ELSE LET r == Step(mm, Head(es)) IN Obs(r.m, b \cup r.bad, Tail(es))
Emit(es) == LET o == Obs(m, bad, es) IN m' = o.m /\ bad' = o.bad
Quiet == UNCHANGED <<m, bad>>
RECURSIVE News(_)
News(k) == IF k = 0 THEN <<>> ELSE Append(News(k - 1), [e |-> "new", ch |-> k, a |-> On(k)])

Init == /\ m = Obs(InitM(NCh, NA), {}, News(NCh)).m /\ bad = {}
        /\ handle = [c \in Chs |-> 0] /\ tasks = <<>> /\ pend = {} /\ left = [ops |-> Budget, fail |-> Fails]

Ts == 1 .. Len(tasks)
Addr(t) == On(tasks[t].ch)
Bound(a) == {t \in Ts : tasks[t].st = "listen" /\ Addr(t) = a}
\* The lock of a channel is fair.
Holds(t) == tasks[t].st \in {"bind", "listen"}
MayLock(t) == NoLock \/ \A u \in Ts : tasks[u].ch = tasks[t].ch /\ u # t => (~Holds(u) /\ (tasks[u].st = "lock" => u > t))

------------------------------------------------------------------------------
Spend == left.ops > 0 /\ left' = [left EXCEPT !.ops = @ - 1]
Free(c) == LET a == On(c) IN m.up[a].recent \cup Running(m, a) \subseteq {c}

EnvStart(c) ==
  /\ Spend /\ m.ch[c].st \in {"running", "stopped"} /\ (m.ch[c].st = "stopped" => Free(c))
  /\ LET ok == handle[c] = 0 \/ NoCheck IN
     /\ IF ok THEN tasks' = Append(tasks, [ch |-> c, st |-> "lock", abort |-> FALSE]) /\ handle' = [handle EXCEPT ![c] = Len(tasks) + 1]
        ELSE UNCHANGED <<tasks, handle>>
     /\ Emit(<<[e |-> "start", ch |-> c, ok |-> ok]>>)
  /\ UNCHANGED pend
Abort(c) == IF handle[c] = 0 THEN UNCHANGED <<tasks, handle>>
            ELSE tasks' = [tasks EXCEPT ![handle[c]].abort = TRUE] /\ handle' = IF KeepHandle THEN handle ELSE [handle EXCEPT ![c] = 0]
EnvStop(c) ==
  /\ Spend /\ m.ch[c].st \in {"running", "stopped"}
  /\ Abort(c) /\ Emit(<<[e |-> "stop", ch |-> c, ok |-> TRUE]>>) /\ UNCHANGED pend
EnvDrop(c) ==
  /\ Spend /\ m.ch[c].st \in {"running", "stopped"}
  /\ IF NoDrop THEN UNCHANGED <<tasks, handle>> ELSE Abort(c)
  /\ Emit(<<[e |-> "gone", ch |-> c]>>) /\ UNCHANGED pend

EnvAtt(a) ==
  LET i == Len(m.atts) + 1 IN
  /\ Spend
  /\ IF Bound(a) = {} THEN Emit(<<[e |-> "att", i |-> i, a |-> a, kind |-> "plain"], [e |-> "end", i |-> i, res |-> "refused", h |-> 0]>>) /\ UNCHANGED pend
     ELSE Emit(<<[e |-> "att", i |-> i, a |-> a, kind |-> "plain"]>>) /\ pend' = pend \cup {i}
  /\ UNCHANGED <<handle, tasks>>

------------------------------------------------------------------------------
\* The runtime drops an aborted task, when it is at a place where it waits.
RECURSIVE Refuse(_)
Refuse(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : TRUE IN Append(Refuse(S \ {i}), [e |-> "end", i |-> i, res |-> "closed", h |-> 0])
Close(t) == LET S == {i \in pend : tasks[t].st = "listen" /\ m.atts[i].a = Addr(t)} IN
            /\ tasks' = [tasks EXCEPT ![t].st = "dead"]
            /\ pend' = pend \ S /\ Emit(Refuse(S)) /\ UNCHANGED handle
Die(t) == tasks[t].abort /\ tasks[t].st # "dead" /\ Close(t) /\ UNCHANGED left
Lock(t) == tasks[t].st = "lock" /\ MayLock(t) /\ tasks' = [tasks EXCEPT ![t].st = "bind"] /\ Quiet /\ UNCHANGED <<handle, pend, left>>
Bind(t) == /\ tasks[t].st = "bind"
           /\ tasks' = [tasks EXCEPT ![t].st = IF Bound(Addr(t)) = {} THEN "listen" ELSE "dead"]
           /\ Quiet /\ UNCHANGED <<handle, pend, left>>
Accept(t) == \E i \in pend :
  /\ tasks[t].st = "listen" /\ m.atts[i].a = Addr(t)
  /\ pend' = pend \ {i} /\ Emit(<<[e |-> "end", i |-> i, res |-> "served", h |-> tasks[t].ch]>>)
  /\ UNCHANGED <<handle, tasks, left>>
Fail(t) == /\ tasks[t].st = "listen" /\ left.fail > 0 /\ left' = [left EXCEPT !.fail = @ - 1]
           /\ IF AcceptEnds THEN Close(t) ELSE Quiet /\ UNCHANGED <<handle, tasks, pend>>

Server == \E t \in Ts : Die(t) \/ Lock(t) \/ Bind(t) \/ Accept(t)
Settled(a) == /\ ~ENABLED Server
             /\ LET want == IF Running(m, a) # {} THEN "up" ELSE "down" IN
                Emit(<<[e |-> "settle", a |-> a, want |-> want, done |-> (want = "up") = (Bound(a) # {})]>>)
             /\ UNCHANGED <<handle, tasks, pend, left>>
Next == \/ Server
        \/ \E t \in Ts : Fail(t)
        \/ \E c \in Chs : EnvStart(c) \/ EnvStop(c) \/ EnvDrop(c)
        \/ \E a \in Addrs : EnvAtt(a) \/ Settled(a)
Spec == Init /\ [][Next]_vars

RulesKept == bad = {}
OneListener == \A a \in Addrs : Cardinality(Bound(a)) <= 1
Owned == \A c \in Chs : handle[c] # 0 => ~tasks[handle[c]].abort
=============================================================================
