------------------------------- MODULE LifeObs ------------------------------
(***************************************************************************)
(* The life cycle of servers as seen from outside: channels are created,   *)
(* started, stopped and dropped in any order; peers try to connect and to  *)
(* have a request served at any time.                                      *)
(*                                                                         *)
(* After a stop it takes a moment until the address is released, and after *)
(* a start until connections are accepted: only once that was waited for   *)
(* (settle) a server has to be up or down.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitM(nch, na) ==
  [ch   |-> [n \in 1 .. nch |-> [st |-> "none", a |-> 0]],       \* none, stopped, running, gone
   up   |-> [a \in 1 .. na |-> [s |-> "down", recent |-> {}]],   \* s: up, down, any; recent: servers running since it settled
   atts |-> <<>>,      \* attempts: a, must: up, down, any; may: who may serve it; kind; h; keeps
   rcalls |-> <<>>]    \* calls of a client: a, open

Res(m, bad) == [m |-> m, bad |-> bad]
When(c, rule) == IF c THEN {rule} ELSE {}
Running(m, a) == {n \in DOMAIN m.ch : m.ch[n].st = "running" /\ m.ch[n].a = a}

\* The server of channel n starts or stops.
Change(m, n, st) ==
  LET a == m.ch[n].a
  IN  [m EXCEPT !.ch[n].st = st,
                !.up[a] = [s |-> "any", recent |-> @.recent \cup {n}],
                !.atts = [i \in DOMAIN m.atts |-> IF m.atts[i].a # a THEN m.atts[i]
                            ELSE [m.atts[i] EXCEPT !.must = "any", !.may = @ \cup {n}, !.live = @ /\ m.atts[i].h # n]]]

Start(m, e) ==
  CASE m.ch[e.ch].st = "running" -> Res(m, When(e.ok, "start_twice"))
    [] m.ch[e.ch].st = "stopped" -> Res(Change(m, e.ch, "running"), When(~e.ok, "start_refused"))
    [] OTHER -> Res(m, {"bad_scenario"})
Stop(m, e) ==
  Res(IF m.ch[e.ch].st = "running" THEN Change(m, e.ch, "stopped") ELSE m, When(~e.ok, "stop_result"))
Gone(m, e) ==
  IF m.ch[e.ch].st = "running" THEN Res(Change(m, e.ch, "gone"), {}) ELSE Res([m EXCEPT !.ch[e.ch].st = "gone"], {})

\* Several threads start the server, or stop it, at once.
Racing(m, e) ==
  LET was == m.ch[e.ch].st
  IN  Res(IF e.kind = "start" /\ was = "stopped" THEN Change(m, e.ch, "running")
          ELSE IF e.kind = "stop" /\ was = "running" THEN Change(m, e.ch, "stopped") ELSE m,
          When(was \notin {"running", "stopped"}, "bad_scenario")
          \cup When(e.kind = "start" /\ e.oks # (IF was = "stopped" THEN 1 ELSE 0), IF was = "running" \/ e.oks > 1 THEN "start_twice" ELSE "start_refused")
          \cup When(e.kind = "stop" /\ e.oks # e.n, "stop_result"))

Att(m, e) ==
  Res([m EXCEPT !.atts = Append(@, [a |-> e.a, must |-> m.up[e.a].s, may |-> m.up[e.a].recent, kind |-> e.kind, h |-> 0, live |-> TRUE])],
      When(e.i # Len(m.atts) + 1, "bad_scenario"))

End(m, e) ==
  LET q == m.atts[e.i]
      served == e.res = "served"
  IN  Res([m EXCEPT !.atts[e.i].h = IF served THEN e.h ELSE 0, !.atts[e.i].live = q.must = "up" /\ served],
          When(e.res = "stuck", "attempt_stuck")
          \cup When(q.must = "up" /\ (IF q.kind = "boom" THEN e.res = "refused" ELSE ~served), "not_served")
          \cup When(q.must = "down" /\ e.res # "refused", "served_stopped")
          \cup When(served /\ e.h \notin q.may, "served_by_other"))

\* Another request over a connection which was kept. It is served as long as the server runs.
Held(m, e) == Res(m, {})
Hend(m, e) ==
  LET q == m.atts[e.i]
  IN  Res(m, When(q.live /\ e.res # "served", "held_lost") \cup When(e.res = "served" /\ e.h # q.h, "served_by_other") \cup When(e.res = "stuck", "attempt_stuck"))

Settle(m, e) ==
  Res([m EXCEPT !.up[e.a] = [s |-> e.want, recent |-> Running(m, e.a)]],
      When((e.want = "up") # (Running(m, e.a) # {}), "bad_scenario")
      \cup When(~e.done /\ e.want = "up", "due_served") \cup When(~e.done /\ e.want = "down", "due_released"))

Rcall(m, e) == Res([m EXCEPT !.rcalls = Append(@, [a |-> e.a, open |-> TRUE])], When(e.k # Len(m.rcalls) + 1, "bad_scenario"))
Rret(m, e) == Res([m EXCEPT !.rcalls[e.k].open = FALSE], When(~e.ok, "call_failed"))
Rsync(m, e) == Res(m, When(m.up[e.a].s = "up" /\ \E k \in DOMAIN m.rcalls : m.rcalls[k].a = e.a /\ m.rcalls[k].open, "due_call"))

Step(m, e) ==
  CASE e.e = "new"    -> Res([m EXCEPT !.ch[e.ch] = [st |-> "stopped", a |-> e.a]], When(m.ch[e.ch].st # "none", "bad_scenario"))
    [] e.e = "start"  -> Start(m, e)
    [] e.e = "stop"   -> Stop(m, e)
    [] e.e = "gone"   -> Gone(m, e)
    [] e.e = "racing" -> Racing(m, e)
    [] e.e = "att"    -> Att(m, e)
    [] e.e = "end"    -> End(m, e)
    [] e.e = "hend"   -> Hend(m, e)
    [] e.e = "settle" -> Settle(m, e)
    [] e.e = "rcall"  -> Rcall(m, e)
    [] e.e = "rret"   -> Rret(m, e)
    [] e.e = "rsync"  -> Rsync(m, e)
    [] e.e = "panic"  -> Res(m, {"panic"})
    [] e.e = "hang"   -> Res(m, {"hang"})
    [] e.e = "setup"  -> Res(m, {"setup"})      \* a handler could not be registered, or a server not be started, before anything else
    [] OTHER -> Res(m, {})
=============================================================================
