------------------------------- MODULE E2EObs -------------------------------
(***************************************************************************)
(* Real clients calling real servers, possibly through a relay that cuts   *)
(* the stream into other pieces or breaks connections.  What callers and   *)
(* handlers may observe, in any interleaving.  Same structure as SrvObs.   *)
(*                                                                         *)
(* Events of the environment: call, open (the gate of a request: its       *)
(* handler may end), drop, cut (all connections to a server are broken),   *)
(* sync (the calls listed are due and have been waited for).               *)
(* Observed: hstart, hend, hdrop (of a handler), ret, storm, probe, panic, hang.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* d: [c: client, s: server, h: handler, out: kind of outcome, open: gate open from the start]
NewCall(d) == [c |-> d.c, s |-> d.s, h |-> d.h, out |-> d.out, open |-> d.open,
               st |-> "new",      \* new, started, returned, dropped
               hst |-> "none",    \* none, running, ended, lost
               hit |-> FALSE]     \* its connection was broken

InitM(tasks, ns, nh, defs) ==
  [tasks |-> tasks, calls |-> [k \in 1 .. Len(defs) |-> NewCall(defs[k])],
   run |-> [h \in 1 .. nh |-> 0],       \* the request a handler is working on
   cut |-> [s \in 1 .. ns |-> FALSE]]   \* was there a cut

Calls(m) == 1 .. Len(m.calls)
Res(m, bad) == [m |-> m, bad |-> bad]
When(c, rule) == IF c THEN {rule} ELSE {}
Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x

------------------------------------------------------------------------------
(* Which calls have to return although the gates of some requests are closed. *)
(* Used by the generator, too.                                                *)

\* Requests which cannot end: their gate is closed, or that of another one for the same handler.
Shut(calls) == {k \in DOMAIN calls : calls[k].st # "new" /\ ~calls[k].open}
Stuck(calls) == {k \in DOMAIN calls : calls[k].st # "new" /\ \E x \in Shut(calls) : calls[x].h = calls[k].h}
\* A connection of client c to server s may be occupied by them.
Full(calls, tasks, s, c) == tasks > 0 /\ Cardinality({k \in Stuck(calls) : calls[k].s = s /\ calls[k].c = c}) >= tasks
DueSet(calls, tasks) ==
  {k \in DOMAIN calls : calls[k].st = "started" /\ k \notin Stuck(calls) /\ ~Full(calls, tasks, calls[k].s, calls[k].c)}

------------------------------------------------------------------------------

Hstart(m, e) ==
  LET q == m.calls[e.r]
  IN  IF e.r = 0 THEN Res(m, {"handler_content"})
      ELSE Res([m EXCEPT !.calls[e.r].hst = "running", !.run[e.h] = e.r],
               When(q.st = "new", "handler_early") \cup When(q.hst # "none", "handler_twice")
               \cup When(q.h # e.h, "handler_wrong") \cup When(m.run[e.h] # 0, "handler_overlap"))

Hend(m, e) == Res([m EXCEPT !.calls[e.r].hst = "ended", !.run[e.h] = 0], {})
Hdrop(m, e) == Res([m EXCEPT !.calls[e.r].hst = "lost", !.run[e.h] = 0], When(~m.cut[m.calls[e.r].s], "handler_dropped"))

Ret(m, e) ==
  LET q == m.calls[e.k]
      m1 == [m EXCEPT !.calls[e.k].st = "returned"]
  IN  IF e.out = "err"
      THEN Res(m1, IF m.cut[q.s] THEN {}
                   ELSE When(q.out \notin {"gen", "int"}, "ret_error") \cup When(q.out \in {"gen", "int"} /\ q.hst # "ended", "ret_early"))
      ELSE Res(m1, When(q.hst # "ended", "ret_false") \cup When(q.out # e.out, "ret_kind")
                   \cup When(q.out = e.out /\ ~Has(e.m, e.k), "ret_content"))

Cut(m, e) ==
  Res([m EXCEPT !.cut[e.s] = TRUE,
                !.calls = [k \in Calls(m) |-> IF e.now /\ m.calls[k].s = e.s /\ m.calls[k].st = "started" /\ m.calls[k].hst # "none"
                                              THEN [m.calls[k] EXCEPT !.hit = TRUE] ELSE m.calls[k]]], {})

Sync(m, e) ==
  LET due == DueSet(m.calls, m.tasks)
      want == {e.due[i] : i \in 1 .. Len(e.due)}
      late == {k \in want : m.calls[k].st = "started"}
  IN  Res(m, When(\E k \in late : m.calls[k].hit, "due_fail")
             \cup When(\E k \in late : ~m.calls[k].hit /\ m.calls[k].hst \in {"none", "running"}, "due_start")
             \cup When(\E k \in late : ~m.calls[k].hit /\ m.calls[k].hst \in {"ended", "lost"}, "due_return")
             \cup When(\E k \in late : ~m.calls[k].hit /\ k \notin due, "bad_scenario"))

Outstanding(m) == {k \in Calls(m) : m.calls[k].st = "started"}

\* Many calls at the same time.  Their number in each class of what callers may not observe.
\* Calls fail if connections are broken, and only then.
Storm(m, e) ==
  LET cut == \E s \in DOMAIN m.cut : m.cut[s]
  IN  Res(m, When(e.content > 0, "ret_content") \cup When(e.kind > 0, "ret_kind") \cup When(e.err > 0 /\ ~cut, "ret_early")
             \cup When(e.stuck > 0, "due_return") \cup When(e.twice > 0, "handler_twice") \cup When(e.overlap > 0, "handler_overlap"))

Step(m, e) ==
  CASE e.e = "call"   -> Res([m EXCEPT !.calls[e.k].st = "started"], {})
    [] e.e = "drop"   -> Res([m EXCEPT !.calls[e.k].st = "dropped"], {})
    [] e.e = "open"   -> Res([m EXCEPT !.calls[e.k].open = TRUE], {})
    [] e.e = "cut"    -> Cut(m, e)
    [] e.e = "hstart" -> Hstart(m, e)
    [] e.e = "hend"   -> Hend(m, e)
    [] e.e = "hdrop"  -> Hdrop(m, e)
    [] e.e = "ret"    -> Ret(m, e)
    [] e.e = "sync"   -> Sync(m, e)
    [] e.e = "storm"  -> Storm(m, e)
    [] e.e = "probe"  -> Res(m, When(e.client > Cardinality(Outstanding(m)), "leak_ids"))
    [] e.e = "panic"  -> Res(m, {"panic"})
    [] e.e = "hang"   -> Res(m, {"hang"})
    [] e.e = "setup"  -> Res(m, {"setup"})      \* a handler could not be registered, or a server not be started, before anything else
    [] OTHER -> Res(m, {})
=============================================================================
