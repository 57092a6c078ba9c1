------------------------------- MODULE RegObs -------------------------------
(***************************************************************************)
(* Registration of handlers.  Every pair of service and endpoint name is   *)
(* an object whose state is the handler registered under it (0: none).     *)
(* Operations - register, unregister, the lookup done for a request - take *)
(* effect at one moment between their start and their end.  The judge      *)
(* keeps all states which are possible so far, along with the operations   *)
(* which have taken effect but have not returned yet.                      *)
(*                                                                         *)
(* The operation number i of a scenario: [kind, key, h (register: the      *)
(* handler), open (call: its handler does not wait)].                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitM(nkey, nsvc, nop, nh) ==
  [keys |-> [x \in 1 .. nkey |-> {[cur |-> 0, lin |-> {}, seen |-> {}]}],    \* possible states
   pend |-> [x \in 1 .. nkey |-> {}],                           \* operations started
   ops  |-> [i \in 1 .. nop |-> [kind |-> "none", key |-> 0, h |-> 0, st |-> "new", open |-> TRUE, by |-> 0]],
   run  |-> [h \in 1 .. nh |-> 0],                              \* the call a handler works on
   gone |-> [h \in 1 .. nh |-> FALSE],                          \* handler dropped
   subs |-> [s \in 1 .. nsvc |-> 0]]                            \* identity of a subchannel

Res(m, bad) == [m |-> m, bad |-> bad]
When(c, rule) == IF c THEN {rule} ELSE {}

\* A register or unregister takes effect in state c.  Requests being looked up may see the states before and after.
Apply(m, c, i) ==
  LET q == m.ops[i]
      r == IF q.kind = "reg" THEN (IF c.cur = 0 THEN [cur |-> q.h, res |-> 1] ELSE [cur |-> c.cur, res |-> 0])
           ELSE [cur |-> 0, res |-> IF c.cur = 0 THEN 0 ELSE 1]
  IN  [cur |-> r.cur, lin |-> c.lin \cup {<<i, r.res>>}, seen |-> c.seen \cup {<<p[1], r.cur>> : p \in c.seen}]

RECURSIVE Close(_, _, _)
Close(m, x, S) ==
  LET U == S \cup UNION {{Apply(m, c, i) : i \in {j \in m.pend[x] : ~\E p \in c.lin : p[1] = j}} : c \in S}
  IN  IF U = S THEN S ELSE Close(m, x, U)

\* The states in which operation i has taken effect with this result, without it.
After(m, x, i, res) ==
  {[c EXCEPT !.lin = @ \ {<<i, res>>}] : c \in {d \in Close(m, x, m.keys[x]) : <<i, res>> \in d.lin}}
\* The states in which the lookup of request i may have found this handler.
Found(m, x, i, h) ==
  {[c EXCEPT !.seen = {p \in @ : p[1] # i}] : c \in {d \in Close(m, x, m.keys[x]) : <<i, h>> \in d.seen}}

Op(m, e) ==
  Res([m EXCEPT !.ops[e.i] = [kind |-> e.kind, key |-> e.key, h |-> e.h, st |-> "started", open |-> e.open, by |-> 0],
                !.pend[e.key] = IF e.kind = "call" THEN @ ELSE @ \cup {e.i},
                !.keys[e.key] = IF e.kind = "call" THEN {[c EXCEPT !.seen = @ \cup {<<e.i, c.cur>>}] : c \in @} ELSE @],
      When(m.ops[e.i].st # "new", "bad_scenario"))

\* Register or unregister ends.
Ret(m, e) ==
  LET q == m.ops[e.i]
      x == q.key
      r == IF e.ok THEN 1 ELSE 0
      S == After(m, x, e.i, r)
  IN  IF S = {} THEN Res(m, {IF q.kind = "reg" THEN "register_result" ELSE "unregister_result"})
      ELSE Res([m EXCEPT !.keys[x] = S, !.pend[x] = @ \ {e.i}, !.ops[e.i].st = "returned"], {})

\* The handler got a request: its lookup was before.
Hstart(m, e) ==
  LET q == m.ops[e.i]
      S == Found(m, q.key, e.i, e.h)
  IN  IF q.st # "started" \/ q.by # 0 THEN Res(m, {"handler_twice"})
      ELSE IF S = {} THEN Res(m, {"wrong_handler"})
      ELSE Res([m EXCEPT !.keys[q.key] = S, !.ops[e.i].by = e.h, !.run[e.h] = e.i],
               When(m.run[e.h] # 0, "handler_overlap"))
Hend(m, e) == Res([m EXCEPT !.run[e.h] = 0], {})

\* A call returns: with the handler which answered, or with an error.
Cret(m, e) ==
  LET q == m.ops[e.i]
      x == q.key
      S == Found(m, x, e.i, 0)
  IN  IF q.by # 0 THEN Res([m EXCEPT !.ops[e.i].st = "returned"], IF e.h = 0 THEN {"call_failed"} ELSE When(q.by # e.h, "ret_content"))
      ELSE IF e.h # 0 THEN Res(m, {"ret_content"})
      ELSE IF S = {} THEN Res(m, {"not_handled"})
      ELSE Res([m EXCEPT !.keys[x] = S, !.ops[e.i].st = "returned"], {})

\* Asking for a subchannel.
Sub(m, e) ==
  Res([m EXCEPT !.subs[e.s] = IF @ = 0 THEN e.id ELSE @],
      When(m.subs[e.s] \notin {0, e.id}, "subchannel_identity") \cup When(\E s \in DOMAIN m.subs : s # e.s /\ m.subs[s] = e.id, "subchannel_identity"))

\* A handler was dropped.
Dropped(m, e) ==
  Res([m EXCEPT !.gone[e.h] = TRUE],
      LET Xs == {m.ops[i].key : i \in {j \in DOMAIN m.ops : m.ops[j].kind = "reg" /\ m.ops[j].h = e.h}}
      IN  When(m.run[e.h] # 0, "handler_dropped")
          \cup When(\E x \in Xs : \A c \in Close(m, x, m.keys[x]) : c.cur = e.h, "handler_dropped"))

\* Calls which may have to wait: a gate of another one for the same names is closed.
Stuck(m, i) == m.ops[i].kind = "call" /\ \E j \in DOMAIN m.ops : m.ops[j].kind = "call" /\ m.ops[j].key = m.ops[i].key /\ ~m.ops[j].open
\* Handlers which cannot be in use any more.
Unused(m) ==
  {h \in DOMAIN m.run : /\ \E i \in DOMAIN m.ops : m.ops[i].kind = "reg" /\ m.ops[i].h = h /\ m.ops[i].st = "returned"
                        /\ \A i \in DOMAIN m.ops : (m.ops[i].kind = "reg" /\ m.ops[i].h = h) =>
                              /\ m.pend[m.ops[i].key] = {}
                              /\ \A j \in DOMAIN m.ops : (m.ops[j].kind = "call" /\ m.ops[j].key = m.ops[i].key) => m.ops[j].st = "returned"
                              /\ \A c \in m.keys[m.ops[i].key] : c.cur # h}
Sync(m, e) ==
  Res(m, When(\E i \in DOMAIN m.ops : m.ops[i].st = "started" /\ m.ops[i].kind # "call", "due_register")
         \cup When(\E i \in DOMAIN m.ops : m.ops[i].st = "started" /\ m.ops[i].kind = "call" /\ ~Stuck(m, i), "due_call")
         \cup When(~e.mt /\ \E h \in Unused(m) : ~m.gone[h], "handler_kept"))

Step(m, e) ==
  CASE e.e = "op"     -> Op(m, e)
    [] e.e = "ret"    -> Ret(m, e)
    [] e.e = "cret"   -> Cret(m, e)
    [] e.e = "hstart" -> IF e.i = 0 THEN Res(m, {"handler_content"}) ELSE Hstart(m, e)
    [] e.e = "hend"   -> Hend(m, e)
    [] e.e = "hgone"  -> Dropped(m, e)
    [] e.e = "sub"    -> Sub(m, e)
    [] e.e = "open"   -> Res([m EXCEPT !.ops[e.i].open = TRUE], {})
    [] e.e = "sync"   -> Sync(m, e)
    [] e.e = "panic"  -> Res(m, {"panic"})
    [] e.e = "hang"   -> Res(m, {"hang"})
    [] e.e = "setup"  -> Res(m, {"setup"})      \* a handler could not be registered, or a server not be started, before anything else
    [] OTHER -> Res(m, {})
=============================================================================
