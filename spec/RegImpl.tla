------------------------------- MODULE RegImpl ------------------------------
(***************************************************************************)
(* An implementation-shaped model of the registry of handlers: register,   *)
(* unregister and handle of src/subchannel.rs.  One read-write lock, which *)
(* is fair, protects the handlers of a service; every handler is protected *)
(* by a lock of its own.  Its events are judged by RegObs.                 *)
(***************************************************************************)
EXTENDS RegObs

CONSTANTS NOp, NKey,
          \* defects
          HoldLock,     \* the registry stays locked while a handler runs
          NoMutex,      \* a handler is not locked
          CheckFirst,   \* the check for a taken name is done before the lock is taken for good
          Replace,      \* a register which fails replaces the handler
          Leak          \* an unregistered handler is kept

Is == 1 .. NOp
Keys == 1 .. NKey

VARIABLES m, bad,
          st,     \* operation -> new, lock, held, found, run, end, done
          reg,    \* key -> handler
          got,    \* operation -> the handler found, or whether the name was free
          lq,     \* who waits for the lock of the registry
          lh,     \* who holds it
          hq,     \* handler -> who waits for, or has (the first), its lock
          refs    \* handlers kept although nobody can use them
vars == <<m, bad, st, reg, got, lq, lh, hq, refs>>

RECURSIVE Obs(_, _, _)
Obs(mm, b, es) == IF es = <<>> THEN [m |-> mm, bad |-> b]
                  ELSE LET r == Step(mm, Head(es)) IN Obs(r.m, b \cup r.bad, Tail(es))
Emit(es) == LET o == Obs(m, bad, es) IN m' = o.m /\ bad' = o.bad
Quiet == UNCHANGED <<m, bad>>

Init == /\ m = InitM(NKey, 1, NOp, NOp) /\ bad = {}
        /\ st = [i \in Is |-> "new"] /\ reg = [x \in Keys |-> 0] /\ got = [i \in Is |-> 0]
        /\ lq = <<>> /\ lh = {} /\ hq = [h \in Is |-> <<>>] /\ refs = {}

Kind(i) == m.ops[i].kind
Key(i) == m.ops[i].key
Reader(i) == Kind(i) = "call" \/ (CheckFirst /\ Kind(i) = "reg" /\ st[i] = "lock")

\* Operations are numbered in the order of their start.
Begin(i) ==
  /\ st[i] = "new" /\ (i > 1 => st[i - 1] # "new")
  /\ \E kind \in {"reg", "unreg", "call"}, x \in Keys, open \in BOOLEAN :
       /\ (kind # "call" => open)
       /\ Emit(<<[e |-> "op", i |-> i, kind |-> kind, key |-> x, h |-> IF kind = "reg" THEN i ELSE 0, open |-> open]>>)
  /\ st' = [st EXCEPT ![i] = "lock"] /\ lq' = Append(lq, i)
  /\ UNCHANGED <<reg, got, lh, hq, refs>>
Open(i) == /\ ~m.ops[i].open
           /\ Emit(<<[e |-> "open", i |-> i]>>) /\ UNCHANGED <<st, reg, got, lq, lh, hq, refs>>

Lock == /\ lq # <<>>
        /\ LET i == Head(lq) IN
           /\ IF Reader(i) THEN \A j \in lh : Reader(j) ELSE lh = {}
           /\ lh' = lh \cup {i} /\ st' = [st EXCEPT ![i] = IF @ = "lock" THEN "held" ELSE "held2"]
        /\ lq' = Tail(lq)
        /\ Quiet /\ UNCHANGED <<reg, got, hq, refs>>

\* Handlers nobody can use any more are dropped.
Used(h, r, s) == \/ \E x \in Keys : r[x] = h
                 \/ \E i \in Is : Kind(i) = "call" /\ got[i] = h /\ s[i] \in {"found", "run", "end"}
                 \/ s[h] \in {"lock", "held", "lock2", "held2"}
Gone(r, s) == {h \in Is : Kind(h) = "reg" /\ ~m.gone[h] /\ ~Used(h, r, s) /\ h \notin refs'}
RECURSIVE Drops(_)
Drops(S) == IF S = {} THEN <<>> ELSE LET h == CHOOSE x \in S : TRUE IN <<[e |-> "hgone", h |-> h]>> \o Drops(S \ {h})

Change(i) ==
  LET free == reg[Key(i)] = 0
      set == IF CheckFirst THEN st[i] = "held2" /\ got[i] = 1 ELSE free
      r == IF Kind(i) = "reg" THEN [reg EXCEPT ![Key(i)] = IF set \/ Replace THEN i ELSE @]
           ELSE [reg EXCEPT ![Key(i)] = 0]
      ok == IF Kind(i) = "reg" THEN set ELSE ~free
      s == [st EXCEPT ![i] = "done"]
  IN  /\ Kind(i) \in {"reg", "unreg"} /\ st[i] \in {"held", "held2"} /\ i \in lh
      /\ lh' = lh \ {i}
      /\ IF CheckFirst /\ Kind(i) = "reg" /\ st[i] = "held"
         THEN \* only the check
              /\ got' = [got EXCEPT ![i] = IF free THEN 1 ELSE 0]
              /\ st' = [st EXCEPT ![i] = "lock2"] /\ lq' = Append(lq, i)
              /\ Quiet /\ UNCHANGED <<reg, hq, refs>>
         ELSE /\ reg' = r /\ st' = s
              /\ refs' = IF Leak /\ Kind(i) = "unreg" THEN refs \cup {reg[Key(i)]} ELSE refs
              \* a handler is dropped before the register or unregister returns
              /\ Emit(Drops(Gone(r, s)) \o <<[e |-> "ret", i |-> i, ok |-> ok]>>)
              /\ UNCHANGED <<got, lq, hq>>

Find(i) ==
  LET h == reg[Key(i)] IN
  /\ Kind(i) = "call" /\ st[i] = "held"
  /\ got' = [got EXCEPT ![i] = h]
  /\ lh' = IF HoldLock /\ h # 0 THEN lh ELSE lh \ {i}
  /\ IF h = 0 THEN st' = [st EXCEPT ![i] = "end"] /\ UNCHANGED hq
     ELSE st' = [st EXCEPT ![i] = "found"] /\ hq' = [hq EXCEPT ![h] = Append(@, i)]
  /\ Quiet /\ UNCHANGED <<reg, lq, refs>>
Run(i) ==
  /\ st[i] = "found" /\ (NoMutex \/ Head(hq[got[i]]) = i)
  /\ st' = [st EXCEPT ![i] = "run"]
  /\ Emit(<<[e |-> "hstart", i |-> i, h |-> got[i]]>>) /\ UNCHANGED <<reg, got, lq, lh, hq, refs>>
Ran(i) ==
  /\ st[i] = "run" /\ m.ops[i].open
  /\ st' = [st EXCEPT ![i] = "end"]
  /\ hq' = [hq EXCEPT ![got[i]] = SelectSeq(@, LAMBDA j : j # i)]
  /\ Emit(<<[e |-> "hend", h |-> got[i]]>>) /\ UNCHANGED <<reg, got, lq, lh, refs>>
\* The answer is on its way after the locks were released.
End(i) ==
  LET s == [st EXCEPT ![i] = "done"] IN
  /\ Kind(i) = "call" /\ st[i] = "end"
  /\ st' = s /\ lh' = lh \ {i} /\ UNCHANGED refs
  /\ Emit(Drops(Gone(reg, s)) \o <<[e |-> "cret", i |-> i, h |-> got[i]]>>)
  /\ UNCHANGED <<reg, got, lq, hq>>

Code == Lock \/ \E i \in Is : st[i] # "new" /\ (Change(i) \/ Find(i) \/ Run(i) \/ Ran(i) \/ End(i))
Settled == /\ ~ENABLED Code
           /\ Emit(<<[e |-> "sync", mt |-> FALSE]>>) /\ UNCHANGED <<st, reg, got, lq, lh, hq, refs>>
Next == Code \/ Settled \/ \E i \in Is : Begin(i) \/ (st[i] # "new" /\ Open(i))
Spec == Init /\ [][Next]_vars

RulesKept == bad = {}
\* The judge always thinks the actual state possible.
Tracked == \A x \in Keys : \E c \in Close(m, x, m.keys[x]) : c.cur = reg[x]
=============================================================================
