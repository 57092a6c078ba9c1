------------------------------- MODULE RegGen -------------------------------
(* Random histories of registrations and requests.  Run with -simulate;    *)
(* every behaviour prints one scenario.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

G == JsonDeserialize(IOEnv.GEN)   \* nkey, nop, conc, steps, w: weights
W(k) == IF k \in DOMAIN G.w THEN G.w[k] ELSE 0
Pick(S) == RandomElement(S)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES ops, nh, script, n, done,
          since    \* operations under each key since the last sync: few may be concurrent for the judge's sake
vars == <<ops, nh, script, n, done, since>>

Ops == <<"reg", "unreg", "call", "gated", "burst", "swap", "sub", "open", "yield", "sleep", "sync">>
Weighted == UNION {{<<Ops[i], k>> : k \in 1 .. W(Ops[i])} : i \in 1 .. Len(Ops)}
Init == ops = <<>> /\ nh = 0 /\ script = <<>> /\ n = 0 /\ done = FALSE /\ since = [x \in 1 .. G.nkey |-> 0]
Add(s) == script' = script \o s /\ n' = n + 1 /\ UNCHANGED done

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
Shut == {i \in DOMAIN ops : ops[i].kind = "call" /\ ~ops[i].open}
ShutKeys(os) == {os[i].key : i \in {j \in DOMAIN os : os[j].kind = "call" /\ ~os[j].open}}
\* calls of keys without closed gates, and all other operations
Due(os) == SetSeq({i \in DOMAIN os : os[i].kind # "call" \/ os[i].key \notin ShutKeys(os)})
Calls(os) == {i \in DOMAIN os : os[i].kind = "call"}

\* wait: the next step is taken after it
Q(kind, key, h, open, wait) == [kind |-> kind, key |-> key, h |-> h, open |-> open, wait |-> wait]
RegsIn(qs, j) == Cardinality({i \in 1 .. j : qs[i].kind = "reg"})
Do(qs0) ==
  LET qs == [j \in DOMAIN qs0 |-> [qs0[j] EXCEPT !.h = IF qs0[j].kind = "reg" THEN nh + RegsIn(qs0, j) ELSE 0]]
      key == qs[1].key
      full == since[key] + Len(qs) > G.conc
  IN  /\ ops' = ops \o qs /\ nh' = nh + RegsIn(qs, Len(qs))
      /\ since' = [x \in DOMAIN since |-> (IF full THEN 0 ELSE since[x]) + (IF x = key THEN Len(qs) ELSE 0)]
      /\ Add((IF full THEN <<[op |-> "sync", due |-> Due(ops)]>> ELSE <<>>) \o [j \in DOMAIN qs |-> [op |-> qs[j].kind, i |-> Len(ops) + j, key |-> qs[j].key, h |-> qs[j].h, open |-> qs[j].open, wait |-> qs[j].wait]])
Stay(s) == UNCHANGED <<ops, nh, since>> /\ Add(s)

Act(op) ==
  \E key \in {Pick(1 .. G.nkey)}, w \in {Pick(BOOLEAN)} :
  CASE op = "reg"   -> Do(<<Q("reg", key, 0, TRUE, w)>>)
    [] op = "unreg" -> Do(<<Q("unreg", key, 0, TRUE, w)>>)
    [] op = "call"  -> Do(<<Q("call", key, 0, TRUE, w /\ key \notin ShutKeys(ops))>>)
    [] op = "gated" -> Do(<<Q("call", key, 0, FALSE, FALSE)>>)
    \* several at once under the same names
    [] op = "burst" -> \E x \in {Pick(2 .. 4)} :
                         \E qs \in {[j \in 1 .. x |-> Q(Pick({"reg", "unreg", "call", "reg"}), key, 0, TRUE, FALSE)]} : Do(qs)
    \* a handler is replaced
    [] op = "swap"  -> Do(<<Q("unreg", key, 0, TRUE, TRUE), Q("reg", key, 0, TRUE, w), Q("call", key, 0, TRUE, FALSE)>>)
    [] op = "sub"   -> \E x \in {Pick(1 .. 5)} : Stay(<<[op |-> "sub", key |-> key, n |-> x]>>)
    [] op = "open"  -> \E i \in {Pick(Shut)} : ops' = [ops EXCEPT ![i].open = TRUE] /\ UNCHANGED <<nh, since>> /\ Add(<<[op |-> "open", i |-> i]>>)
    [] op = "sync"  -> UNCHANGED <<ops, nh>> /\ since' = [x \in DOMAIN since |-> 0] /\ Add(<<[op |-> "sync", due |-> Due(ops)]>>)
    [] OTHER -> Stay(<<[op |-> op]>>)
Can(op) ==
  CASE op = "open" -> Shut # {} [] op \in {"reg", "unreg", "call", "gated"} -> Len(ops) < G.nop [] op = "burst" -> Len(ops) < G.nop - 3
    [] op = "swap" -> Len(ops) < G.nop - 2 [] OTHER -> TRUE

\* The end: all gates open; every key is called, unregistered and called again.
Finale ==
  LET opens == SetSeq(Shut)
      os == [i \in DOMAIN ops |-> [ops[i] EXCEPT !.open = TRUE]]
      last == [j \in 1 .. 3 * G.nkey |-> Q(IF j % 3 = 2 THEN "unreg" ELSE "call", 1 + (j - 1) \div 3, 0, TRUE, TRUE)]
      all == os \o last
  IN  /\ PrintT(<<"SCRIPT", ToJson([nkey |-> G.nkey, nop |-> Len(all), nh |-> nh,
                    steps |-> script \o [j \in 1 .. Len(opens) |-> [op |-> "open", i |-> opens[j]]] \o <<[op |-> "sync", due |-> Due(os)]>>
                              \o [j \in DOMAIN last |-> [op |-> last[j].kind, i |-> Len(ops) + j, key |-> last[j].key, h |-> 0, open |-> TRUE, wait |-> TRUE]]
                              \o <<[op |-> "sync", due |-> Due(all)]>>])>>)
      /\ done' = TRUE /\ UNCHANGED <<ops, nh, script, n, since>>
Next ==
  /\ ~done
  /\ IF n >= G.steps THEN Finale
     ELSE LET S == {x \in Weighted : Can(x[1])} IN \E x \in {Pick(S)} : Act(x[1])
Spec == Init /\ [][Next]_vars
=============================================================================
