------------------------------- MODULE LifeGen ------------------------------
(* Random life cycles of servers.  Run with -simulate; every behaviour     *)
(* prints one scenario.  A server is only started on an address which      *)
(* another one has released; the same channel may start again at once.     *)
EXTENDS LifeObs, Json, IOUtils

G == JsonDeserialize(IOEnv.GEN)   \* nch, na, steps, w: weights
W(k) == IF k \in DOMAIN G.w THEN G.w[k] ELSE 0
Pick(S) == RandomElement(S)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES m, script, n, done
vars == <<m, script, n, done>>

Ops == <<"new", "start", "again", "stop", "idle", "drop", "att", "async", "keep", "held", "boom", "flood", "exhaust", "rcall", "race", "squat", "settle", "yield", "sleep">>
Weighted == UNION {{<<Ops[i], k>> : k \in 1 .. W(Ops[i])} : i \in 1 .. Len(Ops)}

Init == m = InitM(G.nch, G.na) /\ script = <<>> /\ n = 0 /\ done = FALSE

Do(e) == Step(m, e).m
Add(m1, s) == m' = m1 /\ script' = script \o s /\ n' = n + 1 /\ UNCHANGED done

New == {c \in DOMAIN m.ch : m.ch[c].st = "none"}
Has(st) == {c \in DOMAIN m.ch : m.ch[c].st = st}
\* those which may be started
Free == {c \in Has("stopped") : LET a == m.ch[c].a IN m.up[a].recent \cup Running(m, a) \subseteq {c}}
Kept == {i \in DOMAIN m.atts : m.atts[i].kind = "keep"}
Addrs == 1 .. G.na
Lively == {a \in Addrs : Running(m, a) # {}}
Want(a) == IF Running(m, a) # {} THEN "up" ELSE "down"
Attempt(kind, a, async) ==
  LET i == Len(m.atts) + 1
  IN  Add(Do([e |-> "att", i |-> i, a |-> a, kind |-> kind]), <<[op |-> "att", i |-> i, a |-> a, kind |-> kind, async |-> async]>>)
Sett(a) == [op |-> "settle", a |-> a, want |-> Want(a)]
DoSettle(a) == Add(Do([e |-> "settle", a |-> a, want |-> Want(a), done |-> TRUE]), <<Sett(a)>>)

Act(op) ==
  CASE op = "new"   -> \E c \in {Min(New)}, a \in {Pick(Addrs)} : Add(Do([e |-> "new", ch |-> c, a |-> a]), <<[op |-> "new", ch |-> c, a |-> a]>>)
    [] op = "start" -> \E c \in {Pick(Free)} : Add(Change(m, c, "running"), <<[op |-> "start", ch |-> c]>>)
    [] op = "again" -> \E c \in {Pick(Has("running"))} : Add(m, <<[op |-> "start", ch |-> c]>>)
    [] op = "stop"  -> \E c \in {Pick(Has("running"))}, x \in {Pick(1 .. 3)} :
                         IF x = 1 THEN Add(Change(m, c, "stopped"), <<[op |-> "stop", ch |-> c]>>)
                         ELSE LET m1 == Change(m, c, "stopped")
                                  m2 == Change(m1, c, "running")
                              IN  IF m.up[m.ch[c].a].recent \subseteq {c}
                                  THEN Add(m2, <<[op |-> "stop", ch |-> c]>> \o (IF x = 2 THEN <<[op |-> "yield"]>> ELSE <<>>) \o <<[op |-> "start", ch |-> c]>>)
                                  ELSE Add(m1, <<[op |-> "stop", ch |-> c]>>)
    [] op = "idle"  -> \E c \in {Pick(Has("stopped"))} : Add(m, <<[op |-> "stop", ch |-> c]>>)
    [] op = "drop"  -> \E c \in {Pick(Has("running") \cup Has("stopped"))} : Add(Do([e |-> "gone", ch |-> c]), <<[op |-> "drop", ch |-> c]>>)
    [] op = "att"   -> \E a \in {Pick(Addrs)} : Attempt("plain", a, FALSE)
    [] op = "async" -> \E a \in {Pick(Addrs)} : Attempt("plain", a, TRUE)
    [] op = "keep"  -> \E a \in {Pick(Lively)} : Attempt("keep", a, FALSE)
    [] op = "boom"  -> \E a \in {Pick(Lively)}, x \in {Pick(1 .. 2)} : Attempt("boom", a, x = 1)
    [] op = "held"  -> \E i \in {Pick(Kept)} : Add(m, <<[op |-> "held", i |-> i]>>)
    [] op = "flood" -> \E a \in {Pick(Lively)} : Add(m, <<[op |-> "flood", a |-> a]>>)
    [] op = "exhaust" -> \E a \in {Pick(Lively)} : Add(m, <<[op |-> "exhaust", a |-> a]>>)
    [] op = "rcall" -> \E a \in {Pick(Lively)} :
                         LET k == Len(m.rcalls) + 1 IN Add(Do([e |-> "rcall", k |-> k, a |-> a]), <<[op |-> "rcall", k |-> k, a |-> a]>>)
    [] op = "race"  -> \E x \in {Pick(1 .. 2)} :
                         IF x = 1 /\ Free # {}
                         THEN \E c \in {Pick(Free)} : Add(Change(m, c, "running"), <<[op |-> "race", ch |-> c, kind |-> "start"]>>)
                         ELSE IF Has("running") # {}
                         THEN \E c \in {Pick(Has("running"))}, y \in {Pick({"start", "stop"})} :
                                Add(IF y = "stop" THEN Change(m, c, "stopped") ELSE m, <<[op |-> "race", ch |-> c, kind |-> y]>>)
                         ELSE Add(m, <<>>)
    [] op = "squat" -> \E c \in {Pick(Free)} : Add(Change(Change(m, c, "running"), c, "stopped"), <<[op |-> "squat", ch |-> c, a |-> m.ch[c].a]>>)
    [] op = "settle" -> \E a \in {Pick(Addrs)} : DoSettle(a)
    [] OTHER -> Add(m, <<[op |-> op]>>)
Can(op) ==
  CASE op = "new" -> New # {} [] op \in {"start", "squat"} -> Free # {} [] op \in {"again", "stop"} -> Has("running") # {}
    [] op = "idle" -> Has("stopped") # {} [] op = "drop" -> Has("running") \cup Has("stopped") # {}
    [] op = "exhaust" -> Lively # {} /\ \A a \in Addrs : m.up[a].s # "any"   \* binding an address takes a descriptor, too
    [] op \in {"keep", "boom", "flood", "rcall"} -> Lively # {} [] op = "held" -> Kept # {}
    [] OTHER -> TRUE

\* The end: calls still waiting get a server; then all is stopped.
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
Finale ==
  LET st == [a \in Addrs |-> Sett(a)]
      lost == SetSeq({a \in Addrs : Running(m, a) = {} /\ \E k \in DOMAIN m.rcalls : m.rcalls[k].a = a})
      \* a new channel for each address without a server
      revive == [i \in 1 .. 3 * Len(lost) |->
                   LET a == lost[1 + (i - 1) \div 3]
                       c == G.nch + 1 + (i - 1) \div 3
                   IN  CASE i % 3 = 1 -> [op |-> "new", ch |-> c, a |-> a]
                         [] i % 3 = 2 -> [op |-> "start", ch |-> c]
                         [] OTHER -> [op |-> "settle", a |-> a, want |-> "up"]]
      live == SetSeq(Has("running") \cup {G.nch + i : i \in 1 .. Len(lost)})
      end == [i \in 1 .. Len(live) |-> [op |-> "drop", ch |-> live[i]]]
      down == [a \in Addrs |-> [op |-> "settle", a |-> a, want |-> "down"]]
  IN  /\ PrintT(<<"SCRIPT", ToJson([nch |-> G.nch + Len(lost), na |-> G.na, steps |-> script \o st \o revive \o end \o down])>>)
      /\ done' = TRUE /\ UNCHANGED <<m, script, n>>

Next ==
  /\ ~done
  /\ IF n >= G.steps THEN Finale
     ELSE LET S == {x \in Weighted : Can(x[1])} IN \E x \in {Pick(S)} : Act(x[1])
Spec == Init /\ [][Next]_vars
=============================================================================
