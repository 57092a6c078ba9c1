------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded executions of the real client.  One state per line; a   *)
(* line that breaks a rule is reported, and the rest of its execution is   *)
(* judged as if the line had been allowed.                                 *)
EXTENDS CliObs, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Limit == IF "STOP" \in DOMAIN IOEnv THEN 1 ELSE 20   \* lines reported of one execution
VARIABLES l, m, broken, sc
vars == <<l, m, broken, sc>>

Init == l = 1 /\ broken = Limit /\ sc = 0 /\ m = InitM(0, 0, FALSE, <<>>)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.e = "reset"
     THEN m' = InitM(e.max, e.na, e.life, e.calls) /\ broken' = 0 /\ sc' = e.sc
     ELSE /\ UNCHANGED sc
          /\ IF broken = Limit THEN UNCHANGED <<m, broken>>
             ELSE LET r == Step(m, e) IN
                  /\ m' = r.m
                  /\ IF r.bad = {} THEN UNCHANGED broken
                     ELSE PrintT(<<"VIOL", sc, l, r.bad>>) /\ broken' = broken + 1
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
