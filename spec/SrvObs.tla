------------------------------- MODULE SrvObs -------------------------------
(***************************************************************************)
(* What the peers of a tchannel server, and the handlers registered with   *)
(* it, may observe.  The state "m" is a record; Step(m, ev) gives the next *)
(* record and the set of rules that the event ev breaks.                   *)
(*                                                                         *)
(* The same operators are used                                             *)
(*  - by SrvImpl, an implementation-shaped model of the server: in every   *)
(*    interleaving no rule is broken,                                      *)
(*  - by SrvGen, which generates scenarios and the observations that are   *)
(*    due in them,                                                         *)
(*  - by SrvTrace, which judges recorded executions of the real server.    *)
(*                                                                         *)
(* Events of the environment: conn, tx (a frame of a peer), eof, rst,      *)
(* resume, gate (a handler's result becomes available), sync (everything   *)
(* due has been waited for).  Events of the server: rx (a frame of the     *)
(* server), closed, hstart, hend, hdrop (handlers), panic, probe.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Frag

None == "none"

\* Frames whose payload cannot be decoded, or must not be accepted.
BadCall == {"csum", "csumbad", "noas", "as", "asutf8", "svcutf8", "trunc", "lenover", "half", "empty", "nhover"}
\* Frames that may or may not be accepted.
OddCall == {"flags", "tflags"}
\* More or fewer than three arguments: a request may be handled (the missing ones are empty) or refused, but is answered.
ArgCall == {"args1", "args2", "args4"}

NewConn == [st |-> "none", ended |-> "no", closed |-> FALSE, paused |-> FALSE, tail |-> FALSE,
            initid |-> "", initres |-> FALSE, pings |-> <<>>, strays |-> <<>>, odd |-> {}, asm |-> <<>>]

\* d: [p, id, h, ok, wh, json, out, open]
\* ok: served by handler h.  wh: busy handler that the failure may have to wait for.
NewReq(d) == [p |-> d.p, id |-> d.id, h |-> d.h, ok |-> d.ok, wh |-> d.wh, json |-> d.json, out |-> d.out, gate |-> d.open,
              st |-> "new",       \* new, partial, complete, failing, either (one of these), maybe, lost, void
              run |-> 0,          \* 0 not started, 1 running, 2 returned, 3 dropped
              ans |-> "no",       \* no, open, done
              settled |-> FALSE,  \* answer was due at a sync
              hset |-> FALSE]     \* start was due at a sync

InitM(tasks, np, nh, defs) ==
  [tasks |-> tasks,
   conns |-> [p \in 1 .. np |-> NewConn],
   reqs  |-> [r \in 1 .. Len(defs) |-> NewReq(defs[r])],
   run   |-> [h \in 1 .. nh |-> {}]]

Reqs(m) == 1 .. Len(m.reqs)
ReqsOf(m, p) == {r \in Reqs(m) : m.reqs[r].p = p}
WithId(m, p, id) == {r \in Reqs(m) : m.reqs[r].p = p /\ m.reqs[r].id = id}
AnyWild(m) == \E p \in 1 .. Len(m.conns) : m.conns[p].ended = "wild"

SetConn(m, p, c) == [m EXCEPT !.conns[p] = c]
SetReq(m, r, x) == [m EXCEPT !.reqs[r] = x]
Res(m, bad) == [m |-> m, bad |-> bad]
When(c, rule) == IF c THEN {rule} ELSE {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x
RECURSIVE Drop1(_, _)
Drop1(s, x) == IF s = <<>> THEN s ELSE IF Head(s) = x THEN Tail(s) ELSE <<Head(s)>> \o Drop1(Tail(s), x)

------------------------------------------------------------------------------
(* Frames of a peer *)

Busy(m, p, id) ==   \* the id is in use: what a second request with it leads to is not defined
  \/ id \in m.conns[p].odd
  \/ \E r \in WithId(m, p, id) : m.reqs[r].st \in {"complete", "failing", "either", "maybe"} /\ ~m.reqs[r].settled

Completed(q) == IF q.ok THEN "complete" ELSE "failing"

TxCall(m, p, f) ==
  LET id == f.id
      r == f.r
      part == {x \in WithId(m, p, id) : m.reqs[x].st = "partial"}
      q == m.reqs[r]
  IN  IF part # {} THEN     \* a call frame amid the fragments of a message
           SetReq(SetReq(m, Min(part), [m.reqs[Min(part)] EXCEPT !.st = "failing"]), r, [q EXCEPT !.st = "void"])
      ELSE IF Busy(m, p, id) \/ f.d \in OddCall THEN SetReq(m, r, [q EXCEPT !.st = "maybe"])
      ELSE IF f.d \in BadCall THEN SetReq(m, r, [q EXCEPT !.st = "failing"])
      ELSE IF f.d \in ArgCall THEN SetReq(m, r, [q EXCEPT !.st = IF q.ok THEN "either" ELSE "failing"])
      ELSE IF f.more THEN SetReq(m, r, [q EXCEPT !.st = "partial"])
      ELSE SetReq(m, r, [q EXCEPT !.st = Completed(q)])

TxCont(m, p, f) ==
  LET part == {x \in WithId(m, p, f.id) : m.reqs[x].st = "partial"}
  IN  IF part = {} THEN m   \* fragments of no message are ignored
      ELSE LET r == Min(part)
               q == m.reqs[r]
           IN  IF f.d \in OddCall THEN SetReq(m, r, [q EXCEPT !.st = "maybe"])
               ELSE IF f.d # "" THEN SetReq(m, r, [q EXCEPT !.st = "failing"])
               ELSE IF f.more THEN m
               ELSE SetReq(m, r, [q EXCEPT !.st = Completed(q)])

TxOther(m, p, f) ==
  LET part == {x \in WithId(m, p, f.id) : m.reqs[x].st = "partial"}
  IN  IF part # {} THEN SetReq(m, Min(part), [m.reqs[Min(part)] EXCEPT !.st = "failing"])
      ELSE [m EXCEPT !.conns[p].strays = Append(@, f.id), !.conns[p].odd = @ \cup {f.id}]

Tx(m, f) ==
  LET p == f.p
      c == m.conns[p]
  IN  CASE c.ended # "no" -> m
        [] f.t = "wild" -> SetConn(m, p, [c EXCEPT !.ended = "wild"])
        [] c.st = "open" ->
             IF f.t = "part" THEN SetConn(m, p, [c EXCEPT !.tail = TRUE])
             ELSE IF f.t = "init" /\ f.v = 2 /\ f.d = ""
                  THEN SetConn(m, p, [c EXCEPT !.st = "up", !.initid = f.id])
                  ELSE SetConn(m, p, [c EXCEPT !.st = "bad"])
        [] c.st # "up" -> m
        [] f.t = "call" -> TxCall(m, p, f)
        [] f.t = "cont" -> TxCont(m, p, f)
        [] f.t = "ping" -> SetConn(m, p, [c EXCEPT !.pings = Append(@, f.id)])
        [] f.t = "fatal" -> SetConn(m, p, [c EXCEPT !.ended = "fatal"])
        [] f.t = "part" -> SetConn(m, p, [c EXCEPT !.tail = TRUE])
        [] OTHER -> TxOther(m, p, f)

\* No more frames from p: what is incomplete stays so.
Lose(m, p) == [m EXCEPT !.reqs = [r \in Reqs(m) |->
                 IF m.reqs[r].p = p /\ m.reqs[r].st = "partial" THEN [m.reqs[r] EXCEPT !.st = "lost"] ELSE m.reqs[r]]]

Eof(m, p) ==
  LET c == m.conns[p]
      how == CASE c.ended \in {"fatal", "wild"} -> c.ended
               [] c.tail -> "broken"
               [] OTHER -> "eof"
  IN  SetConn(Lose(m, p), p, [c EXCEPT !.ended = how, !.st = IF @ = "open" THEN "bad" ELSE @, !.tail = TRUE])

------------------------------------------------------------------------------
(* Handlers *)

RunningOn(m, p) == {r \in ReqsOf(m, p) : m.reqs[r].run = 1}

HStart(m, e) ==
  LET r == e.r
      h == e.h
      q == m.reqs[r]
      overlap == When(m.run[h] # {}, "handler_overlap")
      m1 == [m EXCEPT !.run[h] = @ \cup {e.inv}]
  IN  IF r = 0 THEN Res(m1, overlap \cup When(~AnyWild(m), "handler_content"))
      ELSE Res([m1 EXCEPT !.reqs[r].run = 1],
               IF m.conns[q.p].ended = "wild" THEN overlap ELSE
               overlap
               \cup When(m.conns[q.p].st # "up", "handler_no_handshake")
               \cup When(m.conns[q.p].st = "up" /\ q.st \notin {"complete", "maybe", "either"}, "handler_incomplete")
               \cup When(q.run # 0, "handler_twice")
               \cup When(q.h # h, "handler_wrong")
               \cup When(m.tasks > 0 /\ Cardinality(RunningOn(m, q.p)) >= m.tasks, "handler_tasks"))

HEnd(m, e) == LET m1 == [m EXCEPT !.run[e.h] = @ \ {e.inv}]
              IN  Res(IF e.r = 0 THEN m1 ELSE [m1 EXCEPT !.reqs[e.r].run = 2], {})

HDrop(m, e) ==
  LET m1 == [m EXCEPT !.run[e.h] = @ \ {e.inv}]
  IN  IF e.r = 0 THEN Res(m1, {})
      ELSE Res([m1 EXCEPT !.reqs[e.r].run = 3],
               When(m.conns[m.reqs[e.r].p].ended \in {"no", "eof"}, "handler_dropped"))

------------------------------------------------------------------------------
(* Frames of the server *)

Finish(m, p, r, args, e) ==
  Res([m EXCEPT !.reqs[r].ans = "done"],
      When(args # e.args \/ ~Has(e.m, r), "answer_content") \cup When(Len(args) # NArgs, "answer_args"))

RxCall(m, p, e) ==
  LET cand == {r \in WithId(m, p, e.id) :
                 m.reqs[r].run = 2 /\ m.reqs[r].ans = "no" /\ m.reqs[r].out \in {"ok", "msg"}}
      frame == When(Len(e.ch) \notin 1 .. MaxChunks, "frame_chunks")
  IN  IF cand = {} THEN Res(m, {"answer_stray"})
      ELSE LET \* ids in use twice are told apart by content
               good == {r \in cand : e.last => Has(e.m, r)}
               r == IF good = {} THEN Min(cand) ELSE Min(good)
               q == m.reqs[r]
               bad == frame
                 \cup When(e.code # (IF q.out = "ok" THEN 0 ELSE 1), "answer_code")
                 \cup When(e.as # (IF q.json THEN "json" ELSE "raw"), "answer_scheme")
               fin == Finish(m, p, r, e.ch, e)
           IN  IF e.more
               THEN Res([m EXCEPT !.reqs[r].ans = "open",
                                  !.conns[p].asm = Append(@, [id |-> e.id, r |-> r, args |-> e.ch])], bad)
               ELSE Res(fin.m, bad \cup fin.bad)

RxCont(m, p, e) ==
  LET asm == m.conns[p].asm
      is == {i \in 1 .. Len(asm) : asm[i].id = e.id}
      frame == When(Len(e.ch) \notin 1 .. MaxChunks, "frame_chunks")
  IN  IF is = {} THEN Res(m, {"answer_stray"})
      ELSE LET a == asm[Min(is)]
               args == JoinLens(a.args, e.ch, FALSE)
               m1 == [m EXCEPT !.conns[p].asm = Drop1(@, a)]
               fin == Finish(m1, p, a.r, args, e)
           IN  IF e.more THEN Res([m EXCEPT !.conns[p].asm[Min(is)].args = args], frame)
               ELSE Res(fin.m, frame \cup fin.bad)

RxErr(m, p, e) ==
  LET ids == WithId(m, p, e.id)
      fail == {r \in ids : m.reqs[r].ans = "no" /\
                 (m.reqs[r].st = "failing" \/ (m.reqs[r].st = "either" /\ m.reqs[r].run = 0) \/ (m.reqs[r].run = 2 /\ m.reqs[r].out \in {"gen", "int"}))}
      perhaps == {r \in ids : m.reqs[r].ans = "no" /\ m.reqs[r].st \in {"maybe", "lost"}}
  IN  CASE fail # {} -> Res([m EXCEPT !.reqs[Min(fail)].ans = "done"], {})
        [] fail = {} /\ Has(m.conns[p].strays, e.id) -> Res([m EXCEPT !.conns[p].strays = Drop1(@, e.id)], {})
        [] OTHER -> IF perhaps # {} THEN Res([m EXCEPT !.reqs[Min(perhaps)].ans = "done"], {})
                    ELSE Res(m, {IF Has(m.conns[p].pings, e.id) THEN "ping_answer" ELSE "answer_error"})

Rx(m, e) ==
  LET p == e.p
      c == m.conns[p]
  IN  CASE c.ended = "wild" -> Res(m, When(e.bad # "", "frame_bad"))
        [] e.bad # "" -> Res(m, {"frame_bad"})
        [] c.closed -> Res(m, {"frame_after_close"})
        [] e.t = "initres" ->
             Res(SetConn(m, p, [c EXCEPT !.initres = TRUE]),
                 When(c.st # "up" \/ c.initres \/ e.id # c.initid \/ e.v # 2, "handshake_answer"))
        [] e.t = "error" /\ c.st = "bad" -> Res(m, {})
        [] ~c.initres -> Res(m, {"handshake_first"})
        [] e.t = "callres" -> RxCall(m, p, e)
        [] e.t = "callrescont" -> RxCont(m, p, e)
        [] e.t = "error" -> RxErr(m, p, e)
        [] e.t = "pingres" ->
             Res(SetConn(m, p, [c EXCEPT !.pings = Drop1(@, e.id)]), When(~Has(c.pings, e.id), "ping_answer"))
        [] OTHER -> Res(m, {"frame_type"})

Owed(m, p) == {r \in ReqsOf(m, p) : m.reqs[r].st \in {"complete", "failing", "either"} /\ m.reqs[r].ans # "done"}

Closed(m, e) ==
  LET p == e.p
      c == m.conns[p]
  IN  Res(SetConn(m, p, [c EXCEPT !.closed = TRUE]),
          When(e.how = "garbage" /\ c.ended # "wild", "frame_bad")
          \cup When(c.st = "up" /\ c.ended = "no", "closed_early")
          \cup When(c.st = "up" /\ c.ended = "eof" /\ e.how = "broken", "closed_broken")
          \cup When(c.st = "up" /\ c.ended = "eof" /\ Owed(m, p) # {}, "closed_unanswered"))

------------------------------------------------------------------------------
(* What is due: what must happen without any further step of the           *)
(* environment.  Depends on the steps of the environment only, so that the *)
(* generator of scenarios and the judge of traces agree.                   *)

Alive(m, p) == m.conns[p].st = "up" /\ m.conns[p].ended \in {"no", "eof"}
Open(m) == {r \in Reqs(m) : m.reqs[r].st \in {"complete", "failing", "either", "maybe"} /\ ~m.reqs[r].settled}
Holding(m, h) == {r \in Open(m) : m.reqs[r].h = h /\ ~m.reqs[r].gate /\ m.reqs[r].st # "failing"}
Free(m, r) == IF m.reqs[r].st = "failing" THEN m.reqs[r].wh = 0 \/ Holding(m, m.reqs[r].wh) = {}
              ELSE m.reqs[r].gate /\ Holding(m, m.reqs[r].h) = {}
Stuck(m, p) == {r \in Open(m) : m.reqs[r].p = p /\ ~Free(m, r)}
Permits(m, p) == m.tasks = 0 \/ Cardinality(Stuck(m, p)) < m.tasks

DueAns(m) == {r \in Open(m) : /\ m.reqs[r].st # "maybe"
                              /\ Alive(m, m.reqs[r].p) /\ ~m.conns[m.reqs[r].p].paused
                              /\ Free(m, r) /\ Permits(m, m.reqs[r].p)}
DueStart(m) ==
  LET U == Open(m) \ DueAns(m)
  IN  {r \in U : /\ m.reqs[r].st = "complete" /\ ~m.reqs[r].hset
                 /\ Alive(m, m.reqs[r].p) /\ ~m.conns[m.reqs[r].p].paused
                 /\ {x \in U : m.reqs[x].h = m.reqs[r].h /\ m.reqs[x].st # "failing"} = {r}
                 /\ m.tasks = 0 \/ Cardinality({x \in U : m.reqs[x].p = m.reqs[r].p}) <= m.tasks}
DueInit(m) == {p \in 1 .. Len(m.conns) : Alive(m, p) /\ ~m.conns[p].paused}
DueClosed(m) ==
  {p \in 1 .. Len(m.conns) :
     LET c == m.conns[p] IN
     /\ ~c.paused
     /\ \/ c.st = "bad"
        \/ c.st = "up" /\ c.ended \in {"eof", "broken", "fatal", "wild"} /\ c.tail
     /\ c.ended = "eof" => {r \in Open(m) : m.reqs[r].p = p} \subseteq DueAns(m)}

Sync(m, e) ==
  LET da == DueAns(m)
      ds == DueStart(m)
      m1 == [m EXCEPT !.reqs = [r \in Reqs(m) |->
               [m.reqs[r] EXCEPT !.settled = @ \/ r \in da, !.hset = @ \/ r \in ds \/ r \in da]]]
  IN  Res(m1,
          When(\E r \in da : m.reqs[r].ans # "done" /\ m.reqs[r].st \notin {"failing", "either"} /\ m.reqs[r].run = 0, "due_start")
          \cup When(\E r \in da : m.reqs[r].ans # "done" /\ m.reqs[r].st # "failing" /\ m.reqs[r].run # 0, "due_answer")
          \cup When(\E r \in da : m.reqs[r].ans # "done" /\ (m.reqs[r].st = "failing" \/ (m.reqs[r].st = "either" /\ m.reqs[r].run = 0)), "due_error")
          \cup When(\E r \in ds : m.reqs[r].run = 0, "due_start_idle")
          \cup When(\E p \in DueInit(m) : ~m.conns[p].initres, "due_init")
          \cup When(\E p \in DueInit(m) : m.conns[p].pings # <<>>, "due_pong")
          \cup When(\E p \in DueClosed(m) : ~m.conns[p].closed, "due_close"))

\* Connections of the server that may still exist.
Existing(m) == {p \in 1 .. Len(m.conns) : m.conns[p].st # "none" /\ ~m.conns[p].closed /\ m.conns[p].ended # "rst"}

Step(m, e) ==
  CASE e.e = "conn"   -> Res([m EXCEPT !.conns[e.p].st = "open", !.conns[e.p].paused = e.paused], {})
    [] e.e = "tx"     -> Res(Tx(m, e), {})
    [] e.e = "eof"    -> Res(Eof(m, e.p), {})
    [] e.e = "rst"    -> Res([Lose(m, e.p) EXCEPT !.conns[e.p].ended = "rst"], {})
    [] e.e = "resume" -> Res([m EXCEPT !.conns[e.p].paused = FALSE], {})
    [] e.e = "gate"   -> Res([m EXCEPT !.reqs[e.r].gate = TRUE], {})
    [] e.e = "sync"   -> Sync(m, e)
    [] e.e = "rx"     -> Rx(m, e)
    [] e.e = "closed" -> Closed(m, e)
    [] e.e = "wfail"  -> Res(m, When(Alive(m, e.p), "closed_early"))
    [] e.e = "hstart" -> HStart(m, e)
    [] e.e = "hend"   -> HEnd(m, e)
    [] e.e = "hdrop"  -> HDrop(m, e)
    [] e.e = "probe"  -> Res(m, When(e.srv > Cardinality(Existing(m)), "leak"))
    \* many requests at once on a connection of their own: each is answered, once, with its own content
    [] e.e = "crowd"  -> Res(m, When(e.answered < e.n, "due_answer") \cup When(e.errors > 0, "answer_error")
                                \cup When(e.stray > 0, "answer_stray") \cup When(e.wrong > 0, "answer_content"))
    [] e.e = "panic"  -> Res(m, {"panic"})
    [] e.e = "hang"   -> Res(m, {"hang"})
    [] e.e = "setup"  -> Res(m, {"setup"})      \* a handler could not be registered, or a server not be started, before anything else
    [] e.e = "noconn" -> Res(m, {"no_connection"})
    [] OTHER -> Res(m, {})
=============================================================================
