------------------------------ MODULE SrvImpl ------------------------------
(***************************************************************************)
(* An implementation-shaped model of the server: src/server.rs,            *)
(* FramesDispatcher and FrameSender of src/connection/mod.rs,              *)
(* SubChannel::handle.  One action per piece of code between two places    *)
(* where a task may wait.  The events it produces are judged by SrvObs: in *)
(* every interleaving with every behaviour of the peers no rule may be     *)
(* broken, and whatever is due when nothing is left to be done is there.   *)
(*                                                                         *)
(* Per connection: a reader, which hands each frame to the bounded channel *)
(* of the message with its id (rd, inq, reg, q), a task per message (ts)   *)
(* and a writer, with a bounded channel in front of it (out).              *)
(***************************************************************************)
EXTENDS SrvObs, TLC

CONSTANTS NP, NH, Tasks, Buf,
          Items,       \* what peers may send: see Item
          EndPeers,    \* peers that may end their stream
          SlowPeers,   \* peers that do not read at first
          Shakers,     \* peers whose handshake is made of their frames: the others have introduced themselves properly
          \* defects
          PermitFirst,    \* a permit is needed to read a message (repaired by "requests in progress do not stop ...")
          NoEndOfInput,   \* messages are not ended with the stream (repaired by "release a connection ...")
          FailureCloses,  \* a failing message ends the connection (repaired by "answer a failing request ...")
          PingCloses,     \* (repaired by "answer ping requests")
          KeepId,         \* the id of a failed message is not released
          SharedDispatch, \* connections share a dispatcher
          EarlyUnlock,    \* the lock of a handler is released before it has finished
          AnyVersion,     \* any protocol version is accepted
          NoHello,        \* requests are served without a handshake
          LateHello,      \* the handshake is answered while requests are served
          PartialPasses,  \* a stream which ends amid a frame is taken for one which has ended
          FatalStops      \* a frame which cannot be told from others ends the server

\* Everything a peer may send: a request (nf frames; bad: position of an undecodable frame, 0 none),
\* or a frame of another kind.
N == Len(Items)
Item(i) == Items[i]
IsReq(i) == Item(i).kind = "req"
\* requests come first
NR == Cardinality({i \in 1 .. N : IsReq(i)})
Defs == [i \in 1 .. NR |-> [p |-> Item(i).p, id |-> Item(i).id, h |-> Item(i).h, ok |-> Item(i).ok, wh |-> Item(i).wh, json |-> FALSE,
                            out |-> Item(i).out, open |-> Item(i).open]]
Peers == 1 .. NP

VARIABLES m, bad,
          sent,   \* item -> frames sent
          hs,     \* peer -> "no", "open" (connected), "hello" (the handshake is to be answered), "up", "bad", "gone"
          inq,    \* peer -> frames on their way to the server
          rd,     \* peer -> frame being dispatched, "idle", "over"
          reg,    \* peer -> id -> item whose channel is registered
          q,      \* item -> frames in its channel
          ts,     \* item -> state of its task
          res,    \* item -> what the task found: "ok", "fail"
          permits, \* peer -> items that hold a permit
          lockh,  \* handler -> item that holds its lock
          out,    \* peer -> frames on their way to the peer
          ans     \* item -> frames of the answer handed to the writer
vars == <<m, bad, sent, hs, inq, rd, reg, q, ts, res, permits, lockh, out, ans>>

Ids == {Item(i).id : i \in 1 .. N}
Idle == [t |-> "idle"]
Over == [t |-> "over"]

\* Events
RECURSIVE Obs(_, _, _)
Obs(mm, b, es) == IF es = <<>> THEN [m |-> mm, bad |-> b]
                  ELSE LET r == Step(mm, Head(es)) IN Obs(r.m, b \cup r.bad, Tail(es))
Emit(es) == LET o == Obs(m, bad, es) IN m' = o.m /\ bad' = o.bad
Quiet == UNCHANGED <<m, bad>>

Init == /\ m = [InitM(Tasks, NP, NH, Defs) EXCEPT !.conns = [p \in Peers |-> NewConn]]
        /\ bad = {}
        /\ sent = [i \in 1 .. N |-> 0]
        /\ hs = [p \in Peers |-> "no"]
        /\ inq = [p \in Peers |-> <<>>]
        /\ rd = [p \in Peers |-> Idle]
        /\ reg = [p \in Peers |-> [id \in Ids |-> 0]]
        /\ q = [i \in 1 .. N |-> <<>>]
        /\ ts = [i \in 1 .. N |-> "none"]
        /\ res = [i \in 1 .. N |-> "ok"]
        /\ permits = [p \in Peers |-> {}]
        /\ lockh = [h \in 1 .. NH |-> 0]
        /\ out = [p \in Peers |-> <<>>]
        /\ ans = [i \in 1 .. N |-> 0]

------------------------------------------------------------------------------
(* Peers *)
Ended(p) == m.conns[p].ended # "no"

Connect(p) == /\ hs[p] = "no"
              /\ LET conn == [e |-> "conn", p |-> p, paused |-> p \in SlowPeers] IN
                 IF p \in Shakers
                 THEN /\ hs' = [hs EXCEPT ![p] = "open"]
                      /\ Emit(<<conn>>)
                      /\ UNCHANGED out
                 ELSE /\ hs' = [hs EXCEPT ![p] = "up"]
                      /\ Emit(<<conn, [e |-> "tx", p |-> p, t |-> "init", id |-> 77, v |-> 2, d |-> "", r |-> 0, more |-> FALSE]>>)
                      /\ out' = [out EXCEPT ![p] = <<[t |-> "initres", id |-> 77]>>]
              /\ UNCHANGED <<sent, inq, rd, reg, q, ts, res, permits, lockh, ans>>

Frame(i, k) == LET it == Item(i) IN
  IF it.kind = "req" THEN [t |-> IF k = 1 THEN "call" ELSE "cont", id |-> it.id, i |-> i, more |-> k < it.nf, d |-> IF it.bad = k THEN "trunc" ELSE ""]
  ELSE [t |-> it.kind, id |-> it.id, i |-> i, more |-> FALSE, d |-> it.d, v |-> it.v]
TxEvent(i, k) == LET f == Frame(i, k) IN
  [e |-> "tx", p |-> Item(i).p, t |-> f.t, id |-> f.id, r |-> IF IsReq(i) /\ k = 1 THEN i ELSE 0, d |-> f.d, more |-> f.more,
   v |-> IF IsReq(i) THEN 0 ELSE Item(i).v]

Send(i) == LET p == Item(i).p  k == sent[i] + 1 IN
  /\ hs[p] \in {"open", "hello", "up"} /\ ~Ended(p) /\ ~m.conns[p].tail
  /\ k <= (IF IsReq(i) THEN Item(i).nf ELSE 1)
  \* an item may ask for the end of others (an id used again after the answer)
  /\ \A j \in Item(i).after : m.reqs[j].settled
  /\ sent' = [sent EXCEPT ![i] = k]
  /\ inq' = [inq EXCEPT ![p] = Append(@, Frame(i, k))]
  /\ Emit(<<TxEvent(i, k)>>)
  /\ UNCHANGED <<hs, rd, reg, q, ts, res, permits, lockh, out, ans>>

End(p) == /\ p \in EndPeers /\ hs[p] \in {"open", "hello", "up"} /\ m.conns[p].ended \in {"no", "fatal"} /\ \A k \in 1 .. Len(inq[p]) : inq[p][k].t # "eof"
          /\ inq' = [inq EXCEPT ![p] = Append(@, [t |-> "eof", id |-> 0])]
          /\ Emit(<<[e |-> "eof", p |-> p]>>)
          /\ UNCHANGED <<sent, hs, rd, reg, q, ts, res, permits, lockh, out, ans>>

Resume(p) == /\ m.conns[p].paused
             /\ Emit(<<[e |-> "resume", p |-> p]>>)
             /\ UNCHANGED <<sent, hs, inq, rd, reg, q, ts, res, permits, lockh, out, ans>>

OpenGate(r) == /\ ~m.reqs[r].gate /\ sent[r] > 0
               /\ Emit(<<[e |-> "gate", r |-> r]>>)
               /\ UNCHANGED <<sent, hs, inq, rd, reg, q, ts, res, permits, lockh, out, ans>>

------------------------------------------------------------------------------
(* Reader *)
Chan(p) == IF SharedDispatch THEN 1 ELSE p
Registered(p, id) == reg[Chan(p)][id]
Live(i) == ts[i] = "read"         \* its receiver exists
Blocked(p) == /\ rd[p].t \notin {"idle", "over", "eof", "ping", "fatal", "part"}
              /\ LET o == Registered(p, rd[p].id) IN o # 0 /\ Live(o) /\ Len(q[o]) >= Buf

\* The first frame.
Accepted(f) == f.t = "init" /\ f.d = "" /\ (f.v = 2 \/ AnyVersion)
Shake(p) == /\ hs[p] = "open" /\ inq[p] # <<>>
            /\ LET f == Head(inq[p]) IN
               CASE Accepted(f) -> hs' = [hs EXCEPT ![p] = "hello"] /\ inq' = [inq EXCEPT ![p] = Tail(@)] /\ UNCHANGED rd
                 [] f.t = "part" -> inq' = [inq EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<hs, rd>>    \* the rest of it is awaited
                 [] NoHello /\ f.t = "call" -> hs' = [hs EXCEPT ![p] = "up"] /\ UNCHANGED <<inq, rd>>
                 [] OTHER -> hs' = [hs EXCEPT ![p] = "bad"] /\ rd' = [rd EXCEPT ![p] = Over] /\ UNCHANGED inq
            /\ Quiet /\ UNCHANGED <<sent, reg, q, ts, res, permits, lockh, out, ans>>
Greet(p) == /\ hs[p] = "hello"
            /\ hs' = [hs EXCEPT ![p] = "up"]
            /\ IF LateHello THEN UNCHANGED out ELSE out' = [out EXCEPT ![p] = <<[t |-> "initres", id |-> m.conns[p].initid]>>]
            /\ Quiet /\ UNCHANGED <<sent, inq, rd, reg, q, ts, res, permits, lockh, ans>>
GreetLate(p) == /\ LateHello /\ p \in Shakers /\ hs[p] = "up" /\ ~m.conns[p].initres /\ out[p] = <<>>
                /\ out' = [out EXCEPT ![p] = <<[t |-> "initres", id |-> m.conns[p].initid]>>]
                /\ Quiet /\ UNCHANGED <<sent, hs, inq, rd, reg, q, ts, res, permits, lockh, ans>>

Peek(p) == /\ hs[p] = "up" /\ rd[p] = Idle /\ inq[p] # <<>>
           /\ PermitFirst => \/ Tasks = 0
                             \/ Cardinality({i \in 1 .. N : Item(i).p = p /\ ts[i] \notin {"none", "done"}}) < Tasks
           /\ rd' = [rd EXCEPT ![p] = Head(inq[p])]
           /\ inq' = [inq EXCEPT ![p] = Tail(@)]
           /\ Quiet /\ UNCHANGED <<sent, hs, reg, q, ts, res, permits, lockh, out, ans>>

Deliver(p) ==
  LET f == rd[p] IN
  /\ f.t \notin {"idle", "over"}
  /\ Quiet /\ UNCHANGED <<sent, inq, res, permits, lockh, ans>>
  /\ CASE f.t = "part" -> rd' = [rd EXCEPT ![p] = Idle] /\ UNCHANGED <<hs, reg, q, ts, out>>
       [] f.t = "fatal" \/ (f.t = "eof" /\ m.conns[p].ended = "broken" /\ ~PartialPasses) ->
            \* the stream cannot be decoded: the connection is given up with all of its messages
            /\ rd' = [o \in Peers |-> IF o = p \/ (FatalStops /\ f.t = "fatal") THEN Over ELSE rd[o]]
            /\ hs' = [o \in Peers |-> IF o = p \/ (FatalStops /\ f.t = "fatal" /\ hs[o] = "up") THEN "bad" ELSE hs[o]]
            /\ UNCHANGED <<reg, q, ts, out>>
       [] f.t = "eof" ->
            /\ rd' = [rd EXCEPT ![p] = Over]
            /\ reg' = IF NoEndOfInput THEN reg ELSE [reg EXCEPT ![Chan(p)] = [id \in Ids |-> 0]]
            /\ UNCHANGED <<hs, q, ts, out>>
       [] f.t = "ping" ->
            IF PingCloses THEN rd' = [rd EXCEPT ![p] = Over] /\ hs' = [hs EXCEPT ![p] = "bad"] /\ UNCHANGED <<reg, q, ts, out>>
            ELSE /\ Len(out[p]) < Buf
                 /\ out' = [out EXCEPT ![p] = Append(@, [t |-> "pingres", id |-> f.id])]
                 /\ rd' = [rd EXCEPT ![p] = Idle]
                 /\ UNCHANGED <<hs, reg, q, ts>>
       [] OTHER ->
            LET o == Registered(p, f.id) IN
            /\ UNCHANGED <<hs, out>>
            /\ rd' = [rd EXCEPT ![p] = Idle]
            /\ IF o # 0
               THEN IF Live(o) THEN Len(q[o]) < Buf /\ q' = [q EXCEPT ![o] = Append(@, f)] /\ UNCHANGED <<reg, ts>>
                    ELSE UNCHANGED <<reg, q, ts>>
               ELSE IF f.t = "cont" THEN UNCHANGED <<reg, q, ts>>
               ELSE /\ reg' = [reg EXCEPT ![Chan(p)][f.id] = f.i]
                    /\ q' = [q EXCEPT ![f.i] = <<f>>]
                    /\ ts' = [ts EXCEPT ![f.i] = "read"]

------------------------------------------------------------------------------
(* Task of a message *)
P(i) == Item(i).p

ReadFrame(i) ==
  /\ ts[i] = "read"
  /\ Quiet /\ UNCHANGED <<sent, hs, inq, rd, reg, permits, lockh, out, ans>>
  /\ IF q[i] # <<>>
     THEN LET f == Head(q[i])
              \* the first frame of the message has to be a call, the others its continuation
              right == f.t = (IF res[i] = "ok" THEN "call" ELSE "cont")
          IN  IF ~IsReq(i) \/ f.d # "" \/ ~right
              THEN ts' = [ts EXCEPT ![i] = "dereg"] /\ res' = [res EXCEPT ![i] = "fail"] /\ q' = [q EXCEPT ![i] = <<>>]
              ELSE IF f.more THEN q' = [q EXCEPT ![i] = Tail(@)] /\ res' = [res EXCEPT ![i] = "more"] /\ UNCHANGED ts
              ELSE ts' = [ts EXCEPT ![i] = "dereg"] /\ res' = [res EXCEPT ![i] = "ok"] /\ q' = [q EXCEPT ![i] = <<>>]
     ELSE /\ reg[Chan(P(i))][Item(i).id] # i    \* sender dropped
          /\ ts' = [ts EXCEPT ![i] = "dereg"] /\ res' = [res EXCEPT ![i] = "fail"] /\ UNCHANGED q

Deregister(i) ==
  /\ ts[i] = "dereg"
  /\ \A p \in Peers : Chan(p) = Chan(P(i)) => ~Blocked(p)      \* the reader holds the lock while it waits
  /\ reg' = IF KeepId /\ res[i] = "fail" THEN reg ELSE [reg EXCEPT ![Chan(P(i))][Item(i).id] = 0]
  /\ ts' = [ts EXCEPT ![i] = IF res[i] = "fail" THEN "answer" ELSE "permit"]
  /\ Quiet /\ UNCHANGED <<sent, hs, inq, rd, q, res, permits, lockh, out, ans>>

Acquire(i) ==
  /\ ts[i] = "permit"
  /\ Tasks = 0 \/ Cardinality(permits[P(i)]) < Tasks
  /\ LET direct == ~Item(i).ok /\ Item(i).wh = 0 IN     \* no such service or endpoint
     /\ permits' = [permits EXCEPT ![P(i)] = IF direct THEN @ ELSE @ \cup {i}]
     /\ ts' = [ts EXCEPT ![i] = IF direct THEN "answer" ELSE "lock"]
     /\ res' = [res EXCEPT ![i] = IF direct THEN "fail" ELSE @]
  /\ Quiet /\ UNCHANGED <<sent, hs, inq, rd, reg, q, lockh, out, ans>>

Lock(i) ==
  LET h == IF Item(i).ok THEN Item(i).h ELSE Item(i).wh IN
  /\ ts[i] = "lock" /\ lockh[h] = 0
  /\ IF Item(i).ok
     THEN /\ lockh' = [lockh EXCEPT ![h] = IF EarlyUnlock THEN 0 ELSE i]
          /\ ts' = [ts EXCEPT ![i] = "run"]
          /\ Emit(<<[e |-> "hstart", r |-> i, h |-> h, inv |-> i]>>)
          /\ UNCHANGED <<permits, res>>
     ELSE /\ ts' = [ts EXCEPT ![i] = "answer"]      \* the message does not suit the handler
          /\ permits' = [permits EXCEPT ![P(i)] = @ \ {i}]
          /\ res' = [res EXCEPT ![i] = "fail"]
          /\ Quiet /\ UNCHANGED lockh
  /\ UNCHANGED <<sent, hs, inq, rd, reg, q, out, ans>>

Return(i) ==
  /\ ts[i] = "run" /\ m.reqs[i].gate
  /\ lockh' = [lockh EXCEPT ![Item(i).h] = 0]
  /\ permits' = [permits EXCEPT ![P(i)] = @ \ {i}]
  /\ ts' = [ts EXCEPT ![i] = "answer"]
  /\ res' = [res EXCEPT ![i] = IF Item(i).out = "gen" THEN "fail" ELSE "ok"]
  /\ Emit(<<[e |-> "hend", r |-> i, h |-> Item(i).h, inv |-> i]>>)
  /\ UNCHANGED <<sent, hs, inq, rd, reg, q, out, ans>>

Answer(i) ==
  LET p == P(i)
      nf == IF res[i] = "fail" THEN 1 ELSE Item(i).rf
      k == ans[i] + 1
      f == IF res[i] = "fail" THEN [t |-> "error", id |-> Item(i).id]
           ELSE [t |-> IF k = 1 THEN "callres" ELSE "callrescont", id |-> Item(i).id, i |-> i, more |-> k < nf]
  IN /\ ts[i] = "answer"
     /\ Quiet /\ UNCHANGED <<sent, inq, reg, q, res, permits, lockh>>
     /\ IF FailureCloses /\ res[i] = "fail"
        THEN /\ hs' = [hs EXCEPT ![p] = "bad"] /\ rd' = [rd EXCEPT ![p] = Over]
             /\ ts' = [ts EXCEPT ![i] = "done"] /\ UNCHANGED <<out, ans>>
        ELSE /\ Len(out[p]) < Buf
             /\ out' = [out EXCEPT ![p] = Append(@, f)]
             /\ ans' = [ans EXCEPT ![i] = k]
             /\ ts' = [ts EXCEPT ![i] = IF k = nf THEN "done" ELSE @]
             /\ UNCHANGED <<hs, rd>>

------------------------------------------------------------------------------
(* Writer *)
RxEvent(p, f) ==
  [e |-> "rx", p |-> p, t |-> f.t, id |-> f.id, bad |-> "", v |-> 2]
  @@ (IF f.t \in {"callres", "callrescont"}
      THEN [more |-> f.more, last |-> ~f.more, args |-> <<1, 1, 1>>, m |-> <<f.i>>, as |-> "raw",
            code |-> IF Item(f.i).out = "ok" THEN 0 ELSE 1,
            ch |-> IF f.t = "callres" THEN (IF f.more THEN <<1, 1>> ELSE <<1, 1, 1>>) ELSE IF f.more THEN <<0>> ELSE <<0, 1>>]
      ELSE [more |-> FALSE])
Write(p) == /\ out[p] # <<>> /\ ~m.conns[p].paused /\ hs[p] \in {"up", "bad"}
            /\ out' = [out EXCEPT ![p] = Tail(@)]
            /\ Emit(<<RxEvent(p, Head(out[p]))>>)
            /\ UNCHANGED <<sent, hs, inq, rd, reg, q, ts, res, permits, lockh, ans>>

\* All tasks are done and everything is written, or the connection failed: its tasks are dropped.
Finished(p) == rd[p] = Over /\ \A i \in 1 .. N : P(i) = p => ts[i] \in {"none", "done"}
Running(p) == {i \in 1 .. N : P(i) = p /\ ts[i] = "run"}
RECURSIVE DropAll(_)
DropAll(S) == IF S = {} THEN <<>> ELSE LET i == Min(S) IN <<[e |-> "hdrop", r |-> i, h |-> Item(i).h, inv |-> i]>> \o DropAll(S \ {i})
Close(p) == /\ hs[p] = "bad" \/ (hs[p] = "up" /\ Finished(p))
            /\ out[p] = <<>> /\ ~ENABLED GreetLate(p)
            /\ hs' = [hs EXCEPT ![p] = "gone"]
            /\ Emit(DropAll(Running(p)) \o <<[e |-> "closed", p |-> p, how |-> "eof"]>>)
            /\ ts' = [i \in 1 .. N |-> IF P(i) = p THEN "done" ELSE ts[i]]
            /\ permits' = [permits EXCEPT ![p] = {}]
            /\ lockh' = [h \in 1 .. NH |-> IF lockh[h] \in Running(p) THEN 0 ELSE lockh[h]]
            /\ reg' = IF hs[p] = "bad" /\ ~SharedDispatch THEN [reg EXCEPT ![p] = [id \in Ids |-> 0]] ELSE reg
            /\ UNCHANGED <<sent, inq, rd, q, res, out, ans>>

------------------------------------------------------------------------------
Server == \/ \E p \in Peers : Shake(p) \/ Greet(p) \/ GreetLate(p) \/ Peek(p) \/ Deliver(p) \/ Write(p) \/ Close(p)
          \/ \E i \in 1 .. N : ReadFrame(i) \/ Deregister(i) \/ Acquire(i) \/ Lock(i) \/ Return(i) \/ Answer(i)

\* Nothing is left to be done: everything due has to be there.
Settle == /\ ~ENABLED Server
          /\ Emit(<<[e |-> "sync"]>>)
          /\ UNCHANGED <<sent, hs, inq, rd, reg, q, ts, res, permits, lockh, out, ans>>

Next == \/ Server
        \/ \E p \in Peers : Connect(p) \/ End(p) \/ Resume(p)
        \/ \E i \in 1 .. N : Send(i)
        \/ \E r \in 1 .. NR : OpenGate(r)
        \/ Settle
Spec == Init /\ [][Next]_vars

RulesKept == bad = {}
Limits == /\ \A p \in Peers : Tasks > 0 => Cardinality(permits[p]) <= Tasks
          /\ \A p \in Peers : Len(out[p]) <= Buf
          /\ \A i \in 1 .. N : Len(q[i]) <= Buf
\* Nothing is kept for a closed connection.
Released == \A p \in Peers : hs[p] = "gone" => /\ \A id \in Ids : reg[p][id] = 0
                                               /\ permits[p] = {}
                                               /\ \A h \in 1 .. NH : lockh[h] # 0 => P(lockh[h]) # p
=============================================================================
