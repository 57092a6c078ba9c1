------------------------------- MODULE CliObs -------------------------------
(***************************************************************************)
(* What the callers of a tchannel client, and the servers it talks to, may *)
(* observe.  Same structure as SrvObs: a record m and Step(m, ev).         *)
(*                                                                         *)
(* Events of the environment: call, drop (a caller abandons a call), jump  *)
(* (the counter of message ids wraps around to just before the given id),  *)
(* accept, hs (handshake answered, or not), pong (ping answered), nopong,  *)
(* stx (a frame of a server), lose (a server ends a connection), down/up/  *)
(* mode/pmode/pause/unpause (of an address), sync (everything due has been *)
(* waited for), age, aged (meanwhile, nothing was done for longer than any *)
(* timeout).                                                               *)
(* Events of the client: srx (a frame), sclosed, swfail (it closed a       *)
(* connection), ret (a call returns), panic, probe.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Frag

\* Defects of a response frame that make the response unusable.
BadRes == {"csum", "csumbad", "trunc", "lenover", "half", "empty", "nhover", "over", "noas", "as", "asutf8", "wrongas"}
\* ... that may or may not be tolerated.
OddRes == {"flags", "tflags", "code"}

\* d: [a, svc, as, out, inv, lens]; out: "none" if there is no frame for the call
NewCall(d) == [a |-> d.a, svc |-> d.svc, as |-> d.as, out |-> d.out, lens |-> d.lens,
               st |-> "new",     \* new, started, arrived, returned, dropped
               conn |-> 0, id |-> "", t |-> 0,
               last |-> 0,       \* the last frame of its response
               exc |-> {},       \* lost connections which may hit it: nobody was told of them when it started
               rs |-> "none"]    \* response: none, partial, complete, failed, odd, mixed (with frames for another call)

NewConn(a) == [a |-> a, st |-> "new",   \* new, init (asked for a handshake), up, bad
               lost |-> "no",           \* no, fin, rst, garbage, half: how the server ended it
               rep |-> FALSE,           \* ... and a caller knows
               badpong |-> 0,           \* since when its test has failed; -1: a test was given up
          closed |-> FALSE, asm |-> <<>>,
          mute |-> FALSE,          \* its handshake, or a ping, will never be answered
          old |-> 0,               \* since when it has been too old to be used, or 0
          idle |-> FALSE,          \* it was not in use when the client was left alone for a while
          gone |-> FALSE,          \* it may have been given up
          sent |-> 0,              \* frames of responses
          stale |-> <<>>]          \* id -> [n: its last frame, t: when that frame is known to have been read, or 0]

NewAddr == [up |-> TRUE, hsok |-> TRUE, pok |-> TRUE, paused |-> FALSE, opens |-> 0, losses |-> 0, peak |-> 0]

\* life: connections become too old while the client is left alone
InitM(max, na, life, defs) ==
  [life |-> life, aging |-> FALSE, wait |-> {}, max |-> max, calls |-> [k \in 1 .. Len(defs) |-> NewCall(defs[k])], conns |-> <<>>,
   addrs |-> [a \in 1 .. na |-> NewAddr], jumped |-> FALSE, t |-> 0]

Calls(m) == 1 .. Len(m.calls)
Conns(m) == 1 .. Len(m.conns)
Res(m, bad) == [m |-> m, bad |-> bad]
When(c, rule) == IF c THEN {rule} ELSE {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x

Healthy(c) == c.st # "bad" /\ c.old = 0 /\ ~c.gone /\ c.lost = "no" /\ c.badpong = 0 /\ ~c.closed
Outstanding(m) == {k \in Calls(m) : m.calls[k].st \in {"started", "arrived"}}
\* An abandoned call may still be waiting for a connection, for all one can see.
Live(m, a) == {k \in Calls(m) : m.calls[k].a = a /\ m.calls[k].st \in {"started", "arrived", "dropped"}}
Unreported(m, a) == {c \in Conns(m) : m.conns[c].a = a /\ m.conns[c].st = "up" /\ m.conns[c].lost # "no" /\ ~m.conns[c].rep}
Blocked(m, a) == ~m.addrs[a].up \/ ~m.addrs[a].hsok \/ m.addrs[a].paused \/ \E c \in Conns(m) : m.conns[c].a = a /\ m.conns[c].mute /\ ~m.conns[c].closed
On(m, c, id) == {k \in Calls(m) : m.calls[k].st = "arrived" /\ m.calls[k].conn = c /\ m.calls[k].id = id}

------------------------------------------------------------------------------
(* Callers *)

Start(m, k) ==
  LET q == m.calls[k]
      m1 == [m EXCEPT !.calls[k].st = "started", !.calls[k].exc = Unreported(m, q.a), !.calls[k].t = m.t]
  IN  [m1 EXCEPT !.addrs[q.a].peak = Max2(@, Cardinality(Live(m1, q.a)))]

\* May call k fail although nothing went wrong with its own response?
Excused(m, q) ==
  \/ q.st = "started" /\ q.exc # {}
  \/ q.st = "started" /\ m.aging     \* it waited for too long
  \/ q.st = "started" /\ m.jumped
  \/ q.st = "arrived" /\ m.conns[q.conn].lost # "no"
  \/ q.st = "arrived" /\ m.conns[q.conn].st = "bad"

\* Frames sent earlier for the same id may be taken for a response to a call started at t.
Stale(m, c, id, t) == LET s == m.conns[c].stale IN id \in DOMAIN s /\ (s[id].t = 0 \/ s[id].t > t)

\* A frame that is still to be sent.
Later == 1000000

\* Frames are read in order: the client has read the first n on connection c.
ReadTo(m, c, n) ==
  [m EXCEPT !.conns[c].stale = [id \in DOMAIN @ |-> IF @[id].t = 0 /\ @[id].n <= n THEN [@[id] EXCEPT !.t = m.t] ELSE @[id]]]

Ret(m, e) ==
  LET q == m.calls[e.k]
      m1 == [m EXCEPT !.calls[e.k].st = "returned"]
      lost == IF q.st = "arrived" THEN m.conns[q.conn].lost ELSE "no"
      reported == IF q.out = "none" \/ q.rs \in {"failed", "odd", "mixed"} THEN {}    \* its own response may be the reason
                  ELSE IF q.st = "arrived" THEN {q.conn} ELSE IF Cardinality(q.exc) = 1 THEN q.exc ELSE {}
      m2 == [m1 EXCEPT !.conns = [c \in Conns(m) |-> IF c \in reported /\ m.conns[c].lost # "no"
                                                     THEN [m.conns[c] EXCEPT !.rep = TRUE] ELSE m.conns[c]]]
  IN  IF e.out = "err"
      THEN Res(m2, CASE q.out = "none" -> {}
                     [] q.rs \in {"failed", "odd", "mixed"} -> {}
                     [] q.rs = "complete" -> When(lost \in {"no", "fin"}, "ret_error")
                     [] OTHER -> When(~Excused(m, q), "ret_early"))
      ELSE IF q.st = "started" /\ m.jumped /\ \E c \in Conns(m) : m.conns[c].a = q.a /\ \E id \in DOMAIN m.conns[c].stale : Stale(m, c, id, q.t)
      THEN Res(m1, {})
      ELSE Res(IF q.rs = "complete" THEN ReadTo(m1, q.conn, q.last) ELSE m1,
               CASE q.rs = "complete" -> When(~Has(e.m, e.k), "ret_content") \cup When(e.out # q.out, "ret_kind")
                     [] q.rs = "odd" -> When(~Has(e.m, e.k), "ret_false")
                     [] q.rs = "mixed" -> {}
                     [] OTHER -> {"ret_false"})

------------------------------------------------------------------------------
(* Frames of the client *)

Busy(m, c, id) ==
  \/ On(m, c, id) # {}
  \/ /\ \E i \in 1 .. Len(m.conns[c].asm) : m.conns[c].asm[i].id = id
     \* fragments of an abandoned call need not be followed by others
     /\ ~\E k \in Calls(m) : m.calls[k].st = "dropped" /\ m.calls[k].conn = 0 /\ m.calls[k].a = m.conns[c].a

Without(asm, id) == SelectSeq(asm, LAMBDA x : x.id # id)

\* The frames of a request are complete.
Arrive(m, c, a, e) ==
  LET addr == m.conns[c].a
      here == {k \in Calls(m) : Has(e.m, k)}
      open == {k \in here : m.calls[k].st = "started"}
      bad == When(Len(a.args) # NArgs \/ a.args # e.args, "request_args")
  IN  IF here = {} THEN Res(m, bad \cup {"request_content"})
      ELSE LET k == IF open = {} THEN Min(here) ELSE Min(open)
               q == m.calls[k]
               m1 == IF q.st = "started" THEN [m EXCEPT !.calls[k].st = "arrived", !.calls[k].conn = c, !.calls[k].id = a.id,
                                                        !.calls[k].rs = IF Stale(m, c, a.id, q.t) THEN "mixed" ELSE @]
                     ELSE IF q.conn = 0 THEN [m EXCEPT !.calls[k].conn = c, !.calls[k].id = a.id] ELSE m
           IN  Res(m1, bad
                 \cup When(q.conn # 0, "request_twice")
                 \cup When(q.a # addr, "request_address")
                 \cup When(q.svc # a.svc, "request_service")
                 \cup When(q.as # a.as, "request_scheme")
                 \cup When(m.conns[c].old > 0 /\ q.t > m.conns[c].old, "aged_used")
                 \cup When(m.conns[c].badpong > 0 /\ q.t > m.conns[c].badpong, "used_failed_conn"))

CallFrame(m, c, e) ==
  LET x == m.conns[c]
      frame == When(Len(e.ch) \notin 1 .. MaxChunks, "frame_chunks")
      first == e.t = "callreq"
      is == {i \in 1 .. Len(x.asm) : x.asm[i].id = e.id}
      a == IF first THEN [id |-> e.id, args |-> e.ch, svc |-> e.svc, as |-> e.as]
           ELSE IF is = {} THEN [id |-> "", args |-> <<>>, svc |-> "", as |-> ""]
           ELSE [x.asm[Min(is)] EXCEPT !.args = JoinLens(@, e.ch, FALSE)]
      bad == frame \cup When(first /\ Busy(m, c, e.id), "id_in_use") \cup When(~first /\ is = {}, "frame_stray")
      m1 == [m EXCEPT !.conns[c].asm = IF e.more THEN Append(Without(@, e.id), a) ELSE Without(@, e.id)]
      fin == Arrive(m1, c, a, e)
  IN  IF bad # {} \/ e.more THEN Res(m1, bad) ELSE fin

Srx(m, e) ==
  LET c == e.c
      x == m.conns[c]
  IN  CASE e.bad # "" -> Res(m, {"frame_bad"})
        [] x.st = "new" -> Res([m EXCEPT !.conns[c].st = "init"], When(e.t # "initreq" \/ e.v # 2, "handshake_first"))
        [] x.st # "up" -> Res(m, {"before_handshake"})
        [] e.t \in {"callreq", "callreqcont"} -> CallFrame(m, c, e)
        [] e.t = "pingreq" -> Res([m EXCEPT !.conns[c].stale = (e.id :> [n |-> Later, t |-> 0]) @@ @], When(On(m, c, e.id) # {}, "id_in_use"))
        [] OTHER -> Res(m, {"frame_type"})

------------------------------------------------------------------------------
(* Servers *)

Accept(m, e) ==
  LET a == e.a
      m1 == [m EXCEPT !.conns = Append(@, NewConn(a)), !.addrs[a].opens = @ + 1]
      healthy == {c \in Conns(m1) : m1.conns[c].a = a /\ Healthy(m1.conns[c])}
  \* a test may fail if its id is in use
  IN  Res(m1, IF m.jumped \/ m.life THEN {} ELSE When(Cardinality(healthy) > m.max, "pool_bound")
              \cup When(m1.addrs[a].opens > Min2(m.max, m.addrs[a].peak) + m.addrs[a].losses, "pool_opens"))

Lost1(m, c) == [m EXCEPT !.addrs[m.conns[c].a].losses = @ + 1]

\* hs: the handshake is answered
Hs(m, e) ==
  IF e.ok THEN [m EXCEPT !.conns[e.c].st = IF @ = "init" THEN "up" ELSE @]
  ELSE [Lost1(m, e.c) EXCEPT !.conns[e.c].st = "bad", !.conns[e.c].mute = e.mute]

NoPong(m, e) ==
  LET x == m.conns[e.c]
  IN  [(IF x.gone THEN m ELSE Lost1(m, e.c)) EXCEPT !.conns[e.c].mute = @ \/ e.mute, !.conns[e.c].gone = TRUE]

\* Whether a test succeeded does not matter if nobody waits for its result any more.
GivenUp(m, a) == \E k \in Calls(m) : m.calls[k].a = a /\ m.calls[k].st = "dropped" /\ m.calls[k].conn = 0
Pong(m, e) ==
  LET x == m.conns[e.c]
      open == {id \in DOMAIN x.stale : x.stale[id].n = Later}
      m1 == [m EXCEPT !.conns[e.c].sent = x.sent + 1,
                      !.conns[e.c].stale = IF Cardinality(open) = 1 THEN [id \in open |-> [n |-> x.sent + 1, t |-> 0]] @@ @ ELSE @]
  IN  IF e.ok THEN m1
      ELSE [Lost1(m1, e.c) EXCEPT !.conns[e.c].badpong = IF GivenUp(m, m.conns[e.c].a) THEN -1 ELSE IF @ = 0 THEN m.t ELSE @]
DropCall(m, k) ==
  LET q == m.calls[k]
      m1 == [m EXCEPT !.calls[k].st = "dropped"]
  IN  IF q.st # "started" THEN m1
      ELSE [m1 EXCEPT !.conns = [c \in Conns(m) |-> IF m.conns[c].a = q.a /\ m.conns[c].badpong > 0
                                                     THEN [m.conns[c] EXCEPT !.badpong = -1] ELSE m.conns[c]]]

Stx(m, e) ==
  LET ks == On(m, e.c, e.id)
      n == m.conns[e.c].sent + 1
      m1 == [m EXCEPT !.conns[e.c].sent = n, !.conns[e.c].stale = (e.id :> [n |-> n, t |-> 0]) @@ @]
  IN  IF ks = {} THEN m1     \* nobody waits for it
      ELSE LET k == Min(ks)
               rs == m.calls[k].rs
               last == IF e.more THEN "partial" ELSE IF e.inv > 0 THEN "failed" ELSE "complete"
               next == CASE rs \in {"complete", "failed"} -> rs
                         [] rs = "mixed" \/ e.k \notin {0, k} -> "mixed"
                         [] e.t = "error" -> IF e.d = "" THEN "failed" ELSE "failed"
                         [] e.t \in {"res", "rescont"} /\ e.d \in BadRes -> IF rs = "odd" THEN "odd" ELSE "failed"
                         [] e.t \in {"res", "rescont"} /\ e.d \in OddRes -> "odd"
                         [] rs = "odd" -> "odd"
                         [] e.t = "res" -> IF rs = "none" THEN last ELSE "failed"
                         [] e.t = "rescont" -> IF rs = "partial" THEN last ELSE "odd"
                         [] OTHER -> "odd"
           IN  [m1 EXCEPT !.calls[k].rs = next, !.calls[k].last = n]

Lose(m, e) ==
  LET x == m.conns[e.c]
  IN  IF x.lost # "no" \/ x.closed THEN m
      ELSE LET m1 == [Lost1(m, e.c) EXCEPT !.conns[e.c].lost = e.how]
           IN  IF x.st # "up" THEN m1
               ELSE [m1 EXCEPT !.calls = [k \in Calls(m) |-> IF m.calls[k].st = "started" /\ m.calls[k].a = x.a
                                                             THEN [m.calls[k] EXCEPT !.exc = @ \cup {e.c}] ELSE m.calls[k]]]

\* The client ends a connection.  It may do so if the connection is too old, but not with calls on it.
Ended(m, e) ==
  LET x == m.conns[e.c]
      good == x.st = "up" /\ x.lost = "no" /\ x.badpong = 0 /\ ~x.closed /\ (m.life \/ ~x.gone)
      used == {k \in Calls(m) : m.calls[k].st = "arrived" /\ m.calls[k].conn = e.c} # {}
      m1 == IF good /\ m.life /\ ~x.gone THEN [Lost1(m, e.c) EXCEPT !.conns[e.c].gone = TRUE]
            ELSE IF x.st = "init" THEN Lost1(m, e.c) ELSE m
  IN  Res([m1 EXCEPT !.conns[e.c].closed = TRUE],
          When(good /\ ~m.jumped /\ (~m.life \/ used), "client_closed")
          \cup When(e.e = "sclosed" /\ e.how = "garbage", "frame_bad"))

------------------------------------------------------------------------------
(* What is due without any further step of the environment. *)

Dead(m, c) == m.conns[c].lost # "no"
DueReturn(m) == {k \in Calls(m) : m.calls[k].st = "arrived" /\ (m.calls[k].rs \in {"complete", "failed"} \/ Dead(m, m.calls[k].conn))}
DueArrive(m) == {k \in Calls(m) : m.calls[k].st = "started" /\ ~Blocked(m, m.calls[k].a)}

Sync(m) ==
  Res(m, When(\E k \in DueReturn(m) : m.calls[k].rs \in {"complete", "failed"}, "due_return")
         \cup When(\E k \in DueReturn(m) : Dead(m, m.calls[k].conn) /\ m.calls[k].rs \notin {"complete", "failed"}, "due_fail")
         \cup When(DueArrive(m) # {}, "due_arrive"))

------------------------------------------------------------------------------
(* The client is left alone for longer than any of its timeouts. *)

\* Nothing but a connection can be what such a call waits for.
Waits(m) == {k \in Calls(m) :
  LET a == m.calls[k].a IN
  /\ m.calls[k].st = "started" /\ ~m.addrs[a].paused /\ (~m.addrs[a].up \/ ~m.addrs[a].hsok)
  /\ \A c \in Conns(m) : m.conns[c].a = a => m.conns[c].st # "up" \/ m.conns[c].lost # "no"}
\* Connections which are not in use.
Idle(m, c) == LET x == m.conns[c] IN
  /\ x.st = "up" /\ x.lost = "no" /\ ~x.closed /\ x.badpong = 0 /\ ~x.mute
  /\ ~\E k \in Calls(m) : m.calls[k].a = x.a /\ m.calls[k].st = "started"
Age(m) == [m EXCEPT !.aging = TRUE, !.wait = Waits(m), !.conns = [c \in Conns(m) |-> [m.conns[c] EXCEPT !.idle = Idle(m, c)]]]
\* e.solved: connections on which nothing was answered for longer than any timeout
Aged(m, e) ==
  LET late == {k \in m.wait : m.calls[k].st = "started"}
      Solved(c) == Has(e.solved, c)
  IN  Res([m EXCEPT !.aging = FALSE, !.wait = {},
                    !.conns = [c \in Conns(m) |->
                       LET x == m.conns[c] IN
                       [x EXCEPT !.idle = FALSE, !.mute = @ /\ ~Solved(c),
                                 !.old = IF m.life /\ x.idle /\ @ = 0 THEN m.t ELSE @]]],
          When(late # {}, "due_giveup")
          \cup When(\E c \in Conns(m) : Solved(c) /\ m.conns[c].st = "bad" /\ ~m.conns[c].closed, "kept_open"))

Step0(m, e) ==
  CASE e.e = "call"    -> Res(Start(m, e.k), {})
    [] e.e = "drop"    -> Res(DropCall(m, e.k), {})
    [] e.e = "jump"    -> Res([m EXCEPT !.jumped = TRUE], {})
    [] e.e = "ret"     -> Ret(m, e)
    [] e.e = "accept"  -> Accept(m, e)
    [] e.e = "srx"     -> Srx(m, e)
    [] e.e = "hs"      -> Res(Hs(m, e), {})
    [] e.e = "nopong"  -> Res(NoPong(m, e), {})
    [] e.e = "pong"    -> Res(Pong(m, e), {})
    [] e.e = "stx"     -> Res(Stx(m, e), {})
    [] e.e = "lose"    -> Res(Lose(m, e), {})
    [] e.e \in {"sclosed", "swfail"} -> Ended(m, e)
    [] e.e = "down"    -> Res([m EXCEPT !.addrs[e.a].up = FALSE], {})
    [] e.e = "up"      -> Res([m EXCEPT !.addrs[e.a].up = TRUE], {})
    [] e.e = "mode"    -> Res([m EXCEPT !.addrs[e.a].hsok = e.ok], {})
    [] e.e = "pmode"   -> Res([m EXCEPT !.addrs[e.a].pok = e.ok], {})
    [] e.e = "pause"   -> Res([m EXCEPT !.addrs[e.a].paused = TRUE], {})
    [] e.e = "unpause" -> Res([m EXCEPT !.addrs[e.a].paused = FALSE], {})
    [] e.e = "sync"    -> Sync(m)
    [] e.e = "age"     -> Res(Age(m), {})
    [] e.e = "aged"    -> Aged(m, e)
    [] e.e = "probe"   -> Res(m, When(e.pending > Cardinality(Outstanding(m)), "leak_ids"))
    \* many calls at once by a client of their own: each is sent once, and returns its own answer
    [] e.e = "crowd"   -> Res(m, When(e.arrived < e.n, "due_arrive") \cup When(e.returned < e.n, "due_return") \cup When(e.errors > 0, "ret_early")
                                 \cup When(e.wrong > 0, "ret_content") \cup When(e.stray > 0 \/ e.arrived > e.n, "request_twice")
                                 \cup When(e.conns > e.max, "pool_bound"))
    [] e.e = "panic"   -> Res(m, {"panic"})
    [] e.e = "hang"    -> Res(m, {"hang"})
    [] OTHER -> Res(m, {})

Step(m, e) == LET r == Step0(m, e) IN [m |-> [r.m EXCEPT !.t = @ + 1], bad |-> r.bad]
=============================================================================
