------------------------------ MODULE CliImpl ------------------------------
(***************************************************************************)
(* An implementation-shaped model of the client: SubChannel::send and      *)
(* connect, src/connection/pool.rs with the pool of bb8, Connection,       *)
(* FramesDispatcher, FrameSender, FrameReceiver and FrameOutput of         *)
(* src/connection/mod.rs.  One action per piece of code between two places *)
(* where a task may wait, or be dropped.  Its events are judged by CliObs. *)
(*                                                                         *)
(* One address.  Connection c is the c-th one opened.                      *)
(***************************************************************************)
EXTENDS CliObs

CONSTANTS NK,        \* calls
          Max,       \* connections
          Buf,       \* size of the frame channels
          Test,      \* connections are tested before they are used
          NF, RF,    \* frames of a request, of a response (functions of the call)
          Ids,       \* size of the space of message ids
          Losses, Drops, Strays, BadPongs,     \* budgets of the environment
          How,       \* how connections are lost
          \* defects
          NoClose,      \* the end of a connection is not noticed ("end outstanding calls of a closed connection ...")
          NoPermits,    \* callers wait inside of the pool ("callers waiting for a connection get another one ...")
          DupReplaces,  \* an id used twice ("a duplicated message id does not replace the outstanding call")
          NoRelease,    \* ids of abandoned calls ("release the message id of an abandoned call")
          KeepInput,    \* input of a test not dropped before its output is closed ("frames repeated by a peer ...")
          PartialOk,    \* ("a message whose last fragments never arrive is an error")
          UnknownCloses, \* a frame with an unknown id ends the connection
          EarlyRelease, \* the id is released when the request was sent
          Missed,       \* ("a caller does not wait for a connection which is idle")
          \* long waits
          Ages, Mutes, Freezes, Life,   \* budgets: waits, handshakes and tests never answered; retirement of idle connections
          RetireCloses, \* a retired connection is closed with the calls on it
          HsForever, TestForever,       \* ("give up connecting ...", "a connection test which is not answered fails")
          Patient,      \* a call waits for a connection without limit
          \* handshakes
          BadHellos,    \* budget: handshakes answered with another version, an error, or something else
          AnyHello,     \* any answer to a handshake will do
          EarlyUse      \* a connection is used before its handshake is answered

Ks == 1 .. NK
Defs == [k \in Ks |-> [a |-> 1, svc |-> "s", as |-> "raw", out |-> "ok", lens |-> <<1, 1, 1>>]]
Space == 0 .. Ids - 1

VARIABLES m, bad,
          cs,      \* call -> state
          cc,      \* call -> its connection
          ci,      \* call -> its message id
          cf,      \* call -> frames sent
          rs,      \* call -> frames of its response sent
          re,      \* call -> result found
          cn,      \* connection -> [st, closed, nid, reg]
          idle,    \* connections in the pool which are not in use
          total,   \* connections which the pool counts, including those being opened
          opening, \* connections to be opened
          q,       \* owner -> frames in its channel; owners are calls, and NK + k for the test done by call k
          live,    \* owners whose receiver exists
          zomb,    \* <<connection, id>> to be released by a task of its own
          inq, out, \* connection -> frames
          pings,   \* connection -> ids of pings to be answered
          left     \* what is left of the budgets
vars == <<m, bad, cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

RECURSIVE Obs(_, _, _)
Obs(mm, b, es) == IF es = <<>> THEN [m |-> mm, bad |-> b]
                  ELSE LET r == Step(mm, Head(es)) IN Obs(r.m, b \cup r.bad, Tail(es))
Emit(es) == LET o == Obs(m, bad, es) IN m' = o.m /\ bad' = o.bad
Quiet == UNCHANGED <<m, bad>>

Owners == 1 .. 2 * NK
Cs == 1 .. Len(cn)
NewC == [st |-> "opening", closed |-> FALSE, nid |-> 0, reg |-> [i \in Space |-> 0]]

Init == /\ m = IF Ids < 10 THEN [InitM(Max, 1, Life, Defs) EXCEPT !.jumped = TRUE] ELSE InitM(Max, 1, Life, Defs)
        /\ bad = {}
        /\ cs = [k \in Ks |-> "new"] /\ cc = [k \in Ks |-> 0] /\ ci = [k \in Ks |-> 0] /\ cf = [k \in Ks |-> 0]
        /\ rs = [k \in Ks |-> 0] /\ re = [k \in Ks |-> "none"]
        /\ cn = <<>> /\ idle = {} /\ total = 0 /\ opening = 0
        /\ q = [o \in Owners |-> <<>>] /\ live = {} /\ zomb = {}
        /\ inq = <<>> /\ out = <<>> /\ pings = <<>>
        /\ left = [loss |-> Losses, drop |-> Drops, stray |-> Strays, bad |-> BadPongs,
                   age |-> Ages, mute |-> Mutes, freeze |-> Freezes, frozen |-> {}, asked |-> {}, hello |-> BadHellos]

------------------------------------------------------------------------------
(* Connections *)

\* The reader holds the lock of the dispatcher while it waits for room in a channel.
Target(c) == IF inq[c] # <<>> /\ Head(inq[c]).t # "eof" THEN cn[c].reg[Head(inq[c]).id] ELSE 0
Stalled(c) == ~cn[c].closed /\ Target(c) # 0 /\ Target(c) \in live /\ Len(q[Target(c)]) >= Buf
Lost(c) == m.conns[c].lost # "no"

Read(c) ==
  /\ cn[c].st = "up" /\ ~cn[c].closed /\ inq[c] # <<>> /\ ~Stalled(c)
  /\ inq' = [inq EXCEPT ![c] = Tail(@)]
  /\ Quiet /\ UNCHANGED <<cs, cc, ci, cf, rs, re, idle, total, opening, live, zomb, pings, left>>
  /\ LET f == Head(inq[c])
         o == Target(c)
         end == f.t = "eof" \/ (UnknownCloses /\ o = 0)
     IN  IF end
         THEN IF NoClose THEN UNCHANGED <<cn, q, out>>
              ELSE /\ cn' = [cn EXCEPT ![c].closed = TRUE, ![c].reg = [i \in Space |-> 0]]
                   /\ out' = [out EXCEPT ![c] = <<>>]        \* the writer is stopped
                   /\ UNCHANGED q
         ELSE /\ UNCHANGED <<cn, out>>
              /\ q' = IF o = 0 \/ o \notin live THEN q ELSE [q EXCEPT ![o] = Append(@, f)]

SrxEvent(c, f) ==
  IF f.t = "ping" THEN [e |-> "srx", c |-> c, t |-> "pingreq", id |-> ToString(f.id), bad |-> "", more |-> FALSE]
  ELSE [e |-> "srx", c |-> c, t |-> IF f.n = 1 THEN "callreq" ELSE "callreqcont", id |-> ToString(f.id), bad |-> "", more |-> f.n < NF[f.k],
        ch |-> IF f.n > 1 THEN (IF f.n < NF[f.k] THEN <<0>> ELSE <<0, 1>>) ELSE IF NF[f.k] > 1 THEN <<1, 1>> ELSE <<1, 1, 1>>,
        svc |-> "s", as |-> "raw", args |-> <<1, 1, 1>>, m |-> <<f.k>>]
Write(c) ==
  /\ out[c] # <<>>
  /\ out' = [out EXCEPT ![c] = Tail(@)]
  /\ LET f == Head(out[c]) IN
     IF Lost(c) THEN Quiet /\ UNCHANGED pings
     ELSE /\ Emit(<<SrxEvent(c, f)>>)
          /\ pings' = IF f.t = "ping" THEN [pings EXCEPT ![c] = Append(@, f.id)] ELSE pings
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, left>>

\* A new connection is handed to a caller who waits, or to the pool.
Waiting == {k \in Ks : cs[k] \in {"pushed", "waiting"}}
Hand(c) == \/ Waiting = {} /\ idle' = idle \cup {c} /\ UNCHANGED <<cs, cc>>
           \/ \E k \in Waiting : cs' = [cs EXCEPT ![k] = "io"] /\ cc' = [cc EXCEPT ![k] = c] /\ UNCHANGED idle

\* A connection is opened; the handshake follows.
Open ==
  /\ opening > 0
  /\ opening' = opening - 1
  /\ cn' = Append(cn, IF EarlyUse THEN [NewC EXCEPT !.st = "up"] ELSE NewC)
  /\ inq' = Append(inq, <<>>) /\ out' = Append(out, <<>>) /\ pings' = Append(pings, <<>>)
  /\ IF EarlyUse THEN Hand(Len(cn) + 1) ELSE UNCHANGED <<cs, cc, idle>>
  /\ Emit(<<[e |-> "accept", a |-> 1], [e |-> "srx", c |-> Len(cn) + 1, t |-> "initreq", id |-> "i", bad |-> "", v |-> 2]>>)
  /\ UNCHANGED <<ci, cf, rs, re, total, q, live, zomb, left>>

Handshake(c) ==
  /\ cn[c].st = "opening" /\ (m.addrs[1].hsok \/ Lost(c))
  /\ IF Lost(c) THEN /\ opening' = opening + 1         \* tried again
                     /\ cn' = [cn EXCEPT ![c].st = "dead"]
                     /\ Quiet /\ UNCHANGED <<cs, cc, idle>>
     ELSE /\ cn' = [cn EXCEPT ![c].st = "up"]
          /\ Emit(<<[e |-> "hs", c |-> c, ok |-> TRUE, mute |-> FALSE]>>)
          /\ UNCHANGED opening
          /\ Hand(c)
  /\ UNCHANGED <<ci, cf, rs, re, total, q, live, zomb, inq, out, pings, left>>
\* The answer is not the right one.  The connection is closed and another one is opened.
BadHello(c) ==
  /\ cn[c].st = "opening" /\ ~Lost(c) /\ m.addrs[1].hsok /\ left.hello > 0
  /\ left' = [left EXCEPT !.hello = @ - 1]
  /\ IF AnyHello THEN /\ cn' = [cn EXCEPT ![c].st = "up"] /\ Hand(c) /\ UNCHANGED opening
                      /\ Emit(<<[e |-> "hs", c |-> c, ok |-> FALSE, mute |-> FALSE]>>)
     ELSE /\ cn' = [cn EXCEPT ![c].st = "dead"] /\ opening' = opening + 1 /\ UNCHANGED <<cs, cc, idle>>
          /\ Emit(<<[e |-> "hs", c |-> c, ok |-> FALSE, mute |-> FALSE], [e |-> "sclosed", c |-> c, how |-> "eof"]>>)
  /\ UNCHANGED <<ci, cf, rs, re, total, q, live, zomb, inq, out, pings>>

\* Caller k gives connection c back; if there are callers waiting inside of the pool, one of them gets it.
Give(k, c, next) ==
  IF cn[c].closed THEN idle' = idle /\ total' = total - 1 /\ cs' = [cs EXCEPT ![k] = next] /\ cc' = cc
  ELSE IF Waiting \ {k} = {} THEN idle' = idle \cup {c} /\ total' = total /\ cs' = [cs EXCEPT ![k] = next] /\ cc' = cc
  ELSE \E w \in Waiting \ {k} : /\ cs' = [cs EXCEPT ![k] = next, ![w] = "io"] /\ cc' = [cc EXCEPT ![w] = c]
                                /\ UNCHANGED <<idle, total>>

------------------------------------------------------------------------------
(* Calls *)

Holders == {k \in Ks : cs[k] \in {"get", "pop", "pushed", "waiting", "io", "test", "tsend", "twait", "tclose", "give"}}

Begin(k) ==
  /\ cs[k] = "new"
  /\ cs' = [cs EXCEPT ![k] = "permit"]
  /\ Emit(<<[e |-> "call", k |-> k]>>)
  /\ UNCHANGED <<cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

Permit(k) ==
  /\ cs[k] = "permit" /\ (NoPermits \/ Cardinality(Holders) < Max)
  /\ cs' = [cs EXCEPT ![k] = "get"]
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

Get(k) ==
  /\ cs[k] = "get"
  /\ \/ \E c \in idle : /\ idle' = idle \ {c} /\ cc' = [cc EXCEPT ![k] = c]
                        /\ cs' = [cs EXCEPT ![k] = IF Test THEN "test" ELSE "io"]
                        /\ UNCHANGED <<total, opening>>
     \/ /\ idle = {}
        /\ cs' = [cs EXCEPT ![k] = "pop"]
        \* the pool opens as many connections as there are callers, up to the limit
        /\ IF total < Max THEN total' = total + 1 /\ opening' = opening + 1 ELSE UNCHANGED <<total, opening>>
        /\ UNCHANGED <<idle, cc>>
  /\ Quiet /\ UNCHANGED <<ci, cf, rs, re, cn, q, live, zomb, inq, out, pings, left>>

\* The pool does not look for connections and start to wait in one step.  It is asked again if it may have missed one.
Push(k) ==
  /\ cs[k] = "pop"
  /\ cs' = [cs EXCEPT ![k] = IF Missed THEN "waiting" ELSE "pushed"]
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>
Check(k) ==
  /\ cs[k] = "pushed"
  /\ cs' = [cs EXCEPT ![k] = IF idle = {} THEN "waiting" ELSE "get"]
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

\* Registers owner o for the next id of connection c.
NextId(c) == cn[c].nid
Dup(c) == cn[c].reg[NextId(c)] # 0 /\ ~DupReplaces
Registered(c, o) == [cn EXCEPT ![c].nid = (@ + 1) % Ids, ![c].reg[NextId(c)] = o]
Burnt(c) == [cn EXCEPT ![c].nid = (@ + 1) % Ids]

\* The test of a connection: a ping.
TestStart(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "test" /\ ~Stalled(c)
  /\ IF cn[c].closed \/ Dup(c)
     THEN /\ cs' = [cs EXCEPT ![k] = "get"] /\ total' = total - 1
          /\ cn' = [Burnt(c) EXCEPT ![c].st = "dead"]
          /\ UNCHANGED <<ci, q, live>>
     ELSE /\ cn' = Registered(c, NK + k) /\ ci' = [ci EXCEPT ![k] = NextId(c)]
          /\ q' = [q EXCEPT ![NK + k] = <<>>] /\ live' = live \cup {NK + k}
          /\ cs' = [cs EXCEPT ![k] = "tsend"] /\ UNCHANGED total
  /\ Quiet /\ UNCHANGED <<cc, cf, rs, re, idle, opening, zomb, inq, out, pings, left>>
TestSend(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "tsend"
  /\ IF cn[c].closed THEN cs' = [cs EXCEPT ![k] = "tclose"] /\ re' = [re EXCEPT ![k] = "err"] /\ UNCHANGED out
     ELSE /\ Len(out[c]) < Buf /\ out' = [out EXCEPT ![c] = Append(@, [t |-> "ping", id |-> ci[k]])]
          /\ cs' = [cs EXCEPT ![k] = "twait"] /\ UNCHANGED re
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, cn, idle, total, opening, q, live, zomb, inq, pings, left>>
TestWait(k) ==
  LET c == cc[k]  o == NK + k IN
  /\ cs[k] = "twait"
  /\ \/ q[o] # <<>> /\ re' = [re EXCEPT ![k] = IF Head(q[o]).t = "pingres" THEN "ok" ELSE "err"] /\ q' = [q EXCEPT ![o] = Tail(@)]
     \/ q[o] = <<>> /\ cn[c].reg[ci[k]] # o /\ re' = [re EXCEPT ![k] = "err"] /\ UNCHANGED q
  /\ live' = IF KeepInput THEN live ELSE live \ {o}
  /\ cs' = [cs EXCEPT ![k] = "tclose"]
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, cn, idle, total, opening, zomb, inq, out, pings, left>>
TestClose(k) ==
  LET c == cc[k]  o == NK + k IN
  /\ cs[k] = "tclose" /\ ~Stalled(c)
  /\ live' = live \ {o}
  /\ q' = [q EXCEPT ![o] = <<>>]
  /\ cn' = IF re[k] = "ok" THEN [cn EXCEPT ![c].reg[ci[k]] = 0] ELSE [cn EXCEPT ![c].reg[ci[k]] = 0, ![c].st = IF @ = "up" THEN "up" ELSE @]
  /\ IF re[k] = "ok" THEN cs' = [cs EXCEPT ![k] = "io"] /\ UNCHANGED total
     ELSE cs' = [cs EXCEPT ![k] = "get"] /\ total' = total - 1     \* the connection is not used again
  /\ re' = [re EXCEPT ![k] = "none"]
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, idle, opening, zomb, inq, out, pings, left>>

\* SubChannel::connect with a connection in hand.
Io(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "io" /\ ~Stalled(c)
  /\ IF cn[c].closed
     THEN /\ cs' = [cs EXCEPT ![k] = "permit"] /\ total' = total - 1
          /\ Quiet /\ UNCHANGED <<cc, ci, cn, idle, q, live>>
     ELSE IF Dup(c)
     THEN /\ Give(k, c, "done") /\ cn' = Burnt(c)
          /\ Emit(<<[e |-> "ret", k |-> k, out |-> "err"]>>)
          /\ UNCHANGED <<ci, q, live>>
     ELSE /\ cn' = Registered(c, k) /\ ci' = [ci EXCEPT ![k] = NextId(c)]
          /\ q' = [q EXCEPT ![k] = <<>>] /\ live' = live \cup {k}
          /\ cs' = [cs EXCEPT ![k] = "give"] /\ UNCHANGED <<idle, total, cc>>
          /\ Quiet
  /\ UNCHANGED <<cf, rs, re, opening, zomb, inq, out, pings, left>>
GiveBack(k) ==
  /\ cs[k] = "give"
  /\ Give(k, cc[k], "send")
  /\ Quiet /\ UNCHANGED <<ci, cf, rs, re, cn, opening, q, live, zomb, inq, out, pings, left>>

Send(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "send"
  /\ IF cn[c].closed THEN /\ cs' = [cs EXCEPT ![k] = "close"] /\ re' = [re EXCEPT ![k] = "err"]
                          /\ live' = live \ {k} /\ UNCHANGED <<out, cf, cn>>
     ELSE /\ Len(out[c]) < Buf
          /\ out' = [out EXCEPT ![c] = Append(@, [t |-> "call", id |-> ci[k], n |-> cf[k] + 1, k |-> k])]
          /\ cf' = [cf EXCEPT ![k] = @ + 1]
          /\ cs' = [cs EXCEPT ![k] = IF cf[k] + 1 = NF[k] THEN "wait" ELSE @]
          /\ cn' = IF EarlyRelease /\ cf[k] + 1 = NF[k] /\ NF[k] > 1 THEN [cn EXCEPT ![c].reg[ci[k]] = 0] ELSE cn
          /\ UNCHANGED <<re, live>>
  /\ Quiet /\ UNCHANGED <<cc, ci, rs, idle, total, opening, q, zomb, inq, pings, left>>

Wait(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "wait"
  /\ IF q[k] # <<>>
     THEN LET f == Head(q[k])
              first == re[k] = "none"
              right == f.t = (IF first THEN "res" ELSE "rescont")
          IN  /\ q' = [q EXCEPT ![k] = Tail(@)]
              /\ IF ~right THEN cs' = [cs EXCEPT ![k] = "close"] /\ re' = [re EXCEPT ![k] = "err"] /\ live' = live \ {k}
                 ELSE IF f.more THEN re' = [re EXCEPT ![k] = "part"] /\ UNCHANGED <<cs, live>>
                 ELSE cs' = [cs EXCEPT ![k] = "close"] /\ re' = [re EXCEPT ![k] = "ok"] /\ live' = live \ {k}
     ELSE /\ cn[c].reg[ci[k]] # k
          /\ re' = [re EXCEPT ![k] = IF PartialOk /\ @ = "part" THEN "ok" ELSE "err"]
          /\ cs' = [cs EXCEPT ![k] = "close"] /\ live' = live \ {k} /\ UNCHANGED q
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, cn, idle, total, opening, zomb, inq, out, pings, left>>

Close(k) ==
  LET c == cc[k] IN
  /\ cs[k] = "close" /\ ~Stalled(c)
  /\ cn' = [cn EXCEPT ![c].reg[ci[k]] = 0]
  /\ cs' = [cs EXCEPT ![k] = "done"]
  /\ q' = [q EXCEPT ![k] = <<>>]
  /\ Emit(<<[e |-> "ret", k |-> k, out |-> re[k], m |-> <<k>>]>>)
  /\ UNCHANGED <<cc, ci, cf, rs, re, idle, total, opening, live, zomb, inq, out, pings, left>>

\* The future of a call is dropped.
Drop(k) ==
  LET c == cc[k] IN
  /\ left.drop > 0 /\ cs[k] \notin {"new", "done", "dropped"}
  /\ left' = [left EXCEPT !.drop = @ - 1]
  /\ live' = live \ {k, NK + k}
  /\ q' = [q EXCEPT ![k] = <<>>, ![NK + k] = <<>>]
  /\ zomb' = IF cs[k] \in {"give", "send", "wait", "close", "tsend", "twait", "tclose"} /\ ~NoRelease THEN zomb \cup {<<c, ci[k]>>} ELSE zomb
  /\ IF cs[k] \in {"test", "tsend", "twait", "tclose", "io", "give"} THEN Give(k, c, "dropped")
     ELSE cs' = [cs EXCEPT ![k] = "dropped"] /\ UNCHANGED <<idle, total, cc>>
  /\ Emit(<<[e |-> "drop", k |-> k]>>)
  /\ UNCHANGED <<ci, cf, rs, re, cn, opening, inq, out, pings>>

\* The time to wait for a connection is over.
TimeOut(k) ==
  LET c == cc[k] IN
  /\ m.aging /\ ~Patient /\ cs[k] \in {"permit", "waiting", "twait"}
  /\ live' = live \ {NK + k} /\ q' = [q EXCEPT ![NK + k] = <<>>]
  /\ IF cs[k] = "twait" THEN zomb' = zomb \cup {<<c, ci[k]>>} /\ Give(k, c, "done")
     ELSE cs' = [cs EXCEPT ![k] = "done"] /\ UNCHANGED <<zomb, idle, total, cc>>
  /\ Emit(<<[e |-> "ret", k |-> k, out |-> "err"]>>)
  /\ UNCHANGED <<ci, cf, rs, re, cn, opening, inq, out, pings, left>>
\* A test is not answered.
TestTimeOut(k) ==
  /\ ~TestForever /\ cs[k] = "twait" /\ cc[k] \in left.frozen /\ q[NK + k] = <<>>
  /\ zomb' = zomb \cup {<<cc[k], ci[k]>>} /\ live' = live \ {NK + k}
  /\ cs' = [cs EXCEPT ![k] = "get"] /\ total' = total - 1
  /\ Quiet /\ UNCHANGED <<cc, ci, cf, rs, re, cn, idle, opening, q, inq, out, pings, left>>
\* A handshake is not answered.  The pool stops trying.
GiveUp(c) ==
  /\ m.aging /\ ~HsForever /\ cn[c].st = "muted"
  /\ cn' = [cn EXCEPT ![c].st = "dead"] /\ total' = total - 1
  /\ Emit(<<[e |-> "sclosed", c |-> c, how |-> "eof"]>>)
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, idle, opening, q, live, zomb, inq, out, pings, left>>
Used(c) == \E k \in Ks : cc[k] = c /\ cs[k] \in {"give", "send", "wait", "close", "test", "tsend", "twait", "tclose", "io"}
Retire(c) ==
  /\ m.aging /\ Life /\ c \in idle
  /\ idle' = idle \ {c} /\ total' = total - 1
  /\ IF RetireCloses THEN cn' = [cn EXCEPT ![c].closed = TRUE, ![c].reg = [i \in Space |-> 0]] /\ out' = [out EXCEPT ![c] = <<>>]
     ELSE UNCHANGED <<cn, out>>
  /\ IF RetireCloses \/ ~Used(c) THEN Emit(<<[e |-> "sclosed", c |-> c, how |-> "eof"]>>) ELSE Quiet
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, opening, q, live, zomb, inq, pings, left>>

Release == \E z \in zomb : /\ ~Stalled(z[1])
                           /\ zomb' = zomb \ {z}
                           /\ cn' = [cn EXCEPT ![z[1]].reg[z[2]] = 0]
                           /\ Quiet /\ UNCHANGED <<cs, cc, ci, cf, rs, re, idle, total, opening, q, live, inq, out, pings, left>>

------------------------------------------------------------------------------
(* The server *)

Frame(t, c, id, more) == [t |-> t, id |-> id, more |-> more]
StxEv(c, f, k) == [e |-> "stx", c |-> c, id |-> ToString(f.id), t |-> f.t, more |-> f.more, d |-> "", inv |-> 0, k |-> k]

Respond(k) ==
  LET c == m.calls[k].conn IN
  /\ m.calls[k].st \in {"arrived", "dropped"} /\ c # 0 /\ ~Lost(c) /\ rs[k] < RF[k]
  /\ rs' = [rs EXCEPT ![k] = @ + 1]
  /\ LET f == Frame(IF rs[k] = 0 THEN "res" ELSE "rescont", c, ci[k], rs[k] + 1 < RF[k]) IN
     /\ inq' = [inq EXCEPT ![c] = Append(@, f)]
     /\ Emit(<<StxEv(c, f, k)>>)
  /\ UNCHANGED <<cs, cc, ci, cf, re, cn, idle, total, opening, q, live, zomb, out, pings, left>>

\* A frame nobody asked for, with an id the server has seen, or one that is not in use.
Seen(c) == {id \in Space : \E k \in Ks : m.calls[k].conn = c /\ m.calls[k].id = ToString(id)}
           \cup {id \in Space : ToString(id) \in DOMAIN m.conns[c].stale} \cup {Ids - 1}
Stray(c, id, t) ==
  /\ left.stray > 0 /\ cn[c].st = "up" /\ ~Lost(c)
  /\ On(m, c, ToString(id)) = {} /\ ~\E i \in 1 .. Len(pings[c]) : pings[c][i] = id
  /\ left' = [left EXCEPT !.stray = @ - 1]
  /\ LET f == Frame(t, c, id, FALSE) IN
     /\ inq' = [inq EXCEPT ![c] = Append(@, f)]
     /\ Emit(<<IF t = "pingres" THEN [StxEv(c, f, 0) EXCEPT !.t = "odd"] ELSE StxEv(c, f, 0)>>)
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, out, pings>>

SendPong(c) ==
  /\ pings[c] # <<>> /\ ~Lost(c) /\ c \notin left.frozen
  /\ \E ok \in {TRUE} \cup (IF left.bad > 0 THEN {FALSE} ELSE {}) :
       /\ left' = IF ok THEN left ELSE [left EXCEPT !.bad = @ - 1]
       /\ inq' = [inq EXCEPT ![c] = Append(@, Frame(IF ok THEN "pingres" ELSE "error", c, Head(pings[c]), FALSE))]
       /\ Emit(<<[e |-> "pong", c |-> c, ok |-> ok]>>)
  /\ pings' = [pings EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, out>>

\* Handshakes are not answered any more, or again.
Mode == /\ left.mute > 0
        /\ left' = [left EXCEPT !.mute = @ - 1]
        /\ Emit(<<[e |-> "mode", a |-> 1, ok |-> ~m.addrs[1].hsok]>>)
        /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings>>
Mute(c) == /\ cn[c].st = "opening" /\ ~Lost(c) /\ ~m.addrs[1].hsok
           /\ cn' = [cn EXCEPT ![c].st = "muted"]
           /\ Emit(<<[e |-> "hs", c |-> c, ok |-> FALSE, mute |-> TRUE]>>)
           /\ UNCHANGED <<cs, cc, ci, cf, rs, re, idle, total, opening, q, live, zomb, inq, out, pings, left>>
\* No test of connection c is answered from now on.
Freeze(c) == /\ pings[c] # <<>> /\ ~Lost(c) /\ (c \in left.frozen \/ left.freeze > 0)
             /\ left' = IF c \in left.frozen THEN left ELSE [left EXCEPT !.freeze = @ - 1, !.frozen = @ \cup {c}]
             /\ Emit(<<[e |-> "nopong", c |-> c, mute |-> c \notin left.frozen \/ \E k \in Ks : cs[k] = "dropped"]>>)
             /\ pings' = [pings EXCEPT ![c] = Tail(@)]
             /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out>>

LoseConn(c, how) ==
  /\ left.loss > 0 /\ cn[c].st \in {"up", "opening"} /\ ~Lost(c)
  /\ left' = [left EXCEPT !.loss = @ - 1]
  /\ inq' = [inq EXCEPT ![c] = Append(IF how = "rst" THEN <<>> ELSE @, [t |-> "eof"])]
  /\ pings' = [pings EXCEPT ![c] = <<>>]
  /\ Emit(<<[e |-> "lose", c |-> c, how |-> how]>>)
  /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, out>>

------------------------------------------------------------------------------
Client == \/ \E c \in Cs : Read(c) \/ Write(c) \/ Handshake(c)
          \/ Open \/ Release
          \/ \E k \in Ks : \/ Permit(k) \/ Get(k) \/ Push(k) \/ Check(k) \/ TestStart(k) \/ TestSend(k) \/ TestWait(k) \/ TestClose(k)
                           \/ Io(k) \/ GiveBack(k) \/ Send(k) \/ Wait(k) \/ Close(k)
          \/ \E k \in Ks : TestTimeOut(k)
\* Pings are answered sooner or later, unless they never are.
Going == Client \/ \E c \in Cs : SendPong(c) \/ Mute(c) \/ Freeze(c)
Late == \/ \E k \in Ks : TimeOut(k)
        \/ \E c \in Cs : GiveUp(c) \/ Retire(c)

Pending == Cardinality(UNION {{<<c, i>> : i \in {j \in Space : cn[c].reg[j] # 0}} : c \in Cs})
Settle == /\ ~m.aging /\ ~ENABLED Going
          /\ Emit(<<[e |-> "sync"], [e |-> "probe", pending |-> Pending]>>)
          /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

\* Everybody waits.
Age0 == /\ ~m.aging /\ left.age > 0 /\ ~ENABLED Going
        /\ left' = [left EXCEPT !.age = @ - 1, !.asked = {c \in Cs : m.conns[c].mute}]
        /\ Emit(<<[e |-> "age"]>>)
        /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings>>
Age1 == /\ m.aging /\ ~ENABLED Going /\ ~ENABLED (\E k \in Ks : TimeOut(k)) /\ ~ENABLED (\E c \in Cs : GiveUp(c))
        /\ ~\E c \in idle : Life /\ m.conns[c].idle
        /\ Emit(<<[e |-> "aged", solved |-> SelectSeq([c \in Cs |-> c], LAMBDA c : c \in left.asked)]>>)
        /\ UNCHANGED <<cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>

Next == \/ Going \/ Late \/ Age0 \/ Age1
        \/ /\ ~m.aging
           /\ \/ \E k \in Ks : Begin(k) \/ Drop(k) \/ Respond(k)
              \/ \E c \in Cs : BadHello(c)
              \/ \E c \in Cs : \/ \E how \in How : LoseConn(c, how)
                               \/ \E id \in Seen(c), t \in {"res", "rescont", "pingres"} : Stray(c, id, t)
              \/ Mode
              \/ Settle
Spec == Init /\ [][Next]_vars

RulesKept == bad = {}
Limits == /\ total <= Max
          /\ NoPermits \/ Cardinality(Holders) <= Max
          /\ \A o \in Owners : Len(q[o]) <= Buf
Unique == \A c \in Cs : \A k1, k2 \in Ks :
            (k1 # k2 /\ cc[k1] = c /\ cc[k2] = c /\ ci[k1] = ci[k2] /\ {cs[k1], cs[k2]} \subseteq {"give", "send", "wait"})
            => cn[c].closed

\* Times are only compared with each other.
Times == {m.calls[k].t : k \in Ks} \cup {m.conns[c].badpong : c \in 1 .. Len(m.conns)} \cup {m.conns[c].old : c \in 1 .. Len(m.conns)}
         \cup UNION {{m.conns[c].stale[i].t : i \in DOMAIN m.conns[c].stale} : c \in 1 .. Len(m.conns)}
Rank(t) == IF t <= 0 THEN t ELSE Cardinality({x \in Times : 0 < x /\ x <= t})
MView == [m EXCEPT !.t = 0,
                   !.calls = [k \in Ks |-> [m.calls[k] EXCEPT !.t = Rank(@)]],
                   !.conns = [c \in 1 .. Len(m.conns) |->
                      [m.conns[c] EXCEPT !.badpong = Rank(@), !.old = Rank(@), !.stale = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = Rank(@)]]]]]
View == <<MView, bad, cs, cc, ci, cf, rs, re, cn, idle, total, opening, q, live, zomb, inq, out, pings, left>>
=============================================================================
