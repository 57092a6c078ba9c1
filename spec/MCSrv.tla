------------------------------- MODULE MCSrv -------------------------------
(* The exhaustively explored instances of the model of the server. *)
EXTENDS SrvImpl

Req(p, id, h, nf) ==
  [kind |-> "req", p |-> p, id |-> id, h |-> h, ok |-> TRUE, wh |-> 0, out |-> "ok", open |-> TRUE, nf |-> nf, bad |-> 0, rf |-> 1, after |-> {}]
Gated(r) == [r EXCEPT !.open = FALSE]
Long(r) == [r EXCEPT !.rf = 2]
Fails(r) == [r EXCEPT !.out = "gen"]
Bad(r, k) == [r EXCEPT !.bad = k]
After(r, S) == [r EXCEPT !.after = S]
Unserved(p, id, wh, nf) == [Req(p, id, 0, nf) EXCEPT !.ok = FALSE, !.wh = wh]
Other(kind, p, id) == [kind |-> kind, p |-> p, id |-> id, d |-> "", v |-> 0, after |-> {}]
Hello(p, id, v, d) == [Other("init", p, id) EXCEPT !.v = v, !.d = d]

\* more messages in progress than tasks, with frames interleaved
ItemsMany == <<Req(1, 1, 1, 2), Long(Req(1, 2, 2, 2)), Req(1, 3, 1, 1)>>
\* handlers that wait
ItemsGated == <<Gated(Req(1, 1, 1, 1)), Gated(Req(1, 2, 2, 1)), Req(1, 3, 2, 2), Req(2, 1, 1, 1)>>
ItemsGated3 == <<Gated(Req(1, 1, 1, 1)), Gated(Req(1, 2, 2, 1)), Req(2, 3, 2, 1)>>
\* failures amid others
ItemsFail == <<Req(1, 1, 1, 2), Unserved(1, 2, 0, 2), Unserved(1, 3, 1, 1), Bad(Req(1, 4, 1, 2), 2)>>
ItemsFail2 == <<Gated(Req(1, 1, 1, 1)), Fails(Req(1, 2, 2, 2)), Unserved(1, 3, 1, 1), After(Req(1, 2, 2, 1), {2})>>
\* two connections with the same ids, one of which does not read
ItemsTwo == <<Req(1, 1, 1, 2), Long(Req(1, 2, 2, 1)), Req(2, 1, 1, 2)>>
\* frames of other kinds
ItemsOther == <<Req(1, 1, 1, 2), Req(1, 2, 1, 1), Other("ping", 1, 7), Other("pingres", 1, 1), Other("ping", 1, 2)>>
\* ids used twice
ItemsReuse == <<Req(1, 1, 1, 2), Req(1, 1, 2, 2), After(Req(1, 1, 1, 1), {1})>>
ItemsAgain == <<Bad(Req(1, 1, 1, 2), 2), After(Req(1, 1, 1, 2), {1}), Req(1, 2, 1, 1)>>
\* handshakes: proper ones, of another version, damaged ones, ones amid or after requests
ItemsHello == <<Req(1, 1, 1, 1), Req(2, 1, 1, 2), Hello(1, 5, 2, ""), Hello(1, 6, 3, "")>>
ItemsHello2 == <<Req(1, 1, 1, 2), Req(2, 1, 1, 1), Hello(1, 1, 2, ""), Hello(2, 1, 1, ""), Other("ping", 1, 3), Hello(1, 4, 2, "trunc")>>
\* streams which cannot be decoded, or end amid a frame
ItemsHostile == <<Gated(Req(1, 1, 1, 2)), Gated(Req(2, 1, 1, 1)), Bad(Req(1, 2, 2, 1), 1), Other("fatal", 1, 9), Other("part", 2, 9)>>
ItemsHostile1 == <<Gated(Req(1, 1, 1, 2)), Gated(Req(2, 1, 1, 1)), Other("fatal", 1, 9), Other("part", 2, 9)>>
ItemsHello3 == <<Req(1, 1, 1, 1), Req(2, 1, 1, 1), Hello(1, 5, 2, ""), Other("fatal", 1, 9), Other("part", 1, 9)>>
NoPeers == {}
Peer1 == {1}
Peer2 == {2}
Both == {1, 2}
=============================================================================
