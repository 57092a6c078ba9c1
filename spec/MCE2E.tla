------------------------------- MODULE MCE2E --------------------------------
EXTENDS E2EImpl
W(c, h, out, nf, rf_) == [c |-> c, h |-> h, out |-> out, nf |-> nf, rf |-> rf_]
\* one client, one server, two handlers
WhoOne == <<W(1, 1, "ok", 2, 2), W(1, 2, "ok", 1, 1), W(1, 1, "gen", 2, 1), W(1, 2, "ok", 1, 2)>>
\* two clients
WhoTwo == <<W(1, 1, "ok", 2, 1), W(2, 1, "ok", 1, 2), W(2, 2, "gen", 2, 1), W(1, 2, "ok", 1, 1)>>
\* two servers (handlers belong to them in turn)
WhoServers == <<W(1, 1, "ok", 2, 2), W(1, 2, "ok", 2, 1), W(1, 1, "ok", 1, 1), W(2, 2, "ok", 1, 2)>>
=============================================================================
