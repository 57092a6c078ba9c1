------------------------------- MODULE MCCli -------------------------------
(* The exhaustively explored instances of the model of the client. *)
EXTENDS CliImpl
One == [k \in Ks |-> 1]
Two == [k \in Ks |-> 2]
Mixed == [k \in Ks |-> IF k = 1 THEN 2 ELSE 1]
Fin == {"fin"}
AnyHow == {"fin", "rst"}
=============================================================================
