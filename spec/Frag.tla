-------------------------------- MODULE Frag --------------------------------
(***************************************************************************)
(* How the three arguments of a message are carried by a sequence of       *)
(* frames.  Everything is parameterised by the kind of "content": in the   *)
(* exhaustive models an argument is a sequence of distinct byte tokens, in *)
(* trace validation it is a length (the contents are compared by hash).    *)
(*                                                                         *)
(* Reading rule (protocol): the chunks of the call frame start arguments   *)
(* 1, 2, ...; the first chunk of a continuation frame continues the        *)
(* argument that was being received (possibly by nothing), every further   *)
(* chunk starts a new argument.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

NArgs == 3          \* arguments of a message
MaxChunks == 3      \* chunks per frame
LenLen == 2         \* bytes of a chunk's length field

(* Reader: what the arguments are after one more frame. *)
Join(args, chunks, first, Cat(_, _)) ==
  IF first \/ args = <<>> THEN chunks
  ELSE [i \in 1 .. (Len(args) + Len(chunks) - 1) |->
          IF i < Len(args) THEN args[i]
          ELSE IF i = Len(args) THEN Cat(args[i], chunks[1])
          ELSE chunks[i - Len(args) + 1]]

JoinLens(args, chunks, first) == Join(args, chunks, first, LAMBDA a, b : a + b)
JoinSeqs(args, chunks, first) == Join(args, chunks, first, LAMBDA a, b : a \o b)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* Bytes that the chunks of a frame occupy, lengths included. *)
ChunksSize(lens) == SumSeq(lens) + LenLen * Len(lens)
LensOf(seqs) == [i \in 1 .. Len(seqs) |-> Len(seqs[i])]

(* A frame whose chunks have the given lengths is acceptable to any peer.  *)
LegalChunks(lens, cap) ==
  /\ Len(lens) \in 1 .. MaxChunks
  /\ \A i \in 1 .. Len(lens) : lens[i] >= 0
  /\ ChunksSize(lens) <= cap
=============================================================================
