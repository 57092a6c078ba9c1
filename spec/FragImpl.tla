------------------------------ MODULE FragImpl ------------------------------
(***************************************************************************)
(* The splitter of src/fragmentation.rs, one action per frame (one call of *)
(* next_frame_args_vec), the joiner of src/defragmentation.rs, one action  *)
(* per frame (ArgsDefragmenter::add), and an arbitrary legal peer that may *)
(* stand in for the splitter.  Small frame capacities make every alignment *)
(* of argument ends and frame ends occur.                                  *)
(***************************************************************************)
EXTENDS Frag, FiniteSets, TLC

CONSTANTS MaxArg,       \* argument lengths 0 .. MaxArg
          FirstCap,     \* room for chunks in the call frame
          ContCap,      \* room for chunks in a continuation frame
          Writer,       \* "impl" or "peer"
          MaxExtra,     \* empty chunks/frames a peer may add for no reason
          MarkWhenTight, \* FALSE: the defect repaired by "fragment args correctly ..."
          EmptyIsNewArg  \* TRUE: the defect repaired by "an empty chunk at the start ..."

VARIABLES lens,    \* argument lengths of the message
          queue,   \* what is left to be split
          frames,  \* frames written: [chunks |-> seq of contents, more |-> BOOLEAN]
          nread,   \* frames read
          got,     \* arguments joined so far
          done,    \* reader has seen the last frame
          extra    \* budget of the peer used

vars == <<lens, queue, frames, nread, got, done, extra>>

Content(i, n) == [p \in 1 .. n |-> <<i, p>>]
Message == [i \in 1 .. NArgs |-> Content(i, lens[i])]
Cap == IF frames = <<>> THEN FirstCap ELSE ContCap

(* --- the splitter, following the code statement by statement --------- *)
RECURSIVE Split(_, _, _)
Split(q, limit, acc) ==
  IF q = <<>> THEN [q |-> q, chunks |-> acc]
  ELSE
    LET arg == Head(q)
        rest == Tail(q)
        room == limit - LenLen
        n == Len(arg)
    IN  IF n = 0 THEN                                        \* Complete, empty
             LET acc2 == Append(acc, <<>>) IN
             IF MarkWhenTight /\ room < LenLen /\ rest # <<>>
             THEN [q |-> <<<<>>>> \o rest, chunks |-> acc2]
             ELSE Split(rest, room, acc2)
        ELSE IF room < 0 THEN [q |-> q, chunks |-> acc]      \* Incomplete, nothing written
        ELSE IF n > room THEN                                \* Incomplete
             [q |-> <<SubSeq(arg, room + 1, n)>> \o rest,
              chunks |-> Append(acc, SubSeq(arg, 1, room))]
        ELSE IF n = room THEN                                \* CompleteAtTheEnd
             [q |-> <<<<>>>> \o rest, chunks |-> Append(acc, arg)]
        ELSE LET acc2 == Append(acc, arg)                    \* Complete
                 left == room - n
             IN  IF MarkWhenTight /\ left < LenLen /\ rest # <<>>
                 THEN [q |-> <<<<>>>> \o rest, chunks |-> acc2]
                 ELSE Split(rest, left, acc2)

Init == /\ lens \in [1 .. NArgs -> 0 .. MaxArg]
        /\ queue = [i \in 1 .. NArgs |-> Content(i, lens[i])]
        /\ frames = <<>> /\ nread = 0 /\ got = <<>> /\ done = FALSE /\ extra = 0

WriteFrame ==
  /\ Writer = "impl"
  /\ frames = <<>> \/ queue # <<>>
  /\ LET r == Split(queue, Cap, <<>>) IN
       /\ queue' = r.q
       /\ frames' = Append(frames, [chunks |-> r.chunks, more |-> r.q # <<>>])
  /\ UNCHANGED <<lens, nread, got, done, extra>>

(* --- an arbitrary legal peer ------------------------------------------ *)
(* A frame is described by how many bytes of the current argument it       *)
(* carries, and the chunks of the following arguments.  The head of queue  *)
(* is the argument being sent; it stays there (empty) until a chunk of the *)
(* next argument is written.                                               *)
PeerFrame(k, ns, last) ==
  \* ns: chunk lengths; first chunk from Head(queue), chunk j from argument j
  /\ Len(ns) = k
  /\ \A j \in 1 .. k : ns[j] <= Len(queue[j])
  /\ \A j \in 1 .. (k - 1) : ns[j] = Len(queue[j])     \* all but the last chunk end their argument
  /\ ChunksSize(ns) <= Cap
  /\ LET chunks == [j \in 1 .. k |-> SubSeq(queue[j], 1, ns[j])]
         rem == <<SubSeq(queue[k], ns[k] + 1, Len(queue[k]))>> \o SubSeq(queue, k + 1, Len(queue))
         over == Len(rem) = 1 /\ rem[1] = <<>>
         idle == Len(ns) = 1 /\ ns[1] = 0 /\ Len(queue[1]) > 0     \* frame that carries nothing
     IN /\ last => over
        /\ over /\ ~last => extra < MaxExtra
        /\ idle => extra < MaxExtra
        /\ extra' = extra + (IF (over /\ ~last) \/ idle THEN 1 ELSE 0)
        /\ queue' = IF last THEN <<>> ELSE rem
        /\ frames' = Append(frames, [chunks |-> chunks, more |-> ~last])
  /\ UNCHANGED <<lens, nread, got, done>>

PeerWrite ==
  /\ Writer = "peer"
  /\ queue # <<>>
  /\ nread = Len(frames)     \* the order of writing and reading does not matter here
  /\ \E k \in 1 .. Len(queue) : \E ns \in [1 .. k -> 0 .. MaxArg] : \E last \in BOOLEAN :
        PeerFrame(k, ns, last)

(* --- the joiner -------------------------------------------------------- *)
CodeJoin(args, chunks, first) ==
  IF EmptyIsNewArg /\ chunks[1] = <<>> /\ args # <<>>
  THEN args \o chunks
  ELSE JoinSeqs(args, chunks, first)

ReadFrame ==
  /\ nread < Len(frames) /\ ~done
  /\ LET f == frames[nread + 1] IN
       /\ f.chunks # <<>>
       /\ got' = CodeJoin(got, f.chunks, nread = 0)
       /\ done' = ~f.more
  /\ nread' = nread + 1
  /\ UNCHANGED <<lens, queue, frames, extra>>

Next == WriteFrame \/ PeerWrite \/ ReadFrame
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties -------------------------------------------------------- *)
\* C02: every frame is legal for any peer, and fits
FramesLegal ==
  \A i \in 1 .. Len(frames) :
     LegalChunks(LensOf(frames[i].chunks), IF i = 1 THEN FirstCap ELSE ContCap)
\* C02: the flag is on all frames but the last
FlagsRight ==
  \A i \in 1 .. Len(frames) : frames[i].more <=> (i < Len(frames) \/ queue # <<>>)
\* C01, C03: what is joined is the message
RoundTrip == done => got = Message
\* never more than three arguments, and always a prefix of the message
Partial ==
  /\ Len(got) <= NArgs
  /\ \A i \in 1 .. Len(got) :
        IF i < Len(got) THEN got[i] = Message[i]
        ELSE got[i] = SubSeq(Message[i], 1, Len(got[i]))
\* splitting ends: no frame without progress except one end marker
Bounded == Writer = "impl" => Len(frames) <= SumSeq(lens) + NArgs + 1
Terminates == <>done
\* What was read already does not matter any more.
PeerView == <<lens, queue, got, done, extra, SubSeq(frames, nread + 1, Len(frames)), frames = <<>> >>
=============================================================================
