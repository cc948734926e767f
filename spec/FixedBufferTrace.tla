-------------------------- MODULE FixedBufferTrace --------------------------
(* Validates histories recorded from the real buffer, element type by       *)
(* element type, against the abstract FIFO of FixedBuffer.tla.              *)
EXTENDS FixedBuffer, Json, IOUtils, Integers, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, content
vars == <<tr, l, content>>
Cap == Traces[tr].cap
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ content = <<>>
IsEvent(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr

\* every event carries the projected state after the call
Observed == /\ E.st = content' /\ E.dt = content'
            /\ E.sz = Len(content') /\ E.cap = Cap /\ E.av = Cap - Len(content')
            /\ E.em = (content' = <<>>) /\ E.fu = (Len(content') = Cap)
N(x) == IF x < 0 THEN 1000000 ELSE x

Write == IsEvent("w") /\ content' = AfterWrite(content, Cap, E.d, E.null) /\ E.r = WriteResult(content, Cap, E.d, E.null) /\ Observed
Erase == IsEvent("e") /\ content' = AfterErase(content, N(E.n)) /\ Observed
Copy  == /\ IsEvent("c") /\ UNCHANGED content
         /\ LET n == IF E.n < 0 THEN Len(content) ELSE E.n
                x == CopyOut(content, n)
            IN E.out = [i \in 1..(n + 4) |-> IF i <= Len(x) THEN x[i] ELSE 7]      \* nothing else is written
         /\ Observed
Put   == /\ IsEvent("set")
         /\ content' = IF E.i < Len(content) THEN [content EXCEPT ![E.i + 1] = E.v] ELSE content
         /\ Observed
Find  == /\ IsEvent("s") /\ UNCHANGED content
         /\ E.r = Search(content, E.p, E.start, N(E.cnt)) /\ Observed
Value == /\ IsEvent("rv") /\ UNCHANGED content
         /\ LET u16(i) == content[i + 1] + 256 * content[i + 2]
            IN E.out = (IF E.i + 2 <= Len(content) THEN <<u16(E.i)>> ELSE <<>>) \o
                       (IF E.i + 4 <= Len(content) THEN <<u16(E.i), u16(E.i + 2)>> ELSE <<>>)
         /\ Observed
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Write \/ Erase \/ Copy \/ Put \/ Find \/ Value \/ Done
Spec == Init /\ [][Next]_vars
Bounded == Len(content) <= Cap
=============================================================================
