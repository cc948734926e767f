------------------------------- MODULE CrcMC -------------------------------
(* The algebra the implementation's shortcuts (table, slice-by-8, windowed  *)
(* reduction) rest on, checked on the definition for all short messages     *)
(* over a small alphabet of bytes.                                          *)
EXTENDS Crc
CONSTANTS Alphabet, MaxLen
Kinds == { <<8, <<47>>, FALSE>>, <<8, <<244>>, TRUE>>, <<16, <<4129>>, FALSE>>, <<16, <<33800>>, TRUE>>,
           <<32, <<1217, 7607>>, FALSE>>, <<32, OemPoly, TRUE>>,
           <<64, <<17136, 57835, 43498, 13971>>, FALSE>>, <<64, <<51564, 22421, 55175, 3906>>, TRUE>> }
VARIABLES msg, kind, reg
Init == kind \in Kinds /\ msg = <<>> /\ reg = Zero(kind[1])
Feed(b) == Len(msg) < MaxLen /\ msg' = Append(msg, b) /\ reg' = ByteStep(reg, b, kind[1], kind[2], kind[3]) /\ UNCHANGED kind
Next == \E b \in Alphabet : Feed(b)
Spec == Init /\ [][Next]_<<msg, kind, reg>>
C(d, i) == CrcOf(d, kind[1], kind[2], kind[3], i)
IncrementalIsWhole == reg = C(msg, Zero(kind[1]))
SplitAnywhere == \A k \in 0..Len(msg) : C(SubSeq(msg, k + 1, Len(msg)), C(SubSeq(msg, 1, k), Zero(kind[1]))) = reg
Linear == \A b \in Alphabet : LET o == [i \in 1..Len(msg) |-> b] IN
             XorW(C(msg, Zero(kind[1])), C(o, Zero(kind[1]))) = C([i \in 1..Len(msg) |-> msg[i] ^^ b], Zero(kind[1]))
DetectsOneBit == msg # <<>> => \A i \in 1..Len(msg) : \A p \in {1, 8, 128} :
                    C([msg EXCEPT ![i] = @ ^^ p], Zero(kind[1])) # reg
OemAgrees == (kind[1] = 32 /\ kind[3]) => OemCrcOf(msg) = reg
=============================================================================
