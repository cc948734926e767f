--------------------------- MODULE FixedBufferMC ---------------------------
(* The concrete layout implements the FIFO, for every history of writes and *)
(* erasures at small capacities; compaction never overlaps.                 *)
EXTENDS FixedBuffer, TLC
CONSTANTS Cap, Vals
VARIABLES mem, head, sz, content, ovl
vars == <<mem, head, sz, content, ovl>>
Cells == 1..(2 * Cap)
Init == mem = [c \in Cells |-> 0] /\ head = 0 /\ sz = 0 /\ content = <<>> /\ ovl = FALSE

Write(d) ==
  /\ content' = AfterWrite(content, Cap, d, FALSE)
  /\ IF ~WriteTakes(content, Cap, Len(d), FALSE) THEN UNCHANGED <<mem, head, sz, ovl>>
     ELSE LET compact == head + sz + Len(d) > 2 * Cap
              m1 == IF compact THEN [c \in Cells |-> IF c <= sz THEN mem[head + c] ELSE mem[c]] ELSE mem
              h1 == IF compact THEN 0 ELSE head
          IN /\ mem' = [c \in Cells |-> IF c > h1 + sz /\ c <= h1 + sz + Len(d) THEN d[c - h1 - sz] ELSE m1[c]]
             /\ head' = h1 /\ sz' = sz + Len(d)
             /\ ovl' = (ovl \/ (compact /\ sz > head))      \* source and target of the move overlap
Erase(n) ==
  /\ content' = AfterErase(content, n)
  /\ LET k == Min2(n, sz) IN
       IF k = 0 THEN UNCHANGED <<head, sz>> ELSE sz' = sz - k /\ head' = IF sz - k = 0 THEN 0 ELSE head + k
  /\ UNCHANGED <<mem, ovl>>
Next == \/ \E n \in 0..(Cap + 1) : \E d \in [1..n -> Vals] : Write(d)
        \/ \E n \in 0..(Cap + 1) : Erase(n)
Spec == Init /\ [][Next]_vars
View == <<head, sz, content, SubSeq([c \in Cells |-> mem[c]], head + 1, head + sz), ovl>>
Refines == SubSeq(mem, head + 1, head + sz) = content
InBounds == head + sz <= 2 * Cap /\ sz <= Cap /\ Len(content) <= Cap
NoOverlap == ~ovl
=============================================================================
