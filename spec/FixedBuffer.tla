---------------------------- MODULE FixedBuffer ----------------------------
(* The byte buffer every framer consumes from.                              *)
(*                                                                          *)
(* Abstract level: `content` is a FIFO sequence of at most Cap elements.    *)
(* Concrete level: an array of 2*Cap cells, a head and a size, with the     *)
(* unconsumed data moved to the front when a write would pass the end.      *)
EXTENDS Naturals, Sequences, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b

\* ---- abstract operations ------------------------------------------------
\* A write takes everything or nothing.
WriteTakes(content, cap, n, isNull) == ~isNull /\ n > 0 /\ n <= cap - Len(content)
AfterWrite(content, cap, d, isNull) == IF WriteTakes(content, cap, Len(d), isNull) THEN content \o d ELSE content
WriteResult(content, cap, d, isNull) == IF WriteTakes(content, cap, Len(d), isNull) THEN Len(d) ELSE 0
\* Erasing removes the oldest elements, never more than there are.
AfterErase(content, n) == SubSeq(content, Min2(n, Len(content)) + 1, Len(content))
CopyOut(content, n) == SubSeq(content, 1, Min2(n, Len(content)))
\* First position >= start (0-based) inside the window of cnt elements where the pattern, or -- at the end of
\* the window -- a nonempty prefix of it, occurs; -1 if none.
Search(content, pat, start, cnt) ==
  IF start >= Len(content) THEN 0 - 1
  ELSE LET stop == start + Min2(cnt, Len(content) - start)   \* one past the window, 0-based
           hit(i) == \A k \in 1..Min2(Len(pat), stop - i) : content[i + k] = pat[k]
           hits == { i \in start..(stop - 1) : hit(i) }
       IN IF hits = {} THEN 0 - 1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

=============================================================================
