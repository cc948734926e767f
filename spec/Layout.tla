------------------------------- MODULE Layout -------------------------------
(* Byte offsets of the fields of a message body: fixed-size fields follow    *)
(* each other at the family's alignment; variable ones are numbered.         *)
EXTENDS Naturals, Sequences, SequencesExt, Integers
Align(fam, len, at) == IF fam # "OEM" THEN 0
                       ELSE LET a == IF len < 4 THEN len ELSE 4
                                r == at % a IN IF r = 0 THEN 0 ELSE a - r
IsFixed(f) == f.t \in {"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY"}
SizeOf(f) == IF f.t = "FIXED_LENGTH_ARRAY" THEN f.len * f.al ELSE f.len
\* running <<bytes, variable fields, index of each field so far>>
LayStep(fam, acc, f) ==
  IF IsFixed(f) THEN LET o == acc[1] + Align(fam, f.len, acc[1]) IN <<o + SizeOf(f), acc[2], Append(acc[3], o)>>
  ELSE <<acc[1], acc[2] + 1, Append(acc[3], acc[2])>>
Lay(fields, fam) == FoldLeft(LAMBDA acc, f : LayStep(fam, acc, f), <<0, 0, <<>>>>, fields)
RECURSIVE LayoutOk(_, _, _)
LayoutOk(lay, fields, fam) ==
  LET x == Lay(fields, fam) IN
  /\ Len(lay.f) = Len(fields)
  /\ lay.fb = x[1] /\ lay.vc = x[2]
  /\ \A i \in 1..Len(fields) :
       /\ lay.f[i].i = x[3][i]
       /\ IF fields[i].t = "FIELD_ARRAY" THEN Len(lay.f[i].sub) = 1 /\ LayoutOk(lay.f[i].sub[1], fields[i].fields, fam)
          ELSE lay.f[i].sub = <<>>
=============================================================================
