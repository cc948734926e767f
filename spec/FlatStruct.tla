----------------------------- MODULE FlatStruct -----------------------------
(* Where the values of a message lie in its flattened form: what a struct     *)
(* that is laid over it has to look like. A leaf is [p (its path, as written   *)
(* in C++), o (offset), s (size of one value), n (number of values, 0: not an   *)
(* array), k (kinds of type it may have: i signed, u unsigned, f floating),     *)
(* b (its bytes)].                                                              *)
EXTENDS MsgSpec
Any1 == {"i", "u"}
Kinds(f) == IF f.t = "ENUM" \/ f.t = "STRING" \/ f.dt \in {"BOOL", "CHAR"} THEN Any1
            ELSE IF f.dt \in {"FLOAT", "DOUBLE"} THEN {"f"}
            ELSE IF f.dt \in {"SHORT", "INT", "LONG", "LONGLONG"} THEN {"i"} ELSE {"u"}
\* what C++ reserves is called otherwise
Called(f) == IF f.n = "switch" THEN "sw" ELSE IF f.n = "operator" THEN "opr" ELSE f.n
LeafAt(p, o, s, n, k, b) == [p |-> p, o |-> o, s |-> s, n |-> n, k |-> k, b |-> b]
RowSize(f) == Len(EncBin(f.fields, Defaults(f.fields), TRUE))
Many(v, f) == Filled(Concat(v), f.al * f.len, TRUE)
RECURSIVE Leaves(_, _, _, _)
\* acc: [at: bytes of the row so far, ms: leaves so far]
LeafStep(acc, f, v, base, pre) ==
  LET a == acc.at + Al(f.len, acc.at)
      counted == f.t \in {"VARIABLE_LENGTH_ARRAY", "FIELD_ARRAY"} /\ f.ref = ""
      c == a + (IF counted THEN Al(f.alfs, a) ELSE 0)
      o == c + (IF counted THEN f.alfs ELSE 0)
      cnt == IF counted THEN <<LeafAt(pre \o Called(f) \o "_arraylength", base + c, f.alfs, 0, {"u"}, LE(Len(v), f.alfs))>> ELSE <<>>
      e == o + (IF f.t = "FIELD_ARRAY" THEN f.al * RowSize(f) ELSE IF IsLeaf(f) THEN f.len ELSE f.al * f.len)
      one(n, b) == <<LeafAt(pre \o Called(f), base + o, f.len, n, Kinds(f), b)>>
  IN [at |-> IF f.t = "STRING" THEN e + 4 - (e % 4) ELSE e,
      ms |-> acc.ms \o cnt \o
             (CASE f.t = "FIELD_ARRAY" -> Concat([i \in 1..f.al |-> Leaves(f.fields, IF i <= Len(v) THEN v[i] ELSE Defaults(f.fields), base + o + ((i - 1) * RowSize(f)),
                                                                             pre \o Called(f) \o "[" \o ToString(i - 1) \o "].").ms])
                [] f.t = "STRING" -> one(f.al, Filled(v, f.al * f.len, TRUE))
                [] IsLeaf(f) -> one(0, v)
                [] OTHER -> one(f.al, Many(v, f)))]
Leaves(fields, vals, base, pre) == FoldLeft(LAMBDA acc, i : LeafStep(acc, fields[i], vals[i], base, pre), [at |-> 0, ms |-> <<>>], Ix(fields))
=============================================================================
