------------------------------- MODULE ObjSpec -------------------------------
(* Message objects as values: fixed-size fields are bytes at the offsets of    *)
(* Layout, each variable one is a slot. An object is                           *)
(*   [i (field list, 0: none), fixed (bytes), var (slots)]                     *)
(* a slot [k ("none", "str", "vec", "flat", "comp"), ty (element type of a     *)
(* vec), s (characters), v (elements as bytes), i (row fields of a flat array),*)
(* b (its bytes), o (rows)]; a flat array [i, b].                              *)
EXTENDS Layout
CONSTANTS Infos(_), SubInfo(_, _)      \* field list i; the list of the rows of its j-th field
Zeros(n) == [x \in 1..n |-> 0]
Ix(s) == [x \in 1..Len(s) |-> x]
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Cut(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
\* types of the interface
CType(f) == IF f.t = "ENUM" THEN (CASE f.len = 1 -> "i8" [] f.len = 2 -> "i16" [] OTHER -> "i32")
            ELSE CASE f.dt = "BOOL" -> "b" [] f.dt = "CHAR" -> "i8" [] f.dt \in {"UCHAR", "HEXBYTE"} -> "u8" [] f.dt = "SHORT" -> "i16" [] f.dt = "USHORT" -> "u16"
                   [] f.dt \in {"LONG", "INT"} -> "i32" [] f.dt \in {"ULONG", "UINT", "SATELLITEID"} -> "u32" [] f.dt = "LONGLONG" -> "i64"
                   [] f.dt = "ULONGLONG" -> "u64" [] f.dt = "FLOAT" -> "f" [] f.dt = "DOUBLE" -> "d" [] OTHER -> ""
Stored(ty) == IF ty = "b" THEN "u8" ELSE ty
\* what a variable of type ty holding the first bytes of s looks like
As(ty, s) == IF ty = "b" THEN <<IF s[1] = 0 THEN 0 ELSE 1>> ELSE s
TySize(ty) == CASE ty \in {"b", "i8", "u8"} -> 1 [] ty \in {"i16", "u16"} -> 2 [] ty \in {"i64", "u64", "d"} -> 8 [] OTHER -> 4
-----------------------------------------------------------------------------
Slot == [k |-> "none", ty |-> "", s |-> <<>>, v |-> <<>>, i |-> 0, b |-> <<>>, o |-> <<>>]
Str(s) == [Slot EXCEPT !.k = "str", !.s = s]
Vec(ty, v) == [Slot EXCEPT !.k = "vec", !.ty = ty, !.v = v]
Flat(a) == [Slot EXCEPT !.k = "flat", !.i = a.i, !.b = a.b]
Comp(o) == [Slot EXCEPT !.k = "comp", !.o = o]
NFixed(i) == Lay(Infos(i), "OEM")[1]
NVar(i) == Lay(Infos(i), "OEM")[2]
Pos(i, j) == Lay(Infos(i), "OEM")[3][j]
DefaultSlot(f) == IF f.t = "FIELD_ARRAY" THEN Comp(<<>>) ELSE IF f.t = "STRING" THEN Str(<<>>) ELSE Vec(Stored(CType(f)), <<>>)
Nothing == [i |-> 0, fixed |-> <<>>, var |-> <<>>]
New(i) == LET V == SelectSeq(Infos(i), LAMBDA f : ~IsFixed(f)) IN [i |-> i, fixed |-> Zeros(NFixed(i)), var |-> [x \in 1..Len(V) |-> DefaultSlot(V[x])]]
Grown(s, n, z) == Cut(s, n) \o [x \in 1..(IF n > Len(s) THEN n - Len(s) ELSE 0) |-> z]
Resized(o, n, m) == [o EXCEPT !.fixed = Grown(o.fixed, n, 0), !.var = Grown(o.var, m, Slot)]
\* other field definitions for the same storage
WithInfo(o, i) == IF i = 0 THEN [o EXCEPT !.i = 0] ELSE [Resized(o, NFixed(i), NVar(i)) EXCEPT !.i = i]
-----------------------------------------------------------------------------
(* changes: [ok, o]; what is refused changes nothing. An index of -1 stands    *)
(* for one beyond everything                                                   *)
Done(o) == [ok |-> TRUE, o |-> o]
Refused(o) == [ok |-> FALSE, o |-> o]
In(at, n, size) == at >= 0 /\ at + n <= size
Over(s, at, b) == [x \in 1..Len(s) |-> IF x > at /\ x <= at + Len(b) THEN b[x - at] ELSE s[x]]
PutFixed(o, at, b) == IF In(at, Len(b), Len(o.fixed)) THEN Done([o EXCEPT !.fixed = Over(o.fixed, at, b)]) ELSE Refused(o)
PutVar(o, ix, s) == IF In(ix, 1, Len(o.var)) THEN Done([o EXCEPT !.var[ix + 1] = s]) ELSE Refused(o)
\* a whole field by its definition; val: a slot, or k = "one" (one value, in b), "buf" (a typed buffer, in v)
PutField(o, i, j, val) ==
  LET f == Infos(i)[j]
      at == Pos(i, j)
  IN CASE f.t \in {"VARIABLE_LENGTH_ARRAY", "STRING"} -> IF val.k \in {"str", "vec"} THEN PutVar(o, at, val) ELSE Refused(o)
       [] f.t = "FIELD_ARRAY" -> IF val.k \in {"flat", "comp"} THEN PutVar(o, at, val) ELSE Refused(o)
       [] val.k = "one" -> PutFixed(o, at, val.b)
       [] val.k = "buf" -> IF f.t = "FIXED_LENGTH_ARRAY" /\ Len(val.v) <= f.al THEN PutFixed(o, at, Cat(val.v)) ELSE Refused(o)
       [] OTHER -> Refused(o)
\* one element of an array (a single value is its own element 0); x: the value as type ty
PutElem(o, i, j, at, ty, x) ==
  LET f == Infos(i)[j]
      p == Pos(i, j)
  IN IF f.t = "FIXED_LENGTH_ARRAY" THEN (IF In(at, 1, f.al) THEN PutFixed(o, p + (at * TySize(ty)), x) ELSE Refused(o))
     ELSE IF IsFixed(f) THEN (IF at = 0 THEN PutFixed(o, p, x) ELSE Refused(o))
     ELSE IF ~In(p, 1, Len(o.var)) THEN Refused(o)
     ELSE LET s == o.var[p + 1] IN
          IF s.k = "vec" /\ s.ty = Stored(ty) /\ In(at, 1, Len(s.v)) THEN Done([o EXCEPT !.var[p + 1].v[at + 1] = x]) ELSE Refused(o)
-----------------------------------------------------------------------------
(* reading: <<what is read>>, <<>> if it is refused. want: "one" (element at of *)
(* type ty), "str", "vec", "buf", "rows" (how many)                            *)
Part(s, at, n) == SubSeq(s, at + 1, at + n)
GetFixed(s, base, i, j, ty, want, at) ==
  LET f == Infos(i)[j]
      p == base + Pos(i, j)
      n == TySize(ty)
  IN IF f.t = "FIXED_LENGTH_ARRAY"
     THEN CASE want = "one" -> IF In(at, 1, f.al) THEN <<As(ty, Part(s, p + (at * n), n))>> ELSE <<>>
            [] want = "buf" -> <<[x \in 1..f.al |-> As(ty, Part(s, p + ((x - 1) * n), n))]>>
            [] OTHER -> <<>>
     ELSE IF want = "one" THEN <<As(ty, Part(s, p, n))>> ELSE <<>>
Get(o, i, j, ty, want, at) ==
  LET f == Infos(i)[j] IN
  IF IsFixed(f) THEN GetFixed(o.fixed, 0, i, j, ty, want, at)
  ELSE LET s == o.var[Pos(i, j) + 1] IN
       CASE f.t = "STRING" -> IF want = "str" /\ s.k = "str" THEN <<s.s>> ELSE <<>>
         [] f.t = "FIELD_ARRAY" -> IF want # "rows" THEN <<>> ELSE IF s.k = "comp" THEN <<Len(s.o)>> ELSE IF s.k = "flat" THEN <<Len(s.b) \div NFixed(s.i)>> ELSE <<>>
         [] s.k # "vec" -> <<>>
         [] s.ty # Stored(ty) -> <<>>
         [] want = "vec" -> <<s.v>>
         [] want = "one" -> IF In(at, 1, Len(s.v)) THEN <<As(ty, s.v[at + 1])>> ELSE <<>>
         [] OTHER -> <<>>
\* row r of a flat array
GetFlat(a, r, j, ty, want, at) ==
  IF ~In(r, 1, Len(a.b) \div NFixed(a.i)) \/ ~IsFixed(Infos(a.i)[j]) THEN <<>> ELSE GetFixed(a.b, r * NFixed(a.i), a.i, j, ty, want, at)
\* row r of the field array j, its field g
GetRow(o, i, j, r, g, ty, want, at) ==
  LET s == o.var[Pos(i, j) + 1] IN
  CASE s.k = "flat" -> GetFlat(s, r, g, ty, want, at)
    [] s.k = "comp" -> IF In(r, 1, Len(s.o)) THEN Get(s.o[r + 1], SubInfo(i, j), g, ty, want, at) ELSE <<>>
    [] OTHER -> <<>>
-----------------------------------------------------------------------------
\* every slot is of the kind its field has
RECURSIVE Sound(_)
Sound(o) ==
  /\ o.i # 0
  /\ Len(o.fixed) = NFixed(o.i) /\ Len(o.var) = NVar(o.i)
  /\ \A j \in 1..Len(Infos(o.i)) :
       LET f == Infos(o.i)[j]
           s == o.var[Pos(o.i, j) + 1]
       IN IF IsFixed(f) THEN TRUE
          ELSE CASE f.t = "STRING" -> s.k = "str"
                 [] f.t = "FIELD_ARRAY" -> \/ s.k = "flat" /\ s.i = SubInfo(o.i, j) /\ Len(s.b) % NFixed(s.i) = 0
                                           \/ s.k = "comp" /\ \A r \in 1..Len(s.o) : s.o[r].i = SubInfo(o.i, j) /\ Sound(s.o[r])
                 [] OTHER -> s.k = "vec" /\ s.ty = Stored(CType(f))
Sum(ns) == FoldLeft(LAMBDA a, x : a + x, 0, ns)
\* values in a field, its bytes, and the bytes themselves (<<-1>>: rows that are objects cannot be written)
Count(o, j) == LET f == Infos(o.i)[j]
                   s == o.var[Pos(o.i, j) + 1]
               IN IF f.t = "FIXED_LENGTH_ARRAY" THEN f.al ELSE IF IsFixed(f) THEN 1
                  ELSE CASE s.k = "str" -> Len(s.s) [] s.k = "vec" -> Len(s.v) [] s.k = "flat" -> Len(s.b) \div NFixed(s.i) [] OTHER -> Len(s.o)
RECURSIVE Size(_, _)
Size(o, j) == LET f == Infos(o.i)[j]
                  s == o.var[Pos(o.i, j) + 1]
              IN IF IsFixed(f) THEN SizeOf(f)
                 ELSE CASE s.k = "str" -> Len(s.s) [] s.k = "vec" -> Len(s.v) * TySize(s.ty) [] s.k = "flat" -> Len(s.b)
                        [] OTHER -> IF NVar(SubInfo(o.i, j)) = 0 THEN Len(s.o) * NFixed(SubInfo(o.i, j))
                                    ELSE Sum([r \in 1..Len(s.o) |-> Sum([g \in 1..Len(Infos(s.o[r].i)) |-> Size(s.o[r], g)])])
Written(o, j) == LET f == Infos(o.i)[j]
                     s == o.var[Pos(o.i, j) + 1]
                 IN IF IsFixed(f) THEN Part(o.fixed, Pos(o.i, j), SizeOf(f))
                    ELSE CASE s.k = "str" -> s.s [] s.k = "vec" -> Cat(s.v) [] s.k = "flat" -> s.b [] OTHER -> <<0 - 1>>
View(o) == IF Sound(o) THEN [j \in 1..Len(Infos(o.i)) |-> [n |-> Count(o, j), bytes |-> Size(o, j), w |-> Written(o, j)]] ELSE <<>>
-----------------------------------------------------------------------------
(* flat arrays on their own *)
Absent == [i |-> 0, b |-> <<>>]
NewFlat(a, i, n) == IF i = 0 THEN Refused(a) ELSE IF NVar(i) > 0 THEN Refused(a) ELSE Done([i |-> i, b |-> Zeros(n * NFixed(i))])
DataFlat(a, i, b) == IF i = 0 THEN Refused(a) ELSE IF NVar(i) > 0 THEN Refused(a) ELSE IF Len(b) % NFixed(i) # 0 THEN Refused(a) ELSE Done([i |-> i, b |-> b])
PutFlat(a, r, at, b) == IF ~In(r, 1, Len(a.b) \div NFixed(a.i)) \/ at < 0 THEN Refused(a) ELSE LET p == (r * NFixed(a.i)) + at IN IF p + Len(b) > Len(a.b) THEN Refused(a) ELSE Done([a EXCEPT !.b = Over(a.b, p, b)])
=============================================================================
