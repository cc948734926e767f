------------------------------- MODULE MsgSpec -------------------------------
(* The body of a message in every format.                                    *)
(* A field definition is [n (name), nb (name as bytes), t (kind), dt, len,   *)
(* k (conversion letters), w, p (width, precision; -1: none), enum, al, alfs, *)
(* ref, fields]. A value is, by kind:                                        *)
(*   SIMPLE, ENUM, RESPONSE_ID   its little-endian bytes                      *)
(*   FIXED/VARIABLE_LENGTH_ARRAY a sequence of those                          *)
(*   STRING, RESPONSE_STR        characters                                   *)
(*   FIELD_ARRAY                 a sequence of rows, a row is one value each  *)
EXTENDS Names, Num, Layout
CONSTANTS MDefs(_), MVals(_), MResp(_)      \* message names; enumerations by id; the responses enumeration

Scan(s, i, S) == FindR(s, i, Len(s), S)
Ix(s) == [i \in 1..Len(s) |-> i]
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Rep(c, n) == [i \in 1..n |-> c]
Max0(n) == IF n < 0 THEN 0 ELSE n
Al(len, at) == IF len = 0 THEN 0 ELSE Align("OEM", len, at)
PadTo(s, len) == s \o Zeros(Al(len, Len(s)))
LE(n, k) == [i \in 1..k |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN (n \div 256) % 256 ELSE IF i = 3 THEN (n \div 65536) % 256 ELSE n \div 16777216]
WordLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
LEWord(b) == <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>
\* a narrow field as a 32-bit word
FieldWord(b) == LEWord(b \o Zeros(4 - Len(b)))
IsLeaf(f) == f.t \in {"SIMPLE", "ENUM", "RESPONSE_ID"}
IsText(f) == f.k \in {"s", "S"}
IsRaw(f) == f.k \in {"Z", "P"}
Default(f) == IF IsLeaf(f) THEN Zeros(f.len) ELSE IF f.t = "FIXED_LENGTH_ARRAY" THEN [i \in 1..f.al |-> Zeros(f.len)] ELSE <<>>
Defaults(fields) == [i \in 1..Len(fields) |-> Default(fields[i])]
RespField(n, t, dt, len) == [n |-> n, nb |-> Bytes(n), t |-> t, dt |-> dt, len |-> len, k |-> "", w |-> -1, p |-> -1, enum |-> "", al |-> 0, alfs |-> 4, ref |-> "", fields |-> <<>>]
RespFields == <<RespField("response_id", "RESPONSE_ID", "INT", 4), RespField("response_str", "RESPONSE_STR", "CHAR", 1)>>
-----------------------------------------------------------------------------
(* binary *)
RECURSIVE EncBin(_, _, _)
Filled(c, n, flat) == IF flat THEN c \o Zeros(Max0(n - Len(c))) ELSE c
EncBinField(s0, f, v, flat) ==
  LET s == PadTo(s0, f.len)
      cnt == IF f.ref # "" THEN s ELSE PadTo(s, f.alfs) \o LE(Len(v), f.alfs)
  IN CASE f.t = "FIXED_LENGTH_ARRAY" -> s \o Concat(v)
       [] f.t = "VARIABLE_LENGTH_ARRAY" -> cnt \o Filled(Concat(v), f.al * f.len, flat)
       [] f.t = "FIELD_ARRAY" -> cnt \o Filled(Concat([i \in 1..Len(v) |-> EncBin(f.fields, v[i], flat)]),
                                                IF flat THEN f.al * Len(EncBin(f.fields, Defaults(f.fields), TRUE)) ELSE 0, flat)
       [] f.t = "STRING" -> LET c == s \o Filled(v, f.al * f.len, flat) IN c \o Zeros(4 - (Len(c) % 4))
       [] OTHER -> s \o v
EncBin(fields, vals, flat) == FoldLeft(LAMBDA s, i : EncBinField(s, fields[i], vals[i], flat), <<>>, Ix(fields))

HUGE == 1000000
Num4(b) == IF (\E i \in 1..Len(b) : i > 3 /\ b[i] # 0) \/ (Len(b) >= 3 /\ b[3] >= 15) THEN HUGE
           ELSE b[1] + (IF Len(b) > 1 THEN 256 * b[2] ELSE 0) + (IF Len(b) > 2 THEN 65536 * b[3] ELSE 0)
RefVal(fields, vals, n) == LET i == CHOOSE i \in 1..Len(fields) : fields[i].n = n IN Num4(IF i <= Len(vals) THEN vals[i] ELSE Default(fields[i]))
Slice(b, at, n) == SubSeq(b, at + 1, at + n)
FixedBytes(fields) == Lay(fields, "OEM")[1]
AllFixed(fields) == Lay(fields, "OEM")[2] = 0
R(st, v, at) == [st |-> st, v |-> v, at |-> at]
Bad(acc) == [acc EXCEPT !.st = "MALFORMED_INPUT"]
\* acc: [st, v, at]; st is GO until the message ended or turned out to be malformed
Took(acc, v, at, n) == R(IF at >= n THEN "SUCCESS" ELSE "GO", Append(acc.v, v), at)
RECURSIVE DecBin(_, _)
DecRows(f, b, at, n) ==
  FoldLeft(LAMBDA acc, i : IF acc.st # "GO" THEN acc
                           ELSE LET r == DecBin(f.fields, Drop(b, acc.at)) IN
                                IF r.st = "SUCCESS" THEN R("GO", Append(acc.v, r.v), acc.at + r.at) ELSE Bad(acc),
           R("GO", <<>>, at), [i \in 1..n |-> i])
DecCounted(acc, fields, f, b, at) ==
  LET cat == at + Al(f.alfs, at)
      hasc == f.ref # "" \/ cat + f.alfs <= Len(b)
      cnt == IF f.ref # "" THEN RefVal(fields, acc.v, f.ref) ELSE Num4(Slice(b, cat, f.alfs))
      d == IF f.ref # "" THEN at ELSE cat + f.alfs
      left == Max0(Len(b) - d)
      fits(n) == IF n = 0 THEN TRUE ELSE cnt <= left \div n
  IN IF ~hasc THEN Bad(acc)
     ELSE IF f.t = "VARIABLE_LENGTH_ARRAY"
          THEN IF ~fits(f.len) THEN Bad(acc) ELSE Took(acc, [j \in 1..cnt |-> Slice(b, d + (j - 1) * f.len, f.len)], d + cnt * f.len, Len(b))
     ELSE IF AllFixed(f.fields)
          THEN LET fb == FixedBytes(f.fields) IN
               IF ~fits(fb) THEN Bad(acc) ELSE Took(acc, [j \in 1..cnt |-> DecBin(f.fields, Slice(b, d + (j - 1) * fb, fb)).v], d + cnt * fb, Len(b))
     ELSE IF cnt > left THEN Bad(acc)
          ELSE LET r == DecRows(f, b, d, cnt) IN IF r.st = "GO" THEN Took(acc, r.v, r.at, Len(b)) ELSE Bad(acc)
DecBinField(acc, fields, f, b) ==
  LET at == acc.at + Al(f.len, acc.at)
      left == Max0(Len(b) - at)
      n == IF f.t = "FIXED_LENGTH_ARRAY" THEN f.al * f.len ELSE f.len
  IN IF acc.st = "MALFORMED_INPUT" THEN acc
     ELSE IF acc.st = "SUCCESS" THEN [acc EXCEPT !.v = Append(@, Default(f))]
     ELSE IF f.t \in {"VARIABLE_LENGTH_ARRAY", "FIELD_ARRAY"} THEN DecCounted(acc, fields, f, b, at)
     ELSE IF f.t = "STRING"
          THEN LET z == Scan(b, at + 1, {0}) IN
               IF z > Len(b) THEN Bad(acc) ELSE Took(acc, SubSeq(b, at + 1, z - 1), z + ((4 - (z % 4)) % 4), Len(b))
     ELSE IF f.t = "RESPONSE_STR" THEN Took(acc, Drop(b, at), Len(b), Len(b))
     ELSE IF n > left THEN Bad(acc)
     ELSE Took(acc, IF f.t = "FIXED_LENGTH_ARRAY" THEN [j \in 1..f.al |-> Slice(b, at + (j - 1) * f.len, f.len)] ELSE Slice(b, at, n), at + n, Len(b))
DecBin(fields, b) ==
  LET r == FoldLeft(LAMBDA acc, i : DecBinField(acc, fields, fields[i], b), R("GO", <<>>, 0), Ix(fields))
  IN IF r.st = "GO" THEN [r EXCEPT !.st = "SUCCESS"] ELSE r
-----------------------------------------------------------------------------
(* one value as text *)
Prec(f) == IF f.p < 0 THEN 6 ELSE f.p
Clamp15(n) == IF n > 15 THEN 15 ELSE n
\* floating point without a fixed style: scientific outside 10^-width..10^width
Sci(f, b) == f.w < 0 \/ (FNormal(b) /\ (FCmpPow10(b, Clamp15(f.w)) > 0 \/ FCmpPow10(b, 0 - Clamp15(f.w)) < 0))
FloatText(f, b) == IF Sci(f, b) THEN SciText(b, Prec(f)) ELSE FixedText(b, Prec(f))
MsecText(b) == LET s0 == UText(b)
                   s == IF Len(s0) >= 4 THEN s0 ELSE Rep(48, 4 - Len(s0)) \o s0
               IN Take(s, Len(s) - 3) \o <<46>> \o Drop(s, Len(s) - 3)
SatText(b) == LET fr == SubSeq(b, 3, 4) IN
              UText(Take(b, 2)) \o (IF fr = <<0, 0>> THEN <<>> ELSE IF IsNeg(fr) THEN SText(fr) ELSE <<43>> \o SText(fr))
CharText(c) == IF c = 92 THEN <<92, 92>> ELSE IF c \in 32..126 THEN <<c>> ELSE <<92, 120>> \o HexText(<<c>>)
EnumOf(f) == MVals(f.enum)
TypeText(f, b, json) ==
  CASE f.dt = "BOOL" -> IF b[1] # 0 THEN (IF json THEN Bytes("true") ELSE Bytes("TRUE")) ELSE (IF json THEN Bytes("false") ELSE Bytes("FALSE"))
    [] f.dt = "HEXBYTE" -> IF json THEN UText(b) ELSE HexText(b)
    [] f.dt \in {"CHAR", "SHORT", "INT", "LONG", "LONGLONG"} -> SText(b)
    [] f.dt \in {"FLOAT", "DOUBLE"} -> FloatText(f, b)
    [] OTHER -> UText(b)
LeafText(f, b) ==
  IF f.t = "ENUM" THEN EnumString(EnumOf(f), FieldWord(b))
  ELSE CASE f.k = "UB" -> UText(b)
         [] f.k = "B" -> SText(b)
         [] f.k \in {"XB", "x", "X", "lx", "llx"} -> HexText(b)
         [] f.k = "m" -> IdToName(MDefs(0), Unword(LEWord(b)))
         [] f.k = "T" -> MsecText(b)
         [] f.k = "id" -> SatText(b)
         [] f.k = "P" -> CharText(b[1])
         [] f.k \in {"f", "lf"} -> FixedText(b, Prec(f))
         [] f.k \in {"e", "le"} -> SciText(b, Prec(f))
         [] f.k \in {"c", "s"} -> <<b[1]>>
         [] OTHER -> TypeText(f, b, FALSE)
Chars(v) == [i \in 1..Len(v) |-> v[i][1]]
\* a character array ends at its first NUL
Cut(s) == Take(s, Scan(s, 1, {0}) - 1)
-----------------------------------------------------------------------------
(* ASCII and abbreviated ASCII bodies: values each followed by the separator *)
QU == 34
INDENT == 5
Lead(n) == <<60>> \o Rep(32, INDENT * n)
RECURSIVE EncAsc(_, _, _, _)
EncAscField(f, v, sep, abb, ind) ==
  LET cnt == Dec(Len(v)) \o sep IN
  CASE f.t \in {"SIMPLE", "ENUM"} -> LeafText(f, v) \o sep
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} ->
         (IF f.t = "VARIABLE_LENGTH_ARRAY" THEN cnt ELSE <<>>) \o
         (IF IsText(f) THEN <<QU>> \o Cut(Chars(v)) \o <<QU>> \o sep
          ELSE IF IsRaw(f) THEN Concat([i \in 1..Len(v) |-> LeafText(f, v[i])]) \o sep
          ELSE Concat([i \in 1..Len(v) |-> LeafText(f, v[i]) \o sep]))
    [] f.t = "STRING" -> <<QU>> \o v \o <<QU>> \o sep
    [] f.t = "RESPONSE_STR" -> v \o sep
    [] f.t = "FIELD_ARRAY" ->
         cnt \o (IF abb /\ v = <<>> THEN <<13, 10>> \o Lead(ind + 1) ELSE <<>>)
             \o Concat([i \in 1..Len(v) |-> (IF abb THEN <<13, 10>> ELSE <<>>) \o EncAsc(f.fields, v[i], abb, ind + 1)])
    [] OTHER -> <<>>
EncAsc(fields, vals, abb, ind) ==
  LET sep == IF abb THEN <<32>> ELSE <<44>>
      nl(i) == abb /\ i > 1 /\ fields[i - 1].t = "FIELD_ARRAY"
  IN FoldLeft(LAMBDA s, i : s \o (IF nl(i) THEN <<13, 10>> \o Lead(ind) ELSE <<>>) \o EncAscField(fields[i], vals[i], sep, abb, ind),
              IF abb THEN Lead(ind) ELSE <<>>, Ix(fields))
ButLast(s) == IF s = <<>> THEN s ELSE Take(s, Len(s) - 1)
-----------------------------------------------------------------------------
(* JSON: a node is [t, s, k, a]: n number (its text), s string, b boolean,    *)
(* z null, a array, o object (names k).                                       *)
Node(t, s, k, a) == [t |-> t, s |-> s, k |-> k, a |-> a]
NumN(s) == Node("n", s, <<>>, <<>>)
StrN(s) == Node("s", s, <<>>, <<>>)
BoolN(b) == Node("b", IF b THEN Bytes("true") ELSE Bytes("false"), <<>>, <<>>)
ArrN(a) == Node("a", <<>>, <<>>, a)
LeafNode(f, b) ==
  IF f.t = "ENUM" THEN StrN(EnumString(EnumOf(f), FieldWord(b)))
  ELSE CASE f.k = "P" -> NumN(IF f.dt = "CHAR" THEN SText(b) ELSE UText(b))
         [] f.k = "T" -> NumN(MsecText(b))
         [] f.k \in {"m", "id", "c"} -> StrN(LeafText(f, b))
         [] f.k \in {"f", "lf", "e", "le"} -> NumN(LeafText(f, b))
         [] f.dt = "BOOL" -> BoolN(b[1] # 0)
         [] OTHER -> NumN(TypeText(f, b, TRUE))
RECURSIVE ObjNode(_, _)
ValNode(f, v) ==
  CASE IsLeaf(f) -> LeafNode(f, v)
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} ->
         IF IsText(f) THEN StrN(Cut(Chars(v))) ELSE ArrN([i \in 1..Len(v) |-> LeafNode(f, v[i])])
    [] f.t = "FIELD_ARRAY" -> ArrN([i \in 1..Len(v) |-> ObjNode(f.fields, v[i])])
    [] OTHER -> StrN(v)
ObjNode(fields, vals) == Node("o", <<>>, [i \in 1..Len(fields) |-> fields[i].nb], [i \in 1..Len(fields) |-> ValNode(fields[i], vals[i])])
EscChar(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 THEN Bytes("\\u00") \o HexText(<<c>>) ELSE <<c>>
Esc(s) == Concat([i \in 1..Len(s) |-> EscChar(s[i])])
JoinC(ss) == FoldLeft(LAMBDA a, i : IF i = 1 THEN ss[1] ELSE a \o <<44>> \o ss[i], <<>>, Ix(ss))
RECURSIVE Render(_)
Render(n) ==
  CASE n.t = "s" -> <<QU>> \o Esc(n.s) \o <<QU>>
    [] n.t = "a" -> <<91>> \o JoinC([i \in 1..Len(n.a) |-> Render(n.a[i])]) \o <<93>>
    [] n.t = "o" -> <<123>> \o JoinC([i \in 1..Len(n.a) |-> <<QU>> \o n.k[i] \o <<QU, 58, 32>> \o Render(n.a[i])]) \o <<125>>
    [] n.t = "z" -> Bytes("null")
    [] OTHER -> n.s
-----------------------------------------------------------------------------
(* reading one value from text: <<>> not readable, <<v>> its value; a        *)
(* floating-point value is left as a hole <<1000>> \o its text; <<"any">>    *)
(* for text whose reading is not specified.                                   *)
ANY == <<<<2000>>>>
IsAny(r) == r = ANY
HOLE == 1000
NOSIGN == 1001     \* zero, of any sign
DigitsEnd(s, i, S(_)) == LET I == {j \in i..Len(s) : ~S(s[j])} IN IF I = {} THEN Len(s) + 1 ELSE CHOOSE j \in I : \A m \in I : j <= m
Unspace(tok) == LET I == {j \in 1..Len(tok) : tok[j] # 32}
                    k == IF I = {} THEN Len(tok) ELSE CHOOSE j \in I : \A m \in I : j <= m IN Drop(tok, k - 1)
Opt(b) == IF b = <<>> THEN <<>> ELSE <<b>>
IntPrefix(s, n, signed) ==
  LET neg == signed /\ Len(s) > 0 /\ s[1] = 45
      u == IF neg THEN Drop(s, 1) ELSE s
      d == Take(u, DigitsEnd(u, 1, IsDigit) - 1)
  IN IF d = <<>> THEN <<>> ELSE Opt(IF signed THEN SBytes(neg, d, n) ELSE UBytes(d, n))
HexPrefix(s, n) == LET d == Take(s, DigitsEnd(s, 1, IsHex) - 1) IN IF d = <<>> THEN <<>> ELSE Opt(HexBytes(d, n))
\* [-]digits[.digits][e[+-]digits], all of it
StrictNum(s) ==
  LET u == IF Len(s) > 0 /\ s[1] = 45 THEN Drop(s, 1) ELSE s
      i == DigitsEnd(u, 1, IsDigit)
      fr == i <= Len(u) /\ u[i] = 46
      j == IF fr THEN DigitsEnd(u, i + 1, IsDigit) ELSE i
      ex == j <= Len(u) /\ u[j] \in {69, 101}
      g == IF ex /\ j < Len(u) /\ u[j + 1] \in {43, 45} THEN j + 2 ELSE j + 1
      k == IF ex THEN DigitsEnd(u, g, IsDigit) ELSE j
  IN i > 1 /\ (~fr \/ j > i + 1) /\ (~ex \/ (k > g /\ k <= g + 2)) /\ k = Len(u) + 1 /\ Len(u) <= 60
FloatParse(s) == IF StrictNum(s) THEN <<<<HOLE>> \o s>> ELSE ANY
SatParse(s) ==
  LET i == DigitsEnd(s, 1, IsDigit)
      slot == UBytes(Take(s, i - 1), 2)
      fd == Drop(s, i)
  IN IF i = 1 \/ slot = <<>> \/ (i <= Len(s) /\ s[i] \notin {43, 45}) THEN ANY
     ELSE IF i > Len(s) THEN <<slot \o <<0, 0>>>>
     ELSE IF ~AllDigits(fd) THEN ANY
     ELSE LET v == SBytes(FALSE, fd, 2) IN IF v = <<>> THEN ANY ELSE <<slot \o (IF s[i] = 45 THEN Negate(v) ELSE v)>>
\* seconds with at most three decimals -> milliseconds
MsecParse(s) ==
  LET i == DigitsEnd(s, 1, IsDigit)
      fr == Drop(s, i)
  IN IF i = 1 \/ (i <= Len(s) /\ (s[i] # 46 \/ ~AllDigits(fr) \/ Len(fr) > 3)) THEN ANY
     ELSE LET v == UBytes(Take(s, i - 1) \o fr \o Rep(48, 3 - Len(fr)), 4) IN IF v = <<>> THEN ANY ELSE <<v>>
WordField(w, n) == Take(WordLE(w), n)
NameWord(s) == WordLE(Word(NameToId(MDefs(0), s)))
SignedK == {"hd", "ld", "lld", "B"}
UnsignedK == {"hu", "lu", "llu", "UB", "u"}
FloatK == {"f", "lf", "e", "le", "g", "lg", "k", "lk"}
HexK == {"x", "X", "lx", "llx", "XB"}
LeafParse(f, tok) ==
  CASE f.k \in SignedK -> IntPrefix(Unspace(tok), f.len, TRUE)
    [] f.k \in UnsignedK -> IntPrefix(Unspace(tok), f.len, FALSE)
    [] f.k \in HexK -> HexPrefix(Unspace(tok), f.len)
    [] f.k \in FloatK -> FloatParse(Unspace(tok))
    [] f.k = "d" -> IF f.dt = "BOOL" THEN <<<<IF Len(tok) = 4 THEN 1 ELSE 0>> \o Zeros(f.len - 1)>> ELSE IntPrefix(Unspace(tok), 4, TRUE)
    [] f.k = "c" -> <<<<tok[1]>> \o Zeros(f.len - 1)>>
    [] f.k = "m" -> <<NameWord(tok)>>
    [] f.k = "id" -> SatParse(tok)
    [] f.k = "T" -> MsecParse(tok)
    [] OTHER -> <<>>
EnumParse(f, s) == WordField(EnumValue(EnumOf(f), s), f.len)
RespParse(s) == IF s = Bytes("OK") THEN <<1, 0, 0, 0>> ELSE WordLE(ResponseId(MResp(0), Drop(s, 6)))
\* one (possibly escaped) character of a text array at p: [st, c, p]
C(st, c, p) == [st |-> st, c |-> c, p |-> p]
CharAt(t, p) ==
  IF p > Len(t) THEN C("MALFORMED_INPUT", 0, p)
  ELSE IF At(t, p, <<92, 92>>) THEN C("GO", 92, p + 2)
  ELSE IF At(t, p, <<92, 120>>)
       THEN IF p + 3 > Len(t) THEN C("MALFORMED_INPUT", 0, p)
            ELSE IF IsHex(t[p + 2]) /\ IsHex(t[p + 3]) THEN C("GO", 16 * HexVal(t[p + 2]) + HexVal(t[p + 3]), p + 4) ELSE C("ANY", 0, p)
  ELSE C("GO", t[p], p + 1)
\* n characters (until a quote, if quoted): [st, v, at]
CharsAt(t, p, n, quoted) ==
  FoldLeft(LAMBDA a, i : IF a.st # "GO" THEN a
                         ELSE IF quoted /\ a.at <= Len(t) /\ t[a.at] = QU THEN [a EXCEPT !.st = "END"]
                         ELSE LET c == CharAt(t, a.at) IN R(c.st, IF c.st = "GO" THEN Append(a.v, c.c) ELSE a.v, c.p),
           R("GO", <<>>, p), [i \in 1..n |-> i])
Elems(s, n) == [i \in 1..n |-> <<IF i <= Len(s) THEN s[i] ELSE 0>>]
-----------------------------------------------------------------------------
(* text bodies; acc: [st, v, at], at is the position of the next character    *)
RECURSIVE SkipR(_, _)
SkipR(t, p) == IF p > Len(t) \/ t[p] \notin {60, 32, 13, 10} THEN p ELSE SkipR(t, p + 1)
RECURSIVE DecAsc(_, _, _, _)
Prev(t, p) == IF p - 1 \in 1..Len(t) THEN t[p - 1] ELSE 0
Unsaid(acc) == [acc EXCEPT !.st = "ANY"]
Put(acc, v, p) == R("GO", Append(acc.v, v), p)
PutLeaf(acc, r, p) == IF r = <<>> THEN Bad(acc) ELSE IF IsAny(r) THEN Unsaid(acc) ELSE Put(acc, r[1], p)
DecElems(acc, f, t, p, n, fd, ed) ==
  LET step(a, i) ==
        IF a.st # "GO" THEN a
        ELSE IF i > 1 /\ (a.at > Len(t) \/ Prev(t, a.at) = ed) THEN Bad(a)
        ELSE LET q == Scan(t, a.at, {fd, ed})
                 tok == SubSeq(t, a.at, q - 1) IN
             IF tok = <<>> THEN Bad(a) ELSE PutLeaf(a, LeafParse(f, tok), q + 1)
      r == FoldLeft(LAMBDA a, i : step(a, i), R("GO", <<>>, p), [i \in 1..n |-> i])
  IN IF r.st = "GO" THEN Put(acc, r.v, r.at) ELSE [acc EXCEPT !.st = r.st]
DecTextArray(acc, f, t, p, n, fd, ed) ==
  IF f.k = "Z"
  THEN IF Len(t) - p + 1 < 2 * n THEN Bad(acc)
       ELSE IF \E j \in p..(p + 2 * n - 1) : ~IsHex(t[j]) THEN Unsaid(acc)
       ELSE Put(acc, [i \in 1..n |-> <<16 * HexVal(t[p + 2 * i - 2]) + HexVal(t[p + 2 * i - 1])>>], p + 2 * n + 1)
  ELSE IF IsText(f)
  THEN IF p > Len(t) \/ Prev(t, p + 1) # QU THEN Bad(acc)
       ELSE LET r == CharsAt(t, p + 1, n, TRUE) IN
            IF r.st \notin {"GO", "END"} THEN [acc EXCEPT !.st = r.st]
            ELSE IF Prev(t, r.at + 1) # QU THEN Bad(acc)
            ELSE Put(acc, Elems(r.v, n), r.at + 2)
  ELSE IF f.k = "P"
  THEN LET r == CharsAt(t, p, n, FALSE) IN IF r.st # "GO" THEN [acc EXCEPT !.st = r.st] ELSE Put(acc, Elems(r.v, n), r.at + 1)
  ELSE DecElems(acc, f, t, p, n, fd, ed)
DecAscRows(acc, f, t, p, n, abb) ==
  LET r == FoldLeft(LAMBDA a, i : IF a.st # "GO" THEN a
                                  ELSE IF ~abb /\ Prev(t, a.at) = 42 THEN Bad(a)
                                  ELSE LET x == DecAsc(f.fields, t, a.at, abb) IN
                                       IF x.st = "SUCCESS" THEN R("GO", Append(a.v, x.v), x.at) ELSE [a EXCEPT !.st = x.st],
                    R("GO", <<>>, p), [i \in 1..n |-> i])
  IN IF r.st = "GO" THEN Put(acc, r.v, r.at) ELSE [acc EXCEPT !.st = r.st]
Count(tok) == LET d == Take(tok, DigitsEnd(tok, 1, IsDigit) - 1)
                  b == IF d = <<>> THEN <<>> ELSE UBytes(d, 4) IN IF b = <<>> THEN -1 ELSE Num4(b)
DecAscField(acc, f, t, abb) ==
  LET fd == IF abb THEN 32 ELSE 44
      ed == IF abb THEN 13 ELSE 42
      p == IF abb THEN SkipR(t, acc.at) ELSE acc.at
      q == Scan(t, p, {fd, ed})
      tok == SubSeq(t, p, q - 1)
      rq == Scan(t, p, {ed})
      rtok == SubSeq(t, p, rq - 1)
      ended(x) == IF x.st = "GO" /\ ~abb /\ Prev(t, x.at) = 42 THEN [x EXCEPT !.st = "SUCCESS"] ELSE x
      arr == CASE f.t = "FIXED_LENGTH_ARRAY" -> DecTextArray(acc, f, t, p, f.al, fd, ed)
               [] OTHER -> LET n == Count(tok) IN
                           IF n < 0 \/ n > f.al \/ (n > 0 /\ (q + 1 > Len(t) \/ Prev(t, q + 1) = ed)) THEN Bad(acc)
                           ELSE DecTextArray(acc, f, t, q + 1, n, fd, ed)
      rows == LET n == Count(tok) IN
              IF n < 0 \/ n > f.al THEN Bad(acc) ELSE DecAscRows(acc, f, t, DigitsEnd(tok, 1, IsDigit) + p, n, abb)
      str == IF tok[1] \in {44, 42} THEN Unsaid(acc)
             ELSE IF tok[1] = QU THEN LET e == Scan(t, p + 1, {QU, ed}) IN Put(acc, SubSeq(t, p + 1, e - 1), Scan(t, e, {fd, ed}) + 1)
             ELSE Put(acc, tok, q + 1)
  IN IF acc.st = "SUCCESS" THEN [acc EXCEPT !.v = Append(@, Default(f))]
     ELSE IF acc.st # "GO" THEN acc
     ELSE IF acc.at > Len(t) \/ tok = <<>> THEN Bad(acc)
     ELSE CASE f.t = "SIMPLE" -> ended(PutLeaf(acc, LeafParse(f, tok), q + 1))
            [] f.t = "ENUM" -> ended(Put(acc, EnumParse(f, tok), q + 1))
            [] f.t = "STRING" -> ended(str)
            [] f.t = "RESPONSE_ID" -> Put(acc, RespParse(rtok), p)
            [] f.t = "RESPONSE_STR" -> ended(Put(acc, rtok, rq + 1))
            [] f.t = "FIELD_ARRAY" -> ended(rows)
            [] OTHER -> ended(arr)
DecAsc(fields, t, p, abb) ==
  LET r == FoldLeft(LAMBDA acc, i : DecAscField(acc, fields[i], t, abb), R("GO", <<>>, p), Ix(fields))
  IN IF r.st = "GO" THEN [r EXCEPT !.st = "SUCCESS"] ELSE r
-----------------------------------------------------------------------------
(* JSON bodies *)
IntNode(n) == n.t = "n" /\ AllDigits(IF Len(n.s) > 0 /\ n.s[1] = 45 THEN Drop(n.s, 1) ELSE n.s)
NodeInt(n, len, signed) ==
  IF ~IntNode(n) THEN <<>>
  ELSE LET neg == n.s[1] = 45
           d == IF neg THEN Drop(n.s, 1) ELSE n.s
       IN IF signed THEN Opt(SBytes(neg, d, len)) ELSE IF neg THEN <<>> ELSE Opt(UBytes(d, len))
JLeaf(f, n) ==
  CASE f.k \in SignedK -> NodeInt(n, f.len, TRUE)
    [] f.k \in UnsignedK \cup HexK -> NodeInt(n, f.len, FALSE)
    [] f.k \in FloatK -> IF n.t = "n" THEN (IF n.s = <<45, 48>> THEN <<<<NOSIGN>>>> ELSE FloatParse(n.s)) ELSE <<>>
    [] f.k = "d" -> IF f.dt = "BOOL" THEN (IF n.t = "b" THEN <<<<IF n.s = Bytes("true") THEN 1 ELSE 0>> \o Zeros(f.len - 1)>> ELSE <<>>)
                    ELSE NodeInt(n, 4, TRUE)
    [] f.k = "c" -> IF n.t = "s" THEN (IF n.s = <<>> THEN <<>> ELSE <<<<n.s[1]>> \o Zeros(f.len - 1)>>)
                    ELSE LET v == NodeInt(n, 1, FALSE) IN IF v = <<>> THEN <<>> ELSE <<v[1] \o Zeros(f.len - 1)>>
    [] f.k = "m" -> IF n.t = "s" THEN <<NameWord(n.s)>> ELSE <<>>
    [] f.k = "id" -> IF n.t = "s" THEN SatParse(n.s) ELSE <<>>
    [] f.k = "T" -> IF n.t = "n" THEN MsecParse(n.s) ELSE <<>>
    [] OTHER -> <<>>
\* bytes of a raw array
JByte(f, n) == IF ~IntNode(n) THEN <<>> ELSE LET v == NodeInt(n, 1, FALSE)
                                                  s == NodeInt(n, 1, TRUE) IN
               IF v # <<>> THEN v ELSE IF f.k = "P" /\ s # <<>> THEN s ELSE IF f.k = "Z" /\ n.s[1] = 45 THEN <<>> ELSE ANY
Member(n, nb) == IF n.t # "o" THEN <<>> ELSE LET I == {i \in 1..Len(n.k) : n.k[i] = nb} IN IF I = {} THEN <<>> ELSE <<n.a[CHOOSE i \in I : \A j \in I : i <= j]>>
V(st, v) == [st |-> st, v |-> v]
RECURSIVE DecObj(_, _)
Gather(f, ns, raw) ==
  LET rs == [i \in 1..Len(ns) |-> IF raw THEN JByte(f, ns[i]) ELSE JLeaf(f, ns[i])]
      bad == {i \in 1..Len(rs) : rs[i] = <<>> \/ IsAny(rs[i])}
  IN IF bad # {} THEN (IF rs[CHOOSE i \in bad : \A j \in bad : i <= j] = <<>> THEN V("MALFORMED_INPUT", <<>>) ELSE V("ANY", <<>>))
     ELSE V("GO", [i \in 1..Len(rs) |-> rs[i][1]])
Fill(f, v) == IF f.t = "FIXED_LENGTH_ARRAY" THEN v \o [i \in 1..(f.al - Len(v)) |-> Zeros(f.len)] ELSE v
JArray(f, n) ==
  LET over(k) == f.t = "FIXED_LENGTH_ARRAY" /\ k > f.al IN
  IF IsText(f) THEN IF n.t # "s" THEN V("GO", Default(f)) ELSE IF over(Len(n.s)) THEN V("MALFORMED_INPUT", <<>>)
                    ELSE V("GO", Fill(f, [i \in 1..Len(n.s) |-> <<n.s[i]>>]))
  ELSE IF n.t # "a" THEN V("GO", Default(f))
  ELSE IF over(Len(n.a)) THEN V("MALFORMED_INPUT", <<>>)
  ELSE LET g == Gather(f, n.a, IsRaw(f)) IN IF g.st = "GO" THEN V("GO", Fill(f, g.v)) ELSE g
JRows(f, n) ==
  IF n.t # "a" THEN V("MALFORMED_INPUT", <<>>)
  ELSE FoldLeft(LAMBDA a, x : IF a.st # "GO" THEN a
                              ELSE LET r == DecObj(f.fields, x) IN IF r.st = "SUCCESS" THEN V("GO", Append(a.v, r.v)) ELSE V(r.st, <<>>),
                V("GO", <<>>), n.a)
JField(f, m) ==
  IF m = <<>> THEN V("GO", Default(f))
  ELSE LET n == m[1] IN
       CASE f.t = "SIMPLE" -> LET r == JLeaf(f, n) IN IF r = <<>> THEN V("MALFORMED_INPUT", <<>>) ELSE IF IsAny(r) THEN V("ANY", <<>>) ELSE V("GO", r[1])
         [] f.t = "ENUM" -> V("GO", IF n.t = "s" THEN EnumParse(f, n.s) ELSE Default(f))
         [] f.t \in {"STRING", "RESPONSE_STR"} -> V("GO", IF n.t = "s" THEN n.s ELSE Default(f))
         [] f.t = "FIELD_ARRAY" -> JRows(f, n)
         [] OTHER -> JArray(f, n)
DecObj(fields, n) ==
  LET r == FoldLeft(LAMBDA a, f : IF a.st # "GO" THEN a
                                  ELSE LET x == JField(f, Member(n, f.nb)) IN IF x.st = "GO" THEN V("GO", Append(a.v, x.v)) ELSE x,
                    V("GO", <<>>), fields)
  IN IF r.st = "GO" THEN [r EXCEPT !.st = "SUCCESS"] ELSE r
-----------------------------------------------------------------------------
(* does an observed value agree with a decoded one (which may have holes)     *)
\* a truth value is what its first byte says
LeafOk(f, got, v) == IF v # <<>> /\ v[1] = HOLE THEN Nearest(got, Drop(v, 1)) ELSE IF v # <<>> /\ v[1] = NOSIGN THEN FZero(got) ELSE IF f.dt = "BOOL" THEN Len(got) = Len(v) /\ got[1] = v[1] ELSE got = v
RECURSIVE ValsOk(_, _, _)
ValOk(f, got, v) ==
  CASE IsLeaf(f) -> LeafOk(f, got, v)
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} -> Len(got) = Len(v) /\ \A i \in 1..Len(v) : LeafOk(f, got[i], v[i])
    [] f.t = "FIELD_ARRAY" -> Len(got) = Len(v) /\ \A i \in 1..Len(v) : ValsOk(f.fields, got[i], v[i])
    [] OTHER -> got = v
ValsOk(fields, got, vals) == Len(got) = Len(fields) /\ \A i \in 1..Len(fields) : ValOk(fields[i], got[i], vals[i])
\* a decoded value without holes
RECURSIVE ExactAll(_, _)
ExactLeaf(v) == v = <<>> \/ v[1] < HOLE
ExactOne(f, v) ==
  CASE IsLeaf(f) -> ExactLeaf(v)
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} -> \A i \in 1..Len(v) : ExactLeaf(v[i])
    [] f.t = "FIELD_ARRAY" -> \A i \in 1..Len(v) : ExactAll(f.fields, v[i])
    [] OTHER -> TRUE
ExactAll(fields, vals) == \A i \in 1..Len(fields) : ExactOne(fields[i], vals[i])
\* is every BOOL among them 0 or 1? (what becomes of other bytes is not specified)
RECURSIVE CleanAll(_, _)
CleanOne(f, v) ==
  CASE IsLeaf(f) -> f.dt # "BOOL" \/ v = <<>> \/ (v[1] \in {0, 1} /\ \A i \in 2..Len(v) : v[i] = 0)
    [] f.t = "FIELD_ARRAY" -> \A i \in 1..Len(v) : CleanAll(f.fields, v[i])
    [] OTHER -> TRUE
CleanAll(fields, vals) == \A i \in 1..Len(fields) : CleanOne(fields[i], vals[i])
\* holes filled with zeros
RECURSIVE PlugAll(_, _)
PlugLeaf(f, v) == IF ExactLeaf(v) THEN v ELSE [i \in 1..f.len |-> 0]
PlugOne(f, v) ==
  CASE IsLeaf(f) -> PlugLeaf(f, v)
    [] f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"} -> [i \in 1..Len(v) |-> PlugLeaf(f, v[i])]
    [] f.t = "FIELD_ARRAY" -> [i \in 1..Len(v) |-> PlugAll(f.fields, v[i])]
    [] OTHER -> v
PlugAll(fields, vals) == [i \in 1..Len(fields) |-> PlugOne(fields[i], vals[i])]
=============================================================================
