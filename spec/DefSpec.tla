------------------------------- MODULE DefSpec -------------------------------
(* Definitions of messages, enumerations and fields as values: what a copy   *)
(* states, when two are equal, what look-ups in one find, and the grammar of *)
(* conversion strings.                                                       *)
EXTENDS Crc, Integers

Max2(a, b) == IF a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2]) THEN a ELSE b
Inc(a) == IF a[2] = 65535 THEN <<a[1] + 1, 0>> ELSE <<a[1], a[2] + 1>>
\* the value that stands for unknown enumerators: one above the largest
Unknown(vals) == Inc(FoldLeft(LAMBDA m, e : Max2(m, e.v), <<0, 0>>, vals))
Hit(s, Key(_), q) == LET I == {i \in 1..Len(s) : Key(s[i]) = q} IN IF I = {} THEN <<>> ELSE <<CHOOSE i \in I : \A j \in I : i <= j>>

\* ---- equality: the stated parts, not what is derived from them ------------
RECURSIVE EqF(_, _)
EqL(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqF(a[i], b[i])
EqF(a, b) ==
  /\ a.k = b.k
  /\ a.k # "null" =>
       /\ a.n = b.n /\ a.t = b.t /\ a.d = b.d /\ a.conv = b.conv /\ a.dt = b.dt /\ a.len = b.len /\ a.dd = b.dd
       /\ (a.k = "enum") => (a.enum = b.enum)
       /\ (a.k \in {"array", "rows"}) => (a.al = b.al /\ a.ref = b.ref /\ a.alfs = b.alfs)
       /\ (a.k = "rows") => EqL(a.fields, b.fields)
EqType(a, b) == a.dt = b.dt /\ a.len = b.len /\ a.dd = b.dd
EqM(a, b) ==
  /\ a.id = b.id /\ a.log = b.log /\ a.name = b.name /\ a.tag = b.tag /\ a.latest = b.latest
  /\ Len(a.defs) = Len(b.defs)
  /\ \A i \in 1..Len(a.defs) : \E j \in 1..Len(b.defs) :
       /\ a.defs[i].crc = b.defs[j].crc /\ a.defs[i].fb = b.defs[j].fb /\ a.defs[i].vc = b.defs[j].vc
       /\ EqL(a.defs[i].fields, b.defs[j].fields)

\* ---- conversion strings: % [width] [. [precision]] letters ----------------
Digit(c) == c \in 48..57
Letter(c) == (c \in 65..90) \/ (c \in 97..122)
RECURSIVE Span(_, _, _)
Span(s, P(_), i) == IF i <= Len(s) /\ P(s[i]) THEN Span(s, P, i + 1) ELSE i
Num(s) == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, s)
NoNum(s) == IF s = <<>> THEN -1 ELSE Num(s)
Conv(s) ==
  IF s = <<>> \/ s[1] # 37 THEN [st |-> "bad"]
  ELSE LET a == Span(s, Digit, 2)
           b == IF a <= Len(s) /\ s[a] = 46 THEN a + 1 ELSE a
           c == Span(s, Digit, b)
           d == Span(s, Letter, c)
           w == SubSeq(s, 2, a - 1)
           p == SubSeq(s, b, c - 1)
           \* padded or enormous numbers are left open
           open(x) == (Len(x) > 1 /\ x[1] = 48) \/ Len(x) > 9
       IN IF open(w) \/ open(p) THEN [st |-> "open"]
          ELSE IF d = c \/ d # Len(s) + 1 THEN [st |-> "bad"]
          ELSE [st |-> "ok", w |-> NoNum(w), p |-> NoNum(p), ls |-> SubSeq(s, c, d - 1)]
\* a text is never separated by commas; neither is a string or a blob of characters
IsStr(t, ls) == (t = "STRING") \/ (ls \in {<<115>>, <<83>>})
IsCsv(t, ls) == ~IsStr(t, ls) /\ ls \notin {<<90>>, <<80>>}
=============================================================================
