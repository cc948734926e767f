-------------------------------- MODULE Names --------------------------------
(* Message names and packed message identifiers; enumerations.                *)
(* An identifier is [id (16 bits), sib (5), fmt (2), resp (1)].               *)
EXTENDS Text
F_BIN == 0
F_ASC == 1
F_ABB == 2
Pack(id, sib, fmt, resp) == [id |-> id % 65536, sib |-> sib % 32, fmt |-> fmt % 4, resp |-> resp % 2]
\* as a 32-bit word: <<high 16, low 16>>
Word(m) == <<m.sib + 32 * m.fmt + 128 * m.resp, m.id>>
Unword(w) == [id |-> w[2], sib |-> w[1] % 32, fmt |-> (w[1] \div 32) % 4, resp |-> (w[1] \div 128) % 2]
TypeByte(sib, fmt, resp) == (sib % 32) + 32 * (fmt % 4) + 128 * (resp % 2)

US == 95
\* defs: sequence of [id, name] with name as bytes; the last one with a name wins
Def(defs, n) == LET I == {i \in 1..Len(defs) : defs[i].name = n} IN IF I = {} THEN <<>> ELSE <<defs[CHOOSE i \in I : \A j \in I : j <= i].id>>
DefName(defs, id) == LET I == {i \in 1..Len(defs) : defs[i].id = id} IN IF I = {} THEN Bytes("UNKNOWN") ELSE defs[CHOOSE i \in I : \A j \in I : j <= i].name
\* _d or _dd at the end is the sibling
SibLen(s) == IF Len(s) >= 2 /\ s[Len(s) - 1] = US /\ IsDigit(s[Len(s)]) THEN 2
             ELSE IF Len(s) >= 3 /\ s[Len(s) - 2] = US /\ IsDigit(s[Len(s) - 1]) /\ IsDigit(s[Len(s)]) THEN 3 ELSE 0
Zero == [id |-> 0, sib |-> 0, fmt |-> 0, resp |-> 0]
NameToId(defs, s) ==
  LET k == SibLen(s)
      b == Take(s, Len(s) - k)
      sib == IF k = 0 THEN 0 ELSE Nat10(SubSeq(s, Len(s) - k + 2, Len(s)))
      last == b[Len(b)]
      cut == Take(b, Len(b) - 1)
      sfx == last \in {65, 66, 82}
  IN IF b = <<>> THEN Zero
     ELSE IF Def(defs, b) # <<>> THEN Pack(Def(defs, b)[1], sib, F_ABB, 0)
     ELSE IF sfx /\ Def(defs, cut) # <<>>
          THEN Pack(Def(defs, cut)[1], sib, IF last = 66 THEN F_BIN ELSE F_ASC, IF last = 82 THEN 1 ELSE 0)
     ELSE Zero
IdToName(defs, m) ==
  DefName(defs, m.id)
    \o (IF m.resp = 1 THEN <<82>> ELSE IF m.fmt = F_BIN THEN <<66>> ELSE IF m.fmt = F_ASC THEN <<65>> ELSE <<>>)
    \o (IF m.sib = 0 THEN <<>> ELSE <<US>> \o Dec(m.sib))

\* enumerations: vals is a sequence of [v |-> <<hi, lo>>, n |-> bytes, d |-> bytes]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Succ(a) == IF a[2] = 65535 THEN <<(a[1] + 1) % 65536, 0>> ELSE <<a[1], a[2] + 1>>
LastIx(I) == CHOOSE i \in I : \A j \in I : j <= i
EnumString(vals, w) == LET I == {i \in 1..Len(vals) : vals[i].v = w} IN IF I = {} THEN Bytes("UNKNOWN") ELSE vals[LastIx(I)].n
EnumMax(vals) == FoldLeft(LAMBDA a, x : IF Less(a, x.v) THEN x.v ELSE a, <<0, 0>>, vals)
EnumValue(vals, n) == LET I == {i \in 1..Len(vals) : vals[i].n = n} IN IF I = {} THEN Succ(EnumMax(vals)) ELSE vals[LastIx(I)].v
ResponseId(vals, d) == LET I == {i \in 1..Len(vals) : vals[i].d = d} IN IF I = {} THEN <<0, 0>> ELSE vals[LastIx(I)].v
=============================================================================
