----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
vars == <<tr, l>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1
Defs == T.defs      \* [id, name as bytes]
Vals(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN T.vals[CHOOSE i \in I : TRUE].vals
Has(en) == \E i \in 1..Len(T.vals) : T.vals[i].name = en
Right == CASE E.op = "n2i" -> E.r = Word(NameToId(Defs, E.s))
           [] E.op = "i2n" -> E.r = IdToName(Defs, Unword(E.i))
           [] E.op = "es" -> E.r = IF Has(E.en) THEN EnumString(Vals(E.en), E.i) ELSE Bytes("UNKNOWN")
           [] E.op = "ev" -> E.r = IF Has(E.en) THEN EnumValue(Vals(E.en), E.s) ELSE <<0, 0>>
           [] E.op = "rid" -> E.r = IF Has(E.en) THEN ResponseId(Vals(E.en), E.s) ELSE <<0, 0>>
           [] E.op = "mk" -> E.r = Word(Pack(E.id, E.sib, E.fmt, E.resp))
           [] E.op = "un" -> LET m == Unword(E.i) IN E.r = <<m.id, m.sib, m.fmt, m.resp>>
           [] E.op = "mt" -> E.r = TypeByte(E.sib, E.fmt, E.resp)
Step == l <= Len(Ev) /\ Right /\ l' = l + 1 /\ UNCHANGED tr
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
