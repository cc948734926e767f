------------------------------ MODULE LoadTrace ------------------------------
(* Loading a JSON database: everything in the definition is carried over, the *)
(* layout follows, and an incomplete database is refused as a whole.          *)
EXTENDS Layout, Text, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1

\* "%" [width] ["."] [precision] letters
Conv(s) ==
  IF s = <<>> THEN [w |-> -1, p |-> -1, k |-> <<>>, ok |-> TRUE]
  ELSE LET a == IF \E j \in 2..Len(s) : ~IsDigit(s[j]) THEN CHOOSE j \in 2..Len(s) : ~IsDigit(s[j]) /\ \A i \in 2..(j - 1) : IsDigit(s[i]) ELSE Len(s) + 1
           w == IF a = 2 THEN -1 ELSE Nat10(SubSeq(s, 2, a - 1))
           b == IF a <= Len(s) /\ s[a] = 46 THEN a + 1 ELSE a
           c == IF \E j \in b..Len(s) : ~IsDigit(s[j]) THEN CHOOSE j \in b..Len(s) : ~IsDigit(s[j]) /\ \A i \in b..(j - 1) : IsDigit(s[i]) ELSE Len(s) + 1
           p == IF c = b THEN -1 ELSE Nat10(SubSeq(s, b, c - 1))
           k == Drop(s, c - 1)
       IN [w |-> w, p |-> p, k |-> k, ok |-> s[1] = 37 /\ k # <<>> /\ \A i \in 1..Len(k) : IsAlpha(k[i])]

IsArr(f) == f.t \in {"FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"}
RECURSIVE FieldOk(_, _)
FieldOk(f, o) ==
  LET c == Conv(Bytes(f.conv))
      str == f.conv # "" /\ (f.t = "STRING" \/ c.k \in {Bytes("s"), Bytes("S")}) IN
  /\ o.n = f.n /\ o.t = f.t /\ o.dt = f.dt /\ o.len = f.len /\ o.conv = f.conv
  /\ o.enum = (IF f.t = "ENUM" THEN f.enum ELSE "")
  /\ IsArr(f) => o.al = f.al /\ o.ref = f.ref /\ o.alfs = f.alfs
  /\ o.w = c.w /\ o.p = c.p
  /\ o.str = str
  /\ f.conv # "" => o.csv = (~str /\ c.k \notin {Bytes("Z"), Bytes("P")})
  /\ f.t = "FIELD_ARRAY" => Len(o.fields) = Len(f.fields) /\ \A i \in 1..Len(f.fields) : FieldOk(f.fields[i], o.fields[i])
DefOk(d, o) == o.crc = d.crc /\ Len(o.fields) = Len(d.fields) /\ LayoutOk(o.lay, d.fields, E.fam)
               /\ \A i \in 1..Len(d.fields) : FieldOk(d.fields[i], o.fields[i])
MsgOk(m, o) == /\ o.id = m.id /\ o.name = m.name /\ o.tag = m.tag /\ o.latest = m.latest
               /\ Len(o.defs) = Len(m.defs)
               /\ \A i \in 1..Len(m.defs) : \E j \in 1..Len(o.defs) : DefOk(m.defs[i], o.defs[j])
EnumOk(e, o) == o.id = e.id /\ o.name = e.name /\ Len(o.vals) = Len(e.vals)
                /\ \A i \in 1..Len(e.vals) : o.vals[i].v = e.vals[i].v /\ o.vals[i].n = e.vals[i].n /\ o.vals[i].d = e.vals[i].d
RECURSIVE FieldsFine(_)
FieldsFine(fs) == \A i \in 1..Len(fs) : /\ fs[i].t \in {"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"}
                                        /\ Conv(Bytes(fs[i].conv)).ok
                                        /\ FieldsFine(fs[i].fields)
Fine == E.del = "" /\ E.cut = 0 /\ \A i \in 1..Len(E.msgs) : \A j \in 1..Len(E.msgs[i].defs) : FieldsFine(E.msgs[i].defs[j].fields)
Load == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tr
        /\ IF Fine
           THEN /\ E.st = "ok" /\ Len(E.out) = Len(E.msgs) /\ Len(E.en) = Len(E.enums)
                /\ \A i \in 1..Len(E.msgs) : MsgOk(E.msgs[i], E.out[i])
                /\ \A i \in 1..Len(E.enums) : EnumOk(E.enums[i], E.en[i])
           ELSE E.st = "refused"
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Load \/ Done]_vars
=============================================================================
