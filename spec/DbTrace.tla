------------------------------- MODULE DbTrace -------------------------------
(* Histories of the real message database against Db, with the layout of the *)
(* fields (offsets under the family's alignment) and the links from          *)
(* enumeration fields to the enumerations.                                   *)
EXTENDS Db, Layout, Json, IOUtils, Integers

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, ms, es, fam, prev
vars == <<tr, l, ms, es, fam, prev>>
Ev == Traces[tr].ev
E == Ev[l]
Obs == E.obs
Init == tr \in 1..Len(Traces) /\ l = 1 /\ ms = <<>> /\ es = <<>> /\ fam = "" /\ prev = <<>>
IsEvent(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr

Tag1(x) == IF x = <<>> THEN "" ELSE x[1].tag
Crcs(m) == [i \in 1..Len(m.defs) |-> m.defs[i].crc]
\* the enumeration field links: current, or (after removals only) what they were
PrevDef(tag, crc) == LET M == {i \in 1..Len(prev) : prev[i].tag = tag} IN
                     IF M = {} THEN <<>>
                     ELSE LET m == prev[CHOOSE i \in M : TRUE]
                              D == {i \in 1..Len(m.defs) : m.defs[i].crc = crc}
                          IN IF D = {} THEN <<>> ELSE <<m.defs[CHOOSE i \in D : TRUE].lay>>
RECURSIVE LinksOk(_, _, _, _)
LinksOk(lay, fields, estate, p) ==
  \A i \in 1..Len(fields) :
    /\ fields[i].t = "ENUM" =>
         \/ lay.f[i].e = Tag1(EnumById(estate, fields[i].enum))
         \/ p # <<>> /\ lay.f[i].e = p[1].f[i].e
    /\ fields[i].t = "FIELD_ARRAY" =>
         LinksOk(lay.f[i].sub[1], fields[i].fields, estate, IF p = <<>> THEN <<>> ELSE <<p[1].f[i].sub[1]>>)

DefOk(m, o, estate, f, removal) ==
  /\ o.id = m.id /\ o.name = m.name /\ o.tag = m.tag
  /\ Len(o.defs) = Len(m.defs)
  /\ \A i \in 1..Len(m.defs) :
       \E j \in 1..Len(o.defs) :
         /\ o.defs[j].crc = m.defs[i].crc
         /\ LayoutOk(o.defs[j].lay, m.defs[i].fields, f)
         /\ LinksOk(o.defs[j].lay, m.defs[i].fields, estate, IF removal THEN PrevDef(m.tag, m.defs[i].crc) ELSE <<>>)
  \* a definition is selected by its checksum, else the latest one, else there is none
  /\ \A q \in 1..Len(o.crcq) :
       LET has(c) == \E i \in 1..Len(m.defs) : m.defs[i].crc = c IN
       o.crcq[q].r = IF has(o.crcq[q].q) THEN <<o.crcq[q].q>> ELSE IF has(m.latest) THEN <<m.latest>> ELSE <<>>
ObsOk(M, N, f, removal) ==
  /\ Obs.ids = [i \in 1..Len(M) |-> M[i].id]
  /\ Len(Obs.msgs) = Len(M)
  /\ \A i \in 1..Len(M) : DefOk(M[i], Obs.msgs[i], N, f, removal)
  /\ \A i \in 1..Len(Obs.mn) : Obs.mn[i].v = Tag1(MsgByName(M, Obs.mn[i].k))
  /\ \A i \in 1..Len(Obs.mi) : Obs.mi[i].v = Tag1(MsgById(M, Obs.mi[i].k))
  /\ Obs.enl = [i \in 1..Len(N) |-> N[i].tag]
  /\ \A i \in 1..Len(Obs.en) : Obs.en[i].v = Tag1(EnumByName(N, Obs.en[i].k))
  /\ \A i \in 1..Len(Obs.ei) : Obs.ei[i].v = Tag1(EnumById(N, Obs.ei[i].k))

Then(M, N, f, removal) == ms' = M /\ es' = N /\ fam' = f /\ prev' = Obs.msgs /\ ObsOk(M, N, f, removal)
Load == IsEvent("load") /\ Then(E.msgs, E.enums, E.fam, FALSE)
AddM == IsEvent("am") /\ Then(AppendMsgs(ms, E.msgs), es, fam, FALSE)
AddE == IsEvent("ae") /\ Then(ms, AppendEnums(es, E.enums), fam, FALSE)
RmM == IsEvent("rm") /\ Then(RemoveMsg(ms, E.id), es, fam, TRUE)
RmE == IsEvent("re") /\ Then(ms, RemoveEnum(es, E.name), fam, TRUE)
Mrg == IsEvent("mg") /\ E.same /\ Then(AppendMsgs(ms, E.msgs), AppendEnums(es, E.enums), fam, FALSE)
Fam == IsEvent("fam") /\ Then(ms, es, E.fam, FALSE)
\* a database constructed from the definitions of this one
Vec == IsEvent("vec") /\ E.fam = fam /\ Then(ms, es, fam, TRUE)
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Load \/ AddM \/ AddE \/ RmM \/ RmE \/ Mrg \/ Fam \/ Vec \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
