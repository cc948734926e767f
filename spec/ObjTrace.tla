------------------------------ MODULE ObjTrace ------------------------------
(* Three message objects and two flat arrays over a history of operations.     *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, objs, flats
vars == <<tr, l, objs, flats>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TInfos(i) == T.infos[i].fields
TSub(i, j) == T.infos[i].sub[j]
INSTANCE ObjSpec WITH Infos <- TInfos, SubInfo <- TSub
Init == tr \in 1..Len(Traces) /\ l = 1 /\ objs = <<Nothing, Nothing, Nothing>> /\ flats = <<Absent, Absent>>
\* the value an event sets
Val == CASE E.k = "comp" -> Comp([x \in 1..Len(E.rows) |-> objs[E.rows[x]]])
         [] E.k = "flat" -> Flat(flats[E.from])
         [] E.k = "str" -> Str(E.x)
         [] E.k = "vec" -> Vec(Stored(E.ty), E.v)
         [] E.k = "one" -> [Slot EXCEPT !.k = "one", !.b = E.v[1]]
         [] OTHER -> [Slot EXCEPT !.k = "buf", !.v = E.v]
\* the definitions of a message: by their checksum, the latest if there are none of that checksum
Defs(m, crc) == LET K == {x \in 1..Len(T.msgs[m].defs) : crc # <<>> /\ T.msgs[m].defs[x].crc = crc}
                    N == {x \in 1..Len(T.msgs[m].defs) : T.msgs[m].defs[x].crc = T.msgs[m].latest}
                IN T.msgs[m].ix[CHOOSE x \in (IF K # {} THEN K ELSE N) : TRUE]
Obj(r) == [ok |-> r.ok, val |-> <<>>, objs |-> [objs EXCEPT ![E.s] = r.o], flats |-> flats]
Fl(r) == [ok |-> r.ok, val |-> <<>>, objs |-> objs, flats |-> [flats EXCEPT ![E.s] = r.o]]
Rd(x) == [ok |-> x # <<>>, val |-> x, objs |-> objs, flats |-> flats]
Result ==
  CASE E.op = "new" -> Obj(Done(IF E.i = 0 THEN Nothing ELSE New(E.i)))
    [] E.op = "sized" -> Obj(Done(Resized(Nothing, E.n, E.m)))
    [] E.op = "resize" -> Obj(Done(Resized(objs[E.s], E.n, E.m)))
    [] E.op = "copy" -> Obj(Done(objs[E.t]))
    [] E.op = "info" -> Obj(Done(WithInfo(objs[E.s], E.i)))
    [] E.op = "def" -> Obj(Done(WithInfo(objs[E.s], IF E.m = 0 THEN 0 ELSE Defs(E.m, E.crc))))
    [] E.op = "fix" -> Obj(IF E.null THEN Refused(objs[E.s]) ELSE PutFixed(objs[E.s], E.at, IF E.k = "str" THEN E.x ELSE Cat(E.v)))
    [] E.op = "var" -> Obj(IF E.null THEN Refused(objs[E.s]) ELSE PutVar(objs[E.s], E.at, Val))
    [] E.op = "field" -> Obj(PutField(objs[E.s], E.i, E.j, Val))
    [] E.op = "elem" -> Obj(PutElem(objs[E.s], E.i, E.j, E.at, E.ty, E.v[1]))
    [] E.op = "get" -> Rd(Get(objs[E.s], E.i, E.j, E.ty, E.want, E.at))
    [] E.op = "noname" -> Rd(<<>>)
    [] E.op = "row" -> Rd(GetRow(objs[E.s], E.i, E.j, E.r, E.g, E.ty, E.want, E.at))
    [] E.op = "fnew" -> Fl(NewFlat(flats[E.s], E.i, E.n))
    [] E.op = "fdata" -> Fl(DataFlat(flats[E.s], E.i, E.x))
    [] E.op = "fput" -> Fl(PutFlat(flats[E.s], E.r, E.at, IF E.k = "str" THEN E.x ELSE Cat(E.v)))
    [] E.op = "fcopy" -> Fl(Done(flats[E.t]))
    [] E.op = "fresize" -> Fl(Done([flats[E.s] EXCEPT !.b = Grown(@, E.n, 0)]))
    [] E.op = "fget" -> Rd(GetFlat(flats[E.s], E.r, E.j, E.ty, E.want, E.at))
Step == /\ l <= Len(Ev)
        /\ LET z == Result IN
           /\ E.res = (IF z.ok THEN "ok" ELSE "refused")
           /\ E.val = z.val
           /\ E.objs = z.objs
           /\ E.flats = z.flats
           /\ E.views = [x \in 1..Len(objs) |-> View(z.objs[x])]
           /\ E.agree = <<>>
           /\ objs' = z.objs /\ flats' = z.flats
        /\ l' = l + 1 /\ UNCHANGED tr
End == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
