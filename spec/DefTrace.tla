------------------------------ MODULE DefTrace ------------------------------
(* Histories of real definitions - built, copied, assigned, moved, changed,  *)
(* destroyed - against definitions as values.  After every step all of every *)
(* living definition is observed, compared with every other one of its kind, *)
(* and searched for fields in common.                                        *)
EXTENDS DefSpec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, ds
vars == <<tr, l, ds>>
Ev == Traces[tr].ev
Qs == Traces[tr].qs
E == Ev[l]
Obs == E.obs
None == [k |-> "none"]
Slots == 1..4
Init == tr \in 1..Len(Traces) /\ l = 1 /\ ds = [s \in Slots |-> None]
IsEvent(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr

Cache(t, conv) == IF conv = <<>> THEN [w |-> -1, p |-> -1, s |-> FALSE, v |-> FALSE, h |-> TRUE]
                  ELSE LET c == Conv(conv) IN [w |-> c.w, p |-> c.p, s |-> IsStr(t, c.ls), v |-> IsCsv(t, c.ls), h |-> TRUE]
RECURSIVE Norm(_)
NormL(fs) == [i \in 1..Len(fs) |-> Norm(fs[i])]
Norm(f) == IF f.k = "null" THEN f
           ELSE [x \in DOMAIN f \cup {"c"} |-> IF x = "c" THEN Cache(f.t, f.conv) ELSE IF x = "fields" THEN NormL(f.fields) ELSE f[x]]
NormV(k, v) == IF k = "enum" THEN v
               ELSE IF k = "field" THEN Norm(v)
               ELSE IF k = "info" THEN [v EXCEPT !.fields = NormL(@)]
               ELSE [v EXCEPT !.defs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.fields = NormL(@)]]]

\* ---- changing a part -------------------------------------------------------
PutPart(v, part, x) ==
  IF part = "push" THEN [v EXCEPT !.fields = Append(@, Norm(x))]
  ELSE IF part = "pop" THEN [v EXCEPT !.fields = SubSeq(@, 1, Len(@) - 1)]
  ELSE IF part = "rmdef" THEN [v EXCEPT !.defs = SelectSeq(@, LAMBDA d : d.crc # x)]
  ELSE IF part = "conv" THEN [v EXCEPT !.conv = x, !.c = Cache(v.t, x)]
  ELSE [v EXCEPT ![part] = x]
RECURSIVE UpdF(_, _, _, _)
UpdF(f, path, part, x) == IF path = <<>> THEN PutPart(f, part, x) ELSE [f EXCEPT !.fields[path[1]] = UpdF(@, Tail(path), part, x)]
Upd(k, v, path, part, x) ==
  IF path = <<>> THEN PutPart(v, part, x)
  ELSE IF k = "msg" THEN [v EXCEPT !.defs[path[1]] = UpdF(@, Tail(path), part, x)]
  ELSE UpdF(v, path, part, x)
RECURSIVE At(_, _)
At(f, path) == IF path = <<>> THEN f ELSE At(f.fields[path[1]], Tail(path))
FieldAt(k, v, path) == IF k = "msg" THEN At(v.defs[path[1]], Tail(path)) ELSE At(v, path)

\* ---- observations ----------------------------------------------------------
LookOk(k, v, o) ==
  IF k = "enum" THEN
    /\ \A i \in 1..Len(o.nv) : LET h == Hit(v.vals, LAMBDA e : e.n, o.nv[i].q) IN o.nv[i].r = IF h = <<>> THEN <<>> ELSE <<v.vals[h[1]].v>>
    /\ \A i \in 1..Len(o.dv) : LET h == Hit(v.vals, LAMBDA e : e.d, o.dv[i].q) IN o.dv[i].r = IF h = <<>> THEN <<>> ELSE <<v.vals[h[1]].v>>
    /\ \A i \in 1..Len(o.vn) : LET h == Hit(v.vals, LAMBDA e : e.v, o.vn[i].q) IN o.vn[i].r = IF h = <<>> THEN <<>> ELSE <<v.vals[h[1]].n>>
    /\ Len(o.nv) = Len(Qs.n) /\ Len(o.dv) = Len(Qs.n) /\ Len(o.vn) = Len(Qs.v)
    /\ o.unk = Unknown(v.vals)
  ELSE IF k = "info" THEN
    /\ Len(o.byn) = Len(Qs.n)
    /\ \A i \in 1..Len(o.byn) : o.byn[i].r = Hit(v.fields, LAMBDA f : f.n, o.byn[i].q)
  ELSE IF k = "msg" THEN
    LET has(c) == \E i \in 1..Len(v.defs) : v.defs[i].crc = c IN
    /\ Len(o.crcq) = Len(Qs.c)
    /\ \A q \in 1..Len(o.crcq) : o.crcq[q].r = IF has(o.crcq[q].q) THEN <<o.crcq[q].q>> ELSE IF has(v.latest) THEN <<v.latest>> ELSE <<>>
  ELSE TRUE
ObsOk(D) ==
  LET S == {s \in Slots : D[s].k # "none"} IN
  /\ Len(Obs.live) = Cardinality(S)
  /\ \A i \in 1..Len(Obs.live) : LET o == Obs.live[i] IN
       /\ o.s \in S /\ o.k = D[o.s].k
       /\ o.v = D[o.s].v
       /\ LookOk(o.k, D[o.s].v, o.look)
  /\ Obs.share = <<>>
  /\ Len(Obs.eq) = Cardinality({p \in S \X S : D[p[1]].k = D[p[2]].k})
  /\ \A i \in 1..Len(Obs.eq) :
       LET q == Obs.eq[i]
           a == D[q.a].v
           b == D[q.b].v
           k == D[q.a].k
           e == IF k = "msg" THEN EqM(a, b) ELSE IF k = "field" THEN EqF(a, b) ELSE IF k = "enum" THEN a.vals = b.vals ELSE EqL(a.fields, b.fields)
       IN /\ q.eq = e /\ q.ne = ~e
          /\ (k = "field") => (q.te = EqType(a, b) /\ q.tn = ~EqType(a, b))

Then(D) == ds' = D /\ ObsOk(D) = TRUE
New == IsEvent("new") /\ Then([ds EXCEPT ![E.s] = [k |-> E.k, v |-> NormV(E.k, E.v)]])
Cp == IsEvent("cp") /\ Then([ds EXCEPT ![E.d] = ds[E.s]])
Mv == IsEvent("mv") /\ Then([ds EXCEPT ![E.d] = ds[E.s], ![E.s] = None])
Del == IsEvent("del") /\ Then([ds EXCEPT ![E.s] = None])
Set == IsEvent("set") /\ Then([ds EXCEPT ![E.s].v = Upd(ds[E.s].k, @, E.path, E.part, E.x)])
SetConv == /\ IsEvent("conv")
           /\ LET c == Conv(E.x) IN
              IF E.r = "ok" THEN (c.st = "ok" /\ Then([ds EXCEPT ![E.s].v = Upd(ds[E.s].k, @, E.path, "conv", E.x)]))
              ELSE c.st = "bad" /\ Then(ds)
Done == l > Len(Ev) /\ UNCHANGED vars
Next == New \/ Cp \/ Mv \/ Del \/ Set \/ SetConv \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
