------------------------------ MODULE FilterMC ------------------------------
(* Histories of settings over a small universe: what the settings mean to the *)
(* messages of the universe.  Every transition is printed as a history.       *)
EXTENDS FilterSpec, TLC, Json
CONSTANTS Groups
VARIABLES f, last, hist
vars == <<f, last, hist>>
B == {TRUE, FALSE}
Ts == {<<w, s>> : w \in {1, 2}, s \in {0, 1, 2}}
Fmts == {UNKNOWN, NMEA, 2, 5}
Keys(a, b) == {<<a, ALL, 0>>, <<a, 5, 0>>, <<b, 2, 1>>}
Ids == Keys(7, 8)
Ns == Keys("A", "B")
Op(n) == [op |-> n]
OpB(n) == {[op |-> n, b |-> b] : b \in B}
OpV(n, S) == {[op |-> n, v |-> v] : v \in S}
OpL(n, S) == {[op |-> n, l |-> <<>>]} \cup {[op |-> n, l |-> <<v, w>>] : v \in S, w \in S}
Ops(g) ==
  CASE g = "time" -> {[op |-> n, t |-> t] : n \in {"lo", "hi"}, t \in {<<1, 1>>, <<2, 1>>}} \cup {Op("clo"), Op("chi"), Op("ct")} \cup OpB("it")
    [] g = "dec" -> {[op |-> n, n |-> k] : n \in {"dec", "decs"}, k \in {1, 2}} \cup {Op("cdec")} \cup OpB("idec")
    [] g = "st" -> OpV("st", {20, 180}) \cup OpL("sts", {20, 180}) \cup OpV("rst", {20, 180}) \cup {Op("cst")} \cup OpB("ist")
    [] g = "id" -> OpV("mid", Ids) \cup OpL("mids", Ids) \cup OpV("rid", Ids) \cup {Op("cid")} \cup OpB("iid")
    [] g = "name" -> OpV("nm", Ns) \cup OpL("nms", Ns) \cup OpV("rnm", Ns) \cup {Op("cnm")} \cup OpB("inm")
    [] g = "flag" -> OpB("nmea") \cup OpB("resp") \cup OpB("nresp")
    [] g = "mini" -> {[op |-> "lo", t |-> <<1, 1>>], [op |-> "dec", n |-> 2], [op |-> "st", v |-> 20], [op |-> "mid", v |-> <<7, ALL, 0>>], [op |-> "nm", v |-> <<"A", 5, 0>>], Op("ct"), Op("cdec"), Op("cst"), Op("cid"), Op("cnm"),
                      [op |-> "it", b |-> TRUE], [op |-> "rst", v |-> 20], [op |-> "rid", v |-> <<7, ALL, 0>>], [op |-> "rnm", v |-> <<"A", 5, 0>>]}
AllOps == UNION {Ops(g) : g \in Groups} \cup {Op("clear"), Op("copy")}
Msgs == [fmt : Fmts, resp : B, id : {7, 8}, name : {"A", "B"}, sib : {0, 1}, week : {1, 2}, ms : {0, 1, 2}, ts : {20, 180}]
Some == {m \in Msgs : m.fmt = 5 /\ ~m.resp /\ m.name = (IF m.id = 7 THEN "A" ELSE "B")}
Init == f = Empty /\ last = "" /\ hist = <<>>
Do(o) == f' = Apply(f, o) /\ last' = o.op /\ hist' = Append(hist, o)
Next == \E o \in AllOps : Do(o)
Spec == Init /\ [][Next]_vars
View == <<f, last>>
Emit == PrintT("@@" \o ToJson(hist'))
-----------------------------------------------------------------------------
\* an unset filter passes everything but NMEA sentences and unknown bytes
EmptyOk == f = Empty => \A m \in Msgs : Pass(f, m) <=> m.fmt \notin {UNKNOWN, NMEA}
\* inverting a part that is set selects the complement, and nothing otherwise
Inverse == \A m \in Some :
   /\ (f.lo # None \/ f.hi # None) => (TimeOk(f, m) # TimeOk([f EXCEPT !.it = ~@], m))
   /\ (f.lo = None /\ f.hi = None) => TimeOk([f EXCEPT !.it = ~@], m)
   /\ f.dec # None => (DecOk(f, m) # DecOk([f EXCEPT !.id = ~@], m))
   /\ f.sts # {} => (StatusOk(f, m) # StatusOk([f EXCEPT !.is = ~@], m))
   /\ f.ids # {} => (IdOk(f, m) # IdOk([f EXCEPT !.ii = ~@], m))
   /\ f.names # {} => (NameOk(f, m) # NameOk([f EXCEPT !.in = ~@], m))
\* including something more never takes away what the same part included
Monotone == \A m \in Some : \A x \in Ids :
   (f.ids # {} /\ ~f.ii /\ IdOk(f, m)) => IdOk(Apply(f, [op |-> "mid", v |-> x]), m)
\* including and taking back again changes nothing
TakeBack == \A x \in Ids \ f.ids : Apply(Apply(f, [op |-> "mid", v |-> x]), [op |-> "rid", v |-> x]) = f
ClearOk == Apply(f, Op("clear")) = Empty
=============================================================================
