----------------------------- MODULE FilterSpec -----------------------------
(* A message filter is a set of settings; whether a message passes depends    *)
(* on the settings and the message only.                                      *)
(* A message: [fmt, resp, id, name, sib, week, ms, ts].                       *)
EXTENDS Integers, Sequences, FiniteSets
UNKNOWN == 1
NMEA == 8
ALL == 11
None == <<>>
Empty == [lo |-> None, hi |-> None, it |-> FALSE, dec |-> None, id |-> FALSE, sts |-> {}, is |-> FALSE,
          ids |-> {}, ii |-> FALSE, names |-> {}, in |-> FALSE, nmea |-> FALSE, resp |-> TRUE, nresp |-> TRUE]
\* times are <<week, milliseconds>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Time(m) == <<m.week, m.ms>>
Inside(f, m) == (f.lo # None => Leq(f.lo, Time(m))) /\ (f.hi # None => Leq(Time(m), f.hi))
\* a part of the filter that is not set passes everything, inverted or not
Part(set, inv, hit) == set => (hit # inv)
Matches(S, key, m) == \E x \in S : x[1] = key /\ x[2] \in {ALL, m.fmt} /\ x[3] = m.sib
TimeOk(f, m) == Part(f.lo # None \/ f.hi # None, f.it, Inside(f, m))
\* a period of zero selects nothing in particular
DecOk(f, m) == Part(f.dec # None /\ f.dec # <<0>>, f.id, f.dec[1] # 0 /\ m.ms % f.dec[1] = 0)
StatusOk(f, m) == Part(f.sts # {}, f.is, m.ts \in f.sts)
IdOk(f, m) == Part(f.ids # {}, f.ii, Matches(f.ids, m.id, m))
NameOk(f, m) == Part(f.names # {}, f.in, Matches(f.names, m.name, m))
Pass(f, m) ==
  IF m.fmt = UNKNOWN THEN FALSE
  ELSE IF m.fmt = NMEA THEN f.nmea
  ELSE /\ IF m.resp THEN f.resp ELSE f.nresp
       /\ TimeOk(f, m) /\ DecOk(f, m) /\ StatusOk(f, m) /\ IdOk(f, m) /\ NameOk(f, m)
Range(s) == {s[i] : i \in 1..Len(s)}
Apply(f, o) ==
  CASE o.op = "lo" -> [f EXCEPT !.lo = o.t]
    [] o.op = "hi" -> [f EXCEPT !.hi = o.t]
    [] o.op = "clo" -> [f EXCEPT !.lo = None]
    [] o.op = "chi" -> [f EXCEPT !.hi = None]
    [] o.op = "ct" -> [f EXCEPT !.lo = None, !.hi = None]
    [] o.op = "it" -> [f EXCEPT !.it = o.b]
    [] o.op \in {"dec", "decs"} -> [f EXCEPT !.dec = <<o.n>>]
    [] o.op = "cdec" -> [f EXCEPT !.dec = None]
    [] o.op = "idec" -> [f EXCEPT !.id = o.b]
    [] o.op = "st" -> [f EXCEPT !.sts = @ \cup {o.v}]
    [] o.op = "sts" -> [f EXCEPT !.sts = @ \cup Range(o.l)]
    [] o.op = "rst" -> [f EXCEPT !.sts = @ \ {o.v}]
    [] o.op = "cst" -> [f EXCEPT !.sts = {}, !.is = FALSE]
    [] o.op = "ist" -> [f EXCEPT !.is = o.b]
    [] o.op = "mid" -> [f EXCEPT !.ids = @ \cup {o.v}]
    [] o.op = "mids" -> [f EXCEPT !.ids = @ \cup Range(o.l)]
    [] o.op = "rid" -> [f EXCEPT !.ids = @ \ {o.v}]
    [] o.op = "cid" -> [f EXCEPT !.ids = {}, !.ii = FALSE]
    [] o.op = "iid" -> [f EXCEPT !.ii = o.b]
    [] o.op = "nm" -> [f EXCEPT !.names = @ \cup {o.v}]
    [] o.op = "nms" -> [f EXCEPT !.names = @ \cup Range(o.l)]
    [] o.op = "rnm" -> [f EXCEPT !.names = @ \ {o.v}]
    [] o.op = "cnm" -> [f EXCEPT !.names = {}, !.in = FALSE]
    [] o.op = "inm" -> [f EXCEPT !.in = o.b]
    [] o.op = "nmea" -> [f EXCEPT !.nmea = o.b]
    [] o.op = "resp" -> [f EXCEPT !.resp = o.b]
    [] o.op = "nresp" -> [f EXCEPT !.nresp = o.b]
    [] o.op = "clear" -> Empty
    [] o.op = "copy" -> f
=============================================================================
