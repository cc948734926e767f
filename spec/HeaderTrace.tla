----------------------------- MODULE HeaderTrace -----------------------------
EXTENDS Names, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, cnt
vars == <<tr, l, cnt>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == T.defs
TVals(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN IF I = {} THEN <<>> ELSE <<T.vals[CHOOSE i \in I : TRUE].vals>>
H == INSTANCE HeaderSpec WITH Defs <- TDefs, EnumVals <- TVals
Init == tr \in 1..Len(Traces) /\ l = 1 /\ cnt = <<>>     \* cnt: sequence of [id, fmt, sib, n]
Is(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr

HdrEq(h) == /\ E.h.id = h.id /\ E.h.type = h.type /\ E.h.port = h.port /\ E.h.len = h.len /\ E.h.seq = h.seq /\ E.h.idle = h.idle
            /\ E.h.ts = h.ts /\ E.h.week = h.week /\ E.h.ms.w = h.ms /\ E.h.ms.x /\ E.h.rs = h.rs /\ E.h.crc = h.crc /\ E.h.ver = h.ver
MetaEq(r) == LET h == r.h  m == E.m IN
             /\ m.fmt = r.fmt /\ m.sib = h.type % 32 /\ m.ts = h.ts /\ m.resp = (h.type >= 128) /\ m.week = h.week /\ m.ms.w = h.ms /\ m.ms.x
             /\ m.id = h.id /\ m.crc = h.crc /\ m.hl = r.hl /\ m.bl = h.len /\ m.name = DefName(T.defs, h.id)
Key(r) == [id |-> r.h.id, fmt |-> r.fmt, sib |-> r.h.type % 32]
Bump(k) == LET I == {i \in 1..Len(cnt) : cnt[i].id = k.id /\ cnt[i].fmt = k.fmt /\ cnt[i].sib = k.sib} IN
           IF I = {} THEN Append(cnt, [id |-> k.id, fmt |-> k.fmt, sib |-> k.sib, n |-> 1]) ELSE [cnt EXCEPT ![CHOOSE i \in I : TRUE].n = @ + 1]
Counted(r) == IF r.h.id > 0 THEN Bump(Key(r)) ELSE cnt
Result == IF "json" \in DOMAIN E THEN LET j == H!JsonHdr(E.json) IN H!Res(j.c, H!HF_JSON, j.h, 0) ELSE H!DecodeHeader(E.b)
\* what was observed, for input whose reading is not fixed by the grammar
Seen == [id |-> E.m.id, fmt |-> E.m.fmt, sib |-> E.m.sib]
Decode ==
  /\ Is("hd")
  /\ IF E.null THEN E.st = "NULL_PROVIDED" /\ cnt' = cnt
     ELSE IF ~E.db THEN E.st = "NO_DATABASE" /\ cnt' = cnt
     ELSE LET r == Result IN
          CASE r.c = "ok" -> E.st = "SUCCESS" /\ HdrEq(r.h) /\ MetaEq(r) /\ cnt' = Counted(r)
            [] r.c = "resp" -> E.st = "SUCCESS" /\ E.m.resp /\ E.m.name = Bytes("UNKNOWN") /\ E.m.hl = 1 /\ E.m.fmt = r.fmt /\ E.m.id = 0 /\ E.m.sib = 0
                               /\ E.h.type = 128 /\ cnt' = cnt
            [] r.c = "bad" -> E.st = "FAILURE" /\ cnt' = cnt
            [] r.c = "lax" -> \/ E.st = "FAILURE" /\ cnt' = cnt
                              \/ E.st = "SUCCESS" /\ cnt' = IF Seen.id > 0 THEN Bump(Seen) ELSE cnt
            [] r.c = "any" -> \/ E.st = "UNKNOWN" /\ cnt' = cnt
                              \/ E.st = "SUCCESS" /\ cnt' = IF Seen.id > 0 THEN Bump(Seen) ELSE cnt
            [] OTHER -> E.st = r.c /\ cnt' = cnt
Count == /\ Is("cnt") /\ UNCHANGED cnt
         /\ Len(E.r) = Len(cnt)
         /\ \A i \in 1..Len(cnt) : \E j \in 1..Len(E.r) : E.r[j].id = cnt[i].id /\ E.r[j].fmt = cnt[i].fmt /\ E.r[j].sib = cnt[i].sib /\ E.r[j].n = cnt[i].n
Reset == Is("rst") /\ cnt' = <<>>
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Decode \/ Count \/ Reset \/ Done]_vars
=============================================================================
