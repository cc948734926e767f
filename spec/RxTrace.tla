------------------------------ MODULE RxTrace ------------------------------
(* The handler of messages that hold a message: streams in, converted         *)
(* messages out; and its decoder and encoder on their own.                    *)
EXTENDS Text, FrameReal, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, pend, db
vars == <<tr, l, pend, db>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == IF db THEN T.defs ELSE <<>>
TMsgs(x) == T.msgs
TEnum(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN IF I = {} THEN <<>> ELSE <<T.vals[CHOOSE i \in I : TRUE].vals>>
TVals(id) == LET I == {i \in 1..Len(T.evals) : T.evals[i].id = id} IN IF I = {} THEN <<>> ELSE T.evals[CHOOSE i \in I : TRUE].vals
F == INSTANCE FrameSpec WITH CrcLen <- 8, BinHdr <- 28, ShortHdr <- 12, BinCrc <- 4, LenAt <- 8, ShortLenAt <- 3, LenBytes <- 2, MaxLen <- 32768,
                             NmeaMin <- 11, NmeaMax <- 256, AscCrcOk <- RealAscCrcOk, BinCrcOk <- RealBinCrcOk, Xor8 <- RealXor, NmeaCrcOk <- RealNmeaCrcOk
H == INSTANCE HeaderSpec WITH Defs <- TDefs, EnumVals <- TEnum
HDecode(b) == H!DecodeHeader(b)
R == INSTANCE RxSpec WITH GMsgs <- TMsgs, GDefs <- TDefs, GEnum <- TEnum, GVals <- TVals, RHdr <- HDecode
Room == 32768
Held == {T.held[i] : i \in 1..Len(T.held)}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ db = T.db
Is(op) == l <= Len(Ev) /\ E.op = op /\ UNCHANGED tr
Next1 == l' = l + 1
-----------------------------------------------------------------------------
Load == Is("db") /\ Next1 /\ db' = (db \/ E.on) /\ UNCHANGED pend
Decode == /\ Is("dec") /\ Next1 /\ UNCHANGED <<pend, db>>
          /\ IF ~db \/ E.id \notin Held THEN E.st # "SUCCESS"
             ELSE LET x == R!RxRaw(E.fmt, E.b) IN
                  CASE x.st = "ANY" -> TRUE
                    [] x.st = "SUCCESS" -> E.st = "SUCCESS" /\ E.raw = x.raw
                    [] OTHER -> E.st = x.st
\* what is written for a message h holding raw
Written(h, raw, ef) == LET in == R!Inside(raw) IN
  IF in.st # "SUCCESS" THEN [st |-> in.st]
  ELSE LET exact == R!M!ExactAll(in.f, in.v) IN
       [st |-> "SUCCESS", exact |-> exact, in |-> in, o |-> R!Around(h, in, IF exact THEN in.v ELSE R!M!PlugAll(in.f, in.v), ef)]
Places(o) == E.mo = 0 /\ E.ho = o.ho /\ E.hl = o.hl /\ E.bo = o.bo /\ E.bl = o.bl /\ E.ml = Len(o.b)
\* e.g. a message of floating-point numbers: how long they are is for M02 and E01
Fits(w, ef, inner) ==
  LET o == w.o
      n == IF ef = "JSON" THEN o.bo ELSE o.ebo IN
  IF w.exact \/ ef = "BINARY" THEN /\ Places(o)
                    /\ (w.exact => E.out = o.b)
                    /\ (~w.exact => Take(E.out, n) = Take(o.b, n))
                    /\ (inner => E.eo = o.eo /\ E.eho = o.eho /\ E.ehl = o.ehl /\ E.ebo = o.ebo /\ E.ebl = o.ebl /\ E.el = (IF ef = "JSON" THEN o.bl ELSE o.ehl + o.ebl))
  ELSE E.mo = 0 /\ E.ho = o.ho /\ E.hl = o.hl /\ E.bo = o.bo /\ Take(E.out, n) = Take(o.b, n)
SLACK == 16
Encode == /\ Is("enc") /\ Next1 /\ UNCHANGED <<pend, db>> /\ E.clean
          /\ CASE E.null -> E.st = "NULL_PROVIDED"
               [] ~db -> E.st # "SUCCESS"
               [] E.held = FALSE -> E.st \notin {"SUCCESS", "EXCEPTION"}
               [] OTHER ->
                  LET w == Written(E.h, E.raw, E.f) IN
                  CASE w.st = "ANY" -> TRUE
                    [] w.st = "FAIL" -> E.st # "SUCCESS"
                    [] w.st # "SUCCESS" -> E.st = w.st
                    [] w.o.st # "SUCCESS" -> E.st \in {w.o.st, "BUFFER_FULL"}
                    [] OTHER -> \/ E.st = "SUCCESS" /\ E.ml <= E.cap /\ Fits(w, E.f, FALSE)
                                \/ E.st = "BUFFER_FULL" /\ Len(w.o.b) + SLACK > (IF w.exact \/ E.f = "BINARY" THEN E.cap ELSE E.cap - 2000)
-----------------------------------------------------------------------------
(* streams *)
Write == Is("w") /\ Next1 /\ UNCHANGED db /\ pend' = pend \o E.d /\ E.r = Len(E.d)
Flush == Is("fl") /\ Next1 /\ UNCHANGED db /\ E.d = pend /\ pend' = <<>>
Start == IF pend = <<>> THEN [k |-> "none"] ELSE F!Classify("OEM", FALSE, pend, 1)
Meta(m, r) == m.fmt = r.fmt /\ m.id = r.h.id /\ m.sib = r.h.type % 32 /\ m.hl = r.hl /\ m.ts = r.h.ts /\ m.week = r.h.week /\ m.ms.w = r.h.ms /\ m.ms.x /\ m.crc = r.h.crc /\ m.name = H!DefName(T.defs, r.h.id)
Framed(c) ==
  LET b == Take(pend, c.len)
      r == IF db THEN H!DecodeHeader(b) ELSE H!Res("NO_DATABASE", 1, H!ZeroHdr, 0) IN
  CASE r.c \in {"lax", "any"} -> E.st # "BUFFER_EMPTY"
    [] r.c \notin {"ok", "resp"} -> E.st \notin {"SUCCESS", "BUFFER_EMPTY"}
    [] r.h.id \notin R!RxIds -> E.st = "UNKNOWN"                     \* another kind of message
    [] r.h.id \notin Held -> E.st = "NO_DEFINITION"
    [] r.h.type >= 128 -> TRUE
    [] OTHER ->
       LET x == R!RxRaw(R!FmtOf(r.fmt), Drop(b, r.hl)) IN
       CASE x.st = "ANY" -> TRUE
         [] x.st # "SUCCESS" -> E.st = x.st
         [] OTHER ->
            LET w == Written(r.h, x.raw, E.f) IN
            CASE w.st = "ANY" -> E.st # "BUFFER_EMPTY"
              [] w.st = "FAIL" -> E.st \notin {"SUCCESS", "BUFFER_EMPTY"}
              [] w.st # "SUCCESS" -> E.st = w.st
              [] w.o.st # "SUCCESS" -> E.st \in {w.o.st, "BUFFER_FULL"}
              [] Len(w.o.b) > Room -> E.st = "BUFFER_FULL"
              [] Len(w.o.b) + (IF w.exact THEN SLACK ELSE 2000) > Room -> TRUE
              [] OTHER -> E.st = "SUCCESS" /\ Fits(w, E.f, TRUE) /\ Meta(E.m, r) /\ Meta(E.em, w.in.r) /\ E.len = c.len
Convert ==
  /\ Is("cv") /\ UNCHANGED db
  /\ LET c == Start IN
     CASE c.k \in {"none", "more"} -> E.st = "BUFFER_EMPTY" /\ UNCHANGED pend /\ Next1
       [] c.k = "ok" -> Framed(c) /\ pend' = Drop(pend, c.len) /\ Next1
       [] OTHER -> LET n == F!Junk("OEM", FALSE, pend, Len(pend)) IN
                   E.st = "UNKNOWN" /\ E.len \in 1..n /\ pend' = Drop(pend, E.len) /\ Next1
-----------------------------------------------------------------------------
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Load \/ Decode \/ Encode \/ Write \/ Flush \/ Convert \/ Done]_vars
=============================================================================
