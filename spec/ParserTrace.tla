---------------------------- MODULE ParserTrace ----------------------------
(* A parser (or file parser): a stream of bytes, from which messages are      *)
(* taken one after another. State: the bytes not yet consumed, the settings,  *)
(* the message counts. A read takes internal steps (what it passes over) and  *)
(* then returns something.                                                    *)
EXTENDS Text, FrameReal, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, pend, opt, cnt, src
vars == <<tr, l, pend, opt, cnt, src>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == IF opt.db THEN T.defs ELSE <<>>
TMsgs(x) == T.msgs
TEnum(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN IF I = {} THEN <<>> ELSE <<T.vals[CHOOSE i \in I : TRUE].vals>>
TVals(id) == LET I == {i \in 1..Len(T.evals) : T.evals[i].id = id} IN IF I = {} THEN <<>> ELSE T.evals[CHOOSE i \in I : TRUE].vals
F == INSTANCE FrameSpec WITH CrcLen <- 8, BinHdr <- 28, ShortHdr <- 12, BinCrc <- 4, LenAt <- 8, ShortLenAt <- 3, LenBytes <- 2, MaxLen <- 32768,
                             NmeaMin <- 11, NmeaMax <- 256, AscCrcOk <- RealAscCrcOk, BinCrcOk <- RealBinCrcOk, Xor8 <- RealXor, NmeaCrcOk <- RealNmeaCrcOk
H == INSTANCE HeaderSpec WITH Defs <- TDefs, EnumVals <- TEnum
L == INSTANCE FilterSpec
HDecode(b) == H!DecodeHeader(b)
G == INSTANCE RxSpec WITH GMsgs <- TMsgs, GDefs <- TDefs, GEnum <- TEnum, GVals <- TVals, RHdr <- HDecode
Cap == 262144
Free == <<[id |-> -1, fmt |-> 0, sib |-> 0, n |-> 0]>>            \* counts after a header whose reading is not specified
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ cnt = <<>> /\ src = <<>>
        /\ opt = [unk |-> TRUE, abr |-> TRUE, f |-> "ASCII", filt |-> <<>>, db |-> T.db, rc |-> TRUE]
Is(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tr
Av == E.av = IF T.file THEN 0 ELSE Cap - Len(pend')
-----------------------------------------------------------------------------
(* settings *)
Set(r, k) == IF k \in DOMAIN E THEN [r EXCEPT ![k] = E[k]] ELSE r
Options == Is("opt") /\ E.ok /\ opt' = Set(Set(Set(Set(opt, "unk"), "abr"), "f"), "rc") /\ UNCHANGED <<pend, cnt, src>>
Filtering == /\ Is("filt") /\ E.ok /\ UNCHANGED <<pend, cnt, src>>
             /\ opt' = [opt EXCEPT !.filt = IF ~E.on THEN <<>>
                                            ELSE <<FoldLeft(LAMBDA f, o : L!Apply(f, o), IF opt.filt = <<>> \/ E.new THEN L!Empty ELSE opt.filt[1], E.l)>>]
Load == Is("db") /\ E.ok /\ opt' = [opt EXCEPT !.db = TRUE] /\ UNCHANGED <<pend, cnt, src>>
Write == /\ Is("w") /\ UNCHANGED <<opt, cnt, src>>
         /\ IF Len(pend) + Len(E.d) <= Cap THEN pend' = pend \o E.d /\ E.r = Len(E.d) ELSE pend' = pend /\ E.r = 0
         /\ Av
Flush == /\ Is("fl") /\ UNCHANGED <<opt, cnt, src>> /\ E.guard
         /\ LET n == IF E.bs < Len(pend) THEN E.bs ELSE Len(pend) IN
            /\ E.r = n /\ pend' = Drop(pend, n)
            /\ E.nob \/ E.d = Take(pend, n)
         /\ Av
\* a file parser reads a stream from its beginning
Stream == /\ Is("str") /\ UNCHANGED opt
          /\ IF E.null \/ E.eof THEN E.r = FALSE /\ UNCHANGED <<pend, cnt, src>>
             ELSE E.r = TRUE /\ pend' = E.d /\ src' = E.d /\ cnt' = <<>>
Rewind == Is("reset") /\ E.r = TRUE /\ pend' = src /\ cnt' = <<>> /\ UNCHANGED <<opt, src>>
Counts == /\ Is("cnt") /\ UNCHANGED <<pend, opt, cnt, src>>
          /\ \/ cnt = Free
             \/ /\ Len(E.r) = Len(cnt)
                /\ \A i \in 1..Len(cnt) : \E j \in 1..Len(E.r) : E.r[j].id = cnt[i].id /\ E.r[j].fmt = cnt[i].fmt /\ E.r[j].sib = cnt[i].sib /\ E.r[j].n = cnt[i].n
Zeroed == Is("rst") /\ cnt' = <<>> /\ UNCHANGED <<pend, opt, src>>
-----------------------------------------------------------------------------
(* reading *)
Reading == l <= Len(Ev) /\ E.op \in {"ri", "rd"} /\ UNCHANGED <<opt, src, tr>>
Start == IF pend = <<>> THEN [k |-> "none"] ELSE F!Classify("OEM", FALSE, pend, 1)
JunkLen == F!Junk("OEM", FALSE, pend, Len(pend))
\* an abbreviated ASCII message the stream ends with has no end mark: taken as it is, if asked for
Rest == [k |-> "ok", len |-> Len(pend), fmt |-> F!F_ABB, resp |-> FALSE]
Cut == T.file \/ E.inc
Raw(c) == Take(pend, c.len)
Hd(c) == IF opt.db THEN H!DecodeHeader(Raw(c)) ELSE H!Res("NO_DATABASE", H!HF_UNKNOWN, H!ZeroHdr, 0)
Bump(r) == IF cnt = Free \/ r.h.id = 0 \/ r.c # "ok" THEN cnt
           ELSE LET I == {i \in 1..Len(cnt) : cnt[i].id = r.h.id /\ cnt[i].fmt = r.fmt /\ cnt[i].sib = r.h.type % 32} IN
                IF I = {} THEN Append(cnt, [id |-> r.h.id, fmt |-> r.fmt, sib |-> r.h.type % 32, n |-> 1]) ELSE [cnt EXCEPT ![CHOOSE i \in I : TRUE].n = @ + 1]
FmtName(n) == CASE n = H!HF_BIN -> "BINARY" [] n = H!HF_SBIN -> "SHORT_BINARY" [] n = H!HF_ASC -> "ASCII" [] n = H!HF_SASC -> "SHORT_ASCII"
                [] n = H!HF_ABB -> "ABB_ASCII" [] n = H!HF_SABB -> "SHORT_ABB_ASCII" [] OTHER -> "?"
IsResp(r) == r.h.type >= 128
Name(r) == IF r.c = "resp" THEN Bytes("UNKNOWN") ELSE H!DefName(T.defs, r.h.id)
\* does the user's filter pass the message?
Tame(r) == r.h.ms[1] < 32768 /\ r.h.ts[1] = 0
Pass(r) == opt.filt = <<>> \/ L!Pass(opt.filt[1], [fmt |-> r.fmt, resp |-> IsResp(r), id |-> r.h.id, name |-> Name(r), sib |-> r.h.type % 32, week |-> r.h.week,
                                                   ms |-> r.h.ms[1] * 65536 + r.h.ms[2], ts |-> r.h.ts[2]])
RangeCmp(r) == opt.rc /\ r.h.id \in {140, 1273, 2050, 2537} /\ r.h.type % 32 < 2
\* which definition, which bytes are the body, what they say
Known(r) == IsResp(r) \/ G!Msg(r.h.id) # <<>>
Fields(r) == IF IsResp(r) THEN G!M!RespFields ELSE G!FieldsOf(G!Msg(r.h.id)[1], r.h.crc)
Body(c, r) == SubSeq(pend, r.hl + 1, IF FmtName(r.fmt) \in G!Bins THEN c.len - 4 ELSE c.len)
Room == 32768
\* a message that holds a message
Outcome(o, exact, r) == IF o.st # "SUCCESS" \/ Len(o.b) > Room THEN [k |-> "skip", cnt |-> Bump(r)]
                        ELSE IF Len(o.b) + 16 > Room THEN [k |-> "loose"]
                        ELSE [k |-> IF exact THEN "full" ELSE "inexact", cnt |-> Bump(r), r |-> r, o |-> o]
Holding(c, r, lost) ==
  LET x == G!RxRaw(FmtName(r.fmt), Drop(Raw(c), r.hl)) IN
  CASE x.st = "ANY" \/ r.h.type >= 128 -> [k |-> "loose"]
    [] x.st # "SUCCESS" -> lost
    [] E.op = "ri" -> [k |-> "held", cnt |-> Bump(r), r |-> r, raw |-> x.raw]
    [] OTHER -> LET in == G!Inside(x.raw) IN
                CASE in.st = "ANY" -> [k |-> "loose"]
                  [] in.st # "SUCCESS" -> [k |-> "skip", cnt |-> Bump(r)]
                  [] OTHER -> LET exact == G!M!ExactAll(in.f, in.v) IN Outcome(G!Around(r.h, in, IF exact THEN in.v ELSE G!M!PlugAll(in.f, in.v), opt.f), exact, r)
\* What becomes of the complete message c:
\*   skip      nothing is returned for it
\*   unknown   it is handed out as bytes
\*   nodef / full  it is handed out with header [and content d, encoded as o]
\*   loose     not specified
Fate(c) ==
  IF c.resp /\ c.fmt = F!F_ABB /\ opt.abr THEN [k |-> "skip", cnt |-> cnt]
  ELSE LET r == Hd(c)
           lost == [k |-> IF opt.unk THEN "unknown" ELSE "skip", cnt |-> Bump(r), r |-> r] IN
       IF r.c \in {"lax", "any"} THEN [k |-> "loose"]
       ELSE IF r.c \notin {"ok", "resp"} THEN lost
       ELSE IF opt.filt # <<>> /\ ~Tame(r) THEN [k |-> "loose"]
       ELSE IF ~Pass(r) THEN [k |-> "skip", cnt |-> Bump(r)]
       ELSE IF RangeCmp(r) THEN [k |-> "loose"]
       ELSE IF ~Known(r) THEN [k |-> "nodef", cnt |-> Bump(r), r |-> r]
       ELSE IF r.h.id \in G!RxIds THEN Holding(c, r, lost)
       ELSE IF FmtName(r.fmt) \notin G!Bins /\ \E i \in 1..c.len : pend[i] = 0 THEN [k |-> "loose"]      \* text with a NUL in it
       ELSE LET f == Fields(r)
                d == G!DecBytes(f, FmtName(r.fmt), Body(c, r)) IN
            CASE d.st = "ANY" -> [k |-> "loose"]
              [] d.st # "SUCCESS" -> lost
              [] E.op = "ri" -> [k |-> "full", cnt |-> Bump(r), r |-> r, f |-> f, v |-> d.v]
              [] OTHER -> LET exact == G!M!ExactAll(f, d.v)
                              o == G!Encoded(r.h, r.fmt \in {3, 6, 10}, opt.f, f, IF exact THEN d.v ELSE G!M!PlugAll(f, d.v)) IN
                          Outcome(o, exact, r)
-----------------------------------------------------------------------------
HdrEq(r) == LET h == r.h IN
            IF r.c = "resp" THEN E.h.type = 128
            ELSE /\ E.h.id = h.id /\ E.h.type = h.type /\ E.h.port = h.port /\ E.h.len = h.len /\ E.h.seq = h.seq /\ E.h.idle = h.idle
                 /\ E.h.ts = h.ts /\ E.h.week = h.week /\ E.h.ms.w = h.ms /\ E.h.ms.x /\ E.h.rs = h.rs /\ E.h.crc = h.crc /\ E.h.ver = h.ver
MetaEq(r) == LET h == r.h  m == E.m IN
             IF r.c = "resp" THEN m.resp /\ m.name = Bytes("UNKNOWN") /\ m.hl = 1 /\ m.fmt = r.fmt /\ m.id = 0 /\ m.sib = 0
             ELSE /\ m.fmt = r.fmt /\ m.sib = h.type % 32 /\ m.ts = h.ts /\ m.resp = (h.type >= 128) /\ m.week = h.week /\ m.ms.w = h.ms /\ m.ms.x
                  /\ m.id = h.id /\ m.crc = h.crc /\ m.hl = r.hl /\ m.bl = h.len /\ m.name = H!DefName(T.defs, h.id)
\* the message as it came, with its header
AsCame(c, r) == /\ E.msg = Raw(c) /\ E.ml = c.len /\ MetaEq(r) /\ E.bo = r.hl /\ E.bl = c.len - r.hl
                /\ E.op = "ri" => HdrEq(r)
Returned == l' = l + 1 /\ Av
\* the read goes on
Passed(n) == l' = l /\ pend' = Drop(pend, n)
Junk(n) == IF opt.unk THEN /\ E.st = "UNKNOWN" /\ E.nul /\ Len(E.msg) \in 1..n /\ E.msg = Take(pend, Len(E.msg))
                           /\ pend' = Drop(pend, Len(E.msg)) /\ cnt' = cnt /\ Returned
           ELSE Passed(n) /\ cnt' = cnt
Left == Cap - E.av
Message(c) ==
  LET x == Fate(c) IN
  CASE x.k = "skip" -> Passed(c.len) /\ cnt' = x.cnt
    [] x.k = "unknown" -> E.st = "UNKNOWN" /\ E.nul /\ E.msg = Raw(c) /\ pend' = Drop(pend, c.len) /\ cnt' = x.cnt /\ Returned
    [] x.k = "nodef" -> E.st = "NO_DEFINITION" /\ AsCame(c, x.r) /\ pend' = Drop(pend, c.len) /\ cnt' = x.cnt /\ Returned
    [] x.k = "held" -> /\ E.st = "SUCCESS" /\ pend' = Drop(pend, c.len) /\ cnt' = x.cnt /\ Returned
                       /\ AsCame(c, x.r) /\ E.ok /\ E.got = <<[i \in 1..Len(x.raw) |-> <<x.raw[i]>>]>>
    [] x.k = "full" -> /\ E.st = "SUCCESS" /\ pend' = Drop(pend, c.len) /\ cnt' = x.cnt /\ Returned
                       /\ IF E.op = "ri" THEN AsCame(c, x.r) /\ E.ok /\ G!M!ValsOk(x.f, E.got, x.v)
                          ELSE /\ MetaEq(x.r)
                               /\ E.msg = x.o.b /\ E.ho = x.o.ho /\ E.hl = x.o.hl /\ E.bo = x.o.bo /\ E.bl = x.o.bl
    \* floating-point numbers read from text: where they are, not what they became (M02, E01)
    [] x.k = "inexact" -> E.st = "SUCCESS" /\ MetaEq(x.r) /\ E.ho = x.o.ho /\ E.hl = x.o.hl /\ E.bo = x.o.bo
                          /\ (opt.f = "JSON" \/ Take(E.msg, x.o.hl) = Take(x.o.b, x.o.hl))
                          /\ (opt.f \in {"BINARY", "FLATTENED_BINARY"} => Len(E.msg) = Len(x.o.b) /\ E.bl = x.o.bl)
                          /\ pend' = Drop(pend, c.len) /\ cnt' = x.cnt /\ Returned
    [] OTHER -> /\ cnt' = Free                              \* loose
                /\ IF T.file THEN l' = Len(Ev) + 1 /\ pend' = pend
                   ELSE IF Len(pend) - c.len > Left THEN Passed(c.len)
                   ELSE IF E.st = "BUFFER_EMPTY" /\ Len(pend) - c.len = Left THEN Passed(c.len)
                   ELSE pend' = Drop(pend, c.len) /\ Returned
Nothing == /\ E.st = IF T.file THEN "STREAM_EMPTY" ELSE "BUFFER_EMPTY"
           /\ UNCHANGED <<pend, cnt>> /\ Returned
ReadStep == /\ Reading
            /\ LET c == Start IN
               CASE c.k = "none" -> Nothing
                 [] c.k = "ok" -> Message(c)
                 [] c.k = "more" /\ pend[1] = 60 /\ Cut -> Message(Rest)
                 [] c.k = "more" -> Nothing
                 [] OTHER -> Junk(JunkLen)
-----------------------------------------------------------------------------
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Options \/ Filtering \/ Load \/ Write \/ Flush \/ Stream \/ Rewind \/ Counts \/ Zeroed \/ ReadStep \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
