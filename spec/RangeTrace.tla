----------------------------- MODULE RangeTrace -----------------------------
(* A range decompressor over a history of messages; status words.             *)
EXTENDS RangeSpec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s, db
vars == <<tr, l, s, db>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]
TDefs(x) == T.defs
TMsgs(x) == T.msgs
TEnum(en) == LET I == {i \in 1..Len(T.vals) : T.vals[i].name = en} IN IF I = {} THEN <<>> ELSE <<T.vals[CHOOSE i \in I : TRUE].vals>>
TVals(id) == LET I == {i \in 1..Len(T.evals) : T.evals[i].id = id} IN IF I = {} THEN <<>> ELSE T.evals[CHOOSE i \in I : TRUE].vals
H == INSTANCE HeaderSpec WITH Defs <- TDefs, EnumVals <- TEnum
G == INSTANCE Message WITH GMsgs <- TMsgs, GDefs <- TDefs, GEnum <- TEnum, GVals <- TVals
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Fresh /\ db = T.db
Is(op) == l <= Len(Ev) /\ E.op = op /\ UNCHANGED tr /\ l' = l + 1
-----------------------------------------------------------------------------
Load == Is("db") /\ db' = E.on /\ UNCHANGED s
Reset == Is("reset") /\ s' = Fresh /\ UNCHANGED db
Status == Is("cts") /\ E.out = WordKept(E.w) /\ UNCHANGED <<s, db>>
\* the whole seconds and milliseconds of a time of week; 32-bit limbs
TimeOf(h) == [w |-> h.week, ms |-> (h.ms[1] * 65536) + h.ms[2]]
Short == {"SHORT_BINARY", "SHORT_ASCII", "SHORT_ABB_ASCII"}
FmtOf(n) == CASE n = 2 -> "BINARY" [] n = 3 -> "SHORT_BINARY" [] n = 5 -> "ASCII" [] n = 6 -> "SHORT_ASCII" [] n = 7 -> "ABB_ASCII" [] n = 10 -> "SHORT_ABB_ASCII" [] OTHER -> "?"
Asked(ef, fmt) == IF ef # "UNSPECIFIED" THEN ef
                  ELSE CASE fmt \in {"BINARY", "SHORT_BINARY"} -> "BINARY" [] fmt \in {"ASCII", "SHORT_ASCII"} -> "ASCII" [] OTHER -> "ABBREV_ASCII"
\* the body of the message in binary: [st, b]
Body(r, fmt) ==
  LET d == Drop(E.b, r.hl)
      m == G!Msg(r.h.id) IN
  IF fmt = "BINARY" THEN [st |-> "SUCCESS", b |-> Take(d, r.h.len)]
  ELSE IF m = <<>> THEN [st |-> "NO_DEFINITION", b |-> <<>>]
  ELSE LET f == G!FieldsOf(m[1], r.h.crc)
           v == G!DecBytes(f, fmt, IF fmt = "SHORT_BINARY" THEN Take(d, r.h.len) ELSE d) IN
       IF v.st # "SUCCESS" THEN [st |-> v.st, b |-> <<>>] ELSE [st |-> "SUCCESS", b |-> G!M!EncBin(f, v.v, TRUE)]
MetaOk(x, o, r) == x.m.fmt = r.fmt /\ x.m.id = 43 /\ x.m.name = Bytes("RANGE") /\ x.m.hl = o.hl /\ x.len = Len(o.b)
NonFinite(b) == \E i \in 1..((Len(b) - 4) \div 44) : LET o == 4 + (44 * (i - 1)) IN
  \/ ~FFinite(SubSeq(b, o + 5, o + 12)) \/ ~FFinite(SubSeq(b, o + 17, o + 24))
  \/ \E k \in {12, 24, 28, 32, 36} : ~FFinite(SubSeq(b, o + k + 1, o + k + 4))
\* the message holds rows the observations agree with, and is what its values are written as
Right(r, fmt, in, obs) ==
  LET short == fmt \in Short
      n == IF short THEN 12 ELSE 28
      body == SubSeq(E.a.out, n + 1, Len(E.a.out) - 4)
      f == G!FieldsOf(G!Msg(43)[1], <<0, 0>>)
      h == [r.h EXCEPT !.id = 43]
      v == G!DecBytes(f, "BINARY", body)
      ob == G!Encoded(h, short, "BINARY", f, v.v)
      ef == Asked(E.f, fmt)
      oe == G!Encoded(h, short, ef, f, v.v)
  IN IF short /\ 4 + (44 * Len(obs)) > 255 THEN E.a.st # "SUCCESS"            \* too long for a short header
     ELSE
     /\ E.a.st = "SUCCESS"
     /\ RowsOk(body, obs)
     /\ v.st = "SUCCESS"
     /\ E.a.out = ob.b /\ MetaOk(E.a, ob, r)
     /\ IF NonFinite(body) THEN E.x.st = oe.st
        ELSE E.x.st = oe.st /\ (oe.st = "SUCCESS" => E.x.out = oe.b /\ MetaOk(E.x, oe, r))
     /\ E.tight.st = "SUCCESS" \/ (E.tight.st = "BUFFER_FULL" /\ E.tight.cap < 64 + (IF Len(in) > Len(body) THEN Len(in) ELSE Len(body)))
Both(st) == E.a.st = st /\ E.x.st = st /\ E.tight.st = st
Never == E.a.st # "SUCCESS" /\ E.x.st # "SUCCESS" /\ E.tight.st # "SUCCESS"
\* whether what happened may happen, and what is known afterwards
Judge(ok, t) == [ok |-> ok, s |-> t]
Outcome ==
  IF E.null THEN Judge(Both("NULL_PROVIDED"), s)
  ELSE IF ~db THEN Judge(Both("NO_DATABASE"), s)
  ELSE LET r == H!DecodeHeader(E.b) IN
       CASE r.c = "any" \/ r.c = "lax" -> Judge(TRUE, Lost(s))
         [] r.c \notin {"ok", "resp"} -> Judge(Never, s)
         [] r.h.id \notin RangeIds \/ r.h.type % 32 \notin {0, 1} -> Judge(Both("UNSUPPORTED"), s)
         [] r.h.type >= 128 -> Judge(TRUE, Lost(s))                             \* a response to a request for it
         [] OTHER ->
            LET fmt == FmtOf(r.fmt)
                b == Body(r, fmt) IN
            CASE b.st = "ANY" -> Judge(TRUE, Lost(s))
              [] b.st # "SUCCESS" -> Judge(Both(b.st), s)
              [] OTHER ->
                 LET x == RangeOf(r.h.id, b.b, s, TimeOf(r.h), r.h.type % 32) IN
                 CASE x.st = "ANY" -> Judge(TRUE, Lost(s))
                   [] x.st = "FAIL" -> Judge(E.a.st = "DECOMPRESSION_FAILURE" /\ E.x.st = "DECOMPRESSION_FAILURE", Lost(s))
                   [] G!Msg(43) = <<>> -> Judge(E.a.st = "NO_DEFINITION" /\ E.x.st = "NO_DEFINITION", x.s)
                   [] OTHER -> Judge(Right(r, fmt, b.b, x.obs), x.s)
\* a parser that decompresses: it reads the RANGE message, in the compressed one's format, and encodes it in the parser's;
\* what cannot be decompressed is reported
Parsed ==
  IF T.pf = "" \/ E.null THEN TRUE
  ELSE LET r == H!DecodeHeader(E.b)
           fmt == FmtOf(r.fmt) IN
       IF r.c # "ok" \/ r.h.id \notin RangeIds \/ r.h.type \notin {0, 1} THEN TRUE
       ELSE IF E.x.st # "SUCCESS" THEN E.p = <<[st |-> E.x.st, out |-> <<>>]>>
       ELSE LET q == H!DecodeHeader(E.x.out)
                n == IF fmt \in Short THEN 12 ELSE 28
                d == Drop(E.x.out, q.hl)
                f == G!FieldsOf(G!Msg(43)[1], <<0, 0>>)
                v == G!DecBytes(f, fmt, IF fmt \in {"BINARY", "SHORT_BINARY"} THEN Take(d, q.h.len) ELSE d)
                o == G!Encoded([r.h EXCEPT !.id = 43], fmt \in Short, T.pf, f, v.v)
            IN IF q.c # "ok" \/ NonFinite(SubSeq(E.a.out, n + 1, Len(E.a.out) - 4)) THEN Len(E.p) <= 1
               ELSE IF v.st # "SUCCESS" THEN v.st = "ANY" \/ E.p = <<>>
               ELSE IF o.st = "SUCCESS" THEN E.p = <<[st |-> "SUCCESS", out |-> o.b]>>
               ELSE E.p = <<>>
Decompress == Is("dc") /\ E.clean /\ UNCHANGED db /\ LET o == Outcome IN o.ok = TRUE /\ s' = o.s /\ Parsed = TRUE
Done == l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Load \/ Reset \/ Status \/ Decompress \/ Done]_vars
=============================================================================
