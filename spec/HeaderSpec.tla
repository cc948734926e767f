----------------------------- MODULE HeaderSpec -----------------------------
(* What the header of a message says.  A header value is                      *)
(*   [id, type, port, len, seq, idle, ts, week, ms, rs, crc, ver]             *)
(* with 32-bit fields as <<high 16, low 16>>.  A text field is read as        *)
(* [c |-> "ok"|"bad"|"lax", v |-> value]: "lax" marks input outside the       *)
(* format's grammar that a decoder may either refuse or read leniently.       *)
EXTENDS Names
CONSTANTS Defs(_), EnumVals(_)     \* parameter is ignored: lets the trace module supply the database

HF_UNKNOWN == 1  HF_BIN == 2  HF_SBIN == 3  HF_ASC == 5  HF_SASC == 6  HF_ABB == 7  HF_NMEA == 8  HF_JSON == 9  HF_SABB == 10
TS_UNKNOWN == <<0, 20>>
W16(n) == <<0, n>>
ZeroHdr == [id |-> 0, type |-> 0, port |-> <<0, 0>>, len |-> 0, seq |-> 0, idle |-> 0, ts |-> TS_UNKNOWN, week |-> 0, ms |-> <<0, 0>>,
            rs |-> <<0, 0>>, crc |-> <<0, 0>>, ver |-> 0]
LE16(b, i) == b[i] + 256 * b[i + 1]
LE32(b, i) == <<b[i + 2] + 256 * b[i + 3], b[i] + 256 * b[i + 1]>>

\* decimal digits -> 32-bit word; <<-1,-1>> on overflow
Over == <<-1, -1>>
W32Step(w, base, d) == IF w = Over THEN Over
                       ELSE LET lo == w[2] * base + d
                                hi == w[1] * base + (lo \div 65536) IN
                            IF hi > 65535 THEN Over ELSE <<hi, lo % 65536>>
W32(s, base) == FoldLeft(LAMBDA w, c : W32Step(w, base, HexVal(c)), <<0, 0>>, s)
U16(s) == LET w == W32(s, 10) IN IF w = Over \/ w[1] > 0 THEN -1 ELSE w[2]

Ok(v) == [c |-> "ok", v |-> v]
Lax == [c |-> "lax", v |-> <<>>]
Bad == [c |-> "bad", v |-> <<>>]
Dot == 46
\* [0-9]+(.[0-9]+)?  ->  <<integer digits, fraction digits>>
Split(s) == LET d == Find(s, 1, {Dot}) IN <<Take(s, d - 1), Drop(s, d)>>
PlainNum(s) == LET p == Split(s) IN AllDigits(p[1]) /\ (Len(p[1]) = Len(s) \/ AllDigits(p[2]))
Word3(fr) == [i \in 1..3 |-> IF i <= Len(fr) THEN fr[i] ELSE 48]
Word1(fr) == IF fr = <<>> THEN 0 ELSE fr[1] - 48
NameTok(s) == \A i \in 1..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] = US

\* the fields
FName(s) == IF s = <<>> \/ ~IsAlpha(s[1]) THEN Bad ELSE IF ~NameTok(s) THEN Lax ELSE Ok(NameToId(Defs(0), s))
FEnum(en, s) == IF s = <<>> \/ ~IsAlpha(s[1]) THEN Bad ELSE IF ~NameTok(s) THEN Lax ELSE Ok(IF EnumVals(en) = <<>> THEN <<0, 0>> ELSE EnumValue(EnumVals(en)[1], s))
FU16(s) == IF s = <<>> \/ ~IsDigit(s[1]) THEN Bad ELSE IF ~AllDigits(s) THEN Lax ELSE IF U16(s) < 0 THEN Bad ELSE Ok(U16(s))
FHex(s) == IF s = <<>> \/ ~IsHex(s[1]) THEN Bad ELSE IF \E i \in 1..Len(s) : ~IsHex(s[i]) THEN Lax ELSE IF W32(s, 16) = Over THEN Bad ELSE Ok(W32(s, 16))
\* percent in half-percent steps
FIdle(s) == IF s = <<>> \/ ~IsDigit(s[1]) THEN Bad
            ELSE IF ~PlainNum(s) \/ Len(Split(s)[1]) > 3 THEN Lax
            ELSE LET fr == Split(s)[2] IN
                 IF \A i \in 1..Len(fr) : (i = 1 /\ fr[i] \in {48, 53}) \/ (i > 1 /\ fr[i] = 48)
                 THEN LET v == 2 * Nat10(Split(s)[1]) + (IF Word1(fr) = 5 THEN 1 ELSE 0) IN IF v > 255 THEN Lax ELSE Ok(v)
                 ELSE Lax
\* seconds with millisecond resolution
FSecs(s) == IF s = <<>> \/ ~IsDigit(s[1]) THEN Bad
            ELSE IF ~PlainNum(s) THEN Lax
            ELSE LET p == Split(s)
                     w == W32(p[1] \o Word3(p[2]), 10) IN
                 IF Len(p[2]) > 3 \/ w = Over THEN Lax ELSE Ok(w)

\* a field sequence: names, kinds and delimiters; the text between the delimiters.
\* Reads <<kinds>> from position i; every field ends at the first delimiter character.
Read(kind, s) == CASE kind = "name" -> FName(s) [] kind = "port" -> FEnum("PortAddress", s) [] kind = "seq" -> FU16(s) [] kind = "idle" -> FIdle(s)
                   [] kind = "ts" -> FEnum("GPSTimeStatus", s) [] kind = "week" -> FU16(s) [] kind = "secs" -> FSecs(s) [] kind = "rs" -> FHex(s)
                   [] kind = "crc" -> FHex(s) [] kind = "ver" -> FU16(s)
\* parse state: [i next position, c class so far, h header]
Put(h, kind, v) == CASE kind = "name" -> [h EXCEPT !.id = v.id, !.type = TypeByte(v.sib, v.fmt, v.resp)]
                     [] kind = "port" -> [h EXCEPT !.port = v] [] kind = "seq" -> [h EXCEPT !.seq = v] [] kind = "idle" -> [h EXCEPT !.idle = v]
                     [] kind = "ts" -> [h EXCEPT !.ts = v] [] kind = "week" -> [h EXCEPT !.week = v] [] kind = "secs" -> [h EXCEPT !.ms = v]
                     [] kind = "rs" -> [h EXCEPT !.rs = v] [] kind = "crc" -> [h EXCEPT !.crc = v] [] kind = "ver" -> [h EXCEPT !.ver = v]
One(b, st, kind, delim) ==
  IF st.c = "bad" \/ st.c = "lax" THEN st
  ELSE LET e == Find(b, st.i, {delim[1]})
           f == Read(kind, SubSeq(b, st.i, e - 1)) IN
       IF e > Len(b) THEN [st EXCEPT !.c = "bad"]
       ELSE IF ~At(b, e, delim) THEN [st EXCEPT !.c = "bad"]
       ELSE IF f.c # "ok" THEN [st EXCEPT !.c = f.c]
       ELSE [i |-> e + Len(delim), c |-> "ok", h |-> Put(st.h, kind, f.v)]
Many(b, st, kinds, delim) == FoldLeft(LAMBDA a, k : One(b, a, k, delim), st, kinds)
Comma == <<44>>  Semi == <<59>>  Blank == <<32>>  CRLF == <<13, 10>>
Rest == <<"seq", "idle", "ts", "week", "secs", "rs", "crc">>
S0 == [i |-> 2, c |-> "ok", h |-> ZeroHdr]
Long(b) == One(b, Many(b, S0, <<"name", "port">> \o Rest, Comma), "ver", Semi)
Short(b) == One(b, Many(b, S0, <<"name", "week">>, Comma), "secs", Semi)
AbbName(b) == One(b, S0, "name", Blank)
AbbPort(b) == One(b, AbbName(b), "port", Blank)
AbbLong(b) == One(b, Many(b, AbbPort(b), Rest, Blank), "ver", CRLF)
AbbShort(b) == One(b, One(b, AbbName(b), "week", Blank), "secs", CRLF)
AbbResp(b) == At(b, 2, Bytes("OK")) \/ At(b, 2, Bytes("ERROR"))

BinHdr(b) == [id |-> LE16(b, 5), type |-> b[7], port |-> W16(b[8]), len |-> LE16(b, 9), seq |-> LE16(b, 11), idle |-> b[13], ts |-> W16(b[14]),
              week |-> LE16(b, 15), ms |-> LE32(b, 17), rs |-> LE32(b, 21), crc |-> W16(LE16(b, 25)), ver |-> LE16(b, 27)]
ShortBinHdr(b) == [ZeroHdr EXCEPT !.len = b[4], !.id = LE16(b, 5), !.week = LE16(b, 7), !.ms = LE32(b, 9)]

\* JSON: fields [k, v (raw text), q (quoted)]
JF(js, k) == LET I == {i \in 1..Len(js) : js[i].k = k} IN IF I = {} THEN <<>> ELSE <<js[CHOOSE i \in I : TRUE]>>
JPut(st, js, k, kind) ==
  IF st.c # "ok" \/ JF(js, k) = <<>> THEN st
  ELSE LET x == JF(js, k)[1]
           f == IF kind = "id" THEN FU16(x.v) ELSE IF kind \in {"rs10", "crc10"} THEN (IF AllDigits(x.v) /\ W32(x.v, 10) # Over THEN Ok(W32(x.v, 10)) ELSE Lax) ELSE Read(kind, x.v)
       IN IF f.c # "ok" THEN [st EXCEPT !.c = "lax"]
          ELSE [st EXCEPT !.h = CASE kind = "id" -> [@ EXCEPT !.id = f.v] [] kind = "rs10" -> [@ EXCEPT !.rs = f.v] [] kind = "crc10" -> [@ EXCEPT !.crc = f.v] [] OTHER -> Put(@, kind, f.v)]
JsonHdr(js) == LET s0 == [c |-> "ok", h |-> ZeroHdr]
                   s1 == JPut(JPut(JPut(JPut(s0, js, "id", "id"), js, "port", "port"), js, "sequence_num", "seq"), js, "percent_idle_time", "idle")
                   s2 == JPut(JPut(JPut(s1, js, "time_status", "ts"), js, "week", "week"), js, "seconds", "secs")
               IN JPut(JPut(JPut(s2, js, "receiver_status", "rs10"), js, "HEADER_reserved1", "crc10"), js, "receiver_sw_version", "ver")

\* The whole decision: status class, format, header, header length
\* "ok": success with exactly this; "bad": FAILURE; "lax": either; others: that status
Res(c, fmt, h, hl) == [c |-> c, fmt |-> fmt, h |-> h, hl |-> hl]
Text(fmt, s) == Res(s.c, fmt, s.h, s.i - 1)
DecodeHeader(b) ==
  CASE b[1] = 35 -> Text(HF_ASC, Long(b))
    [] b[1] = 37 -> Text(HF_SASC, Short(b))
    [] b[1] = 60 -> IF AbbResp(b) THEN Res("resp", HF_ABB, [ZeroHdr EXCEPT !.type = 128], 1)
                    ELSE IF AbbPort(b).c = "ok" THEN Text(HF_ABB, AbbLong(b))
                    ELSE IF AbbName(b).c # "ok" THEN Text(HF_ABB, AbbName(b))
                    ELSE IF AbbPort(b).c = "lax" THEN Res("lax", HF_ABB, ZeroHdr, 0)
                    ELSE Text(HF_SABB, AbbShort(b))
    [] b[1] = 36 -> Res("UNSUPPORTED", HF_NMEA, ZeroHdr, 0)
    [] b[1] = 170 /\ b[2] = 68 /\ b[3] = 18 -> Res("ok", HF_BIN, BinHdr(b), 28)
    [] b[1] = 170 /\ b[2] = 68 /\ b[3] = 19 -> Res("ok", HF_SBIN, ShortBinHdr(b), 12)
    [] b[1] = 170 /\ b[3] \in {18, 19} -> Res("any", HF_UNKNOWN, ZeroHdr, 0)      \* not a NovAtel sync: not defined here
    [] OTHER -> Res("UNKNOWN", HF_UNKNOWN, ZeroHdr, 0)
=============================================================================
