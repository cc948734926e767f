----------------------------- MODULE FrameSpec -----------------------------
(* The frame dialects.  Given the bytes buf (a sequence of 0..255) and a    *)
(* position i, Classify says what starts there, as far as buf can tell:     *)
(*   ok    a complete valid frame of `len` bytes, of format fmt             *)
(*   bad   nothing: the next `skip` bytes belong to no frame (need: how far  *)
(*         what looked like one extended, when its checksum is wrong)       *)
(*   more  undecided until more bytes arrive; at least `need` are needed    *)
(* The constants are the parameters of the wire formats, so that the same   *)
(* text is checked exhaustively on toy parameters (FramerMC) and used as    *)
(* the oracle on real ones (FramerTrace).                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS CrcLen,            \* hex digits of an ASCII checksum (8)
          BinHdr, ShortHdr,  \* header lengths (28, 12)
          BinCrc,            \* bytes of a binary checksum (4)
          LenAt, ShortLenAt, \* offsets of the length fields (8, 3)
          LenBytes,          \* width of the long length field (2)
          MaxLen,            \* longest binary, ASCII or abbreviated frame (32768)
          NmeaMin, NmeaMax,
          AscCrcOk(_, _, _, _),   \* (buf, from, to, first checksum digit)
          BinCrcOk(_, _, _),      \* (buf, from, to) to includes the checksum
          Xor8(_, _),              \* of two bytes
          NmeaCrcOk(_, _, _)      \* (buf, xor of the body, first of two digits)

\* ASCII codes
CR == 13   LF == 10   Space == 32   Hash == 35   Dollar == 36   Percent == 37   Star == 42   Less == 60
OpenB == 123   CloseB == 125
Alpha(b) == b \in 65..90 \/ b \in 97..122

\* formats as numbered by the implementation's interface
F_UNKNOWN == 1  F_BINARY == 2  F_SHORT_BINARY == 3  F_PROPRIETARY == 4  F_ASCII == 5
F_SHORT_ASCII == 6  F_ABB == 7  F_NMEA == 8  F_JSON == 9

Ok(len, fmt)     == [k |-> "ok",   len |-> len, fmt |-> fmt, resp |-> FALSE, skip |-> 0, need |-> len]
OkResp(len)      == [k |-> "ok",   len |-> len, fmt |-> F_ABB, resp |-> TRUE, skip |-> 0, need |-> len]
Bad(skip)        == [k |-> "bad",  len |-> 0, fmt |-> F_UNKNOWN, resp |-> FALSE, skip |-> skip, need |-> 0]
BadOf(extent)    == [k |-> "bad",  len |-> 0, fmt |-> F_UNKNOWN, resp |-> FALSE, skip |-> 1, need |-> extent]
More(need)       == [k |-> "more", len |-> 0, fmt |-> F_UNKNOWN, resp |-> FALSE, skip |-> 0, need |-> need]

\* the first position from j on whose byte passes Test
NextWhere(buf, j, Test(_)) ==
  IF \E p \in j..Len(buf) : Test(buf[p])
  THEN CHOOSE p \in j..Len(buf) : Test(buf[p]) /\ \A q \in j..(p - 1) : ~Test(buf[q])
  ELSE Len(buf) + 1
\* two bytes at j are CR LF
Crlf(buf, j) == j + 1 <= Len(buf) /\ buf[j] = CR /\ buf[j + 1] = LF
BodyLine(buf, j) == buf[j] = Less /\ buf[j + 1] = Space     \* needs both bytes

-----------------------------------------------------------------------------
(* Binary.  syncs: the admissible second and third bytes.                   *)
Word(buf, j, n) == IF n = 1 THEN buf[j] ELSE buf[j] + 256 * buf[j + 1]
BinHdrLen(buf, i) == IF buf[i + 2] = 18 THEN BinHdr ELSE ShortHdr
BinTotal(buf, i) == IF buf[i + 2] = 18 THEN BinHdr + Word(buf, i + LenAt, LenBytes) + BinCrc
                    ELSE ShortHdr + Word(buf, i + ShortLenAt, 1) + BinCrc
BinFmt(buf, i) == IF buf[i + 2] = 19 THEN F_SHORT_BINARY
                  ELSE IF buf[i + 1] = 69 THEN F_PROPRIETARY ELSE F_BINARY
BinaryAt(buf, i, seconds, thirds) ==
  LET n == Len(buf) IN
  IF buf[i] # 170 THEN Bad(1)
  ELSE IF i + 1 > n THEN More(0)
  ELSE IF buf[i + 1] \notin seconds THEN Bad(1)
  ELSE IF i + 2 > n THEN More(0)
  ELSE IF buf[i + 2] \notin thirds THEN Bad(1)
  ELSE IF n - i + 1 < BinHdrLen(buf, i) THEN More(BinHdrLen(buf, i))
  ELSE LET t == BinTotal(buf, i) IN
       IF t > MaxLen THEN Bad(1)
       ELSE IF n - i + 1 < t THEN More(t)
       ELSE IF BinCrcOk(buf, i, i + t - 1) THEN Ok(t, BinFmt(buf, i)) ELSE BadOf(t)

(* '#' and '%' logs.  The checksum delimiter is the first '*' followed by   *)
(* CrcLen bytes and CR LF.  strict: a byte above 127 ends the candidate,    *)
(* everything before it belongs to no frame.                                *)
RECURSIVE AsciiScan(_, _, _, _, _)
AsciiScan(buf, i, j, fmt, strict) ==
  LET p == NextWhere(buf, j, LAMBDA b : b = Star \/ (strict /\ b > 127))   \* Len(buf) + 1 if there is none
      lim == i + MaxLen - 1                                                \* the last byte of a longest frame
      over == IF strict THEN LET q == IF j > lim THEN j ELSE lim IN q < p /\ q <= Len(buf)
              ELSE lim <= p /\ lim <= Len(buf)
  IN IF over THEN Bad(1)                                                   \* nothing that ends in time
     ELSE IF p > Len(buf) THEN More(0)
     ELSE IF buf[p] > 127 THEN Bad(p - i)
     ELSE IF ~strict /\ p + CrcLen + 2 > lim THEN AsciiScan(buf, i, p + 1, fmt, strict)
     ELSE IF p + CrcLen + 2 > Len(buf) THEN More(0)
     ELSE IF ~Crlf(buf, p + CrcLen + 1) THEN AsciiScan(buf, i, p + 1, fmt, strict)
     ELSE IF strict /\ buf[p + 1] > 127 THEN Bad(p + 1 - i)
     ELSE IF AscCrcOk(buf, i + 1, p - 1, p + 1) THEN Ok(p + CrcLen + 2 - i + 1, fmt)
     ELSE BadOf(p + CrcLen + 2 - i + 1)
AsciiAt(buf, i, sync, strict) ==
  IF buf[i] # sync THEN Bad(1) ELSE AsciiScan(buf, i, i + 1, IF sync = Hash THEN F_ASCII ELSE F_SHORT_ASCII, strict)

(* Abbreviated ASCII: '<' header CRLF, then body lines that start with      *)
(* "< "; the last is known to be the last when the next two bytes are seen. *)
(* "<OK..." and "<ERROR..." are responses of one line.                      *)
IsResponse(buf, i) == \/ i + 2 <= Len(buf) /\ buf[i + 1] = 79 /\ buf[i + 2] = 75
                      \/ i + 5 <= Len(buf) /\ buf[i + 1] = 69 /\ buf[i + 2] = 82 /\ buf[i + 3] = 82 /\ buf[i + 4] = 79 /\ buf[i + 5] = 82
LineEnd(buf, j, strict) == NextWhere(buf, j, LAMBDA b : b = CR \/ (strict /\ b > 127))
RECURSIVE AbbBody(_, _, _, _)
AbbBody(buf, i, k, strict) ==
  LET p == LineEnd(buf, k, strict)
      lim == i + MaxLen - 1
      last == Len(buf) - 3                     \* later bytes are only looked at when more have come
  IN IF ~strict /\ lim <= p /\ lim <= Len(buf) THEN Bad(1)
     ELSE IF strict /\ p <= Len(buf) /\ p <= last + 1 /\ buf[p] > 127 /\ p <= lim THEN Bad(p - i)
     ELSE IF strict /\ lim < p /\ lim <= last THEN Bad(1)
     ELSE IF p > last THEN More(0)
     ELSE IF Crlf(buf, p) /\ ~BodyLine(buf, p + 2) THEN Ok(p + 1 - i + 1, F_ABB)
     ELSE IF strict /\ p >= lim THEN Bad(1)
     ELSE AbbBody(buf, i, p + 1, strict)
RECURSIVE AbbHeader(_, _, _, _)
AbbHeader(buf, i, j, strict) ==
  LET p == LineEnd(buf, j, strict)
      lim == i + MaxLen - 1
  IN IF ~strict /\ lim <= p /\ lim <= Len(buf) THEN Bad(1)
     ELSE IF strict /\ (LET q == IF j > lim THEN j ELSE lim IN q < p /\ q <= Len(buf)) THEN Bad(1)
     ELSE IF p > Len(buf) THEN More(0)
     ELSE IF buf[p] > 127 THEN Bad(p - i)
     ELSE IF ~Crlf(buf, p) THEN IF p = Len(buf) THEN More(0)
                                ELSE IF strict /\ p >= lim THEN Bad(1) ELSE AbbHeader(buf, i, p + 1, strict)
     ELSE IF IsResponse(buf, i) THEN OkResp(p + 1 - i + 1)
     ELSE IF p + 3 > Len(buf) THEN More(0)
     ELSE IF BodyLine(buf, p + 2) THEN AbbBody(buf, i, p + 2, strict)
     ELSE Bad(1)
AbbAt(buf, i, strict) ==
  IF buf[i] # Less THEN Bad(1)
  ELSE IF i + 1 > Len(buf) THEN More(0)
  ELSE IF strict THEN IF Alpha(buf[i + 1]) THEN AbbHeader(buf, i, i + 2, TRUE) ELSE Bad(1)
  ELSE IF buf[i + 1] = Space THEN Bad(1) ELSE AbbHeader(buf, i, i + 1, FALSE)

(* NMEA: '$' body '*' hh CR LF, hh the exclusive or of the body.            *)
RECURSIVE NmeaTail(_, _, _, _)
NmeaTail(buf, i, j, x) ==
  IF j > Len(buf) THEN More(0)
  ELSE IF buf[j] > 127 THEN Bad(j - i)
  ELSE IF buf[j] = LF THEN
         IF j - i + 1 < NmeaMin THEN Bad(1)
         ELSE IF NmeaCrcOk(buf, x, j - 3) THEN Ok(j - i + 1, F_NMEA) ELSE Bad(1)
  ELSE IF j - i + 1 >= NmeaMax THEN Bad(1)
  ELSE NmeaTail(buf, i, j + 1, x)
RECURSIVE NmeaScan(_, _, _, _)
NmeaScan(buf, i, j, x) ==
  IF j > Len(buf) THEN More(0)
  ELSE IF buf[j] > 127 THEN Bad(j - i)
  ELSE IF buf[j] = Star THEN NmeaTail(buf, i, j + 1, x)
  ELSE IF j - i + 1 >= NmeaMax THEN Bad(1)
  ELSE NmeaScan(buf, i, j + 1, Xor8(x, buf[j]))
NmeaAt(buf, i) == IF buf[i] # Dollar THEN Bad(1) ELSE NmeaScan(buf, i, i + 1, 0)

(* JSON: a balanced run of braces.                                          *)
RECURSIVE JsonScan(_, _, _, _)
JsonScan(buf, i, j, d) ==
  LET p == NextWhere(buf, j, LAMBDA b : b \in {OpenB, CloseB} \/ b > 127)
  IN IF p > Len(buf) THEN More(0)
     ELSE IF buf[p] > 127 THEN Bad(p - i)
     ELSE IF buf[p] = CloseB /\ d = 1 THEN Ok(p - i + 1, F_JSON)
     ELSE JsonScan(buf, i, p + 1, IF buf[p] = OpenB THEN d + 1 ELSE d - 1)
JsonAt(buf, i) == IF buf[i] # OpenB THEN Bad(1) ELSE JsonScan(buf, i, i + 1, 1)

-----------------------------------------------------------------------------
(* What each framer recognises.  "OEM" is the framer of all formats.        *)
Classify(dialect, json, buf, i) ==
  IF dialect = "OEM" THEN
       IF buf[i] = 170 THEN BinaryAt(buf, i, {68, 69}, {18, 19})
       ELSE IF buf[i] \in {Hash, Percent} THEN AsciiAt(buf, i, buf[i], TRUE)
       ELSE IF buf[i] = Less THEN AbbAt(buf, i, TRUE)
       ELSE IF buf[i] = Dollar THEN NmeaAt(buf, i)
       ELSE IF json /\ buf[i] = OpenB THEN JsonAt(buf, i)
       ELSE Bad(1)
  ELSE IF dialect = "OEM_ASCII" THEN AsciiAt(buf, i, Hash, FALSE)
  ELSE IF dialect = "OEM_ASCII_SHORT" THEN AsciiAt(buf, i, Percent, FALSE)
  ELSE IF dialect = "OEM_BINARY" THEN BinaryAt(buf, i, {68}, {18})
  ELSE IF dialect = "OEM_BINARY_SHORT" THEN BinaryAt(buf, i, {68}, {19})
  ELSE IF dialect = "OEM_ABB_ASCII" THEN AbbAt(buf, i, FALSE)
  ELSE Bad(1)

\* Bytes that may start a frame; at any other, Classify says Bad(1).
IsSync(dialect, json, b) ==
  CASE dialect = "OEM" -> b \in {170, Hash, Percent, Less, Dollar} \/ (json /\ b = OpenB)
    [] dialect = "OEM_ASCII" -> b = Hash
    [] dialect = "OEM_ASCII_SHORT" -> b = Percent
    [] dialect \in {"OEM_BINARY", "OEM_BINARY_SHORT"} -> b = 170
    [] dialect = "OEM_ABB_ASCII" -> b = Less
    [] OTHER -> FALSE

\* How many leading bytes of buf are certain to belong to no frame, as far as position m matters.
RECURSIVE JunkFrom(_, _, _, _, _)
JunkFrom(dialect, json, buf, w, m) ==      \* w bytes are junk already
  IF w >= m THEN w
  ELSE LET p == NextWhere(buf, w + 1, LAMBDA b : IsSync(dialect, json, b)) - 1 IN
       IF p >= m THEN p
       ELSE LET c == Classify(dialect, json, buf, p + 1)
            IN IF c.k = "bad" THEN JunkFrom(dialect, json, buf, p + c.skip, m) ELSE p
Junk(dialect, json, buf, m) == JunkFrom(dialect, json, buf, 0, m)
=============================================================================
