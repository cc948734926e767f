------------------------------- MODULE RxSpec -------------------------------
(* Messages that hold another message (RXCONFIG): reading one gives the       *)
(* message inside as the bytes it would have been sent as; writing one gives  *)
(* the outer header, the message inside with its checksum inverted, and the   *)
(* checksum of it all.                                                        *)
EXTENDS Message
CONSTANT RHdr(_)            \* what the header at the start of some bytes says
RxIds == {128, 2474}
NotW(w) == <<65535 - w[1], 65535 - w[2]>>
Hex8Digits(s) == Len(s) = 8 /\ \A i \in 1..8 : IsHex(s[i])
HexStep(w, d) == <<((w[1] * 16) % 65536) + (w[2] \div 4096), ((w[2] * 16) % 65536) + d>>
HexWord(s) == FoldLeft(LAMBDA w, c : HexStep(w, HexVal(c)), <<0, 0>>, s)
RECURSIVE Lead(_, _)
Lead(b, i) == IF i > Len(b) \/ b[i] \notin {60, 32, 13, 10} THEN i ELSE Lead(b, i + 1)
\* what the body b of an outer message holds: [st, raw]
RxRaw(fmt, b) ==
  LET n == Len(b) IN
  CASE fmt = "ASCII" -> IF n < 19 THEN [st |-> "MALFORMED_INPUT", raw |-> <<>>]
                        ELSE LET x == SubSeq(b, n - 18, n - 11) IN
                             IF ~Hex8Digits(x) \/ b[n - 10] # 42 THEN [st |-> "ANY", raw |-> <<>>]
                             ELSE [st |-> "SUCCESS", raw |-> Take(b, n - 19) \o P!Hex8(NotW(HexWord(x))) \o CRLF]
    [] fmt = "BINARY" -> IF n < 8 THEN [st |-> "MALFORMED_INPUT", raw |-> <<>>]
                         ELSE [st |-> "SUCCESS", raw |-> Take(b, n - 8) \o [i \in 1..4 |-> 255 - b[n - 8 + i]]]
    [] fmt = "ABB_ASCII" -> [st |-> "SUCCESS", raw |-> <<60>> \o Drop(b, Lead(b, 1) - 1)]
    [] OTHER -> [st |-> "UNSUPPORTED", raw |-> <<>>]
\* the message inside: [st, r (its header), f, v]. An abbreviated header may end with a blank.
Spaced(raw) == LET e == Find(raw, 1, {13}) IN raw # <<>> /\ raw[1] = 60 /\ e <= Len(raw) /\ e > 2 /\ raw[e - 1] = 32
NoSpace(raw) == LET e == Find(raw, 1, {13}) IN Take(raw, e - 2) \o Drop(raw, e - 1)
InHdr(raw) == IF Spaced(raw) THEN LET r == RHdr(NoSpace(raw)) IN [r EXCEPT !.hl = @ + 1] ELSE RHdr(raw)
FmtOf(n) == CASE n = 2 -> "BINARY" [] n = 3 -> "SHORT_BINARY" [] n = 5 -> "ASCII" [] n = 6 -> "SHORT_ASCII" [] n = 7 -> "ABB_ASCII" [] n = 10 -> "SHORT_ABB_ASCII" [] OTHER -> "?"
No(st) == [st |-> st, r |-> <<>>, f |-> <<>>, v |-> <<>>]
\* is there room for the header at all? (28 bytes are more than any reader needs to tell)
Inside(raw) ==
  LET r == InHdr(raw \o [i \in 1..28 |-> 0]) IN
  IF r.c \in {"lax", "any", "resp"} THEN No("ANY")
  ELSE IF r.c # "ok" \/ r.hl > Len(raw) THEN No("FAIL")
  ELSE IF r.h.id \in RxIds \/ r.h.type >= 128 THEN No("ANY")
  ELSE IF Msg(r.h.id) = <<>> THEN No("NO_DEFINITION")
  ELSE LET bin == FmtOf(r.fmt) \in Bins
           f == FieldsOf(Msg(r.h.id)[1], r.h.crc) IN
       IF bin /\ r.hl + r.h.len + 4 > Len(raw) THEN No("FAIL")
       ELSE LET b == IF bin THEN SubSeq(raw, r.hl + 1, r.hl + r.h.len) ELSE Drop(raw, r.hl) IN
            IF ~bin /\ \E i \in 1..Len(raw) : raw[i] = 0 THEN No("ANY")
            ELSE LET d == DecBytes(f, FmtOf(r.fmt), b) IN
                 IF d.st = "SUCCESS" THEN IF ~M!CleanAll(f, d.v) THEN No("ANY") ELSE [st |-> "SUCCESS", r |-> r, f |-> f, v |-> d.v]
                 ELSE No(IF d.st = "ANY" THEN "ANY" ELSE "FAIL")
\* the outer message h around it, in format ef; where everything is (offsets, lengths; e..: of the message inside)
Two(st, b, ho, hl, bo, bl, eo, eho, ehl, ebo, ebl) == [st |-> st, b |-> b, ho |-> ho, hl |-> hl, bo |-> bo, bl |-> bl, eo |-> eo, eho |-> eho, ehl |-> ehl, ebo |-> ebo, ebl |-> ebl]
NoTwo(st) == Two(st, <<>>, 0, 0, 0, 0, 0, 0, 0, 0, 0)
Prefix == Bytes("<     ")
Around(h, in, v, ef) ==
  LET short == in.r.fmt \in {3, 6, 10}
      e == Encoded(in.r.h, short, ef, in.f, v)
      n == Len(e.b) IN
  IF ef \notin {"ASCII", "ABBREV_ASCII", "BINARY", "JSON"} THEN NoTwo("UNSUPPORTED")
  ELSE IF e.st # "SUCCESS" THEN NoTwo(e.st)
  ELSE CASE ef = "ASCII" ->
              LET o == P!PAscii(h)
                  core == Take(e.b, n - 10)              \* up to and with its '*'
                  x == o \o core \o P!Hex8(NotW(C!OemCrc(core, 2, Len(core) - 1)))
                  hl == Len(o) IN
              Two("SUCCESS", x \o <<42>> \o P!Hex8(C!OemCrc(x, 2, Len(x))) \o CRLF, 0, hl, hl, n - 2 + 11, hl, hl, e.hl, hl + e.hl, e.bl - 2)
         [] ef = "BINARY" ->
              IF n + 4 - 4 > 65535 THEN NoTwo("FAILURE")
              ELSE LET o == P!PBin(h, n)
                       core == Take(e.b, n - 4)
                       x == o \o core \o P!B32(NotW(C!OemCrc(core, 1, Len(core)))) IN
                   Two("SUCCESS", x \o P!B32(C!OemCrc(x, 1, Len(x))), 0, 28, 28, n + 4, 28, 28, e.hl, 28 + e.hl, e.bl)
         [] ef = "ABBREV_ASCII" ->
              LET o == P!PAbb(h)
                  eh == Prefix \o SubSeq(e.b, 2, e.hl - 2) \o <<32>> \o CRLF
                  hl == Len(o)  ehl == Len(eh) IN
              Two("SUCCESS", o \o eh \o Drop(e.b, e.hl), 0, hl, hl, ehl + e.bl, hl, hl, ehl, hl + ehl, e.bl)
         [] OTHER ->
              LET o == P!PJson(h)
                  hl == Len(o)
                  bo == 20 + hl IN
              Two("SUCCESS", Bytes("{\"header\": ") \o o \o Bytes(",\"body\": ") \o e.b \o Bytes("}"), 11, hl, bo, n, bo, bo + e.ho, e.hl, bo + e.bo, e.bl)
=============================================================================
