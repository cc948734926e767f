---------------------------- MODULE HeaderPrint ----------------------------
(* How a header is written in every format (the inverse of HeaderSpec).      *)
EXTENDS Names
CONSTANTS PDefs(_), PEnums(_)
RECURSIVE DecW(_)
DecW(w) == LET q1 == w[1] \div 10
               x == (w[1] % 10) * 65536 + w[2]
               q == <<q1, x \div 10>>
               d == <<48 + (x % 10)>>
           IN IF q = <<0, 0>> THEN d ELSE DecW(q) \o d
Hex4(n) == <<HexDigitLower(n \div 4096), HexDigitLower((n \div 256) % 16), HexDigitLower((n \div 16) % 16), HexDigitLower(n % 16)>>
Hex8(w) == Hex4(w[1]) \o Hex4(w[2])
\* at least 4 digits
HexMin4(w) == LET s == Hex8(w)
                  nz == {i \in 1..4 : s[i] # 48} IN
              IF nz = {} THEN Drop(s, 4) ELSE Drop(s, (CHOOSE i \in nz : \A j \in nz : i <= j) - 1)
Pad3(s) == IF Len(s) >= 4 THEN s ELSE [i \in 1..(4 - Len(s)) |-> 48] \o s
SecsText(ms) == LET s == Pad3(DecW(ms)) IN Take(s, Len(s) - 3) \o <<46>> \o Drop(s, Len(s) - 3)
IdleText(n) == Dec(n \div 2) \o <<46, IF n % 2 = 1 THEN 53 ELSE 48>>
EnumText(en, w) == IF PEnums(en) = <<>> THEN Bytes("UNKNOWN") ELSE EnumString(PEnums(en)[1], w)
Sib(h) == h.type % 32
SibText(h) == IF Sib(h) = 0 THEN <<>> ELSE <<US>> \o Dec(Sib(h))
Known(h) == \E i \in 1..Len(PDefs(0)) : PDefs(0)[i].id = h.id
Base(h) == IF Known(h) THEN DefName(PDefs(0), h.id) ELSE EnumText("Commands", <<0, h.id>>)
Resp(h) == h.type >= 128
AscName(h) == Base(h) \o <<IF Resp(h) THEN 82 ELSE 65>> \o SibText(h)
AbbNameT(h) == Base(h) \o SibText(h)
Join(s, d) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o d \o x, <<>>, s)
Common(h) == <<EnumText("PortAddress", h.port), Dec(h.seq), IdleText(h.idle), EnumText("GPSTimeStatus", h.ts), Dec(h.week), SecsText(h.ms),
               Hex8(h.rs), HexMin4(h.crc), Dec(h.ver)>>
PAscii(h) == <<35>> \o Join(<<AscName(h)>> \o Common(h), <<44>>) \o <<59>>
PShortAscii(h) == <<37>> \o Join(<<AscName(h), Dec(h.week), SecsText(h.ms)>>, <<44>>) \o <<59>>
PAbb(h) == <<60>> \o Join(<<AbbNameT(h)>> \o Common(h), <<32>>) \o <<13, 10>>
PShortAbb(h) == <<60>> \o Join(<<AbbNameT(h), Dec(h.week), SecsText(h.ms)>>, <<32>>) \o <<13, 10>>
B16(n) == <<n % 256, n \div 256>>
B32(w) == B16(w[2]) \o B16(w[1])
\* the message-format bits of the type are zero in binary
PBin(h, len) == <<170, 68, 18, 28>> \o B16(h.id) \o <<(h.type \div 128) * 128 + Sib(h), h.port[2] % 256>> \o B16(len) \o B16(h.seq) \o <<h.idle, h.ts[2] % 256>>
           \o B16(h.week) \o B32(h.ms) \o B32(h.rs) \o B16(h.crc[2]) \o B16(h.ver)
PShortBin(h, len) == <<170, 68, 19, len % 256>> \o B16(h.id) \o B16(h.week) \o B32(h.ms)
Q(s) == Bytes("\"") \o s \o Bytes("\"")
KV(k, v) == Q(Bytes(k)) \o Bytes(": ") \o v
PJson(h) == Bytes("{") \o Join(<<KV("message", Q(AbbNameT(h))), KV("id", Dec(h.id)), KV("port", Q(EnumText("PortAddress", h.port))), KV("sequence_num", Dec(h.seq)),
             KV("percent_idle_time", IdleText(h.idle)), KV("time_status", Q(EnumText("GPSTimeStatus", h.ts))), KV("week", Dec(h.week)),
             KV("seconds", SecsText(h.ms)), KV("receiver_status", DecW(h.rs)), KV("HEADER_reserved1", DecW(h.crc)), KV("receiver_sw_version", Dec(h.ver))>>, <<44>>) \o Bytes("}")
PShortJson(h) == Bytes("{") \o Join(<<KV("message", Q(AbbNameT(h))), KV("id", Dec(h.id)), KV("week", Dec(h.week)), KV("seconds", SecsText(h.ms))>>, <<44>>) \o Bytes("}")
=============================================================================
