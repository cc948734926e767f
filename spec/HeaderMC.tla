------------------------------ MODULE HeaderMC ------------------------------
(* Reading what is written gives the header back, in every format and for    *)
(* every combination of interesting field values; each rendering is printed  *)
(* for replay into the real decoder.                                         *)
EXTENDS Names, TLC, Json
CONSTANT Level
Ids == {42, 65535}
Types == IF Level = 1 THEN {1, 137} ELSE {0, 1, 31, 128, 137, 159}
Ports == {<<0, 32>>, <<0, 0>>}
Seqs == {0, 65535}
Idles == IF Level = 1 THEN {117, 200} ELSE {0, 1, 117, 200}
TSs == IF Level = 1 THEN {<<0, 180>>} ELSE {<<0, 180>>, <<0, 20>>}
Weeks == {0, 2300}
Mss == {<<0, 0>>, <<0, 7>>, <<0, 1001>>, <<0, 4039>>, <<9228, 16383>>, <<65535, 65535>>}
Rss == {<<0, 0>>, <<65535, 65535>>}
Crcs == {<<0, 0>>, <<0, 65535>>}
Vers == {16248}
VARIABLES h, f
MDefs(x) == <<[id |-> 42, name |-> Bytes("BESTPOS")], [id |-> 65535, name |-> Bytes("A9")], [id |-> 7, name |-> Bytes("VERSION")]>>
Ports0 == <<[v |-> <<0, 32>>, n |-> Bytes("COM1"), d |-> <<>>], [v |-> <<0, 64>>, n |-> Bytes("COM2"), d |-> <<>>], [v |-> <<0, 41>>, n |-> Bytes("COM1_9"), d |-> <<>>], [v |-> <<0, 0>>, n |-> Bytes("NO_PORTS"), d |-> <<>>]>>
TS0 == <<[v |-> <<0, 20>>, n |-> Bytes("UNKNOWN"), d |-> <<>>], [v |-> <<0, 180>>, n |-> Bytes("FINESTEERING"), d |-> <<>>], [v |-> <<0, 200>>, n |-> Bytes("SATTIME"), d |-> <<>>]>>
MEnums(en) == CASE en = "PortAddress" -> <<Ports0>> [] en = "GPSTimeStatus" -> <<TS0>> [] OTHER -> <<>>
R == INSTANCE HeaderSpec WITH Defs <- MDefs, EnumVals <- MEnums
P == INSTANCE HeaderPrint WITH PDefs <- MDefs, PEnums <- MEnums
Formats == {"ASC", "SASC", "ABB", "SABB", "BIN", "SBIN"}
Init == /\ h \in [id : Ids, type : Types, port : Ports, len : {0}, seq : Seqs, idle : Idles, ts : TSs, week : Weeks, ms : Mss, rs : Rss, crc : Crcs, ver : Vers]
        /\ f \in Formats
        /\ (f \in {"SASC", "SABB", "SBIN"} => h.port = CHOOSE x \in Ports : TRUE)
Next == FALSE /\ UNCHANGED <<h, f>>
Spec == Init /\ [][Next]_<<h, f>>
Text0 == CASE f = "ASC" -> P!PAscii(h) [] f = "SASC" -> P!PShortAscii(h) [] f = "ABB" -> P!PAbb(h) [] f = "SABB" -> P!PShortAbb(h)
           [] f = "BIN" -> P!PBin(h, 4660) [] f = "SBIN" -> P!PShortBin(h, 137)
Sib == h.type % 32
Resp == h.type >= 128
\* what each format keeps
Kept == CASE f = "ASC" -> [h EXCEPT !.type = Sib + 32 + (IF Resp THEN 128 ELSE 0)]
          [] f = "SASC" -> [R!ZeroHdr EXCEPT !.id = h.id, !.type = Sib + 32 + (IF Resp THEN 128 ELSE 0), !.week = h.week, !.ms = h.ms]
          [] f = "ABB" -> [h EXCEPT !.type = Sib + 64]
          [] f = "SABB" -> [R!ZeroHdr EXCEPT !.id = h.id, !.type = Sib + 64, !.week = h.week, !.ms = h.ms]
          [] f = "BIN" -> [h EXCEPT !.type = Sib + (IF Resp THEN 128 ELSE 0), !.len = 4660, !.port = <<0, @[2] % 256>>, !.crc = <<0, @[2]>>]
          [] f = "SBIN" -> [R!ZeroHdr EXCEPT !.id = h.id, !.len = 137, !.week = h.week, !.ms = h.ms]
RoundTrip == LET r == R!DecodeHeader(Text0 \o <<0, 0, 0>>) IN r.c = "ok" /\ r.h = Kept /\ r.hl = Len(Text0)
Emit == PrintT("@@" \o ToJson([f |-> f, b |-> Text0]))
=============================================================================
