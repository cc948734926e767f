------------------------------ MODULE Message ------------------------------
(* A whole message: which definition its header selects, what its body says,  *)
(* and the message written in a format, given a database.                     *)
EXTENDS Text
CONSTANTS GMsgs(_),          \* messages [id, name, latest, defs: [crc, fields]]
          GDefs(_),          \* [id, name as bytes]
          GEnum(_),          \* an enumeration by its name: <<values>> or <<>>
          GVals(_)           \* an enumeration by its id: its values
GResp(x) == LET p == GEnum("Responses") IN IF p = <<>> THEN <<>> ELSE p[1]
M == INSTANCE MsgSpec WITH MDefs <- GDefs, MVals <- GVals, MResp <- GResp
P == INSTANCE HeaderPrint WITH PDefs <- GDefs, PEnums <- GEnum
C == INSTANCE Crc
First(seq, Q(_)) == LET I == {i \in 1..Len(seq) : Q(seq[i])} IN IF I = {} THEN <<>> ELSE <<seq[CHOOSE i \in I : \A j \in I : j <= i]>>
Msg(id) == First(GMsgs(0), LAMBDA m : m.id = id)
\* the definition with that checksum, or the latest one
FieldsOf(m, crc) == LET p == First(m.defs, LAMBDA d : d.crc = crc)
                        q == First(m.defs, LAMBDA d : d.crc = m.latest) IN IF p # <<>> THEN p[1].fields ELSE q[1].fields
Texts == {"ASCII", "SHORT_ASCII"}
Abbs == {"ABB_ASCII", "SHORT_ABB_ASCII"}
Bins == {"BINARY", "SHORT_BINARY"}
\* the body b of a message with fields f: [st, v]
DecBytes(f, fmt, b) == CASE fmt \in Bins -> M!DecBin(f, b)
                         [] fmt \in Texts -> M!DecAsc(f, b, 1, FALSE)
                         [] fmt \in Abbs -> M!DecAsc(f, b, 1, TRUE)
                         [] OTHER -> [st |-> "UNKNOWN", v |-> <<>>]
\* an encoded message: the bytes, where its header starts, how long header and body are
Out(st, b, ho, hl, bo, bl) == [st |-> st, b |-> b, ho |-> ho, hl |-> hl, bo |-> bo, bl |-> bl]
Plain(st) == Out(st, <<>>, 0, 0, 0, 0)
Whole(h, b) == Out("SUCCESS", h \o b, 0, Len(h), Len(h), Len(b))
CRLF == <<13, 10>>
Response(h) == h.type >= 128
RespText(f, v) == LET s == v[2] IN M!Cut(s)
Encoded(h, short, ef, f, v) ==
  LET body == M!EncBin(f, v, ef = "FLATTENED_BINARY")
      txt == IF short THEN P!PShortAscii(h) ELSE P!PAscii(h)
      asc == txt \o M!ButLast(M!EncAsc(f, v, FALSE, 0))
      bin == (IF short THEN P!PShortBin(h, Len(body)) ELSE P!PBin(h, Len(body))) \o body
      js == IF short THEN P!PShortJson(h) ELSE P!PJson(h)
      obj == M!Render(M!ObjNode(f, v))
  IN CASE ef = "ABBREV_ASCII" /\ Response(h) -> IF Len(f) < 2 THEN Plain("MALFORMED_INPUT") ELSE Whole(<<60>>, RespText(f, v) \o CRLF)
       [] ef = "ABBREV_ASCII" -> Whole(IF short THEN P!PShortAbb(h) ELSE P!PAbb(h), M!ButLast(M!EncAsc(f, v, TRUE, 1)) \o CRLF)
       [] ef = "ASCII" -> Whole(txt, Drop(asc, Len(txt)) \o <<42>> \o P!Hex8(C!OemCrc(asc, 2, Len(asc))) \o CRLF)
       [] ef \in {"BINARY", "FLATTENED_BINARY"} ->
            IF Len(body) > (IF short THEN 255 ELSE 65535) THEN Plain("FAILURE")
            ELSE LET n == Len(bin) - Len(body) IN Whole(Take(bin, n), Drop(bin, n) \o P!B32(C!OemCrc(bin, 1, Len(bin))))
       [] ef = "JSON" -> Out("SUCCESS", Bytes("{\"header\": ") \o js \o Bytes(",\"body\": ") \o obj \o Bytes("}"), 11, Len(js), 20 + Len(js), Len(obj))
       [] OTHER -> Plain("UNSUPPORTED")
=============================================================================
