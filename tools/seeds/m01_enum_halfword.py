PROPERTY = "M01"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a binary message with a two byte enum field whose value is over 255 and a variable length field"
BREAKS = "only the low byte of a two byte enum is decoded"
EDITS = [("src/decoders/common/src/message_decoder.cpp", "case 2: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint16_t>(*ppucLogBuf_)); break;", "case 2: clCompField_.SetFieldValue<true>(field->index, static_cast<uint16_t>(LoadValueFromBuffer<uint8_t>(*ppucLogBuf_))); break;")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("e", "ENUM", "USHORT", 2, "", ",\"enumID\":\"q\"") + "," + fld("x", "SIMPLE", "USHORT", 2, "%hu") + "," + fld("s", "STRING", "CHAR", 1, "%s", ",\"arrayLength\":8"), enm("q", "Q", {{1, "ONE"}, {513, "BIG"}}));
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("\x01\x02\x07\x00zzz\0", 8)));
    CHECK(r.body(ENCODE_FORMAT::ASCII).substr(0, 5) == "BIG,7");
    return 0;
}
'''
