PROPERTY = "M01"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a null terminated string field in a binary body that does not itself start at an aligned offset"
BREAKS = "the padding after a string is computed from the string instead of from the start of the body"
EDITS = [("src/decoders/common/src/message_decoder.cpp", "            AddStringFieldPadding(pucTempStart, ppucLogBuf_);", "            AddStringFieldPadding(reinterpret_cast<const unsigned char*>(pcString), ppucLogBuf_);")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("a", "SIMPLE", "UCHAR", 1, "%UB") + "," + fld("s", "STRING", "CHAR", 1, "%s", ",\"arrayLength\":32") + "," + fld("b", "SIMPLE", "UCHAR", 1, "%UB"));
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("\x05" "abc\0\0\0\0\x09", 9)));
    CHECK(r.body(ENCODE_FORMAT::ASCII).substr(0, 9) == "5,\"abc\",9");
    return 0;
}
'''
