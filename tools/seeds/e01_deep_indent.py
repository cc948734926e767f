PROPERTY = "E01"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "abbreviated ASCII output of a field array of fixed size rows that is itself inside a row of another field array"
BREAKS = "the rows of the inner array are indented like those of the outer one"
EDITS = [("include/novatel_edie/decoders/common/encoder.hpp", "if (!EncodeAsciiBody<Abbreviated>(mb, subfieldDefs, ppcOutBuf_, uiBytesLeft_, uiIndents_ + 1)) { return false; }", "if (!EncodeAsciiBody<Abbreviated>(mb, subfieldDefs, ppcOutBuf_, uiBytesLeft_, 2)) { return false; }")]
DEMO = PRE + r'''
int main() {
    S in = fld("r", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + fld("x", "SIMPLE", "ULONG", 4, "%lu") + "]");
    Rig r(fld("q", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + fld("y", "SIMPLE", "ULONG", 4, "%lu") + "," + in + "]"));
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("\1\0\0\0\5\0\0\0\1\0\0\0\x09\0\0\0", 16)));
    S b = r.body(ENCODE_FORMAT::ABBREV_ASCII); 
    size_t row = b.find("<", b.find("5 1")), ind = b.find_first_not_of(" ", row + 1) - row - 1, top = b.find_first_not_of(" ", 1) - 1;
    CHECK(ind == 3 * top);
    return 0;
}
'''
