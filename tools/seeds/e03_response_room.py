PROPERTY = "E03"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a buffer that is one byte too short for the text of an enum or a response"
BREAKS = "one byte is written beyond the end of the buffer that was provided"
EDITS = [("include/novatel_edie/decoders/common/encoder.hpp", "if (uiBytesLeft_ < sv.size()) { return false; }", "if (uiBytesLeft_ + 1 < sv.size()) { return false; }")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("e", "ENUM", "ENUM", 4, "", ",\"enumID\":\"q\""), enm("q", "Q", {{1, "SOMETHING"}}));
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("\1\0\0\0", 4)));
    S w = (r.body(ENCODE_FORMAT::ASCII), r.whole); CHECK(!w.empty());
    for (unsigned c = 0; c < w.size(); ++c) { CHECK(r.body(ENCODE_FORMAT::ASCII, HEADER_FORMAT::BINARY, c) == ""); CHECK(r.st == STATUS::BUFFER_FULL); }
    return 0;
}
'''
