PROPERTY = "P01"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
NEEDS = "a message without a definition, and unknown bytes not asked for"
BREAKS = "messages without a definition are only handed out when unknown bytes are"
EDITS = [("src/decoders/oem/src/parser.cpp", "if (eStatus == STATUS::SUCCESS || eStatus == STATUS::NO_DEFINITION) { return eStatus; }",
          "if (eStatus == STATUS::SUCCESS || (eStatus == STATUS::NO_DEFINITION && bMyReturnUnknownBytes)) { return eStatus; }")]
DEMO = PRE + r'''
static S bin(unsigned short id) { S b("\xAA\x44\x12\x1C", 4); b += (char)(id & 255); b += (char)(id >> 8); b += S("\x00\x20\x08\x00", 4); b += S(18, '\0'); b += S("\x01\0\0\0\x02\0\0\0", 8); unsigned c = crcOf(b); b.append((char*)&c, 4); return b; }
int main() {
    Parser p(theDb()); p.SetReturnUnknownBytes(false); p.SetEncodeFormat(ENCODE_FORMAT::ASCII);
    put(p, bin(9) + bin(42));
    CHECK(rd(p) == "<nodef>");
    CHECK(rd(p).find(";1,2*") != S::npos);
    p.SetReturnUnknownBytes(true); put(p, bin(9));
    CHECK(rd(p) == "<nodef>");
    return 0;
}
'''
