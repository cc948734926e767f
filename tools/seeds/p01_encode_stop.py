PROPERTY = "P01"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
NEEDS = "a message too long for the parser's buffer in the chosen format, followed by others"
BREAKS = "reading stops at a message that does not fit its buffer, instead of going on to the next"
EDITS = [("src/decoders/oem/src/parser.cpp", "        if (eStatus == STATUS::SUCCESS) { return STATUS::SUCCESS; }\n\n        pclMyLogger->info(\"Encoder returned status {}\", eStatus);",
          "        if (eStatus == STATUS::SUCCESS || eStatus == STATUS::BUFFER_FULL) { return eStatus; }\n\n        pclMyLogger->info(\"Encoder returned status {}\", eStatus);")]
DEMO = PRE + r'''
static S bin(unsigned short id, const S& body) { S b("\xAA\x44\x12\x1C", 4); b += (char)(id & 255); b += (char)(id >> 8); b += S("\x00\x20", 2); b += (char)(body.size() & 255); b += (char)(body.size() >> 8); b += S(18, '\0'); b += body; unsigned c = crcOf(b); b.append((char*)&c, 4); return b; }
int main() {
    auto db = ParseJsonDb(dbj(msg(42, "BESTPOS", 0, defs({{0, fld("v", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%d", ",\"arrayLength\":20000")}})), stdEnums()));
    Parser p(db); p.SetEncodeFormat(ENCODE_FORMAT::ASCII);
    put(p, bin(42, S("\x20\x4E\0\0", 4) + S(20000, (char)200)) + bin(42, S("\x01\0\0\0\x05", 5)));
    CHECK(rd(p).find(";1,5*") != S::npos);
    CHECK(rd(p) == "<empty>");
    return 0;
}
'''
