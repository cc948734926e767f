PROPERTY = "P01"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
NEEDS = "a filter, and a message that it rejects and that has no definition"
BREAKS = "messages without a definition get past the filter"
EDITS = [("src/decoders/oem/src/parser.cpp", "                if ((pclMyUserFilter != nullptr) && (!pclMyUserFilter->DoFiltering(stMetaData_))) { continue; }\n", ""),
         ("src/decoders/oem/src/parser.cpp", "                if (eStatus == STATUS::SUCCESS || eStatus == STATUS::NO_DEFINITION) { return eStatus; }\n",
          "                if (eStatus == STATUS::SUCCESS && pclMyUserFilter != nullptr && !pclMyUserFilter->DoFiltering(stMetaData_)) { continue; }\n                if (eStatus == STATUS::SUCCESS || eStatus == STATUS::NO_DEFINITION) { return eStatus; }\n")]
DEMO = PRE + r'''
static S bin(unsigned short id) { S b("\xAA\x44\x12\x1C", 4); b += (char)(id & 255); b += (char)(id >> 8); b += S("\x00\x20\x08\x00", 4); b += S(18, '\0'); b += S("\x01\0\0\0\x02\0\0\0", 8); unsigned c = crcOf(b); b.append((char*)&c, 4); return b; }
int main() {
    Parser p(theDb()); p.SetEncodeFormat(ENCODE_FORMAT::ASCII);
    auto f = std::make_shared<Filter>(); f->IncludeMessageId(42); p.SetFilter(f);
    put(p, bin(9) + bin(42));
    CHECK(rd(p).find(";1,2*") != S::npos);
    CHECK(rd(p) == "<empty>");
    return 0;
}
'''
