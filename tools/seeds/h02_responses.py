PROPERTY = "H02"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "responses among the decoded messages"
BREAKS = "responses are missing from the message counts"
EDITS = [("src/decoders/oem/src/header_decoder.cpp", "    if (stInterHeader_.usMessageId > 0) {", "    if (stInterHeader_.usMessageId > 0 && !stMetaData_.bResponse) {")]
DEMO = PRE + r'''
int main() {
    auto db = ParseJsonDb(dbj(msg(42, "BESTPOS", 7, defs({{7, ""}})), stdEnums()));
    HeaderDecoder h(db); IntermediateHeader i; MetaDataStruct m;
    const char* t[] = {"#BESTPOSA,COM1,0,1.0,FINESTEERING,1,1.000,00000000,0000,1;*", "#BESTPOSR,COM1,0,1.0,FINESTEERING,1,1.000,00000000,0000,1;OK*"};
    for (int k = 0; k < 4; ++k) CHECK(h.Decode((const unsigned char*)t[k % 2], i, m) == STATUS::SUCCESS);
    size_t n = 0; for (auto& c : h.GetMessageCounts()) n += c.second;
    CHECK(n == 4);
    return 0;
}
'''
