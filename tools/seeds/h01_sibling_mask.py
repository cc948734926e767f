PROPERTY = "H01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a header with a sibling id of 16 or more"
BREAKS = "the meta data state another sibling than the header"
EDITS = [("src/decoders/oem/src/header_decoder.cpp", "stMetaData_.ucSiblingId = stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::MEASSRC);", "stMetaData_.ucSiblingId = stInterHeader_.ucMessageType & 0x0FU;")]
DEMO = PRE + r'''
int main() {
    auto db = ParseJsonDb(dbj(msg(42, "BESTPOS", 7, defs({{7, ""}})), stdEnums()));
    HeaderDecoder h(db);
    for (int s = 0; s < 32; ++s) {
        unsigned char b[32] = {0xAA, 0x44, 0x12, 28, 42, 0, (unsigned char)s}; IntermediateHeader i; MetaDataStruct m;
        CHECK(h.Decode(b, i, m) == STATUS::SUCCESS); CHECK(m.ucSiblingId == s && m.usMessageId == 42);
    }
    return 0;
}
'''
