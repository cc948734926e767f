PROPERTY = "R01"; SRC = "all"
exec(open("/verif/tools/seeds/_rc.py").read())
NEEDS = "a parser that decompresses, flushed between a RANGECMP4 reference block and a differential one of the same second"
BREAKS = "the differential block is decompressed relative to a reference from before the flush"
EDITS = [("src/decoders/oem/src/parser.cpp", "    clMyRangeDecompressor.Reset();\n", "    if (pucBuffer_ != nullptr) { clMyRangeDecompressor.Reset(); }\n")]
DEMO = PRE + r'''
#include "novatel_edie/decoders/oem/parser.hpp"
int main() {
    Parser p(rcDb()); p.SetDecompressRangeCmp(true); p.SetEncodeFormat(ENCODE_FORMAT::BINARY);
    auto give = [&](const S& m) {
        if (p.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()) != m.size()) return -1;
        MessageDataStruct d; MetaDataStruct x;
        if (p.Read(d, x) != STATUS::SUCCESS) return -2;
        return (int)(d.uiMessageLength - 36) / 44;
    };
    S ref = whole(2050, cmp4(false, 1, {{3, 9, 44000000000L, 100, 7}}), 2000, 5000), dif = whole(2050, cmp4(true, 1, {{3, 9, 5, 10, 7}}), 2000, 5200);
    CHECK(give(ref) == 1);
    CHECK(give(dif) == 1);
    p.Flush();
    CHECK(give(dif) == 0);
    return 0;
}
'''
