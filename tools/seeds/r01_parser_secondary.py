PROPERTY = "R01"; SRC = "all"
exec(open("/verif/tools/seeds/_rc.py").read())
NEEDS = "a RANGECMP4 message of the secondary antenna, read by a parser that is to decompress"
BREAKS = "the compressed message is handed out as it is"
EDITS = [("src/decoders/oem/src/parser.cpp", "IncludeMessageId(RANGECMP4_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY))", "IncludeMessageId(RANGECMP4_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::PRIMARY))")]
DEMO = PRE + r'''
#include "novatel_edie/decoders/oem/parser.hpp"
int main() {
    for (unsigned sib : {0u, 1u}) {
        Parser p(rcDb()); p.SetDecompressRangeCmp(true); p.SetEncodeFormat(ENCODE_FORMAT::BINARY);
        S m = whole(2050, cmp4(false, 1, {{3, 9, 44000000000L, 100, 7}}), 2000, 5000, sib);
        CHECK(p.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()) == m.size());
        MessageDataStruct d; MetaDataStruct x;
        CHECK(p.Read(d, x) == STATUS::SUCCESS);
        CHECK(d.uiMessageLength == 28 + 4 + 44 + 4 && x.usMessageId == 43);
        CHECK(d.pucMessage[4] == 43 && d.pucMessage[6] == sib);
    }
    return 0;
}
'''
