PROPERTY = "C01"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
PRE = PRE.replace('#include "novatel_edie/decoders/oem/parser.hpp"', '#include "novatel_edie/decoders/oem/parser.hpp"\n#include "novatel_edie/decoders/oem/commander.hpp"')
NEEDS = "the static form of Commander::Encode"
BREAKS = "commands encoded by the static function do not say which definition they follow"
EDITS = [("src/decoders/oem/src/commander.cpp", """    stIntermediateHeader.uiMessageDefinitionCrc = stMetaData.uiMessageCrc;

    auto* pucEncodeBuffer = reinterpret_cast<unsigned char*>(pcEncodeBuffer_);
    const STATUS eEncoderStatus""", """
    auto* pucEncodeBuffer = reinterpret_cast<unsigned char*>(pcEncodeBuffer_);
    const STATUS eEncoderStatus""")]
DEMO = PRE + r'''
int main() {
    auto db = theDb(); Commander c(db); MessageDecoder d(db); Encoder e(db); const S t = "BESTPOS 1 2";
    char a[300] = {}, b[300] = {}; uint32_t n = 300, m = 300;
    CHECK(c.Encode(t.data(), t.size(), a, n, ENCODE_FORMAT::ASCII) == STATUS::SUCCESS);
    CHECK(Commander::Encode(*db, d, e, t.data(), t.size(), b, m, ENCODE_FORMAT::ASCII) == STATUS::SUCCESS);
    CHECK(S(a, n) == S(b, m)); CHECK(S(b, m).find(",0007,0;1,2*") != S::npos);
    return 0;
}
'''
