PROPERTY = "C01"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
PRE = PRE.replace('#include "novatel_edie/decoders/oem/parser.hpp"', '#include "novatel_edie/decoders/oem/parser.hpp"\n#include "novatel_edie/decoders/oem/commander.hpp"')
NEEDS = "a buffer exactly as long as the encoded command"
BREAKS = "a byte is written beyond the end of the buffer"
EDITS = [("src/decoders/oem/src/commander.cpp", """    if (stMessageData.uiMessageLength < uiEncodeBufferSize_) { stMessageData.pucMessage[stMessageData.uiMessageLength] = '\\0'; }
    uiEncodeBufferSize_ = stMessageData.uiMessageLength;

    return STATUS::SUCCESS;
}

// ----""", """    if (stMessageData.uiMessageLength <= uiEncodeBufferSize_) { stMessageData.pucMessage[stMessageData.uiMessageLength] = '\\0'; }
    uiEncodeBufferSize_ = stMessageData.uiMessageLength;

    return STATUS::SUCCESS;
}

// ----""")]
DEMO = PRE + r'''
int main() {
    auto db = theDb(); Commander c(db); const S t = "BESTPOS 1 2";
    char a[300] = {}; uint32_t n = 300;
    CHECK(c.Encode(t.data(), t.size(), a, n, ENCODE_FORMAT::BINARY) == STATUS::SUCCESS);
    for (uint32_t k = 0; k < n + 2; ++k) {
        std::vector<char> b(300, 7); uint32_t m = k;
        if (c.Encode(t.data(), t.size(), b.data(), m, ENCODE_FORMAT::BINARY) == STATUS::SUCCESS) CHECK(S(b.data(), m) == S(a, n));
        for (uint32_t i = k; i < 300; ++i) CHECK(b[i] == 7);
    }
    return 0;
}
'''
