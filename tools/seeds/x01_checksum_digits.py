PROPERTY = "X01"; SRC = "all"
exec(open("/verif/tools/seeds/_rx.py").read())
NEEDS = "a held message whose inverted checksum starts with a zero"
BREAKS = "its checksum has seven digits, and the positions after it are off"
EDITS = [("src/decoders/oem/src/rxconfig/rxconfig_handler.cpp", "HexValue<uint32_t>{uiCrc, 8})) { return STATUS::BUFFER_FULL; }\n    // Fix", "HexValue<uint32_t>{uiCrc, 7})) { return STATUS::BUFFER_FULL; }\n    // Fix")]
DEMO = PRE + r'''
int main() {
    RxConfigHandler h(rxDb(true, true)); MessageDataStruct a, b; MetaDataStruct x, y;
    for (unsigned k = 0; k < 60; ++k) {
        S in = outer("RXCONFIGA", inner(k));
        CHECK(h.Write((const unsigned char*)in.data(), in.size()) == in.size());
        CHECK(h.Convert(a, x, b, y, ENCODE_FORMAT::ASCII) == STATUS::SUCCESS); CHECK(S((char*)a.pucMessage, a.uiMessageLength) == in);
    }
    return 0;
}
'''
