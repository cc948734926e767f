PROPERTY = "E02"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "an encoded ASCII message whose CRC is below 0x10000000"
BREAKS = "the CRC of the message is printed with seven digits"
EDITS = [("src/decoders/oem/src/encoder.cpp", "HexValue<uint32_t>{uiCrc, 8}", "HexValue<uint32_t>{uiCrc, 7}")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("x", "SIMPLE", "ULONG", 4, "%lu"));
    for (unsigned v = 0; v < 200; ++v) {
        CHECK(r.decode(HEADER_FORMAT::BINARY, S((char*)&v, 4)));
        S b = r.body(ENCODE_FORMAT::ASCII); size_t p = b.find('*');
        CHECK(b.size() - p == 11);
    }
    return 0;
}
'''
