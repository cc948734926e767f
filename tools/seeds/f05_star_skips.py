PROPERTY = "F05"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "a '*' in the body of an ASCII message fewer than nine bytes before the checksum's '*'"
BREAKS = "the ASCII framer misses the end of a valid message"
EDITS = [("include/novatel_edie/decoders/oem/framer_ascii_base.hpp", "OEM4_ASCII_CRC_DELIMITER, uiCrcDelimIndex + 1, MaxMessageLength", "OEM4_ASCII_CRC_DELIMITER, uiCrcDelimIndex + OEM4_ASCII_CRC_LENGTH, MaxMessageLength")]
DEMO = PRE + r'''
int main() {
    for (int k = 0; k < 14; ++k) {
        S m = ascii("LOGA,COM1,0;\"a*" + S(k, 'b') + "\""), t = ascii("LOGB;1");
        FramerAscii f; std::vector<Out> o;
        CHECK(put(f, m + t)); drain(f, o);
        if (!is(o, 0, true, m) || !is(o, 1, true, t)) { printf("k=%d\n", k); return 1; }
    }
    return 0;
}
'''
