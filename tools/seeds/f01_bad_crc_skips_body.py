PROPERTY = "F01"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "a truncated binary message whose announced length reaches into the valid message behind it"
BREAKS = "the valid message inside the span of the rejected candidate is reported as unknown bytes"
EDITS = [("src/decoders/oem/src/framer.cpp", "uiMyByteCount = stMetaData_.eFormat == HEADER_FORMAT::BINARY ? OEM4_BINARY_SYNC_LENGTH : OEM4_SHORT_BINARY_SYNC_LENGTH;",
 "uiMyByteCount = uiMyExpectedMessageLength - OEM4_BINARY_CRC_LENGTH;")]
DEMO = PRE + r'''
int main() {
    S cut = bin(S(60, 'x')).substr(0, 40), good = ascii("VERSIONA,COM1,0;1,2,3"), tail(200, 'z');
    Framer f; std::vector<Out> o;
    CHECK(put(f, cut + good + tail)); drain(f, o);
    CHECK(is(o, 0, false, cut)); CHECK(is(o, 1, true, good)); CHECK(is(o, 2, false, tail));
    return 0;
}
'''
