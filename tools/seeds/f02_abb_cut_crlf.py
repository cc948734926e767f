PROPERTY = "F02"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "an abbreviated ASCII message delivered in two writes cut between the carriage return and the line feed of its first line"
BREAKS = "the message is lost or swallows what follows, though it is found when delivered whole"
EDITS = [("src/decoders/oem/src/framer.cpp", "if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }",
 "if (eMyFrameState == NovAtelFrameState::WAITING_FOR_ABB_ASCII_BODY) { uiMyByteCount--; }")]
DEMO = PRE + r'''
int main() {
    S m = "<BESTPOS COM1 0 72.0 FINE 2000 1.0 0 0 1\r\n<     SOL NONE 1 2 3\r\n", r = "next";
    for (size_t k = 1; k < m.size(); ++k) {
        Framer f; std::vector<Out> o;
        CHECK(put(f, m.substr(0, k))); drain(f, o);
        CHECK(put(f, m.substr(k) + r)); drain(f, o);
        if (!is(o, 0, true, m)) { printf("cut at %zu\n", k); return 1; }
    }
    return 0;
}
'''
