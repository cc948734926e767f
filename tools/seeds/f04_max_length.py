PROPERTY = "F04"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "an abbreviated ASCII response that follows another abbreviated message; or a longest-allowed binary message"
BREAKS = "a binary message of exactly the maximum length is rejected"
EDITS = [("src/decoders/oem/src/framer.cpp", "if (uiMyExpectedPayloadLength > MAX_BINARY_MESSAGE_LENGTH || uiMyExpectedMessageLength > MAX_BINARY_MESSAGE_LENGTH)",
 "if (uiMyExpectedPayloadLength > MAX_BINARY_MESSAGE_LENGTH || uiMyExpectedMessageLength >= MAX_BINARY_MESSAGE_LENGTH)")]
NEEDS = "a binary message of exactly the maximum length"
DEMO = PRE + r'''
int main() {
    for (size_t n : {MAX_BINARY_MESSAGE_LENGTH - 33, MAX_BINARY_MESSAGE_LENGTH - 32}) {
        S m = bin(S(n, 'q')); Framer f; std::vector<Out> o;
        CHECK(put(f, m)); drain(f, o);
        CHECK(is(o, 0, true, m));
    }
    { S m = bin(S(MAX_BINARY_MESSAGE_LENGTH - 31, 'q')); Framer f; std::vector<Out> o; CHECK(put(f, m)); drain(f, o); for (auto& x : o) CHECK(!x.msg); }
    return 0;
}
'''
