PROPERTY = "P02"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
NEEDS = "a second pass over a stream"
BREAKS = "starting a stream over keeps the message counts of the previous pass"
EDITS = [("include/novatel_edie/decoders/common/file_parser.hpp", "        Flush();\n        ResetMessageCounts();\n        if (pclMyInputStream != nullptr)", "        if (Flush() > 0) { ResetMessageCounts(); }\n        if (pclMyInputStream != nullptr)")]
DEMO = PRE + r'''
int main() {
    FileParser p(theDb()); p.SetEncodeFormat(ENCODE_FORMAT::ASCII);
    const S m = asc(hdrOf("BESTPOSA") + "1,2");
    CHECK(p.SetStream(std::make_shared<std::istringstream>(m + m)));
    for (int k = 0; k < 2; ++k) {
        CHECK(rd(p).find(";1,2*") != S::npos); CHECK(rd(p).find(";1,2*") != S::npos); CHECK(rd(p) == "<empty>");
        unsigned long n = 0; for (auto& x : p.GetMessageCounts()) n += x.second;
        CHECK(n == 2);
        p.Reset();
    }
    return 0;
}
'''
