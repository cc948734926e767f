PROPERTY = "P02"; SRC = "all"
exec(open("/verif/tools/seeds/_par.py").read())
NEEDS = "another stream set after the end of one which ended within a message"
BREAKS = "bytes of the previous stream are read before those of the new one"
EDITS = [("include/novatel_edie/decoders/common/file_parser.hpp", "        pclMyInputStream = pclInputStream_;\n        Reset();\n        return true;",
          "        const bool bEnded = pclMyInputStream != nullptr && pclMyInputStream->eof();\n        pclMyInputStream = pclInputStream_;\n        if (bEnded) { ResetMessageCounts(); pclMyInputStream->clear(); pclMyInputStream->seekg(0, std::ios::beg); }\n        else { Reset(); }\n        return true;")]
DEMO = PRE + r'''
int main() {
    FileParser p(theDb()); p.SetEncodeFormat(ENCODE_FORMAT::ASCII); p.SetReturnUnknownBytes(true);
    const S m = asc(hdrOf("BESTPOSA") + "1,2");
    CHECK(p.SetStream(std::make_shared<std::istringstream>(m + m.substr(0, 30))));
    CHECK(rd(p).find(";1,2*") != S::npos); CHECK(rd(p) == "<empty>");
    CHECK(p.SetStream(std::make_shared<std::istringstream>(m)));
    CHECK(rd(p).find(";1,2*") != S::npos); CHECK(rd(p) == "<empty>");
    return 0;
}
'''
