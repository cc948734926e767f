PROPERTY = "G01"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a flattened message with a string shorter than its longest, followed by other fields"
BREAKS = "flattened strings are filled up only as far as they would be padded, so what follows them is not where its struct has it"
EDITS = [("include/novatel_edie/decoders/common/encoder.hpp", "maxBytes = arrayFieldDef->arrayLength * fieldDef->dataType.length;", "maxBytes = (std::is_same_v<ValueType, std::string> && fieldVector.empty() ? 0 : arrayFieldDef->arrayLength) * fieldDef->dataType.length;")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("s", "STRING", "CHAR", 1, "%s", ",\"arrayLength\":8") + "," + fld("b", "SIMPLE", "UINT", 4, "%u"));
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("ab\0\0\x09\0\0\0", 8)));
    S one = r.body(ENCODE_FORMAT::FLATTENED_BINARY);
    CHECK(r.decode(HEADER_FORMAT::BINARY, S("\0\0\0\0\x09\0\0\0", 8)));
    S two = r.body(ENCODE_FORMAT::FLATTENED_BINARY);
    CHECK(one.size() == two.size() && one.size() >= 16 && one[12] == 9 && two[12] == 9);
    return 0;
}
'''
