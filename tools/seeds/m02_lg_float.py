PROPERTY = "M02"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "an ASCII field with conversion %lg and more digits than a float carries"
BREAKS = "the value is rounded to single precision"
EDITS = [("src/decoders/common/src/message_decoder.cpp", 'asciiFieldMap[CalculateBlockCrc32("lg")] = SimpleAsciiMapEntry<double>();', 'asciiFieldMap[CalculateBlockCrc32("lg")] = asciiFieldMap[CalculateBlockCrc32("g")];')]
DEMO = PRE + r'''
int main() {
    Rig r(fld("x", "SIMPLE", "DOUBLE", 8, "%lg"));
    CHECK(r.decode(HEADER_FORMAT::ASCII, "51.1234567890123"));
    CHECK(r.f.GetFieldValue<double>(*r.db->GetMsgDef(42)->GetMsgDefFromCrc(7).messageOrderedFields[0]) == 51.1234567890123);
    return 0;
}
'''
