PROPERTY = "M03"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a JSON message with a negative value in a %lld field"
BREAKS = "negative long long values are refused in JSON"
EDITS = [("src/decoders/common/src/message_decoder.cpp", 'jsonFieldMap[CalculateBlockCrc32("lld")] = SimpleJsonMapEntry<int64_t>();', 'jsonFieldMap[CalculateBlockCrc32("lld")] = SimpleJsonMapEntry<uint64_t>();')]
DEMO = PRE + r'''
int main() {
    Rig r(fld("x", "SIMPLE", "LONGLONG", 8, "%lld"));
    CHECK(r.decode(HEADER_FORMAT::JSON, "{\"body\": {\"x\": 12}}"));
    CHECK(r.decode(HEADER_FORMAT::JSON, "{\"body\": {\"x\": -12}}"));
    CHECK(r.body(ENCODE_FORMAT::ASCII).substr(0, 4) == "-12*");
    return 0;
}
'''
