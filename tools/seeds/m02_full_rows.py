PROPERTY = "M02"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "an ASCII message whose field array holds exactly as many rows as its definition allows"
BREAKS = "a full field array is rejected"
EDITS = [("src/decoders/common/src/message_decoder.cpp", "if (uiArraySize > subFieldDefinitions->arrayLength)", "if (uiArraySize >= subFieldDefinitions->arrayLength)")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("r", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + fld("x", "SIMPLE", "ULONG", 4, "%lu") + "]"));
    CHECK(r.decode(HEADER_FORMAT::ASCII, "1,9"));
    CHECK(r.decode(HEADER_FORMAT::ASCII, "2,9,8"));
    CHECK(!r.decode(HEADER_FORMAT::ASCII, "3,9,8,7"));
    return 0;
}
'''
