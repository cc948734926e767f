PROPERTY = "M04"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "giving an object that already has fields a definition with a CRC the definition does not know"
BREAKS = "an object given a definition with an unknown CRC keeps its earlier fields rather than the latest of the definition"
EDITS = [("include/novatel_edie/decoders/common/message_decoder.hpp", "        SetFieldInfo(it != definition_->fieldInfo.end() ? it->second : nullptr);", "        SetFieldInfo(fieldInfo != nullptr && defCrc_.has_value() ? fieldInfo : it != definition_->fieldInfo.end() ? it->second : nullptr);")]
DEMO = PRE + r'''
int main() {
    S one = fld("a", "SIMPLE", "UCHAR", 1, "%UB"), two = fld("b", "SIMPLE", "UINT", 4, "%u") + "," + fld("c", "SIMPLE", "UINT", 4, "%u");
    auto db = ParseJsonDb(dbj(msg(42, "BESTPOS", 7, defs({{7, two}, {5, one}})), stdEnums()));
    auto d = db->GetMsgDef(42); CHECK(d != nullptr);
    CompositeField x; x.SetFieldInfo(d, 5u); CHECK(x.GetFieldInfo()->GetFieldDefByName("a") != nullptr);
    x.SetFieldInfo(d, 99u);
    CHECK(x.GetFieldInfo() != nullptr && x.GetFieldInfo()->GetFieldDefByName("a") == nullptr && x.GetFieldInfo()->GetFieldDefByName("c") != nullptr);
    CHECK(x.GetFieldValueByName<uint32_t>("c") == 0);
    return 0;
}
'''
