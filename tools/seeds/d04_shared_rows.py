PROPERTY = "D04"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a definition with a field array within a field array, copied, and the copy's inner fields changed"
BREAKS = "the inner fields of the copy are those of the source"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "messageOrderedFields.push_back(f ? f->clone() : nullptr); }", "messageOrderedFields.push_back(f && f->type == FIELD_TYPE::FIELD_ARRAY && varFieldCount == 1 ? f : f ? f->clone() : nullptr); }")]
DEMO = PRE + r'''
int main() {
    S inner = fld("in", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + fld("a", "SIMPLE", "INT", 4, "%d") + "]");
    S outer = fld("out", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + inner + "]");
    auto db = ParseJsonDb(dbj(msg(1, "M", 1, defs({{1, outer}})), stdEnums()));
    MessageDefinition a(*db->GetMsgDef("M")), b(a);
    auto deep = [](MessageDefinition& m) {
        auto& o = dynamic_cast<const FieldArrayField&>(*m.fieldInfo.at(1)->messageOrderedFields[0]);
        auto& i = dynamic_cast<const FieldArrayField&>(*o.fieldInfo->messageOrderedFields[0]);
        return const_cast<BaseField*>(i.fieldInfo->messageOrderedFields[0].get());
    };
    CHECK(a == b);
    deep(b)->name = "changed";
    CHECK(deep(a)->name == "a");
    CHECK(a != b);
    return 0;
}
'''
