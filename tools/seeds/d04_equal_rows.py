PROPERTY = "D04"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
BREAKS = "definitions that differ only in the last field of a field array compare equal"
NEEDS = "two definitions that differ only in the last of two or more fields of a field array"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "        for (size_t i = 0; i < fieldInfo->messageOrderedFields.size(); ++i)\n        {\n            const bool lhs_null", "        for (size_t i = 0; i < fieldInfo->messageOrderedFields.size(); i += 1 + (i + 2 == fieldInfo->messageOrderedFields.size()))\n        {\n            const bool lhs_null")]
DEMO = PRE + r'''
int main() {
    auto mk = [](const S& last) {
        S r = fld("out", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":2,\"fields\":[" + fld("a", "SIMPLE", "INT", 4, "%d") + "," + fld(last, "SIMPLE", "INT", 4, "%d") + "]");
        return ParseJsonDb(dbj(msg(1, "M", 1, defs({{1, r}})), stdEnums()));
    };
    auto x = mk("b"), y = mk("c"), z = mk("b");
    CHECK(*x->GetMsgDef("M") == *z->GetMsgDef("M"));
    CHECK(*x->GetMsgDef("M") != *y->GetMsgDef("M"));
    return 0;
}
'''
