PROPERTY = "D03"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "an OEM database with a field array whose rows need alignment padding"
BREAKS = "the rows are laid out without the family's alignment"
EDITS = [("src/decoders/common/src/json_db_reader.cpp", 'ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);', 'ParseFields(Member(j_, "fields"), stFieldInfo);')]
DEMO = PRE + r'''
int main() {
    MessageDatabase::RegisterAlignmentFunction("OEM", [](size_t l, uintptr_t s, uintptr_t p) -> size_t { size_t n = l < 4 ? l : 4; return (n - (p - s) % n) % n; });
    S in = fld("x", "SIMPLE", "UCHAR", 1) + "," + fld("y", "SIMPLE", "ULONG", 4);
    auto db = ParseJsonDb(dbj(msg(1, "M", 7, defs({{7, fld("r", "FIELD_ARRAY", "UNKNOWN", 0, "", ",\"arrayLength\":3,\"fields\":[" + in + "]")}})), stdEnums()));
    auto f = std::dynamic_pointer_cast<const FieldArrayField>(db->GetMsgDef(1)->GetMsgDefFromCrc(7).messageOrderedFields[0]);
    CHECK(f && f->fieldInfo->fixedFieldBytes == 8 && f->fieldInfo->messageOrderedFields[1]->index == 4);
    return 0;
}
'''
