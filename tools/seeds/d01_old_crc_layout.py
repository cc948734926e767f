PROPERTY = "D01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a message with several definition CRCs merged into a database of another message family"
BREAKS = "definitions other than the latest keep the field offsets of the database they came from"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "                std::vector<BaseField::Ptr> fieldVec;\n                fieldVec.reserve", "                if (crc != copy->latestMessageCrc && copy->fieldInfo.count(copy->latestMessageCrc) != 0) { continue; }\n                std::vector<BaseField::Ptr> fieldVec;\n                fieldVec.reserve")]
DEMO = PRE + r'''
int main() {
    HeaderDecoder h; // registers the OEM alignment
    S f = fld("a", "SIMPLE", "UCHAR", 1) + "," + fld("b", "SIMPLE", "ULONG", 4);
    auto a = ParseJsonDb(dbj(msg(1, "M", 7, defs({{5, f}, {7, f}})), "", ""));
    auto b = ParseJsonDb(dbj("", stdEnums(), "OEM"));
    MessageDatabase::RegisterAlignmentFunction("OEM", [](size_t l, uintptr_t s, uintptr_t p) -> size_t { size_t n = l < 4 ? l : 4; return (n - (p - s) % n) % n; });
    b->Merge(*a);
    for (unsigned c : {5u, 7u}) {
        auto& fi = b->GetMsgDef(1)->GetMsgDefFromCrc(c);
        CHECK(fi.fixedFieldBytes == 8 && fi.messageOrderedFields[1]->index == 4);
    }
    return 0;
}
'''
