PROPERTY = "D04"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a message definition assigned to one that has a definition checksum which the assigned one lacks"
BREAKS = "the assigned definition goes on answering for the old checksum"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "        fieldInfo.clear();\n", "")]
DEMO = PRE + r'''
int main() {
    S f = fld("a", "SIMPLE", "INT", 4, "%d"), g = fld("b", "SIMPLE", "DOUBLE", 8, "%lf");
    auto db = ParseJsonDb(dbj(msg(1, "M", 1, defs({{1, f}, {3, g}})) + "," + msg(2, "N", 2, defs({{1, g}, {2, f}})), stdEnums()));
    MessageDefinition a(*db->GetMsgDef("M"));
    const MessageDefinition& n = *db->GetMsgDef("N");
    a = n;
    CHECK(a == n);
    CHECK(a.fieldInfo.size() == 2);
    CHECK(a.GetMsgDefFromCrc(3).messageOrderedFields[0]->name == "a");
    return 0;
}
'''
