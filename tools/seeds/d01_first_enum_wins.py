PROPERTY = "D01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a database file that defines an enumeration twice (same name or id, different content)"
BREAKS = "look-ups of the enumeration give the replaced definition instead of the last one"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "            mEnumName[enm->name] = enm;\n            mEnumId[enm->_id] = enm;\n        }\n    }\n\n    virtual", "            mEnumName.emplace(enm->name, enm);\n            mEnumId.emplace(enm->_id, enm);\n        }\n    }\n\n    virtual")]
DEMO = PRE + r'''
int main() {
    auto db = ParseJsonDb(dbj("", enm("a", "E", {{1, "OLD"}}) + "," + enm("b", "F", {{1, "X"}}) + "," + enm("a", "E", {{1, "NEW"}})));
    CHECK(GetEnumString(db->GetEnumDefName("E"), 1) == "NEW");
    CHECK(GetEnumString(db->GetEnumDefId("a"), 1) == "NEW");
    CHECK(GetEnumString(db->GetEnumDefId("b"), 1) == "X");
    return 0;
}
'''
