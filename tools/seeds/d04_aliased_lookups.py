PROPERTY = "D04"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "an enumeration definition that is assigned a copy of another one, which is changed or destroyed later"
BREAKS = "the look-ups of the copy go on referring to the names in the source"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "        enumerators = other.enumerators;\n        RebuildCaches();\n        return *this;", "        enumerators = other.enumerators;\n        nameValue = other.nameValue;\n        descriptionValue = other.descriptionValue;\n        valueName = other.valueName;\n        unknownValue = other.unknownValue;\n        return *this;")]
DEMO = PRE + r'''
int main() {
    EnumDefinition to("x", "X", {{1, "SOMETHING", "d"}});
    {
        EnumDefinition from("a", "E", {{1, "a name that is long enough to live elsewhere", "one"}, {2, "another name that is long enough", "two"}});
        to = from;
        from.enumerators[0].name.assign(from.enumerators[0].name.size(), '#');
    }
    EnumDefinition more("b", "F", {{7, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "seven"}, {8, "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "eight"}});
    CHECK(S(to.valueName.at(1)) == "a name that is long enough to live elsewhere");
    CHECK(to.nameValue.count("a name that is long enough to live elsewhere") == 1);
    CHECK(to.unknownValue == 3);
    return 0;
}
'''
