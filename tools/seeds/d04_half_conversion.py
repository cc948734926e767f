PROPERTY = "D04"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a field that has a conversion with a width and is given one that is refused after its width was read"
BREAKS = "the refused conversion's width is kept"
EDITS = [("include/novatel_edie/decoders/common/message_database.hpp", "        if (*sConvertString == '.') { ++sConvertString; }\n", "        if (*sConvertString == '.') { ++sConvertString; }\n        width = newWidth;\n")]
DEMO = PRE + r'''
int main() {
    BaseField f("x", FIELD_TYPE::SIMPLE, "%7.2f", DATA_TYPE::FLOAT);
    bool thrown = false;
    try { f.SetConversion("%9.4"); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown);
    CHECK(f.conversion == "%7.2f" && f.width && *f.width == 7 && f.precision && *f.precision == 2);
    thrown = false;
    try { f.SetConversion("f"); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown && f.width && *f.width == 7);
    return 0;
}
'''
