PROPERTY = "M04"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "assigning a message object whose definition was taken away (or never set) to one that has a definition"
BREAKS = "an assigned object keeps the names and types of the fields it had before when the other object has none"
EDITS = [("include/novatel_edie/decoders/common/message_decoder.hpp", "    CompositeField& operator=(const CompositeField& other) = default;", '''    CompositeField& operator=(const CompositeField& other)
    {
        fixedFields = other.fixedFields;
        varFields = other.varFields;
        if (other.fieldInfo != nullptr) { fieldInfo = other.fieldInfo; }
        return *this;
    }''')]
DEMO = PRE + r'''
int main() {
    Rig r(fld("a", "SIMPLE", "UCHAR", 1, "%UB") + "," + fld("b", "SIMPLE", "UINT", 4, "%u"));
    auto d = r.db->GetMsgDef(42);
    CompositeField x, y; x.SetFieldInfo(d); y.SetFieldInfo(d); y.SetFieldValue<true>(0, uint8_t{9}); y.SetFieldInfo(nullptr, std::nullopt);
    CHECK(y.GetFieldInfo() == nullptr);
    x = y;
    CHECK(x.GetFieldInfo() == nullptr);
    bool refused = false; try { (void)x.GetFieldValueByName<uint8_t>("a"); } catch (const std::exception&) { refused = true; }
    CHECK(refused);
    return 0;
}
'''
