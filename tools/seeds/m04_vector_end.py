PROPERTY = "M04"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "setting the element just past the end of a variable-length array that was set before"
BREAKS = "the element one past the end of a variable-length array is written to memory outside the object instead of being refused"
EDITS = [("include/novatel_edie/decoders/common/message_decoder.hpp", "if (varValue.size() <= elementIndex_)", "if (varValue.size() < elementIndex_)")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("v", "VARIABLE_LENGTH_ARRAY", "UINT", 4, "%u", ",\"arrayLength\":8"));
    CompositeField x; x.SetFieldInfo(r.db->GetMsgDef(42));
    auto v = x.GetFieldInfo()->GetFieldDefByName("v");
    x.SetFieldValue<false>(v->index, std::vector<uint32_t>{1, 2, 3, 4});
    bool refused = false; try { x.SetArrayElement<false>(*v, 4, uint32_t{5}); } catch (const std::exception&) { refused = true; }
    CHECK(refused);
    x.SetArrayElement<false>(*v, 3, uint32_t{5});
    CHECK(x.GetFieldValue<uint32_t>(*v, 3) == 5 && x.GetFieldValue<uint32_t>(*v, 2) == 3);
    return 0;
}
'''
