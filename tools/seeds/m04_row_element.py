PROPERTY = "M04"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "reading one element of a fixed-length array in a row other than the first, through the view of a flat row"
BREAKS = "elements of arrays in rows of a flat field array are read from the first row"
EDITS = [("include/novatel_edie/decoders/common/message_decoder.hpp", "return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_, rowOffset);", "return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_);")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("rows", "FIELD_ARRAY", "", 0, "", ",\"arrayLength\":4,\"fields\":[" + fld("k", "SIMPLE", "USHORT", 2, "%u") + "," + fld("v", "FIXED_LENGTH_ARRAY", "USHORT", 2, "%u", ",\"arrayLength\":3") + "]"));
    unsigned char b[4 + 2 * 8] = {2}; for (int i = 0; i < 16; ++i) b[4 + i] = (unsigned char)(i + 1);
    CHECK(r.decode(HEADER_FORMAT::BINARY, S((char*)b, sizeof b)));
    auto rows = r.f.GetFieldValueByName<FieldArray>("rows");
    CHECK(rows.size() == 2);
    auto v = rows.GetFieldInfo()->GetFieldDefByName("v"); CHECK(v != nullptr);
    CHECK(rows[0].GetFieldValue<uint16_t>(*v, 2) == 0x0807);
    CHECK(rows[1].GetFieldValue<uint16_t>(*v, 2) == 0x100F);
    CHECK(rows[1].GetFieldValueByName<uint16_t>("v", 0) == 0x0C0B);
    return 0;
}
'''
