PROPERTY = "E01"; SRC = "all"
exec(open("/verif/tools/seeds/_msg.py").read())
NEEDS = "a %lk field whose value is exactly ten to the power of the field width"
BREAKS = "the value is printed in scientific notation"
EDITS = [("include/novatel_edie/decoders/common/encoder.hpp", "(absVal > powLookup[width] ||", "(absVal >= powLookup[width] ||")]
DEMO = PRE + r'''
int main() {
    Rig r(fld("x", "SIMPLE", "DOUBLE", 8, "%2.1lk"));
    for (double v : {99.0, 100.0}) {
        CHECK(r.decode(HEADER_FORMAT::BINARY, S((char*)&v, 8)));
        CHECK(r.body(ENCODE_FORMAT::ASCII).substr(0, v == 99.0 ? 5 : 6) == (v == 99.0 ? "99.0*" : "100.0*"));
    }
    return 0;
}
'''
