PROPERTY = "R01"; SRC = "all"
exec(open("/verif/tools/seeds/_rc.py").read())
NEEDS = "a differential RANGECMP4 block between whole seconds of a satellite that moves"
BREAKS = "carrier phases of differential blocks are those of the whole second"
EDITS = [("src/decoders/oem/src/rangecmp/range_decompressor.cpp", "iPhr * SIG_BLK_PHR_SCALE_FACTOR + stRefBlock_.dPhr + stRefBlock_.dDoppler * dSecondOffset_;", "iPhr * SIG_BLK_PHR_SCALE_FACTOR + stRefBlock_.dPhr;")]
DEMO = PRE + r'''
int main() {
    RangeDecompressor d(rcDb()); std::vector<Row> r; const double wave = 299792458.0 / 1575420000.0;
    CHECK(rows(d, whole(2050, cmp4(false, 3, {{4, 9, 44000000000L, 100, 5000000}}), 2000, 5000), r) && r.size() == 1);
    CHECK(near(r[0].psr, 22000000.0) && near(r[0].adr, -(22000000.0 + .01) / wave));
    CHECK(rows(d, whole(2050, cmp4(true, 3, {{4, 9, 10, 20, 30}}), 2000, 5250), r) && r.size() == 1);
    CHECK(near(r[0].psr, 22000000.0 + .005 + 125.0)); CHECK(near(r[0].adr, -(22000000.0 + .012 + 125.0) / wave));
    return 0;
}
'''
