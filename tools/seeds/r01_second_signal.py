PROPERTY = "R01"; SRC = "all"
exec(open("/verif/tools/seeds/_rc.py").read())
NEEDS = "a RANGECMP5 satellite with GLONASS frequency number, and several systems in one message"
BREAKS = "signals of a second satellite system are marked grouped although alone"
EDITS = [("src/decoders/oem/src/rangecmp/range_decompressor.cpp", "            const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);\n            bool bPrimaryBlock = true;",
  "            const uint32_t uiIncludedSignalCount = uiSignalCount;\n            bool bPrimaryBlock = true;")]
NEEDS = "a RANGECMP5 message with a satellite that has fewer signals than others of its system"
BREAKS = "observations of satellites with one signal, and of the satellite before, are marked as grouped"
DEMO = PRE + r'''
int main() {
    RangeDecompressor d(rcDb()); std::vector<Row> r; Bits c;
    c.put(1, 16); c.put(1 | 16, 64); c.put(2 | 16, 16); c.put(3, 2); c.put(1, 2);
    for (int s = 0; s < 2; ++s) { c.put(0, 1); c.put(0, 3);
        for (int k = 0; k < 2 - s; ++k) { c.put(1, 1); c.put(0, 1); c.put(800, 11); c.put(9, 4); c.put(2, 5); c.put(2, 5); c.put(k ? 5 : 44000000000L, k ? 20 : 37); c.put(100, 23); c.put(7, k ? 16 : 28); } }
    CHECK(rows(d, whole(2537, counted(c.b), 2000, 5000), r) && r.size() == 3);
    CHECK(r[0].prn == 1 && r[1].prn == 1 && r[2].prn == 5);
    CHECK(r[0].status & 0x100000); CHECK(r[1].status & 0x100000); CHECK(!(r[2].status & 0x100000));
    return 0;
}
'''
