PROPERTY = "R01"; SRC = "all"
exec(open("/verif/tools/seeds/_rc.py").read())
NEEDS = "a satellite whose lock time is exactly known loses lock, and the next messages state the same short range"
BREAKS = "lock times after an outage still start at the time before it"
EDITS = [("src/decoders/oem/src/rangecmp/range_decompressor.cpp", """        stLockTimeInfo.ucBits = ucLockTimeBits_;

        pclMyLogger->warn("Detected a lock time slip (perhaps caused""", """
        pclMyLogger->warn("Detected a lock time slip (perhaps caused""")]
DEMO = PRE + r'''
int main() {
    RangeDecompressor d(rcDb()); std::vector<Row> r;
    auto at = [&](unsigned ms, int lock) { return rows(d, whole(2050, cmp4(false, 3, {{4, lock, 44000000000L, 100, 0}}), 2000, ms), r) && r.size() == 1; };
    CHECK(at(1000, 9)); CHECK(near(r[0].lock, 4.096f));
    CHECK(at(2000, 10)); CHECK(std::fabs(r[0].lock - 8.192f) < 1e-4);
    CHECK(at(3000, 10)); CHECK(std::fabs(r[0].lock - 9.192f) < 1e-4);
    CHECK(at(4000, 5)); CHECK(std::fabs(r[0].lock - .256f) < 1e-4);
    return 0;
}
'''
