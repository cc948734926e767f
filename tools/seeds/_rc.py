exec(open("/verif/tools/seeds/_db.py").read())
PRE += r'''
#include <cmath>
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
static MessageDatabase::Ptr rcDb() {
    S r; for (auto& x : std::vector<std::array<S, 4>>{{{"prn", "USHORT", "2", "%hu"}}, {{"glo", "SHORT", "2", "%hd"}}, {{"psr", "DOUBLE", "8", "%.3f"}}, {{"psrstd", "FLOAT", "4", "%.3f"}}, {{"adr", "DOUBLE", "8", "%.6f"}},
        {{"adrstd", "FLOAT", "4", "%.3f"}}, {{"dopp", "FLOAT", "4", "%.3f"}}, {{"cno", "FLOAT", "4", "%.1f"}}, {{"lock", "FLOAT", "4", "%.3f"}}, {{"status", "ULONG", "4", "%lx"}}})
        r += (r.empty() ? "" : ",") + fld(x[0], "SIMPLE", x[1], std::stoi(x[2]), x[3]);
    S m = msg(43, "RANGE", 7, defs({{7, "{\"name\":\"obs\",\"description\":\"\",\"type\":\"FIELD_ARRAY\",\"dataType\":{\"name\":\"UNKNOWN\",\"length\":0,\"description\":\"\"},\"arrayLength\":325,\"arrayLengthFieldSize\":4,\"fields\":[" + r + "]}"}}));
    for (auto& x : std::vector<std::pair<unsigned, S>>{{140, "RANGECMP"}, {1273, "RANGECMP2"}, {2050, "RANGECMP4"}, {2537, "RANGECMP5"}})
        m += "," + msg(x.first, x.second, 7, defs({{7, fld("data", "VARIABLE_LENGTH_ARRAY", "HEXBYTE", 1, "%Z", ",\"arrayLength\":8000,\"arrayLengthFieldSize\":4")}}));
    return ParseJsonDb(dbj(m, stdEnums()));
}
struct Bits { S b; int n = 0; void put(uint64_t v, int k) { for (int i = 0; i < k; ++i, ++n) { if (n % 8 == 0) b += '\0'; if ((v >> i) & 1) b[n / 8] |= (char)(1 << (n % 8)); } } };
static S le(uint64_t v, int n) { S s; for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); return s; }
static S counted(const S& x) { return le(x.size(), 4) + x; }
static unsigned crcOf(const S& b) { unsigned c = 0; for (unsigned char x : b) { c ^= x; for (int j = 0; j < 8; ++j) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return c; }
static S whole(unsigned id, const S& body, unsigned week, unsigned ms, unsigned sib = 0) {
    S h("\xAA\x44\x12\x1C", 4); h += le(id, 2) + le(sib, 1) + le(32, 1) + le(body.size(), 2) + le(0, 2) + le(100, 1) + le(180, 1) + le(week, 2) + le(ms, 4) + le(0, 4) + le(7, 2) + le(16000, 2) + body;
    return h + le(crcOf(h), 4);
}
#pragma pack(push, 1)
struct Row { uint16_t prn; int16_t glo; double psr; float psrstd; double adr; float adrstd, dopp, cno, lock; uint32_t status; };
#pragma pack(pop)
static bool rows(RangeDecompressor& d, const S& m, std::vector<Row>& out) {
    std::vector<unsigned char> b(40000); memcpy(b.data(), m.data(), m.size()); MetaDataStruct x; out.clear();
    x.uiLength = m.size();
    if (d.Decompress(b.data(), b.size(), x, ENCODE_FORMAT::BINARY) != STATUS::SUCCESS) return false;
    unsigned n; memcpy(&n, b.data() + 28, 4); out.resize(n); if (n) memcpy(out.data(), b.data() + 32, n * sizeof(Row)); return x.usMessageId == 43; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::fabs(b) + 1e-6; }
// RANGECMP4 of GPS satellites (slots), one signal each (L1CA): reference or differential blocks
struct Blk { int slot, lock; long psr, phr, dop; };
static S cmp4(bool diff, int id, const std::vector<Blk>& k) {
    Bits c; uint64_t sats = 0; for (auto& x : k) sats |= 1ull << x.slot;
    c.put(1, 16); c.put(sats, 64); c.put(2, 16); for (auto& x : k) c.put(1, 1);
    for (auto& x : k) { c.put(diff, 1); c.put(id, 3); c.put(1, 1); c.put(0, 1); c.put(800, 11); c.put(x.lock, 4); c.put(2, 4); c.put(2, 4);
        c.put((uint64_t)x.psr, diff ? 19 : 37); c.put((uint64_t)x.phr, diff ? 16 : 23); c.put((uint64_t)x.dop, diff ? 18 : 26); }
    return counted(c.b);
}
'''
