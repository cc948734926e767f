PRE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
using namespace novatel::edie; using namespace novatel::edie::oem;
typedef std::string S;
// the checksum by its definition
static uint32_t crc(const S& s) { uint32_t c = 0; for (unsigned char b : s) { c ^= b; for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return c; }
static S hex8(uint32_t c) { char b[16]; snprintf(b, 16, "%08x", c); return b; }
static S ascii(const S& body) { return "#" + body + "*" + hex8(crc(body)) + "\r\n"; }
static S bin(const S& body) {
    S h("\xAA\x44\x12\x1C", 4); h += S("\x2A\x00\x00\x20", 4); h += (char)(body.size() & 255); h += (char)(body.size() >> 8); h += S(18, '\1'); h += body;
    uint32_t c = crc(h); for (int i = 0; i < 4; ++i) h += (char)(c >> (8 * i)); return h; }
static bool put(FramerBase& f, const S& s) { return f.Write((const unsigned char*)s.data(), s.size()) == s.size(); }
// everything the framer reports: messages as given, unknown bytes merged
struct Out { bool msg; S b; };
template <class F> static void drain(F& f, std::vector<Out>& o) {
    static unsigned char buf[70000]; MetaDataStruct m;
    for (int i = 0; i < 200000; ++i) {
        STATUS s = f.GetFrame(buf, sizeof(buf), m);
        if (s == STATUS::SUCCESS) o.push_back({true, S((char*)buf, m.uiLength)});
        else if (s == STATUS::UNKNOWN) { if (o.empty() || o.back().msg) o.push_back({false, ""}); o.back().b += S((char*)buf, m.uiLength); }
        else return; } }
static bool is(const std::vector<Out>& o, size_t i, bool msg, const S& b) { return i < o.size() && o[i].msg == msg && o[i].b == b; }
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
'''
