// Common utilities: FixedBuffer, CRC, MessageCountsTracker (headers only).
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/common/fixed_buffer.hpp"
#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
#include "vh.hpp"

using namespace vh;
namespace ne = novatel::edie;

// ---- FixedBuffer -------------------------------------------------------------------------------------
struct Rec { uint16_t a; uint8_t b; bool operator==(const Rec& o) const { return a == o.a && b == o.b; } };
template <class T> T mk(int v) { return static_cast<T>(v); }
template <> uint32_t mk<uint32_t>(int v) { return 0x01010000U * static_cast<uint32_t>(v % 251) + static_cast<uint32_t>(v); }
template <> Rec mk<Rec>(int v) { return Rec{static_cast<uint16_t>(v * 257), static_cast<uint8_t>(v)}; }
template <class T> int un(const T& v) { return static_cast<int>(v); }
template <> int un<uint32_t>(const uint32_t& v) { const int x = static_cast<int>(v & 0xFFFF); return mk<uint32_t>(x) == v ? x : -1; }
template <> int un<Rec>(const Rec& v) { const int x = v.b; return mk<Rec>(x) == v ? x : -1; }

template <class T> void bufState(const FixedBuffer<T>& b, J& e)
{
    J st = J::array();
    for (size_t i = 0; i < b.size(); ++i) { st.push_back(un<T>(b[i])); }
    J dt = J::array();
    for (size_t i = 0; i < b.size(); ++i) { dt.push_back(un<T>(b.data()[i])); }
    e["st"] = st; e["dt"] = dt;
    e["sz"] = b.size(); e["av"] = b.available_space(); e["cap"] = b.capacity();
    e["em"] = b.empty(); e["fu"] = b.full();
}

template <class T> void runBuf(J& sc)
{
    FixedBuffer<T> b(sc["cap"].get<size_t>());
    for (auto& e : sc["ev"])
    {
        const std::string op = e["op"];
        if (op == "w")
        {
            std::vector<T> d;
            for (auto& x : e["d"]) { d.push_back(mk<T>(x.get<int>())); }
            d.reserve(1);
            e["r"] = b.write(e["null"].get<bool>() ? nullptr : d.data(), d.size());
        }
        else if (op == "e") { b.erase_begin(e["n"].get<int>() < 0 ? static_cast<size_t>(-1) : e["n"].get<size_t>()); }
        else if (op == "c")
        {
            const size_t n = e["n"].get<int>() < 0 ? b.size() : e["n"].get<size_t>();
            std::vector<T> d(n + 4, mk<T>(7));
            b.copy_out(d.data(), n);
            J o = J::array();
            for (auto& x : d) { o.push_back(un<T>(x)); }
            e["out"] = o;
            b.copy_out(nullptr, n);
        }
        else if (op == "set") { if (e["i"].get<size_t>() < b.size()) { b[e["i"].get<size_t>()] = mk<T>(e["v"].get<int>()); } }
        else if constexpr (std::is_same_v<T, unsigned char>)
        {
            if (op == "s")
            {
                const auto& p = e["p"];
                const size_t start = e["start"].get<size_t>();
                const size_t cnt = e["cnt"].get<int>() < 0 ? FixedBuffer<T>::npos : e["cnt"].get<size_t>();
                size_t r = 0;
                auto P = [&](int i) { return static_cast<unsigned char>(p[i].get<int>()); };
                if (p.size() == 1)
                {
                    r = b.search_char(P(0), start, cnt);
                    if (r != b.search_chars(std::array<unsigned char, 1>{P(0)}, start, cnt)) { r = 999999; }
                }
                else if (p.size() == 2) { r = b.search_chars(std::array<unsigned char, 2>{P(0), P(1)}, start, cnt); }
                else { r = b.search_chars(std::array<unsigned char, 3>{P(0), P(1), P(2)}, start, cnt); }
                e["r"] = r == FixedBuffer<T>::npos ? J(-1) : J(r);
            }
            else if (op == "rv")
            {
                const size_t i = e["i"].get<size_t>();
                J o = J::array();
                if (i + 2 <= b.size()) { o.push_back(b.template read_value<uint16_t>(i)); }
                if (i + 4 <= b.size()) { const auto v = b.template read_value<uint32_t>(i); o.push_back(v & 0xFFFF); o.push_back(v >> 16); }
                e["out"] = o;
            }
        }
        bufState<T>(b, e);
    }
}

// ---- CRC ---------------------------------------------------------------------------------------------
template <class U, U Poly, bool Rev> void runCrc(J& e)
{
    const auto d = bytes(e["d"]);
    const U init = unlimbs<U>(e["init"]);
    const auto n = static_cast<uint32_t>(d.size());
    J out = J::array(), split = J::array();
    auto chr = [](const unsigned char* p, size_t k, U c) { for (size_t i = 0; i < k; ++i) { ne::CalculateCharacterCrc<U, Poly, Rev>(c, p[i]); } return c; };
    out.push_back(limbs<U>(chr(d.data(), n, init)));
    out.push_back(limbs<U>(ne::CalculateBlockCrc<U, Poly, Rev>(d.data(), n, init)));
    out.push_back(limbs<U>(ne::CalculateBlockCrc<U, Poly, Rev>(std::string_view(reinterpret_cast<const char*>(d.data()), n), init)));
    const bool oem = sizeof(U) == 4 && static_cast<uint64_t>(Poly) == 0xEDB88320ULL && Rev;
    std::function<U(const unsigned char*, uint32_t, U)> oemBlk;
    if constexpr (sizeof(U) == 4)
    {
        if (oem)
        {
            oemBlk = [](const unsigned char* p, uint32_t k, U c) { return ne::oem::CalculateBlockCrc32(p, k, c); };
            out.push_back(limbs<U>(oemBlk(d.data(), n, init)));
            out.push_back(limbs<U>(ne::CalculateBlockCrc32(d.data(), n, init)));
            U c = init;
            for (unsigned char x : d) { ne::oem::CalculateCharacterCrc32(c, x); }
            out.push_back(limbs<U>(c));
            c = init;
            for (unsigned char x : d) { ne::CalculateCharacterCrc32(c, x); }
            out.push_back(limbs<U>(c));
            if (init == 0)
            {
                const std::string_view sv(reinterpret_cast<const char*>(d.data()), n);
                out.push_back(limbs<U>(ne::oem::CalculateBlockCrc32(sv)));
                out.push_back(limbs<U>(ne::CalculateBlockCrc32(sv)));
            }
        }
    }
    for (const auto& k : e["at"])
    {
        const auto s = std::min<uint32_t>(k.get<uint32_t>(), n);
        split.push_back(limbs<U>(ne::CalculateBlockCrc<U, Poly, Rev>(d.data() + s, n - s, ne::CalculateBlockCrc<U, Poly, Rev>(d.data(), s, init))));
        split.push_back(limbs<U>(chr(d.data() + s, n - s, ne::CalculateBlockCrc<U, Poly, Rev>(d.data(), s, init))));
        if (oem)
        {
            split.push_back(limbs<U>(oemBlk(d.data() + s, n - s, oemBlk(d.data(), s, init))));
            split.push_back(limbs<U>(oemBlk(d.data() + s, n - s, chr(d.data(), s, init))));
        }
    }
    e["out"] = out;
    e["split"] = split;
}
void crc(J& e)
{
    const std::string k = e["kind"];
    if (k == "8f") { runCrc<uint8_t, 0x2F, false>(e); }
    else if (k == "8r") { runCrc<uint8_t, 0xF4, true>(e); }
    else if (k == "16f") { runCrc<uint16_t, 0x1021, false>(e); }
    else if (k == "16r") { runCrc<uint16_t, 0x8408, true>(e); }
    else if (k == "32f") { runCrc<uint32_t, 0xF4ACFB13UL, false>(e); }
    else if (k == "32r") { runCrc<uint32_t, 0xC8DF352FUL, true>(e); }
    else if (k == "oem") { runCrc<uint32_t, 0xEDB88320UL, true>(e); }
    else if (k == "64f") { runCrc<uint64_t, 0x42F0E1EBA9EA3693ULL, false>(e); }
    else if (k == "64r") { runCrc<uint64_t, 0xC96C5795D7870F42ULL, true>(e); }
    else { std::exit(3); }
}

// ---- MessageCountsTracker ----------------------------------------------------------------------------
struct PairHash { size_t operator()(const std::pair<int, int>& p) const { return static_cast<size_t>(p.first % 2); } }; // collides on purpose
template <class K, class H, class MK, class UN> void runCounts(J& sc, MK mkKey, UN unKey)
{
    ne::MessageCountsTracker<K, H> t;
    const auto& live = t.GetCounts(); // a reference obtained early stays the current view
    for (auto& e : sc["ev"])
    {
        const std::string op = e["op"];
        if (op == "inc") { for (int i = 0; i < e["n"].get<int>(); ++i) { t.Increment(mkKey(e["k"].get<int>())); } }
        else if (op == "incs") { for (int k = e["k"].get<int>(); k <= e["k2"].get<int>(); ++k) { t.Increment(mkKey(k)); } }
        else if (op == "reset") { t.Reset(); }
        auto dump = [&](const auto& m) {
            std::map<int, uint64_t> o;
            for (const auto& [k, c] : m) { o[unKey(k)] += c; }
            J a = J::array();
            for (const auto& [k, c] : o) { a.push_back(J::array({k, c})); }
            return a;
        };
        e["st"] = dump(t.GetCounts());
        e["live"] = dump(live);
        e["size"] = t.GetCounts().size();
    }
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        const std::string k = sc["k"];
        if (k == "buf")
        {
            if (sc["T"] == "u8") { runBuf<unsigned char>(sc); }
            else if (sc["T"] == "u32") { runBuf<uint32_t>(sc); }
            else { runBuf<Rec>(sc); }
        }
        else if (k == "crc") { for (auto& e : sc["ev"]) { crc(e); } }
        else if (k == "cnt")
        {
            if (sc["T"] == "int") { runCounts<int, std::hash<int>>(sc, [](int x) { return x; }, [](int x) { return x; }); }
            else if (sc["T"] == "str") { runCounts<std::string, std::hash<std::string>>(sc, [](int x) { return "k_" + std::to_string(x); }, [](const std::string& s) { return std::stoi(s.substr(2)); }); }
            else { runCounts<std::pair<int, int>, PairHash>(sc, [](int x) { return std::pair<int, int>(x / 3, x % 3); }, [](const std::pair<int, int>& p) { return p.first * 3 + p.second; }); }
        }
    });
}
