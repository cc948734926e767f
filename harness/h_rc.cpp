// RangeDecompressor (R01): histories of compressed range messages.
#include "vh_guard.hpp"
#include "vh_tree.hpp"

#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
using namespace vh;

static ENCODE_FORMAT efmt(const std::string& s)
{
    if (s == "ASCII") { return ENCODE_FORMAT::ASCII; }
    if (s == "ABBREV_ASCII") { return ENCODE_FORMAT::ABBREV_ASCII; }
    if (s == "BINARY") { return ENCODE_FORMAT::BINARY; }
    if (s == "FLATTENED_BINARY") { return ENCODE_FORMAT::FLATTENED_BINARY; }
    if (s == "JSON") { return ENCODE_FORMAT::JSON; }
    return ENCODE_FORMAT::UNSPECIFIED;
}
static J one(oem::RangeDecompressor& d, const std::vector<unsigned char>& b, size_t cap, ENCODE_FORMAT f, bool null)
{
    cap = std::max(cap, b.size() + 1);
    Guarded g(cap);
    std::memcpy(g.p, b.data(), b.size());
    g.p[b.size()] = 0;                                  // text ends
    oem::MetaDataStruct m;
    m.uiLength = static_cast<uint32_t>(b.size());
    J x = J::object();
    std::string s;
    try { s = st(d.Decompress(null ? nullptr : g.p, static_cast<uint32_t>(cap), m, f)); }
    catch (const std::exception& y) { s = "EXCEPTION"; x["why"] = y.what(); }
    x["st"] = s;
    x["cap"] = cap;
    x["clean"] = g.clean();
    x["m"] = meta(m);
    x["len"] = m.uiLength;
    x["out"] = s == "SUCCESS" && m.uiLength <= cap ? jbytes(g.p, m.uiLength) : J::array();
    return x;
}
// what a parser that decompresses reads when it is given the message
static J through(oem::Parser& p, const std::vector<unsigned char>& b)
{
    J a = J::array();
    if (p.Write(b.data(), b.size()) != b.size()) { a.push_back({{"st", "NOT WRITTEN"}, {"out", J::array()}}); }
    for (int i = 0; i < 100; ++i)
    {
        MessageDataStruct d;
        oem::MetaDataStruct m;
        std::string s;
        try { s = st(p.Read(d, m, true)); }
        catch (const std::exception& y) { s = std::string("EXCEPTION ") + y.what(); }
        if (s == "BUFFER_EMPTY") { break; }
        a.push_back({{"st", s}, {"out", s == "SUCCESS" ? jbytes(d.pucMessage, d.uiMessageLength) : J::array()}});
    }
    return a;
}
int main(int argc, char** argv)
{
    GetBaseLoggerManager()->RegisterLogger("h");
    spdlog::set_level(spdlog::level::off);
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        const bool on = sc["db"].get<bool>();
        auto mk = [&](bool y) { auto d = y ? std::make_unique<oem::RangeDecompressor>(db) : std::make_unique<oem::RangeDecompressor>(); d->SetLoggerLevel(spdlog::level::off); return d; };
        auto a = mk(on), x = mk(on);
        bool have = on;
        std::unique_ptr<oem::Parser> p;
        if (!sc["pf"].get<std::string>().empty())
        {
            p = std::make_unique<oem::Parser>(db);
            p->SetLoggerLevel(spdlog::level::off);
            p->SetDecompressRangeCmp(true);
            p->SetEncodeFormat(efmt(sc["pf"]));
        }
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            if (op == "db")
            {
                have = e["on"].get<bool>();
                a->LoadJsonDb(have ? db : nullptr);
                x->LoadJsonDb(have ? db : nullptr);
            }
            else if (op == "reset") { a->Reset(); x->Reset(); if (p) { p->Flush(); } }
            else if (op == "cts") { e["out"] = w32(oem::ChannelTrackingStatus(u32of(e["w"])).GetAsWord()); }
            else if (op == "dc")
            {
                const auto b = bytes(e["b"]);
                const bool null = e["null"].get<bool>();
                e["a"] = one(*a, b, 40000, ENCODE_FORMAT::BINARY, null);
                e["x"] = one(*x, b, 90000, efmt(e["f"]), null);
                e["p"] = J::array();
                if (p && !null) { e["p"] = through(*p, b); }
                auto t = mk(have);
                e["tight"] = one(*t, b, e["cap"].get<size_t>(), ENCODE_FORMAT::BINARY, null);
                e["tight"].erase("out");
                e["clean"] = e["a"]["clean"].get<bool>() && e["x"]["clean"].get<bool>() && e["tight"]["clean"].get<bool>();
            }
        }
    });
}
