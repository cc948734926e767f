// Parser and FileParser (P01, P02): bytes in, messages out.
#include "vh_filter.hpp"
#include "vh_tree.hpp"

#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
using namespace vh;

static ENCODE_FORMAT efmt(const std::string& s)
{
    if (s == "ASCII") { return ENCODE_FORMAT::ASCII; }
    if (s == "ABBREV_ASCII") { return ENCODE_FORMAT::ABBREV_ASCII; }
    if (s == "BINARY") { return ENCODE_FORMAT::BINARY; }
    if (s == "FLATTENED_BINARY") { return ENCODE_FORMAT::FLATTENED_BINARY; }
    if (s == "JSON") { return ENCODE_FORMAT::JSON; }
    return ENCODE_FORMAT::UNSPECIFIED;
}
static J countsOf(const oem::HeaderDecoder::MessageCountsMap& m)
{
    J a = J::array();
    for (const auto& kv : m) { a.push_back({{"id", std::get<0>(kv.first)}, {"fmt", static_cast<int>(std::get<1>(kv.first))}, {"sib", std::get<2>(kv.first)}, {"n", kv.second}}); }
    return a;
}
// what a structure holds before a call must not matter
static void scramble(oem::MetaDataStruct& m, oem::IntermediateHeader& h, MessageDataStruct& d, int k)
{
    static unsigned char other[4] = {1, 2, 3, 4};
    if (k == 0) { m = oem::MetaDataStruct(); h = oem::IntermediateHeader(); d = MessageDataStruct(); }
    else if (k == 1)
    {
        m.bResponse = true; m.eFormat = HEADER_FORMAT::ABB_ASCII; m.usMessageId = 42; m.uiLength = 77; m.uiHeaderLength = 3000; m.uiBinaryMsgLength = 9999; m.ucSiblingId = 9; m.messageName = "RXCONFIG"; m.uiMessageCrc = 5;
        h.usMessageId = 128; h.ucMessageType = 255; h.usWeek = 9;
        d.pucMessage = d.pucMessageHeader = d.pucMessageBody = other;
        d.uiMessageLength = d.uiMessageHeaderLength = d.uiMessageBodyLength = 99999;
    }
}
struct Obj
{
    oem::MetaDataStruct m;
    oem::IntermediateHeader h;
    MessageDataStruct d;
    CompositeField cf;
};
static bool empty(const MessageDataStruct& d, bool hdr) { return d.pucMessageBody == nullptr && d.uiMessageBodyLength == 0 && (!hdr || (d.pucMessageHeader == nullptr && d.uiMessageHeaderLength == 0)); }
// one read: returns whether it is worth reading on
template <class ParserT, class Ri, class Rd> bool reading(ParserT& p, Obj& o, J& e, Ri ri, Rd rd)
{
    scramble(o.m, o.h, o.d, e.value("mess", 2));
    const bool inter = e["op"] == "ri";
    std::string s;
    try { s = st(inter ? ri(o) : rd(o)); }
    catch (const std::exception& x) { s = std::string("EXCEPTION ") + x.what(); }
    e["st"] = s;
    e["av"] = p.av();
    const bool have = s == "SUCCESS" || s == "NO_DEFINITION" || s == "UNKNOWN";
    e["msg"] = have ? jbytes(o.d.pucMessage, o.d.uiMessageLength) : J::array();
    const bool full = s == "SUCCESS" || s == "NO_DEFINITION";
    if (full)
    {
        e["h"] = hdr(o.h);
        e["m"] = meta(o.m);
        e["ml"] = o.m.uiLength;
        e["bo"] = o.d.pucMessageBody == nullptr ? -1 : static_cast<int>(o.d.pucMessageBody - o.d.pucMessage);
        e["bl"] = o.d.uiMessageBodyLength;
        e["ho"] = 0;
        e["hl"] = 0;
        e["nul"] = true;
    }
    else if (s == "UNKNOWN") { e["nul"] = empty(o.d, false); }
    e["got"] = J::array();
    e["ok"] = true;
    if (s == "SUCCESS")
    {
        if (inter) { observe(e, o.cf); }
        else
        {
            e["ho"] = static_cast<int>(o.d.pucMessageHeader - o.d.pucMessage);
            e["hl"] = o.d.uiMessageHeaderLength;
        }
    }
    return have;
}
struct Direct
{
    oem::Parser p;
    explicit Direct(const MessageDatabase::Ptr& db) : p(db) {}
    size_t av() { return p.GetAvailableSpace(); }
};
struct Filed
{
    oem::FileParser p;
    explicit Filed(const MessageDatabase::Ptr& db) : p(db) {}
    int av() { return 0; }
};
template <class W, class Step> void run(J& sc, const MessageDatabase::Ptr& db, Step extra)
{
    W w(sc.value("db", true) ? db : nullptr);
    Obj o;
    std::shared_ptr<oem::Filter> filt;
    J out = J::array();
    for (auto& e : sc["ev"])
    {
        const std::string op = e["op"];
        if (op == "opt")
        {
            if (e.contains("unk")) { w.p.SetReturnUnknownBytes(e["unk"]); e["ok"] = w.p.GetReturnUnknownBytes() == e["unk"].get<bool>(); }
            if (e.contains("abr")) { w.p.SetIgnoreAbbreviatedAsciiResponses(e["abr"]); e["ok"] = w.p.GetIgnoreAbbreviatedAsciiResponses() == e["abr"].get<bool>(); }
            if (e.contains("rc")) { w.p.SetDecompressRangeCmp(e["rc"]); e["ok"] = w.p.GetDecompressRangeCmp() == e["rc"].get<bool>(); }
            if (e.contains("f")) { w.p.SetEncodeFormat(efmt(e["f"])); e["ok"] = w.p.GetEncodeFormat() == efmt(e["f"]); }
        }
        else if (op == "filt")
        {
            if (!e["on"].get<bool>()) { filt = nullptr; }
            else
            {
                if (filt == nullptr || e.value("new", false)) { filt = std::make_shared<oem::Filter>(); }
                for (const auto& x : e["l"]) { filterOp(filt, x); }
            }
            w.p.SetFilter(filt);
            e["ok"] = w.p.GetFilter() == filt;
        }
        else if (op == "db") { w.p.LoadJsonDb(db); e["ok"] = w.p.MessageDb() == db; }
        else if (op == "cnt") { e["r"] = countsOf(w.p.GetMessageCounts()); }
        else if (op == "rst") { w.p.ResetMessageCounts(); }
        else if (op == "fl")
        {
            const uint32_t bs = e["bs"];
            if (e.value("nob", false))
            {
                e["r"] = w.p.Flush();
                e["d"] = J::array();
                e["guard"] = true;
            }
            else
            {
                std::vector<unsigned char> b(bs + 64, 0xA5);
                e["r"] = w.p.Flush(b.data(), bs);
                e["d"] = jbytes(b.data(), std::min<size_t>(bs, e["r"].get<uint32_t>()));
                bool g = true;
                for (size_t i = bs; i < b.size(); ++i) { g = g && b[i] == 0xA5; }
                e["guard"] = g;
            }
            e["av"] = w.av();
        }
        else if (op == "rd" || op == "ri") { extra(w, o, e); }
        else if (op == "drain")
        {
            const J tmpl = e;
            for (int i = 0; i < 400; ++i)
            {
                J x = tmpl;
                x["op"] = tmpl["how"] == "mix" ? (i % 2 ? "rd" : "ri") : tmpl["how"].get<std::string>();
                const bool more = extra(w, o, x);
                out.push_back(x);
                if (!more) { break; }
            }
            continue;
        }
        else { extra(w, o, e); }
        out.push_back(e);
    }
    sc["ev"] = out;
}
int main(int argc, char** argv)
{
    GetBaseLoggerManager()->RegisterLogger("h");
    spdlog::set_level(spdlog::level::off);
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        if (sc["file"].get<bool>())
        {
            run<Filed>(sc, db, [](Filed& w, Obj& o, J& e) -> bool {
                if (e["op"] == "str")
                {
                    const auto b = bytes(e["d"]);
                    auto s = std::make_shared<std::stringstream>(std::string(b.begin(), b.end()));
                    if (e.value("eof", false)) { s->setstate(std::ios::eofbit); }
                    e["r"] = w.p.SetStream(e.value("null", false) ? nullptr : s);
                    return true;
                }
                if (e["op"] == "reset") { e["r"] = w.p.Reset(); return true; }
                return reading(w, o, e, [&](Obj& x) { return w.p.ReadIntermediate(x.d, x.h, x.cf, x.m); }, [&](Obj& x) { return w.p.Read(x.d, x.m); });
            });
        }
        else
        {
            run<Direct>(sc, db, [](Direct& w, Obj& o, J& e) -> bool {
                if (e["op"] == "w")
                {
                    const auto b = bytes(e["d"]);
                    e["r"] = w.p.Write(b.data(), b.size());
                    e["av"] = w.av();
                    return true;
                }
                const bool inc = e["inc"];
                return reading(w, o, e, [&](Obj& x) { return w.p.ReadIntermediate(x.d, x.h, x.cf, x.m, inc); }, [&](Obj& x) { return w.p.Read(x.d, x.m, inc); });
            });
        }
    });
}
