// Framers and the framer manager: scenario operations -> recorded history.
#include <memory>

#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"
#include "vh.hpp"

using namespace vh;
using namespace novatel::edie;
namespace oem = novatel::edie::oem;

// A byte range whose surroundings are checked after the call.
struct Guarded
{
    static constexpr size_t PAD = 1024;
    std::vector<unsigned char> mem, ref;
    size_t n;
    explicit Guarded(size_t n_) : mem(n_ + 2 * PAD), n(n_)
    {
        for (size_t i = 0; i < mem.size(); ++i) { mem[i] = static_cast<unsigned char>(0xC5 ^ (i * 7)); }
        ref = mem;
    }
    unsigned char* p() { return mem.data() + PAD; }
    // bytes outside [0, used) are as before
    bool ok(size_t used) const
    {
        for (size_t i = 0; i < mem.size(); ++i)
        {
            if (i >= PAD && i < PAD + used && i < PAD + n) { continue; }
            if (mem[i] != ref[i]) { return false; }
        }
        return true;
    }
};

struct Port
{
    virtual ~Port() = default;
    virtual size_t write(const unsigned char*, size_t) = 0;
    virtual STATUS get(unsigned char*, uint32_t, bool fresh) = 0;
    virtual uint32_t len() = 0;
    virtual int fmt() = 0;
    virtual bool resp() = 0;
    virtual std::string act() = 0;
    virtual uint32_t flush(unsigned char*, uint32_t) = 0;
    virtual size_t av() = 0;
    virtual void opt(bool json, bool payload, bool unk) = 0;
};
template <class F> struct FPort : Port
{
    F f;
    FPort() = default;
    explicit FPort(size_t cap) : f(std::make_shared<UCharFixedBuffer>(cap)) {}
    std::unique_ptr<oem::MetaDataStruct> m = std::make_unique<oem::MetaDataStruct>();
    size_t write(const unsigned char* p, size_t n) override { return f.Write(p, n); }
    STATUS get(unsigned char* p, uint32_t n, bool fresh) override
    {
        if (fresh) { m = std::make_unique<oem::MetaDataStruct>(); }
        return f.GetFrame(p, n, *m);
    }
    uint32_t len() override { return m->uiLength; }
    int fmt() override { return static_cast<int>(m->eFormat); }
    bool resp() override { return m->bResponse; }
    std::string act() override { return ""; }
    uint32_t flush(unsigned char* p, uint32_t n) override { return f.Flush(p, n); }
    size_t av() override { return f.GetAvailableSpace(); }
    void opt(bool json, bool payload, bool unk) override { f.SetFrameJson(json); f.SetPayloadOnly(payload); f.SetReportUnknownBytes(unk); }
};
struct MPort : Port
{
    FramerManager f;
    MetaDataBase* m{nullptr};
    explicit MPort(const std::vector<std::string>& n) : f(n) {}
    size_t write(const unsigned char* p, size_t n) override { return f.Write(p, n); }
    STATUS get(unsigned char* p, uint32_t n, bool) override { m = nullptr; return f.GetFrame(p, n, m); }
    uint32_t len() override { return m ? m->uiLength : 0; }
    int fmt() override { return m ? static_cast<int>(m->eFormat) : 0; }
    bool resp() override { return m && m->bResponse; }
    std::string act() override { return f.GetActiveFramerName() + (f.GetActiveFramerId() == FramerManager::GetFramerId(f.GetActiveFramerName()) && f.GetMetaData(f.GetActiveFramerName()) == m ? "" : "!"); }
    uint32_t flush(unsigned char* p, uint32_t n) override { return f.Flush(p, n); }
    size_t av() override { return f.GetAvailableSpace(); }
    void opt(bool, bool, bool unk) override { f.SetReportUnknownBytes(unk); }
};

static std::unique_ptr<Port> mk(const J& sc)
{
    if (sc["mgr"].get<bool>()) { return std::make_unique<MPort>(sc["dialects"].get<std::vector<std::string>>()); }
    const std::string d = sc["dialects"][0];
    const size_t cap = sc["cap"];
    if (cap != 262144)
    {
        if (d == "OEM") { return std::make_unique<FPort<oem::Framer>>(cap); }
        if (d == "OEM_ASCII") { return std::make_unique<FPort<oem::FramerAscii>>(cap); }
        if (d == "OEM_ASCII_SHORT") { return std::make_unique<FPort<oem::FramerAsciiShort>>(cap); }
        if (d == "OEM_BINARY") { return std::make_unique<FPort<oem::FramerBinary>>(cap); }
        if (d == "OEM_BINARY_SHORT") { return std::make_unique<FPort<oem::FramerBinaryShort>>(cap); }
        if (d == "OEM_ABB_ASCII") { return std::make_unique<FPort<oem::FramerAbbAscii>>(cap); }
        std::exit(3);
    }
    if (d == "OEM") { return std::make_unique<FPort<oem::Framer>>(); }
    if (d == "OEM_ASCII") { return std::make_unique<FPort<oem::FramerAscii>>(); }
    if (d == "OEM_ASCII_SHORT") { return std::make_unique<FPort<oem::FramerAsciiShort>>(); }
    if (d == "OEM_BINARY") { return std::make_unique<FPort<oem::FramerBinary>>(); }
    if (d == "OEM_BINARY_SHORT") { return std::make_unique<FPort<oem::FramerBinaryShort>>(); }
    if (d == "OEM_ABB_ASCII") { return std::make_unique<FPort<oem::FramerAbbAscii>>(); }
    std::exit(3);
}

int main(int argc, char** argv)
{
    GetBaseLoggerManager()->RegisterLogger("h");
    spdlog::set_level(spdlog::level::off);
    return drive(argc, argv, [](J& sc) {
        auto f = mk(sc);
        spdlog::set_level(spdlog::level::off);
        J out = J::array();
        bool unk = true;
        size_t written = 0;
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            if (op == "w")
            {
                const auto d = bytes(e["d"]);
                e["r"] = f->write(d.data(), d.size());
                written += d.size();
                e["av"] = f->av();
                out.push_back(e);
            }
            else if (op == "opt")
            {
                unk = e["unk"];
                f->opt(e["json"], e["payload"], unk);
                out.push_back(e);
            }
            else if (op == "fl")
            {
                const size_t bs = e["bs"];
                Guarded g(bs);
                const uint32_t r = f->flush(g.p(), static_cast<uint32_t>(bs));
                e["r"] = r;
                e["out"] = jbytes(g.p(), unk ? std::min<size_t>(r, bs) : 0);
                e["guard"] = g.ok(r);
                e["av"] = f->av();
                out.push_back(e);
            }
            else if (op == "g" || op == "drain")
            {
                const size_t bs = e["bs"];
                size_t lim = op == "g" ? 1 : written * 2 + 20;
                while (lim-- > 0)
                {
                    Guarded g(bs);
                    J o = {{"op", "g"}, {"bs", bs}};
                    const STATUS st = f->get(g.p(), static_cast<uint32_t>(bs), e["fresh"]);
                    const bool has = st == STATUS::SUCCESS || (st == STATUS::UNKNOWN && unk);
                    const size_t n = has ? f->len() : 0;
                    o["st"] = StatusToString(st);
                    o["len"] = f->len();
                    o["fmt"] = f->fmt();
                    o["resp"] = f->resp();
                    if (st == STATUS::SUCCESS) { o["act"] = f->act(); }
                    o["out"] = jbytes(g.p(), std::min(n, bs));
                    o["guard"] = g.ok(n);
                    o["av"] = f->av();
                    out.push_back(o);
                    if ((st != STATUS::SUCCESS && st != STATUS::UNKNOWN) || bs == 0) { break; }
                }
            }
        }
        sc["ev"] = out;
    });
}
