// Message bodies (M*, E*): one message object reused over a history of decodes, settings and encodes.
#include "vh_guard.hpp"
#include "vh_tree.hpp"

#include "novatel_edie/decoders/oem/encoder.hpp"
using namespace vh;

// ---- building a message by hand ----
template <class T> static T from(const J& b)
{
    if constexpr (std::is_same_v<T, bool>) { return b[0].get<int>() != 0; }
    else
    {
        T v{};
        const auto x = bytes(b);
        std::memcpy(&v, x.data(), std::min(sizeof(T), x.size()));
        return v;
    }
}
static void build(CompositeField& cf, const FieldInfo& fi, const J& v, unsigned way, int depth = 0)
{
    size_t i = 0;
    for (const auto& f : order(fi))
    {
        const J& x = v[i];
        const unsigned w = (way >> ((i * 3 + depth * 7) % 13)) & 3;
        ++i;
        switch (f->type)
        {
        case FIELD_TYPE::SIMPLE:
        case FIELD_TYPE::ENUM:
        case FIELD_TYPE::RESPONSE_ID:
            SimpleTypeVisitor(*f, [&](auto tag) {
                using T = decltype(tag);
                const T val = from<T>(x);
                if (w & 1) { cf.SetFieldValue(*f, val); }
                else { cf.template SetFieldValue<true>(f->index, val); }
            });
            break;
        case FIELD_TYPE::FIXED_LENGTH_ARRAY:
            SimpleTypeVisitor(*f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    std::vector<T> vals;
                    for (const auto& e : x) { vals.push_back(from<T>(e)); }
                    if ((w & 1) && !vals.empty()) { cf.template SetFieldValue<true>(f->index, vals.data(), vals.size()); }
                    else { for (size_t k = vals.size(); k-- > 0;) { cf.template SetArrayElement<true>(*f, k, vals[k]); } }
                }
            });
            break;
        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
            SimpleTypeVisitor(*f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    std::vector<T> vals;
                    for (const auto& e : x) { vals.push_back(from<T>(e)); }
                    if (w == 0) { cf.SetFieldValue(*f, std::vector<T>(vals)); }
                    else if (w == 1 && !vals.empty()) { cf.template SetFieldValue<false>(f->index, vals.data(), vals.size()); }
                    else if (w == 2) { cf.template SetFieldValue<false>(f->index, std::vector<T>(vals)); }
                    else
                    {
                        cf.SetFieldValue(*f, std::vector<T>(vals.size()));
                        for (size_t k = 0; k < vals.size(); ++k) { cf.template SetArrayElement<false>(*f, k, vals[k]); }
                    }
                }
            });
            break;
        case FIELD_TYPE::STRING:
        case FIELD_TYPE::RESPONSE_STR: {
            const auto b = bytes(x);
            std::string s(b.begin(), b.end());
            if (w & 1) { cf.SetFieldValue(*f, std::move(s)); }
            else { cf.SetFieldValue<false>(f->index, std::move(s)); }
            break;
        }
        case FIELD_TYPE::FIELD_ARRAY: {
            const auto& fa = dynamic_cast<const FieldArrayField&>(*f);
            if (fa.fieldInfo->varFieldCount == 0 && (w & 1))
            {
                FlatFieldArray rows(x.size(), fa.fieldInfo.get());
                for (size_t r = 0; r < x.size(); ++r)
                {
                    size_t k = 0;
                    for (const auto& g : order(*fa.fieldInfo))
                    {
                        const J& y = x[r][k++];
                        if (g->type == FIELD_TYPE::FIXED_LENGTH_ARRAY)
                        {
                            for (size_t q = 0; q < y.size(); ++q)
                            {
                                const auto b = bytes(y[q]);
                                rows.SetFieldValue(r, g->index + q * b.size(), b.data(), b.size());
                            }
                        }
                        else
                        {
                            SimpleTypeVisitor(*g, [&](auto tag) {
                                const auto val = from<decltype(tag)>(y);
                                rows.SetFieldValue(r, g->index, val);
                            });
                        }
                    }
                }
                cf.SetFieldValue(*f, std::move(rows));
            }
            else
            {
                CompositeFieldArray rows;
                for (const auto& r : x)
                {
                    CompositeField row(fa.fieldInfo);
                    build(row, *fa.fieldInfo, r, way, depth + 1);
                    rows.push_back(row);
                }
                if (w & 2) { cf.SetFieldValue(*f, std::move(rows)); }
                else { cf.SetFieldValue(*f, rows); }
            }
            break;
        }
        default: break;
        }
    }
}

// ---- JSON text of a node tree, in different styles ----
struct Style
{
    unsigned s;
    unsigned next()
    {
        s = s * 1103515245u + 12345u;
        return (s >> 16) & 0x7FFF;
    }
    bool plain() const { return s == 0; }
};
static void ws(std::string& o, Style& st)
{
    if (st.plain()) { return; }
    switch (st.next() % 8)
    {
    case 0: o += " "; break;
    case 1: o += "\n  "; break;
    case 2: o += "\t"; break;
    case 3: o += "\r\n"; break;
    default: break;
    }
}
static void jstr(std::string& o, const std::vector<unsigned char>& b, Style& st)
{
    o += '"';
    for (const unsigned char c : b)
    {
        char t[8];
        if (c < 32 || (c < 127 && !st.plain() && st.next() % 9 == 0))
        {
            if (c == 10 && !st.plain()) { o += "\\n"; }
            else if (c == 9 && !st.plain()) { o += "\\t"; }
            else
            {
                std::snprintf(t, sizeof t, st.plain() || st.next() % 2 ? "\\u%04x" : "\\u%04X", c);
                o += t;
            }
        }
        else if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else { o += static_cast<char>(c); }
    }
    o += '"';
}
static void render(std::string& o, const J& n, Style& st)
{
    const std::string t = n["t"];
    ws(o, st);
    const auto b = bytes(n["s"]);
    if (t == "s") { jstr(o, b, st); }
    else if (t == "z") { o += "null"; }
    else if (t == "a")
    {
        o += '[';
        bool first = true;
        for (const auto& x : n["a"])
        {
            if (!first) { o += ','; }
            first = false;
            render(o, x, st);
        }
        ws(o, st);
        o += ']';
    }
    else if (t == "o")
    {
        // members in any order
        std::vector<size_t> ix(n["a"].size());
        for (size_t i = 0; i < ix.size(); ++i) { ix[i] = i; }
        if (!st.plain() && !n.value("keep", false)) { for (size_t i = ix.size(); i > 1; --i) { std::swap(ix[i - 1], ix[st.next() % i]); } }
        o += '{';
        bool first = true;
        for (const size_t i : ix)
        {
            if (!first) { o += ','; }
            first = false;
            ws(o, st);
            Style none{0};
            jstr(o, bytes(n["k"][i]), none);
            ws(o, st);
            o += ':';
            render(o, n["a"][i], st);
        }
        ws(o, st);
        o += '}';
    }
    else { o.append(b.begin(), b.end()); }
    ws(o, st);
}

static HEADER_FORMAT hfmt(const std::string& s)
{
    if (s == "ASCII") { return HEADER_FORMAT::ASCII; }
    if (s == "SHORT_ASCII") { return HEADER_FORMAT::SHORT_ASCII; }
    if (s == "ABB_ASCII") { return HEADER_FORMAT::ABB_ASCII; }
    if (s == "SHORT_ABB_ASCII") { return HEADER_FORMAT::SHORT_ABB_ASCII; }
    if (s == "BINARY") { return HEADER_FORMAT::BINARY; }
    if (s == "SHORT_BINARY") { return HEADER_FORMAT::SHORT_BINARY; }
    if (s == "JSON") { return HEADER_FORMAT::JSON; }
    if (s == "NMEA") { return HEADER_FORMAT::NMEA; }
    if (s == "ALL") { return HEADER_FORMAT::ALL; }
    return HEADER_FORMAT::UNKNOWN;
}
static ENCODE_FORMAT efmt(const std::string& s)
{
    if (s == "ASCII") { return ENCODE_FORMAT::ASCII; }
    if (s == "ABBREV_ASCII") { return ENCODE_FORMAT::ABBREV_ASCII; }
    if (s == "BINARY") { return ENCODE_FORMAT::BINARY; }
    if (s == "FLATTENED_BINARY") { return ENCODE_FORMAT::FLATTENED_BINARY; }
    if (s == "JSON") { return ENCODE_FORMAT::JSON; }
    return ENCODE_FORMAT::UNSPECIFIED;
}

// a buffer of `cap` bytes between guard zones
struct Zoned
{
    static constexpr size_t G = 96;
    std::vector<unsigned char> mem;
    size_t cap;
    size_t shift;
    Zoned(size_t cap_, size_t shift_, unsigned char fill) : mem(cap_ + 2 * G + 16, 0xA5), cap(cap_), shift(G + shift_) { std::memset(mem.data() + shift, fill, cap); }
    unsigned char* p() { return mem.data() + shift; }
    bool clean() const
    {
        for (size_t i = 0; i < mem.size(); ++i) { if ((i < shift || i >= shift + cap) && mem[i] != 0xA5) { return false; } }
        return true;
    }
};

int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        auto dec = std::make_unique<oem::MessageDecoder>(db);
        oem::MessageDecoder nodec;
        oem::Encoder enc(db);
        oem::Encoder noenc;
        CompositeField cf;
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            if (op == "dec")
            {
                oem::MetaDataStruct m;
                m.eFormat = hfmt(e["fmt"]);
                m.usMessageId = e["id"];
                m.uiMessageCrc = u32of(e["crc"]);
                m.bResponse = e["resp"];
                const auto def = db->GetMsgDef(static_cast<uint32_t>(e["id"].get<int>()));
                m.messageName = e["rx"].get<bool>() ? "RXCONFIG" : def ? def->name : "UNKNOWN";
                std::vector<unsigned char> b;
                if (e.contains("j"))
                {
                    Style st{e["style"].get<unsigned>()};
                    std::string t = e.value("nohdr", false) ? "{" : "{\"header\": {\"message\": \"X\",\"id\": 1},";
                    t += e.value("nobody", false) ? "\"boby\": " : "\"body\": ";
                    render(t, e["j"], st);
                    t += "}";
                    const int cut = e.value("cut", 0); // per mille of the text kept
                    if (cut) { t = t.substr(0, std::min(t.size() - 1, t.size() * static_cast<size_t>(cut) / 1000)); }
                    if (e.value("junk", false)) { t += "}"; }
                    b.assign(t.begin(), t.end());
                }
                else { b = bytes(e["b"]); }
                // the exact bytes: reading past them is a crash
                const bool text = m.eFormat != HEADER_FORMAT::BINARY && m.eFormat != HEADER_FORMAT::SHORT_BINARY;
                const bool sized = e.value("sized", false) && m.eFormat != HEADER_FORMAT::JSON;
                Guarded fence(b.size() + (text ? 1 : 0), 0);
                auto* p = fence.p;
                std::copy(b.begin(), b.end(), p);
                m.uiBinaryMsgLength = static_cast<uint32_t>(b.size());
                if (sized)
                {
                    m.uiHeaderLength = 40;
                    m.uiLength = 40 + static_cast<uint32_t>(b.size());
                }
                try
                {
                    e["st"] = st((e["db"].get<bool>() ? *dec : nodec).Decode(e["null"].get<bool>() ? nullptr : p, cf, m));
                }
                catch (const std::exception& x) { e["st"] = std::string("EXCEPTION ") + x.what(); }
                if (e["st"] == "SUCCESS") { observe(e, cf); }
                else
                {
                    e["got"] = J::array();
                    e["ok"] = true;
                }
            }
            else if (op == "set")
            {
                const auto def = db->GetMsgDef(static_cast<uint32_t>(e["id"].get<int>()));
                try
                {
                    CompositeField fresh;
                    if (e["way"].get<unsigned>() & 4096u) { fresh = CompositeField(def->fieldInfo.count(u32of(e["crc"])) ? def->fieldInfo.at(u32of(e["crc"])) : def->fieldInfo.at(def->latestMessageCrc)); }
                    else
                    {
                        fresh.SetFieldInfo(def, u32of(e["crc"]));
                        fresh = CompositeField(FieldInfo::ConstPtr(fresh.GetFieldInfo()));
                    }
                    build(fresh, *fresh.GetFieldInfo(), e["v"], e["way"].get<unsigned>());
                    cf = fresh;
                    observe(e, cf);
                }
                catch (const std::exception& x)
                {
                    e["got"] = J::array();
                    e["ok"] = false;
                    e["why"] = x.what();
                }
            }
            else if (op == "enc" || op == "caps")
            {
                const auto h = mkhdr(e["h"]);
                const HEADER_FORMAT hf = e["short"].get<bool>() ? HEADER_FORMAT::SHORT_BINARY : HEADER_FORMAT::BINARY;
                const auto ef = efmt(e["f"]);
                oem::MetaDataStruct unused;
                const size_t ample = e.value("ample", 131072);
                auto run = [&](Zoned& g, size_t cap, MessageDataStruct& md) {
                    unsigned char* p = g.p();
                    try
                    {
                        return st((e["db"].get<bool>() ? enc : noenc).Encode(e["null"].get<bool>() ? nullptr : &p, static_cast<uint32_t>(cap), h, cf, md, hf, ef));
                    }
                    catch (const std::exception& x) { return std::string("EXCEPTION ") + x.what(); }
                };
                Zoned g(ample, e.value("shift", 0), 0xEE);
                MessageDataStruct md;
                const std::string s = run(g, ample, md);
                const auto off = [&](const unsigned char* q) { return q == nullptr ? -1 : static_cast<int>(q - g.p()); };
                if (op == "enc")
                {
                    e["st"] = s;
                    e["clean"] = g.clean();
                    const bool okk = s == "SUCCESS";
                    e["out"] = okk ? jbytes(g.p(), md.uiMessageLength) : J::array();
                    e["mo"] = okk ? off(md.pucMessage) : 0;
                    e["ml"] = okk ? static_cast<int>(md.uiMessageLength) : 0;
                    e["ho"] = okk ? off(md.pucMessageHeader) : 0;
                    e["hl"] = okk ? static_cast<int>(md.uiMessageHeaderLength) : 0;
                    e["bo"] = okk ? off(md.pucMessageBody) : 0;
                    e["bl"] = okk ? static_cast<int>(md.uiMessageBodyLength) : 0;
                }
                else
                {
                    J r = J::array();
                    const size_t n = s == "SUCCESS" ? md.uiMessageLength : 60;
                    const size_t step = std::max<size_t>(1, n / e.value("points", 40));
                    std::vector<size_t> caps;
                    for (size_t c = 0; c + 24 < n; c += step) { caps.push_back(c); }
                    for (size_t c = n < 24 ? 0 : n - 24; c < n + 24; ++c) { caps.push_back(c); }
                    for (const size_t c : caps)
                    {
                        Zoned k(c, c % 4, 0x5C);
                        MessageDataStruct md2;
                        const std::string s2 = run(k, c, md2);
                        const bool sm = s2 == "SUCCESS" && md2.uiMessageLength == md.uiMessageLength && std::memcmp(k.p(), g.p(), std::min<size_t>(c, md2.uiMessageLength)) == 0;
                        r.push_back({{"cap", c}, {"st", s2}, {"same", sm}, {"clean", k.clean()}});
                    }
                    e["r"] = r;
                }
            }
        }
    });
}
