// RxConfigHandler (X01): messages that hold a message.
#include "vh_guard.hpp"
#include "vh_tree.hpp"

#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
using namespace vh;

static ENCODE_FORMAT efmt(const std::string& s)
{
    if (s == "ASCII") { return ENCODE_FORMAT::ASCII; }
    if (s == "ABBREV_ASCII") { return ENCODE_FORMAT::ABBREV_ASCII; }
    if (s == "BINARY") { return ENCODE_FORMAT::BINARY; }
    if (s == "FLATTENED_BINARY") { return ENCODE_FORMAT::FLATTENED_BINARY; }
    if (s == "JSON") { return ENCODE_FORMAT::JSON; }
    return ENCODE_FORMAT::UNSPECIFIED;
}
static HEADER_FORMAT hfmt(const std::string& s)
{
    if (s == "ASCII") { return HEADER_FORMAT::ASCII; }
    if (s == "BINARY") { return HEADER_FORMAT::BINARY; }
    if (s == "ABB_ASCII") { return HEADER_FORMAT::ABB_ASCII; }
    if (s == "SHORT_ASCII") { return HEADER_FORMAT::SHORT_ASCII; }
    if (s == "SHORT_BINARY") { return HEADER_FORMAT::SHORT_BINARY; }
    if (s == "SHORT_ABB_ASCII") { return HEADER_FORMAT::SHORT_ABB_ASCII; }
    if (s == "JSON") { return HEADER_FORMAT::JSON; }
    return HEADER_FORMAT::UNKNOWN;
}
static void where(J& e, const MessageDataStruct& d)
{
    const auto off = [&](const unsigned char* q) { return q == nullptr ? -1 : static_cast<int>(q - d.pucMessage); };
    e["mo"] = 0;
    e["ml"] = d.uiMessageLength;
    e["ho"] = off(d.pucMessageHeader);
    e["hl"] = d.uiMessageHeaderLength;
    e["bo"] = off(d.pucMessageBody);
    e["bl"] = d.uiMessageBodyLength;
    e["out"] = jbytes(d.pucMessage, d.uiMessageLength);
}
int main(int argc, char** argv)
{
    GetBaseLoggerManager()->RegisterLogger("h");
    spdlog::set_level(spdlog::level::off);
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        auto rx = sc["db"].get<bool>() ? std::make_unique<oem::RxConfigHandler>(db) : std::make_unique<oem::RxConfigHandler>(nullptr);
        J out = J::array();
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            if (op == "db") { rx->LoadJsonDb(e["on"].get<bool>() ? db : nullptr); }
            else if (op == "w")
            {
                const auto b = bytes(e["d"]);
                e["r"] = rx->Write(b.data(), static_cast<uint32_t>(b.size()));
            }
            else if (op == "fl")
            {
                std::vector<unsigned char> b(300000);
                const uint32_t n = rx->Flush(b.data(), static_cast<uint32_t>(b.size()));
                e["d"] = jbytes(b.data(), n);
            }
            else if (op == "drain")
            {
                for (int i = 0; i < 300; ++i)
                {
                    J x = {{"op", "cv"}, {"f", e["f"]}};
                    oem::MetaDataStruct m, em;
                    MessageDataStruct d, ed;
                    std::string s;
                    try { s = st(rx->Convert(d, m, ed, em, efmt(e["f"]))); }
                    catch (const std::exception& y) { s = "EXCEPTION"; x["why"] = y.what(); }
                    x["st"] = s;
                    x["len"] = m.uiLength;
                    if (s == "SUCCESS")
                    {
                        where(x, d);
                        const auto off = [&](const unsigned char* q) { return q == nullptr ? -1 : static_cast<int>(q - d.pucMessage); };
                        x["eo"] = off(ed.pucMessage);
                        x["el"] = ed.uiMessageLength;
                        x["eho"] = off(ed.pucMessageHeader);
                        x["ehl"] = ed.uiMessageHeaderLength;
                        x["ebo"] = off(ed.pucMessageBody);
                        x["ebl"] = ed.uiMessageBodyLength;
                        x["m"] = meta(m);
                        x["em"] = meta(em);
                    }
                    out.push_back(x);
                    if (s == "BUFFER_EMPTY") { break; }
                }
                continue;
            }
            else if (op == "dec")
            {
                const auto b = bytes(e["b"]);
                // exactly as long as it is, but for a NUL, so that reading beyond it is noticed
                Guarded body(b.size() + 1, 0);
                std::memcpy(body.p, b.data(), b.size());
                oem::MetaDataStruct m;
                m.eFormat = hfmt(e["fmt"]);
                m.usMessageId = e["id"];
                m.uiHeaderLength = e["hl"];
                m.uiLength = m.uiHeaderLength + static_cast<uint32_t>(b.size());
                m.uiMessageCrc = u32of(e["crc"]);
                CompositeField cf;
                std::string s;
                try { s = st(rx->Decode(body.p, cf, m)); }
                catch (const std::exception& y) { s = "EXCEPTION"; e["why"] = y.what(); }
                e["st"] = s;
                e["raw"] = J::array();
                if (s == "SUCCESS")
                {
                    const auto v = cf.GetFieldValue<std::vector<uint8_t>>(*cf.GetFieldInfo()->messageOrderedFields.at(0));
                    e["raw"] = jbytes(v.data(), v.size());
                }
            }
            else if (op == "enc")
            {
                const auto h = mkhdr(e["h"]);
                const auto md = db->GetMsgDef(static_cast<uint16_t>(e["id"].get<int>()));
                CompositeField cf;
                if (e["held"].get<bool>())
                {
                    cf = CompositeField(0, 1);
                    cf.SetFieldInfo(md, md->latestMessageCrc);
                    cf.SetFieldValue<false>(0, bytes(e["raw"]));
                }
                else if (md != nullptr)
                {
                    const auto& fi = *md->fieldInfo.at(md->latestMessageCrc);
                    cf = CompositeField(fi.fixedFieldBytes, fi.varFieldCount);
                    cf.SetFieldInfo(md, md->latestMessageCrc);
                }
                const size_t cap = e["cap"];
                std::vector<unsigned char> buf(cap + 128, 0x5C);
                unsigned char* p = buf.data();
                MessageDataStruct d;
                std::string s;
                try { s = st(rx->Encode(e["null"].get<bool>() ? nullptr : &p, static_cast<uint32_t>(cap), h, cf, d, efmt(e["f"]))); }
                catch (const std::exception& y) { s = "EXCEPTION"; e["why"] = y.what(); }
                e["st"] = s;
                bool clean = true;
                for (size_t i = cap; i < buf.size(); ++i) { clean = clean && buf[i] == 0x5C; }
                e["clean"] = clean;
                e["ml"] = 0;
                if (s == "SUCCESS" && d.uiMessageLength <= cap) { where(e, d); }
                else if (s == "SUCCESS") { e["ml"] = d.uiMessageLength; }
            }
            out.push_back(e);
        }
        sc["ev"] = out;
    });
}
