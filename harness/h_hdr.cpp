// Header decoding (H01, H02): one decoder, one header and one metadata object reused over a history.
#include "vh_guard.hpp"
#include "vh_oem.hpp"
using namespace vh;
int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        oem::HeaderDecoder dec(db);
        oem::HeaderDecoder nodb;
        oem::IntermediateHeader h;
        oem::MetaDataStruct m;
        for (auto& e : sc["ev"])
        {
            const std::string op = e["op"];
            if (op == "hd")
            {
                if (e["fresh"].get<bool>())
                {
                    h = oem::IntermediateHeader();
                    m = oem::MetaDataStruct();
                }
                std::vector<unsigned char> b;
                if (e.contains("json"))
                {
                    // {"header": {fields}, "body": {}}
                    std::string t = "{\"header\": {";
                    bool first = true;
                    for (const auto& f : e["json"])
                    {
                        const auto v = bytes(f["v"]);
                        const std::string s(v.begin(), v.end());
                        t += (first ? "\"" : ",\"") + f["k"].get<std::string>() + "\": " + (f["q"].get<bool>() ? "\"" + s + "\"" : s);
                        first = false;
                    }
                    t += "},\"body\": {}}";
                    b.assign(t.begin(), t.end());
                }
                else { b = bytes(e["b"]); }
                // text is NUL-terminated by contract; binary headers are complete
                const bool binary = b.size() > 2 && b[0] == 0xAA;
                const size_t whole = !binary ? b.size() + 1 : b[2] == 0x12 ? sizeof(oem::Oem4BinaryHeader) : b[2] == 0x13 ? sizeof(oem::Oem4BinaryShortHeader) : 3;
                Guarded g(std::max(b.size(), whole), 0);
                std::copy(b.begin(), b.end(), g.p);
                e["st"] = st((e["db"].get<bool>() ? dec : nodb).Decode(e["null"].get<bool>() ? nullptr : g.p, h, m));
                e["h"] = hdr(h);
                e["m"] = meta(m);
            }
            else if (op == "cnt") { e["r"] = counts(dec); }
            else if (op == "rst") { dec.ResetMessageCounts(); }
        }
    });
}
