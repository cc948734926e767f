// Commander (C01): the text of a command in, an ASCII or binary command out.
#include "vh_tree.hpp"

#include "novatel_edie/decoders/oem/commander.hpp"
using namespace vh;

static ENCODE_FORMAT efmt(const std::string& s)
{
    if (s == "ASCII") { return ENCODE_FORMAT::ASCII; }
    if (s == "ABBREV_ASCII") { return ENCODE_FORMAT::ABBREV_ASCII; }
    if (s == "BINARY") { return ENCODE_FORMAT::BINARY; }
    if (s == "FLATTENED_BINARY") { return ENCODE_FORMAT::FLATTENED_BINARY; }
    if (s == "JSON") { return ENCODE_FORMAT::JSON; }
    return ENCODE_FORMAT::UNSPECIFIED;
}
int main(int argc, char** argv)
{
    GetBaseLoggerManager()->RegisterLogger("h");
    spdlog::set_level(spdlog::level::off);
    return drive(argc, argv, [](J& sc) {
        auto db = ParseJsonDb(dbJson(sc["msgs"], sc["enums"], "OEM").dump());
        oem::MessageDecoder dec(db);
        oem::Encoder enc(db);
        auto cmd = sc["db"].get<bool>() ? std::make_unique<oem::Commander>(db) : std::make_unique<oem::Commander>();
        for (auto& e : sc["ev"])
        {
            if (e["op"] == "db")
            {
                cmd->LoadJsonDb(e["on"].get<bool>() ? db : nullptr);
                continue;
            }
            const auto c = bytes(e["cmd"]);
            const uint32_t cap = e["cap"];
            // exactly as long as it says it is, so that reading beyond it is noticed
            std::unique_ptr<char[]> text(new char[c.size() + 1]);
            std::memcpy(text.get(), c.data(), c.size());
            text[c.size()] = '7';
            std::vector<char> out(cap + 64, static_cast<char>(0xA5));
            uint32_t size = cap;
            const bool nul = e["null"];
            const char* in = nul && !e.value("nobuf", false) ? nullptr : text.get();
            char* to = nul && e.value("nobuf", false) ? nullptr : out.data();
            std::string s;
            try
            {
                s = st(e["stat"].get<bool>() ? oem::Commander::Encode(*db, dec, enc, in, static_cast<uint32_t>(c.size()), to, size, efmt(e["f"]))
                                             : cmd->Encode(in, static_cast<uint32_t>(c.size()), to, size, efmt(e["f"])));
            }
            catch (const std::exception& x) { s = std::string("EXCEPTION ") + x.what(); }
            e["st"] = s;
            e["size"] = size;
            bool clean = true;
            for (size_t i = cap; i < out.size(); ++i) { clean = clean && static_cast<unsigned char>(out[i]) == 0xA5; }
            e["clean"] = clean;
            e["nul"] = size < cap && out[size] == '\0';
            e["out"] = s == "SUCCESS" ? jbytes(reinterpret_cast<unsigned char*>(out.data()), std::min(size, cap)) : J::array();
        }
    });
}
