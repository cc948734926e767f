// Writes the database of a scenario as the file the scenario names, and flattens messages given in binary.
#include "vh_msg.hpp"
#include "vh_oem.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include <fstream>
using namespace novatel::edie;
using namespace vh;

int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        const std::string text = dbJson(sc["msgs"], sc["enums"], "OEM").dump();
        std::ofstream(sc["file"].get<std::string>()) << text;
        auto db = ParseJsonDb(text);
        oem::MessageDecoder dec(db);
        oem::Encoder enc(db);
        for (auto& e : sc["ev"])
        {
            const auto def = db->GetMsgDef(static_cast<uint32_t>(e["id"].get<int>()));
            auto b = bytes(e["b"]);
            b.resize(b.size() + 8);
            oem::MetaDataStruct m;
            m.eFormat = HEADER_FORMAT::BINARY;
            m.usMessageId = e["id"];
            m.uiMessageCrc = def->latestMessageCrc;
            m.messageName = def->name;
            m.uiBinaryMsgLength = static_cast<uint32_t>(b.size() - 8);
            CompositeField cf;
            e["out"] = J::array();
            try
            {
                auto s = dec.Decode(b.data(), cf, m);
                if (s == STATUS::SUCCESS)
                {
                    oem::IntermediateHeader h;
                    h.usMessageId = m.usMessageId;
                    std::vector<unsigned char> o(60000, 0xEE);
                    auto* p = o.data();
                    MessageDataStruct d;
                    s = enc.Encode(&p, static_cast<uint32_t>(o.size()), h, cf, d, HEADER_FORMAT::BINARY, ENCODE_FORMAT::FLATTENED_BINARY);
                    if (s == STATUS::SUCCESS)
                    {
                        // the body is what lies between the header and the checksum
                        for (auto i = d.uiMessageHeaderLength; i + 4 < d.uiMessageLength; ++i) { e["out"].push_back(d.pucMessage[i]); }
                    }
                }
                e["st"] = st(s);
            }
            catch (const std::exception& x) { e["st"] = std::string("EXCEPTION ") + x.what(); }
        }
    });
}
