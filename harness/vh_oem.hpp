// Shared bits of the message-level harnesses.
#pragma once
#include "vh_msg.hpp"

#include <cmath>

#include "novatel_edie/decoders/common/common.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"

namespace vh {
using namespace novatel::edie;
inline std::string st(STATUS s)
{
    switch (s)
    {
    case STATUS::SUCCESS: return "SUCCESS";
    case STATUS::FAILURE: return "FAILURE";
    case STATUS::UNKNOWN: return "UNKNOWN";
    case STATUS::INCOMPLETE: return "INCOMPLETE";
    case STATUS::INCOMPLETE_MORE_DATA: return "INCOMPLETE_MORE_DATA";
    case STATUS::NULL_PROVIDED: return "NULL_PROVIDED";
    case STATUS::NO_DATABASE: return "NO_DATABASE";
    case STATUS::NO_DEFINITION: return "NO_DEFINITION";
    case STATUS::NO_DEFINITION_EMBEDDED: return "NO_DEFINITION_EMBEDDED";
    case STATUS::BUFFER_FULL: return "BUFFER_FULL";
    case STATUS::BUFFER_EMPTY: return "BUFFER_EMPTY";
    case STATUS::STREAM_EMPTY: return "STREAM_EMPTY";
    case STATUS::UNSUPPORTED: return "UNSUPPORTED";
    case STATUS::MALFORMED_INPUT: return "MALFORMED_INPUT";
    case STATUS::DECOMPRESSION_FAILURE: return "DECOMPRESSION_FAILURE";
    default: return "?";
    }
}
inline J w32(uint32_t v) { return limbs<uint32_t>(v); }
// a double holding a whole number of milliseconds, as a 32-bit word
inline J ms(double d) { return {{"w", w32(static_cast<uint32_t>(static_cast<uint64_t>(std::floor(d < 0 ? 0 : d))))}, {"x", d == std::floor(d) && d >= 0 && d < 4294967296.0}}; }
inline J hdr(const oem::IntermediateHeader& h)
{
    return {{"id", h.usMessageId}, {"type", h.ucMessageType}, {"port", w32(h.uiPortAddress)}, {"len", h.usLength}, {"seq", h.usSequence}, {"idle", h.ucIdleTime},
            {"ts", w32(h.uiTimeStatus)}, {"week", h.usWeek}, {"ms", ms(h.dMilliseconds)}, {"rs", w32(h.uiReceiverStatus)}, {"crc", w32(h.uiMessageDefinitionCrc)}, {"ver", h.usReceiverSwVersion}};
}
inline J meta(const oem::MetaDataStruct& m)
{
    return {{"fmt", static_cast<int>(m.eFormat)}, {"sib", m.ucSiblingId}, {"ts", w32(static_cast<uint32_t>(m.eTimeStatus))}, {"resp", m.bResponse}, {"week", m.usWeek},
            {"ms", ms(m.dMilliseconds)}, {"id", m.usMessageId}, {"crc", w32(m.uiMessageCrc)}, {"hl", m.uiHeaderLength}, {"bl", m.uiBinaryMsgLength}, {"name", jbytes(m.messageName)}};
}
inline oem::IntermediateHeader mkhdr(const J& j)
{
    oem::IntermediateHeader h;
    h.usMessageId = j["id"];
    h.ucMessageType = j["type"];
    h.uiPortAddress = u32of(j["port"]);
    h.usLength = j["len"];
    h.usSequence = j["seq"];
    h.ucIdleTime = j["idle"];
    h.uiTimeStatus = u32of(j["ts"]);
    h.usWeek = j["week"];
    h.dMilliseconds = u32of(j["ms"].is_object() ? j["ms"]["w"] : j["ms"]);
    h.uiReceiverStatus = u32of(j["rs"]);
    h.uiMessageDefinitionCrc = u32of(j["crc"]);
    h.usReceiverSwVersion = j["ver"];
    return h;
}
inline J counts(const oem::HeaderDecoder& d)
{
    J a = J::array();
    for (const auto& kv : d.GetMessageCounts())
    {
        a.push_back({{"id", std::get<0>(kv.first)}, {"fmt", static_cast<int>(std::get<1>(kv.first))}, {"sib", std::get<2>(kv.first)}, {"n", kv.second}});
    }
    return a;
}
} // namespace vh
