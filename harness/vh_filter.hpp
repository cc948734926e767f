// Applying one operation to a filter.
#pragma once
#include "vh_oem.hpp"

#include "novatel_edie/decoders/oem/filter.hpp"

namespace vh {
using FilterId = std::tuple<uint32_t, HEADER_FORMAT, uint8_t>;
using FilterName = std::tuple<std::string, HEADER_FORMAT, uint8_t>;
inline HEADER_FORMAT filterFmt(const J& j) { return static_cast<HEADER_FORMAT>(j.get<int>()); }
inline FilterId filterId(const J& j) { return {j[0].get<uint32_t>(), filterFmt(j[1]), j[2].get<uint8_t>()}; }
inline FilterName filterName(const J& j) { return {(j[0].is_string() ? j[0].get<std::string>() : [&] { const auto b = bytes(j[0]); return std::string(b.begin(), b.end()); }()), filterFmt(j[1]), j[2].get<uint8_t>()}; }
inline TIME_STATUS filterTs(const J& j) { return static_cast<TIME_STATUS>(j.get<int>()); }
template <class P> void filterOp(P& f, const J& e)
{
    const std::string op = e["op"];
    if (op == "lo") { f->SetIncludeLowerTimeBound(e["t"][0], e["t"][1].get<double>() / 1000.0); }
    else if (op == "hi") { f->SetIncludeUpperTimeBound(e["t"][0], e["t"][1].get<double>() / 1000.0); }
    else if (op == "clo") { f->ClearLowerTimeBound(); }
    else if (op == "chi") { f->ClearUpperTimeBound(); }
    else if (op == "ct") { f->ClearTimeBounds(); }
    else if (op == "it") { f->InvertTimeFilter(e["b"]); }
    else if (op == "dec") { f->SetIncludeDecimationMs(e["n"]); }
    else if (op == "decs") { f->SetIncludeDecimation(e["n"].get<double>() / 1000.0); }
    else if (op == "cdec") { f->ClearDecimationFilter(); }
    else if (op == "idec") { f->InvertDecimationFilter(e["b"]); }
    else if (op == "st") { f->IncludeTimeStatus(filterTs(e["v"])); }
    else if (op == "sts") { std::vector<TIME_STATUS> v; for (const auto& x : e["l"]) { v.push_back(filterTs(x)); } f->IncludeTimeStatus(v); }
    else if (op == "rst") { f->RemoveTimeStatus(filterTs(e["v"])); }
    else if (op == "cst") { f->ClearTimeStatuses(); }
    else if (op == "ist") { f->InvertTimeStatusFilter(e["b"]); }
    else if (op == "mid")
    {
        auto [a, b, c] = filterId(e["v"]);
        if (b == HEADER_FORMAT::ALL && c == 0) { f->IncludeMessageId(a); } else { f->IncludeMessageId(a, b, c); }
    }
    else if (op == "mids") { std::vector<FilterId> v; for (const auto& x : e["l"]) { v.push_back(filterId(x)); } f->IncludeMessageId(v); }
    else if (op == "rid") { auto [a, b, c] = filterId(e["v"]); f->RemoveMessageId(a, b, c); }
    else if (op == "cid") { f->ClearMessageIds(); }
    else if (op == "iid") { f->InvertMessageIdFilter(e["b"]); }
    else if (op == "nm")
    {
        auto [a, b, c] = filterName(e["v"]);
        if (b == HEADER_FORMAT::ALL && c == 0) { f->IncludeMessageName(a); } else { f->IncludeMessageName(a, b, c); }
    }
    else if (op == "nms") { std::vector<FilterName> v; for (const auto& x : e["l"]) { v.push_back(filterName(x)); } f->IncludeMessageName(v); }
    else if (op == "rnm") { auto [a, b, c] = filterName(e["v"]); f->RemoveMessageName(a, b, c); }
    else if (op == "cnm") { f->ClearMessageNames(); }
    else if (op == "inm") { f->InvertMessageNameFilter(e["b"]); }
    else if (op == "nmea") { f->IncludeNmeaMessages(e["b"]); }
    else if (op == "resp") { f->IncludeResponses(e["b"]); }
    else if (op == "nresp") { f->IncludeNonResponses(e["b"]); }
    else if (op == "clear") { f->ClearFilters(); }
    else if (op == "copy")
    {
        P g(new oem::Filter(*f));
        f->ClearFilters();
        f->IncludeMessageId(1);
        f = std::move(g);
    }
}
} // namespace vh
