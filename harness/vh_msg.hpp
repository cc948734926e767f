// Compact message-database definitions of the scenarios -> the JSON text the library loads.
#pragma once
#include "vh.hpp"

namespace vh {
inline J fieldJson(const J& f)
{
    J o;
    const std::string t = f["t"];
    o["name"] = f["n"];
    o["type"] = t;
    o["description"] = f.value("desc", std::string());
    o["dataType"] = {{"name", f["dt"]}, {"length", f["len"]}, {"description", nullptr}};
    if (f["conv"].get<std::string>().empty()) { o["conversionString"] = nullptr; }
    else { o["conversionString"] = f["conv"]; }
    if (t == "ENUM") { o["enumID"] = f["enum"]; }
    if (t == "FIXED_LENGTH_ARRAY" || t == "VARIABLE_LENGTH_ARRAY" || t == "STRING" || t == "FIELD_ARRAY")
    {
        o["arrayLength"] = f["al"];
        const std::string ref = f["ref"];
        if (!ref.empty()) { o["arrayLengthRef"] = ref; }
        if (f["alfs"].get<int>() != 4 || f.value("alfsx", 0) == 1) { o["arrayLengthFieldSize"] = f["alfs"]; }
    }
    if (t == "FIELD_ARRAY")
    {
        J a = J::array();
        for (const auto& g : f["fields"]) { a.push_back(fieldJson(g)); }
        o["fields"] = a;
    }
    return o;
}
inline uint32_t u32of(const J& j)
{
    if (j.is_array()) { return unlimbs<uint32_t>(j); }
    return j.get<uint32_t>();
}
// msgs: [{id,name,tag,latest,defs:[{crc,fields}]}]   enums: [{id,name,vals:[{v,n,d}]}]
inline J dbJson(const J& msgs, const J& enums, const std::string& family)
{
    J db;
    if (!family.empty()) { db["meta"] = {{"messageFamily", family}, {"version", "1.0"}, {"subset", "x"}}; }
    db["messages"] = J::array();
    for (const auto& m : msgs)
    {
        J o;
        o["_id"] = "m" + m["name"].get<std::string>();
        o["messageID"] = m["id"];
        o["name"] = m["name"];
        o["description"] = m.value("tag", std::string());
        o["latestMsgDefCrc"] = std::to_string(u32of(m["latest"]));
        J fs = J::object();
        for (const auto& d : m["defs"])
        {
            J a = J::array();
            for (const auto& f : d["fields"]) { a.push_back(fieldJson(f)); }
            fs[std::to_string(u32of(d["crc"]))] = a;
        }
        o["fields"] = fs;
        db["messages"].push_back(o);
    }
    db["enums"] = J::array();
    for (const auto& e : enums)
    {
        J o;
        o["_id"] = e["id"];
        o["name"] = e["name"];
        o["enumerators"] = J::array();
        for (const auto& v : e["vals"]) { o["enumerators"].push_back({{"value", u32of(v["v"])}, {"name", v["n"]}, {"description", v["d"]}}); }
        db["enums"].push_back(o);
    }
    return db;
}
} // namespace vh
