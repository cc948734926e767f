PRE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
using namespace novatel::edie; using namespace novatel::edie::oem;
using S = std::string;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static S fld(const S& n, const S& type, const S& dt, int len, const S& conv = "", const S& more = "") {
    return "{\"name\":\"" + n + "\",\"description\":\"\",\"type\":\"" + type + "\"," + (conv.empty() ? S() : "\"conversionString\":\"" + conv + "\",") + "\"dataType\":{\"name\":\"" + dt + "\",\"length\":" + std::to_string(len) + ",\"description\":\"\"}" + more + "}";
}
static S defs(const std::vector<std::pair<unsigned, S>>& d) { S o; for (auto& x : d) o += (o.empty() ? "" : ",") + S("\"") + std::to_string(x.first) + "\":[" + x.second + "]"; return "{" + o + "}"; }
static S msg(unsigned id, const S& n, unsigned latest, const S& d) {
    return "{\"_id\":\"" + n + "\",\"messageID\":" + std::to_string(id) + ",\"name\":\"" + n + "\",\"description\":\"\",\"latestMsgDefCrc\":\"" + std::to_string(latest) + "\",\"fields\":" + d + "}";
}
static S enm(const S& id, const S& n, const std::vector<std::pair<unsigned, S>>& v) {
    S o; for (auto& x : v) o += (o.empty() ? "" : ",") + S("{\"value\":") + std::to_string(x.first) + ",\"name\":\"" + x.second + "\",\"description\":\"\"}";
    return "{\"_id\":\"" + id + "\",\"name\":\"" + n + "\",\"enumerators\":[" + o + "]}";
}
static S dbj(const S& m, const S& e, const S& fam = "OEM") { return "{\"meta\":{\"subset\":\"\",\"version\":\"1.0.0\",\"messageFamily\":\"" + fam + "\"},\"messages\":[" + m + "],\"enums\":[" + e + "]}"; }
static S stdEnums() {
    return enm("p", "PortAddress", {{0, "NO_PORTS"}, {32, "COM1"}, {192, "THISPORT"}}) + "," + enm("t", "GPSTimeStatus", {{20, "UNKNOWN"}, {180, "FINESTEERING"}}) + "," +
           enm("c", "Commands", {{1, "LOG"}}) + "," + enm("r", "Responses", {{1, "OK"}, {2, "ERROR:Bad"}});
}
'''
