exec(open("/verif/tools/seeds/_db.py").read())
PRE += r'''
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
static unsigned crcOf(const S& b) { unsigned c = 0; for (unsigned char x : b) { c ^= x; for (int j = 0; j < 8; ++j) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return c; }
static S hex8(unsigned c) { char t[12]; snprintf(t, 12, "%08x", c); return t; }
static S hdrOf(const S& n) { return n + ",COM1,0,77.5,FINESTEERING,1,1.000,00000000,0000,0;"; }
static S rxdef(unsigned id, const S& n) { return msg(id, n, 1, defs({{1, fld("data", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%R", ",\"arrayLength\":3000,\"arrayLengthFieldSize\":4")}})); }
static MessageDatabase::Ptr rxDb(bool cfg, bool user) {
    S m = msg(42, "BESTPOS", 7, defs({{7, fld("a", "SIMPLE", "UINT", 4, "%u") + "," + fld("b", "SIMPLE", "UINT", 4, "%u")}}));
    if (cfg) m += "," + rxdef(128, "RXCONFIG");
    if (user) m += "," + rxdef(2474, "RXCONFIGUSER");
    return ParseJsonDb(dbj(m, stdEnums())); }
static S inner(unsigned a) { S b = hdrOf("BESTPOSA") + "" + std::to_string(a) + ",2"; return "#" + b + "*" + hex8(~crcOf(b)); }
static S outer(const S& name, const S& in) { S b = hdrOf(name) + in; return "#" + b + "*" + hex8(crcOf(b)) + "\r\n"; }
'''
