exec(open("/verif/tools/seeds/_db.py").read())
PRE += r'''
#include <sstream>
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
static MessageDatabase::Ptr theDb() { return ParseJsonDb(dbj(msg(42, "BESTPOS", 7, defs({{7, fld("a", "SIMPLE", "UINT", 4, "%u") + "," + fld("b", "SIMPLE", "UINT", 4, "%u")}})), stdEnums())); }
static unsigned crcOf(const S& b) { unsigned c = 0; for (unsigned char x : b) { unsigned t = (c ^ x) & 0xFF; for (int j = 8; j > 0; --j) t = t & 1 ? (t >> 1) ^ 0xEDB88320u : t >> 1; c = ((c >> 8) & 0xFFFFFF) ^ t; } return c; }
static S asc(const S& b) { char t[20]; snprintf(t, 20, "*%08x\r\n", crcOf(b)); return "#" + b + t; }
static S hdrOf(const S& n) { return n + ",COM1,0,77.5,FINESTEERING,1,1.000,00000000,0000,0;"; }
static S rd(Parser& p, bool last = false) { MessageDataStruct d; MetaDataStruct m; STATUS s = p.Read(d, m, last); if (s != STATUS::SUCCESS && s != STATUS::UNKNOWN) return s == STATUS::BUFFER_EMPTY ? "<empty>" : s == STATUS::NO_DEFINITION ? "<nodef>" : "<other>"; return S((char*)d.pucMessage, d.uiMessageLength); }
static S rd(FileParser& p) { MessageDataStruct d; MetaDataStruct m; STATUS s = p.Read(d, m); if (s != STATUS::SUCCESS && s != STATUS::UNKNOWN) return s == STATUS::STREAM_EMPTY ? "<empty>" : s == STATUS::NO_DEFINITION ? "<nodef>" : "<other>"; return S((char*)d.pucMessage, d.uiMessageLength); }
static void put(Parser& p, const S& s) { (void)!p.Write((const unsigned char*)s.data(), s.size()); }
'''
