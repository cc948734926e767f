exec(open("/verif/tools/seeds/_db.py").read())
PRE += r'''
struct Rig {
    MessageDatabase::Ptr db; MessageDecoder dec; Encoder enc; CompositeField f; IntermediateHeader h; MetaDataStruct m; STATUS st = STATUS::UNKNOWN; unsigned id;
    Rig(const S& def, const S& enums = "", unsigned i = 42) : db(ParseJsonDb(dbj(msg(i, "BESTPOS", 7, defs({{7, def}})), stdEnums() + (enums.empty() ? "" : "," + enums)))), dec(db), enc(db), id(i) {
        h.usMessageId = i; h.uiMessageDefinitionCrc = 7; h.uiPortAddress = 32; h.uiTimeStatus = 180; h.usWeek = 1; h.dMilliseconds = 1000;
    }
    bool decode(HEADER_FORMAT f_, const S& b) {
        m = MetaDataStruct(); m.eFormat = f_; m.usMessageId = id; m.uiMessageCrc = 7; m.messageName = "BESTPOS";
        m.uiBinaryMsgLength = (uint16_t)b.size(); m.uiLength = (uint32_t)b.size() + (f_ == HEADER_FORMAT::BINARY ? 4 : f_ == HEADER_FORMAT::ASCII ? 11 : 2); m.uiHeaderLength = 0;
        S t = b; if (f_ == HEADER_FORMAT::ASCII) t += "*00000000\r\n"; else if (f_ == HEADER_FORMAT::ABB_ASCII) t += "\r\n"; else if (f_ == HEADER_FORMAT::BINARY) t += S(4, '\0');
        st = dec.Decode((const unsigned char*)t.data(), f, m); return st == STATUS::SUCCESS;
    }
    S whole; S body(ENCODE_FORMAT e, HEADER_FORMAT hf = HEADER_FORMAT::BINARY, unsigned cap = 60000) {
        std::vector<unsigned char> o(70000, 0xEE); unsigned char* p = o.data(); MessageDataStruct d;
        st = enc.Encode(&p, cap, h, f, d, hf, e); if (st != STATUS::SUCCESS) return "";
        whole = S((char*)d.pucMessage, d.uiMessageLength);
        return S((char*)d.pucMessageBody, d.uiMessageBodyLength);
    }
};
'''
