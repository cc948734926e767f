PROPERTY = "X01"; SRC = "all"
exec(open("/verif/tools/seeds/_rx.py").read())
NEEDS = "use of the length of the held message that conversion to binary reports"
BREAKS = "the held message is reported without its header"
EDITS = [("src/decoders/oem/src/rxconfig/rxconfig_handler.cpp", """    stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
    stEmbeddedMessageData_.uiMessageLength = stEmbeddedMessageData_.uiMessageBodyLength + stEmbeddedMessageData_.uiMessageHeaderLength;

    return STATUS::SUCCESS;
}

STATUS RxConfigHandler::Encode(unsigned""", """    stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
    stEmbeddedMessageData_.uiMessageLength = stMessageData_.uiMessageBodyLength;

    return STATUS::SUCCESS;
}

STATUS RxConfigHandler::Encode(unsigned""")]
BREAKS = "the held message is reported with the checksum of the outer message"
DEMO = PRE + r'''
int main() {
    RxConfigHandler h(rxDb(true, true)); MessageDataStruct a, b; MetaDataStruct x, y; S in = outer("RXCONFIGA", inner(5));
    CHECK(h.Write((const unsigned char*)in.data(), in.size()) == in.size());
    CHECK(h.Convert(a, x, b, y, ENCODE_FORMAT::BINARY) == STATUS::SUCCESS);
    CHECK(a.uiMessageLength == 28 + 28 + 8 + 4 + 4); CHECK(b.pucMessage == a.pucMessage + 28); CHECK(b.uiMessageLength == 28 + 8 + 4);
    return 0;
}
'''
