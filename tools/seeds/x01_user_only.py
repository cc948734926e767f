PROPERTY = "X01"; SRC = "all"
exec(open("/verif/tools/seeds/_rx.py").read())
NEEDS = "a database that defines RXCONFIGUSER but not RXCONFIG"
BREAKS = "RXCONFIGUSER messages are not decoded"
EDITS = [("src/decoders/oem/src/rxconfig/rxconfig_handler.cpp", "if (!pclRxConfigUserFieldDef) { return STATUS::NO_DEFINITION; }", "if (!pclRxConfigFieldDef || !pclRxConfigUserFieldDef) { return STATUS::NO_DEFINITION; }")]
DEMO = PRE + r'''
int main() {
    RxConfigHandler h(rxDb(false, true)); S in = outer("RXCONFIGUSERA", inner(1)); MessageDataStruct a, b; MetaDataStruct x, y;
    CHECK(h.Write((const unsigned char*)in.data(), in.size()) == in.size());
    CHECK(h.Convert(a, x, b, y, ENCODE_FORMAT::ASCII) == STATUS::SUCCESS); CHECK(S((char*)a.pucMessage, a.uiMessageLength) == in);
    return 0;
}
'''
