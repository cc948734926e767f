PROPERTY = "F06"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "a buffer of exactly the size of the message"
BREAKS = "the manager does not return a message that just fits"
EDITS = [("src/decoders/common/src/framer_manager.cpp", "if (stMetaData_->uiLength > uiFrameBufferSize_) { return STATUS::BUFFER_FULL; }", "if (stMetaData_->uiLength >= uiFrameBufferSize_) { return STATUS::BUFFER_FULL; }")]
DEMO = PRE + r'''
int main() {
    S a = ascii("LOGA,COM1;1,2"); FramerManager m({"OEM"});
    CHECK(m.Write((const unsigned char*)a.data(), a.size()) == a.size());
    static unsigned char buf[70000]; MetaDataBase* md = nullptr;
    CHECK(m.GetFrame(buf, a.size(), md) == STATUS::SUCCESS && md->uiLength == a.size() && S((char*)buf, md->uiLength) == a);
    return 0;
}
'''
