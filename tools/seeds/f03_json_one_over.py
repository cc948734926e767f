PROPERTY = "F03"; SRC = "framing"
exec(open("/verif/tools/seeds/_frame.py").read())
NEEDS = "a JSON object exactly one byte longer than the caller's buffer"
BREAKS = "one byte is written past the caller's buffer instead of reporting that the buffer is full"
EDITS = [("src/decoders/oem/src/framer.cpp", "            if (uiFrameBufferSize_ < uiMyByteCount)\n", "            if (uiFrameBufferSize_ + 1 < uiMyByteCount)\n")]
DEMO = PRE + r'''
int main() {
    S m = "{\"a\": {\"b\": 12345}}";
    Framer f; f.SetFrameJson(true); MetaDataStruct md;
    CHECK(put(f, m));
    std::vector<unsigned char> buf(m.size() + 8, 0xEE);
    CHECK(f.GetFrame(buf.data(), (uint32_t)m.size() - 1, md) == STATUS::BUFFER_FULL);
    for (unsigned char c : buf) CHECK(c == 0xEE);
    CHECK(f.GetFrame(buf.data(), (uint32_t)m.size(), md) == STATUS::SUCCESS);
    CHECK(S((char*)buf.data(), m.size()) == m);
    return 0;
}
'''
