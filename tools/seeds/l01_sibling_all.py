PROPERTY = "L01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "a name filter for all formats and a message from another sibling"
BREAKS = "a name included in all formats matches messages of every sibling"
EDITS = [("src/decoders/oem/src/filter.cpp", "return szMessageName == std::get<0>(elem_) && HEADER_FORMAT::ALL == std::get<1>(elem_) && eSource == std::get<2>(elem_);",
          "return szMessageName == std::get<0>(elem_) && HEADER_FORMAT::ALL == std::get<1>(elem_) && eSource >= std::get<2>(elem_);")]
DEMO = PRE + r'''
#include "novatel_edie/decoders/oem/filter.hpp"
int main() {
    Filter f; MetaDataStruct m; m.eFormat = HEADER_FORMAT::BINARY; m.messageName = "RANGE"; m.usMessageId = 43;
    f.IncludeMessageName("RANGE", HEADER_FORMAT::ALL, 0);
    CHECK(f.DoFiltering(m));
    m.ucSiblingId = 1; CHECK(!f.DoFiltering(m));
    f.InvertMessageNameFilter(true); CHECK(f.DoFiltering(m));
    return 0;
}
'''
