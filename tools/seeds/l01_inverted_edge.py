PROPERTY = "L01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "an inverted time filter with both bounds and a message exactly on the upper bound in the same week"
BREAKS = "the message on the upper bound passes both the filter and its inverse"
EDITS = [("src/decoders/oem/src/filter.cpp", "usMetaDataWeek < uiMyUpperWeek || (usMetaDataWeek == uiMyUpperWeek && usMetaDataMilliseconds <= uiMyUpperMSec)",
          "usMetaDataWeek < uiMyUpperWeek || (usMetaDataWeek == uiMyUpperWeek && usMetaDataMilliseconds < uiMyUpperMSec)")]
DEMO = PRE + r'''
#include "novatel_edie/decoders/oem/filter.hpp"
int main() {
    Filter f; MetaDataStruct m; m.eFormat = HEADER_FORMAT::BINARY; m.usWeek = 10;
    f.SetIncludeLowerTimeBound(10, 6.0); f.SetIncludeUpperTimeBound(10, 8.0);
    for (int ms = 5999; ms <= 8001; ++ms) {
        m.dMilliseconds = ms;
        f.InvertTimeFilter(false); bool in = f.DoFiltering(m);
        f.InvertTimeFilter(true); bool out = f.DoFiltering(m);
        CHECK(in != out); CHECK(in == (ms >= 6000 && ms <= 8000));
    }
    return 0;
}
'''
