PROPERTY = "L01"; SRC = "all"
exec(open("/verif/tools/seeds/_db.py").read())
NEEDS = "both time bounds set, then the upper one cleared"
BREAKS = "clearing one time bound silently switches off the other"
EDITS = [("src/decoders/oem/src/filter.cpp", "    bMyFilterUpperTime = false;\n    if (!bMyFilterLowerTime) { Remove(vMyFilterFunctions, &Filter::FilterTime); }",
          "    bMyFilterUpperTime = false;\n    Remove(vMyFilterFunctions, &Filter::FilterTime);")]
DEMO = PRE + r'''
#include "novatel_edie/decoders/oem/filter.hpp"
int main() {
    Filter f; MetaDataStruct m; m.eFormat = HEADER_FORMAT::BINARY; m.usWeek = 10; m.dMilliseconds = 5000;
    f.SetIncludeLowerTimeBound(10, 6.0); f.SetIncludeUpperTimeBound(10, 8.0);
    CHECK(!f.DoFiltering(m));
    f.ClearUpperTimeBound();
    CHECK(!f.DoFiltering(m));
    m.dMilliseconds = 9000; CHECK(f.DoFiltering(m));
    return 0;
}
'''
