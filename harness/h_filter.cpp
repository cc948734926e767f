// Filters (L01): a history of settings; after each, the verdict on every message of the scenario.
#include "vh_filter.hpp"
using namespace vh;
int main(int argc, char** argv)
{
    return drive(argc, argv, [](J& sc) {
        auto f = std::make_unique<oem::Filter>();
        std::vector<oem::MetaDataStruct> q;
        for (const auto& m : sc["q"])
        {
            oem::MetaDataStruct x;
            x.eFormat = filterFmt(m["fmt"]);
            x.bResponse = m["resp"];
            x.usMessageId = m["id"];
            x.messageName = m["name"].get<std::string>();
            x.ucSiblingId = m["sib"];
            x.usWeek = m["week"];
            x.dMilliseconds = m["ms"].get<double>();
            x.eTimeStatus = filterTs(m["ts"]);
            q.push_back(x);
        }
        for (auto& e : sc["ev"])
        {
            filterOp(f, e);
            J r = J::array();
            for (const auto& m : q) { r.push_back(f->DoFiltering(m)); }
            e["r"] = r;
        }
    });
}
