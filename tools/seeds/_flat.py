import json
def F(n, t, dt, ln, **k): return dict({"name": n, "type": t, "dataType": {"name": dt, "length": ln}}, **k)
def DB(*msgs): return json.dumps({"messages": [{"name": n, "messageID": 40 + i, "latestMsgDefCrc": str(latest), "fields": {str(c): fs for c, fs in defs}} for i, (n, latest, defs) in enumerate(msgs)], "enums": []})
PRE = r'''
#include "defs.hpp"
#include <cstdio>
#include <cstddef>
using namespace novatel::edie::oem;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
#define AT(S, m) (offsetof(S, m))
'''
