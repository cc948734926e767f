"""D03: a JSON database is loaded faithfully, laid out as the message family demands, or refused."""
import random
import msgdef as M, scen, vf
LEVEL = "model_checking"
CONV = ["", "%d", "%u", "%hu", "%lf", "%10.6f", "%.3lf", "%4d", "%s", "%S", "%Z", "%P", "%XB", "%5.5f", "%12lu", "%.0f", "%0d", "%2.lf", "%30.15le", "%k", "%B"]
BAD = ["d", "%", "%5", "%5.", "%d5", "%-d", "%d ", "%.f.f", "%l_f"]


def reqptrs(msgs, enums):
    out = ["/messages", "/enums"]

    def fld(p, f):
        out.extend(p + "/" + k for k in ("name", "description", "type", "dataType", "dataType/name", "dataType/length", "dataType/description"))
        if f["t"] == "ENUM": out.append(p + "/enumID")
        if f["t"] not in ("SIMPLE", "ENUM"): out.append(p + "/arrayLength")
        if f["t"] == "FIELD_ARRAY":
            out.append(p + "/fields")
            for i, g in enumerate(f["fields"]): fld("%s/fields/%d" % (p, i), g)
    for i, m in enumerate(msgs):
        p = "/messages/%d" % i
        out.extend(p + "/" + k for k in ("_id", "messageID", "name", "description", "latestMsgDefCrc", "fields"))
        for d in m["defs"]:
            for j, f in enumerate(d["fields"]):
                fld("%s/fields/%d/%d" % (p, d["crc"][0] * 65536 + d["crc"][1], j), f)
    for i, e in enumerate(enums):
        p = "/enums/%d" % i
        out.extend(p + "/" + k for k in ("_id", "name", "enumerators"))
        for j in range(len(e["vals"])): out.extend("%s/enumerators/%d/%s" % (p, j, k) for k in ("value", "name", "description"))
    return out


def walk(fs):
    for f in fs:
        yield f
        yield from walk(f["fields"])


def run(ctx):
    exe = vf.build("h_db")
    r = random.Random(ctx.seed)
    sc = []
    for n in range(ctx.pick(220, 3500)):
        eids = ["x", "y"]
        msgs = [M.msg(i, "M%d" % i, [(c, M.rand_fields(r, eids, r.randint(0, 7), 3)) for c in r.sample([0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 12345], r.randint(1, 2))], tag="d%d" % i)
                for i in r.sample([0, 1, 2, 300, 65535], r.randint(1, 2))]
        enums = [M.enumdef(e, e.upper(), [(r.randrange(2**31), "n%d" % j, "d%d" % j) for j in range(r.randint(0, 3))]) for e in r.sample(eids, r.randint(0, 2))]
        for m in msgs:
            for d in m["defs"]:
                for f in walk(d["fields"]):
                    if f["t"] != "STRING" and f["t"] != "FIELD_ARRAY" and r.random() < .5: f["conv"] = r.choice(CONV)
                    if f["t"] == "VARIABLE_LENGTH_ARRAY" and r.random() < .3: f["ref"] = "f0"
        base = {"op": "ld", "msgs": msgs, "enums": enums, "fam": r.choice(["", "OEM", "OEM", "ZZ"]), "del": "", "cut": 0}
        ev = [base]
        ps = reqptrs(msgs, enums)
        for p in r.sample(ps, min(len(ps), 4)):
            ev.append(dict(base, **{"del": p}))
        ev.append(dict(base, cut=r.randint(1, 99)))
        sc.append({"kind": "load", "ev": ev})
        al = [(i, j, k) for i, m in enumerate(msgs) for j, d in enumerate(m["defs"]) for k in range(len(d["fields"]))]
        if al and r.random() < .5:
            import copy
            m2 = copy.deepcopy(msgs)
            i, j, k = r.choice(al)
            fs = list(walk([m2[i]["defs"][j]["fields"][k]]))
            f = r.choice(fs)
            if r.random() < .7: f["conv"] = r.choice(BAD)
            elif f["t"] == "SIMPLE": f["t"] = r.choice(["BITFIELD", "UNKNOWN", "simple"])
            sc.append({"kind": "load", "ev": [dict(base, msgs=m2)]})
    scen.validate(ctx, exe, sc, "LoadTrace", "SPECIFICATION Spec\n", "load", "loading a message database")
    ctx.assumptions += ["the JSON parser (simdjson) is replaced by a stand-in with the same interface (harness/shim)"]
