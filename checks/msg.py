"""Shared by M01-M03 and E01-E03: message-body histories."""
import copy, json, random
import msgdef as M, msggen as G, scen, vf
b = G.b
FMTS = {"bin": ["BINARY", "SHORT_BINARY"], "asc": ["ASCII", "SHORT_ASCII"], "abb": ["ABB_ASCII", "SHORT_ABB_ASCII"], "obj": ["JSON"]}
RT = "INVARIANT RtBin\nINVARIANT RtFlat\nINVARIANT RtAsc\nINVARIANT RtAbb\nINVARIANT RtObj\nINVARIANT Emit\n"


def corpus(ctx, r, worlds, per, hard=.2):
    """worlds with encoded values: [(world, [(msg, def, value, {bin,asc,abb,obj})])]; the round trip is checked on the way"""
    ws, cases = [], []
    for _ in range(worlds):
        w = G.World(r, r.choice([1, 2, 3]), r.random() < hard)
        items = []
        for m in w.msgs:
            for d in m["defs"]:
                for _ in range(per):
                    v = w.values(d["fields"])
                    cases.append(w.case(d["fields"], v))
                    items.append([m, d, v, len(cases)])
        ws.append((w, items))
    p = ctx.path("cases%d.ndjson" % ctx.seq())
    with open(p, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    enc = {x["i"]: x for x in scen.generate(ctx, "MsgGen", "SPECIFICATION Spec\n" + RT, env={"CASES": p})}
    if len(enc) != len(cases):
        raise vf.CheckError("%d encodings for %d cases" % (len(enc), len(cases)))
    return [(w, [(m, d, v, enc[i]) for m, d, v, i in items]) for w, items in ws]


def base(fmt, mid, crc):
    return {"op": "dec", "fmt": fmt, "id": mid, "crc": crc, "resp": False, "rx": False, "null": False, "db": True, "sized": False}


def mut_bin(r, x):
    x = list(x)
    k = r.random()
    if k < .45: return x[:r.randint(0, len(x))]
    if k < .6: return x + [r.randrange(256) for _ in range(r.randint(1, 9))]
    if k < .9 and x:
        for _ in range(r.choice([1, 1, 2, 4])):
            x[r.randrange(len(x))] = r.choice([0, 1, 2, 3, 7, 255, 128, r.randrange(256)])
        return x
    return [r.randrange(256) for _ in range(r.randint(0, 40))]


TOK = ["", "0", "1", "2", "3", "-1", "7", "99", "255", "256", "65535", "65536", "4294967295", "4294967296", "-2147483648", "2147483648", "18446744073709551615", "18446744073709551616",
       "-9223372036854775808", "1.5", "-0", "+1", "1e5", "ff", "FF", "0xff", "fffffffff", "TRUE", "FALSE", "true", "abc", "\"", "\"a\"", "\"\"", "UNKNOWN", "V0_0", "MA", "MAQ1A_1", " 5", "  -3", "5 ",
       "12x", "-", ".", "nan", "inf", "1.2345", "0.001", "86400.000", "38+7", "38-3", "\\x41", "\\x4", "\\", "\\\\", "*", "65.5.5", "1_1", "00012"]


def mut_text(r, x, fd):
    t = list(x)
    k = r.random()
    if k < .28: return t[:r.randint(0, len(t))]
    if k < .75:
        seps = [-1] + [i for i, c in enumerate(t) if c == fd] + [len(t)]
        for _ in range(r.choice([1, 1, 1, 2])):
            j = r.randrange(len(seps) - 1)
            a, z = seps[j] + 1, seps[j + 1]
            new = b(r.choice(TOK))
            t = t[:a] + new + t[z:]
            break
        return [c for c in t if c]
    if k < .85 and t:
        i = r.randrange(len(t))
        return t[:i] + t[i + 1:]
    if k < .95:
        i = r.randrange(len(t) + 1)
        return t[:i] + [r.choice([44, 32, 34, 42, 13, 10, 60, 48, 57, 45, 46, 92, 65, 200])] + t[i:]
    return t + b(r.choice(["", "x", ",1", " 2", "\r\n", "\x80"]))


def N(t, s="", k=(), a=()):
    return {"t": t, "s": b(s), "k": list(k), "a": list(a)}


NODES = [N("n", "0"), N("n", "1"), N("n", "-1"), N("n", "255"), N("n", "256"), N("n", "-128"), N("n", "-129"), N("n", "65535"), N("n", "65536"), N("n", "4294967295"), N("n", "4294967296"),
         N("n", "2147483648"), N("n", "-2147483649"), N("n", "9223372036854775807"), N("n", "-9223372036854775808"), N("n", "18446744073709551615"), N("n", "1.5"), N("n", "-2.25"), N("n", "1e3"),
         N("s", ""), N("s", "a"), N("s", "UNKNOWN"), N("s", "V0_0"), N("s", "38"), N("s", "38+5"), N("s", "x y"), N("b", "true"), N("b", "false"), N("z"), N("a"), N("o"),
         N("a", a=[N("n", "1"), N("n", "2")]), N("a", a=[N("s", "x")])]


def mut_obj(r, n):
    n = copy.deepcopy(n)
    if n["t"] != "o": return n
    for _ in range(r.choice([1, 1, 2])):
        tgt = n
        # somewhere in the tree
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            sub = [x for x in tgt["a"] if x["t"] in "oa" and x["a"]]
            if not sub: break
            tgt = r.choice(sub)
        if not tgt["a"]: continue
        i = r.randrange(len(tgt["a"]))
        k = r.random()
        if k < .25:
            del tgt["a"][i]
            if tgt["t"] == "o": del tgt["k"][i]
        elif k < .75: tgt["a"][i] = copy.deepcopy(r.choice(NODES))
        elif tgt["t"] == "a": tgt["a"].insert(i, copy.deepcopy(r.choice(tgt["a"])))
        else:
            tgt["k"].append(b(r.choice(["extra", "F0", "f00", ""])))
            tgt["a"].append(copy.deepcopy(r.choice(NODES)))
    return n


def dec(r, w, item, kind, mutate):
    m, d, v, e = item
    fmt = r.choice(FMTS[kind])
    ev = base(fmt, m["id"], d["crc"])
    # a definition checksum the database does not have means the latest definition
    if d["crc"] == m["latest"] and r.random() < .15: ev["crc"] = M.limbs(0x0BADF00D)
    x = e[kind]
    if kind == "obj":
        ev["j"] = mut_obj(r, x) if mutate else x
        ev["style"] = 0 if r.random() < .3 else r.randrange(1, 2 ** 31)
        ev["broken"] = False
        if mutate and r.random() < .12:
            ev["cut"] = r.randint(1, 999); ev["broken"] = True
        elif mutate and r.random() < .05: ev["nobody"] = ev["broken"] = True
        elif mutate and r.random() < .04: ev["junk"] = ev["broken"] = True
        elif r.random() < .1: ev["nohdr"] = True
        if ev["j"] != x and r.random() < .5 and any(len(set(map(bytes, o["k"]))) != len(o["k"]) for o in objs(ev["j"])): ev["style"] = 0
        for o in objs(ev["j"]):
            if len(set(map(bytes, o["k"]))) != len(o["k"]): o["keep"] = True
    elif kind == "bin": ev["b"] = mut_bin(r, x) if mutate else x
    else:
        ev["b"] = mut_text(r, x, 44 if kind == "asc" else 32) if mutate else x
        ev["sized"] = len(ev["b"]) > 0 and r.random() < .7
    return ev


def objs(n):
    out = [n] if n["t"] == "o" else []
    for x in n["a"]: out += objs(x)
    return out


RESP = ["OK", "ERROR:Requested log does not exist", "ERROR:Not enough resources in system", "ERROR:x", "ERROR:Nothing of the sort", "ERROR", "ERROR:", "E", "OKAY", "ERROR:Requested log does not exist ", "ERROR:1,2"]


def response(r, kind):
    ev = base(r.choice(FMTS[kind]), r.choice([42, 7, 9999]), M.limbs(r.choice([0, 1, 5])))
    ev["resp"] = True
    t = b(r.choice(RESP))
    if kind == "bin":
        t = list(r.choice([1, 2, 3, 77, 4, 0, 2 ** 32 - 1]).to_bytes(4, "little")) + t
        ev["b"] = t if r.random() < .8 else t[:r.randint(0, len(t))]
    elif kind == "obj":
        ev["j"], ev["style"], ev["broken"] = N("o"), 0, False
    else:
        ev["b"] = t + b("*00000000\r\n" if kind == "asc" else "\r\n")
        ev["sized"] = r.random() < .7
        if r.random() < .1: ev["b"] = ev["b"][:r.randint(0, len(ev["b"]))]
        if not ev["b"]: ev["sized"] = False
    return ev


def odd(r, w, items, kind):
    ev = dec(r, w, r.choice(items), kind, False)
    k = r.randrange(5)
    if k == 0: ev["null"] = True
    elif k == 1: ev["db"] = False
    elif k == 2: ev["id"] = 31000
    elif k == 3: ev["rx"] = True
    else:
        ev["fmt"] = r.choice(["NMEA", "UNKNOWN", "ALL"])
        ev.pop("j", None)
        ev.setdefault("b", [1, 2, 3])
    return ev


def decodes(r, world, kind, n, pmut):
    w, items = world
    evs = []
    for _ in range(n):
        k = r.random()
        if k < .05: evs.append(response(r, kind))
        elif k < .08: evs.append(odd(r, w, items, kind))
        else: evs.append(dec(r, w, r.choice(items), kind if r.random() < .9 or kind == "bin" else "bin", r.random() < pmut))
    return w.scenario(evs)


def check_decode(ctx, kinds, pmut=.45, worlds=(170, 2500), per=3, n=20, san=False):
    r = random.Random(ctx.seed)
    exe = vf.build("h_msg", san=san)
    cs = corpus(ctx, r, ctx.pick(*worlds), per)
    sc = []
    for c in cs:
        for kind in kinds:
            sc.append(decodes(r, c, kind, n, pmut))
    scen.validate(ctx, exe, sc, "MsgTrace", "SPECIFICATION Spec\n", "decode", "decoding " + "/".join(kinds), timeout=600)


ENC = ["ASCII", "ABBREV_ASCII", "BINARY", "FLATTENED_BINARY", "JSON"]


def word(r, *special):
    return M.limbs(r.choice(special) if special and r.random() < .7 else r.randrange(2 ** 32))


def header(r, w, mid):
    """a header for the message mid (sometimes for another one)"""
    sec = r.choice([0, 1, 500, 999, 1000, 302400000, 604799999, r.randrange(604800000), r.randrange(2 ** 32)])
    return {"id": mid if r.random() < .85 else r.choice([0, 31000, 65535]), "type": r.choice([0, 0, 1, 31, 0x20, 0x40, 0x60, 0x47]), "port": word(r, 32, 64, 0, 255, 0x1A0), "len": r.choice([0, 1, 65535]),
            "seq": r.choice([0, 1, 65535, r.randrange(65536)]), "idle": r.choice([0, 1, 117, 200, 255]), "ts": word(r, 20, 180, 200, 0, 255), "week": r.choice([0, 2167, 65535, r.randrange(65536)]),
            "ms": M.limbs(sec), "rs": word(r, 0, 0xFFFFFFFF, 0x80000000, 0x20), "crc": word(r, 0, 1, 0xFFFF, 0x10000, 0xABCDEF), "ver": r.choice([0, 15, 65535])}


def enc(r, w, mid, f=None, resp=False):
    e = {"op": "enc", "f": f or r.choice(ENC), "short": r.random() < .3, "h": header(r, w, mid), "null": False, "db": True, "shift": r.randrange(8)}
    if resp: e["h"]["type"] |= 128
    return e


def set_(r, w, m, d, wild):
    return {"op": "set", "id": m["id"], "crc": d["crc"], "v": w.values(d["fields"], wild), "way": r.randrange(2 ** 14)}


def encodes(r, w, n, mode):
    """mode: body (what the fields become), frame (headers, lengths, responses, errors), caps (every buffer size)"""
    evs = [enc(r, w, 42)] if mode == "frame" and r.random() < .1 else []
    while len(evs) < n:
        m = r.choice(w.msgs)
        d = r.choice(m["defs"])
        resp = mode != "body" and r.random() < .25
        if resp:
            ev = response(r, "bin")
            ev["b"] = list(r.choice([1, 2, 3, 77, 4, 0]).to_bytes(4, "little")) + b(r.choice(RESP))
            evs.append(ev)
        else: evs.append(set_(r, w, m, d, r.choice([0, 1, 2])))
        if mode == "body":
            for f in ENC: evs.append(enc(r, w, m["id"], f))
        elif mode == "frame":
            for _ in range(r.randint(2, 5)):
                e = enc(r, w, m["id"], None, resp and r.random() < .9)
                k = r.random()
                if k < .03: e["null"] = True
                elif k < .06: e["db"] = False
                elif k < .09: e["f"] = "NONE"
                elif not resp and k < .3 and (e["f"] != "ABBREV_ASCII" or len(d["fields"]) < 2): e["h"]["type"] |= 128
                evs.append(e)
        else:
            e = enc(r, w, m["id"], None, resp)
            e["op"] = "caps"
            e["points"] = 40
            evs.append(e)
    return evs


def check_encode(ctx, mode, worlds, n, san=False):
    r = random.Random(ctx.seed)
    exe = vf.build("h_msg", san=san)
    sc = []
    for _ in range(ctx.pick(*worlds)):
        w = G.World(r, r.choice([1, 2]), r.random() < .15)
        sc.append(w.scenario(encodes(r, w, n, mode)))
    if mode == "frame": sc += big(r)
    scen.validate(ctx, exe, sc, "MsgTrace", "SPECIFICATION Spec\n", "encode", "encoding: " + mode, timeout=600)


def big(r):
    """bodies around the longest a binary header can state"""
    w = G.World(r, 1)
    fs = G.strip([M.simple("a", "USHORT", "%hu"), M.string("s", 8)])
    w.msgs = [M.msg(42, "BIG", [(1, fs)])]
    w.defs = [{"id": 42, "name": b("BIG")}]
    out = []
    for short, n in [(True, x) for x in (244, 247, 248, 251, 252, 253, 256, 600)] + [(False, x) for x in (65527, 65528, 65529, 65531, 65532, 65536, 70000)]:
        v = [[1, 2], [r.choice(b("abcxyz,.")) for _ in range(n)]]
        evs = [{"op": "set", "id": 42, "crc": [0, 1], "v": v, "way": 0}]
        for f in ["BINARY"] + (["FLATTENED_BINARY"] if short else []):
            e = enc(r, w, 42, f)
            e["short"] = short
            e["ample"] = 200000
            evs.append(e)
        out.append(w.scenario(evs))
    return out
