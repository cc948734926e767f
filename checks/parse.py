"""Shared by P01/P02: streams of whole messages for parsers."""
import random, struct
import framegen as FG, frames as FR, msg as MG, msgdef as M, msggen as G, scen, vf
b = G.b
KINDS = ["bin", "sbin", "asc", "sasc", "abb", "resp", "nmea", "rx"]
FORMATS = ["ASCII", "ABBREV_ASCII", "BINARY", "FLATTENED_BINARY", "JSON"]
RANGE = {140, 1273, 1734, 2050, 2537}


def n32(l): return l[0] * 65536 + l[1]


def bits(r, sib=None):
    """measurement source / sibling bits of a message type"""
    return r.choice([0, 0, 0, 1, 2, 31]) if sib is None else sib


def textual(r, kind, name, crc, body, resp=False, sib=0, short=True):
    sfx = ("_%d" % sib if sib else "")
    port, seq, idle, ts = r.choice(["COM1", "COM2", "COM1_3", "NO_PORTS"]), r.choice([0, 1, 65535]), r.choice(["0.0", "58.5", "100.0"]), r.choice(["FINESTEERING", "UNKNOWN", "SATTIME"])
    wk, secs, rs, ver = r.choice([0, 2000, 2001, 65535]), "%d.%03d" % (r.choice([0, 5, 10, 60, 604799]), r.choice([0, 0, 1, 500, 999])), "%08x" % r.choice([0, 0x20, 0xFFFFFFFF]), r.choice([0, 15, 65535])
    f = [port, seq, idle, ts, wk, secs, rs, "%04x" % crc, ver]
    if kind == "asc": return ("#" + ",".join(map(str, [name + ("R" if resp else "A") + sfx] + f)) + ";").encode() + bytes(body)
    if kind == "sasc": return ("%" + ",".join(map(str, [name + ("R" if resp else "A") + sfx, wk, secs])) + ";").encode() + bytes(body)
    if short and r.random() < .3: return ("<" + " ".join(map(str, [name + sfx, wk, secs])) + "\r\n").encode() + bytes(body)
    return ("<" + " ".join(map(str, [name + sfx] + f)) + "\r\n").encode() + bytes(body)


def sealed(t):
    """a text message up to its '*': checksum and end"""
    return t + b"*%08x\r\n" % FR.crc(t[1:])


def binary(r, kind, mid, crc, body, resp=False, sib=0):
    wk, ms = r.choice([0, 2000, 2001, 65535]), r.choice([0, 5000, 10000, 10001, 60000, 604799999, r.randrange(2 ** 31)])
    if kind == "sbin":
        if len(body) > 255: kind = "bin"
        else:
            m = bytes([0xAA, 0x44, 0x13]) + struct.pack("<BHHI", len(body), mid, wk, ms) + bytes(body)
            return m + struct.pack("<I", FR.crc(m))
    ty = sib | r.choice([0, 0, 0x20, 0x40]) | (0x80 if resp else 0)
    m = bytes([0xAA, 0x44, 0x12]) + struct.pack("<BHBBHHBBHIIHH", 28, mid, ty, r.choice([0, 32, 64, 200]), len(body), r.choice([0, 1, 65535]), r.choice([0, 117, 200]), r.choice([20, 180, 200, 60]), wk, ms,
                                                r.choice([0, 0x20, 0xFFFFFFFF]), crc & 0xFFFF, r.choice([0, 15, 65535])) + bytes(body)
    return m + struct.pack("<I", FR.crc(m))


def message(r, w, item):
    """a valid message of the world (now and then: unknown id/name, mutated body, bad header field)"""
    if getattr(w, "held", None) and r.random() < .35:
        import rxc
        return rxc.frame(r, w, item)
    m, d, v, e = item
    kind = r.choice(["bin", "bin", "sbin", "asc", "asc", "sasc", "abb", "abb"])
    mid, name, crc, sib = m["id"], m["name"], n32(d["crc"]), bits(r)
    if crc == n32(m["latest"]) and r.random() < .3: crc = r.choice([9, 0])
    if crc > 0xFFFF and n32(m["latest"]) != crc: kind = r.choice(["asc", "abb"])     # a binary header has 16 bits for it
    if kind[0] == "s" and n32(m["latest"]) != crc: kind = kind[1:]
    k = r.random()
    if k < .07: mid, name = r.choice([31000, 8]), "NOSUCH"
    resp = .07 < k < .13
    if kind in ("bin", "sbin"):
        body = e["bin"]
        if resp: body = list(r.choice([1, 2, 3, 77, 4]).to_bytes(4, "little")) + b(r.choice(MG.RESP))
        if r.random() < .12: body = body[:r.randint(0, len(body))]
        return binary(r, kind, mid, crc, body, resp and kind == "bin", sib)
    if kind == "abb":
        if resp: return ("<" + r.choice(MG.RESP[:6]) + "\r\n").encode()
        t = textual(r, kind, name, crc, e["abb"], False, sib, crc == n32(m["latest"]) or name == "NOSUCH")
        if r.random() < .1:
            t = t.split(b"\r\n")
            t[0] = t[0][:r.randint(1, len(t[0]))]
            t = b"\r\n".join(t)
        return t
    body = bytes(e["asc"])[:-11]
    if resp: body = r.choice(MG.RESP).encode()
    if r.random() < .12: body = body[:r.randint(0, len(body))]
    t = textual(r, kind, name, crc, body, resp, sib)
    if r.random() < .06: t = t.replace(b",", r.choice([b",,", b";", b""]), 1)
    if r.random() < .12: t = t[:r.randint(1, min(len(t), 70))]                 # ends within the header, or soon after
    return sealed(t)


def bits_of(r, w, items, n, clean):
    out = []
    for _ in range(n):
        k = r.random()
        if k < (0 if clean else .12): out.append(FG.junk(r))
        elif k < (0 if clean else .2):
            g = bytearray(message(r, w, r.choice(items)))
            g[r.randrange(len(g))] ^= 1 << r.randrange(8)
            out.append(bytes(g))
        elif k < (0 if clean else .25):
            g = message(r, w, r.choice(items))
            out.append(g[:r.randrange(1, len(g) + 1)])
        elif k < .32: out.append(FG.good(r, r.choice(["nmea", "resp", "asc", "sasc", "abb", "nmea"])))
        else: out.append(message(r, w, r.choice(items)))
    return out


def filt(r, w, keys):
    """a few filter operations that matter for these messages"""
    ids = [m["id"] for m in w.msgs] + [31000]
    names = [m["name"] for m in w.msgs]
    key = lambda s: [r.choice(s), r.choice([11, 11, 2, 3, 5, 6, 7, 10]), r.choice([0, 0, 1, 2])]
    nkey = lambda: (lambda k: [b(k[0]), k[1], k[2]])(key(names))
    t = lambda: [r.choice([0, 2000, 2001, 65534]), r.choice([0, 5000, 10000, 60000])]
    mk = [lambda: {"op": "mid", "v": key(ids)}, lambda: {"op": "nm", "v": nkey()}, lambda: {"op": r.choice(["iid", "inm", "it", "idec", "ist", "resp", "nresp"]), "b": r.random() < .5}, lambda: {"op": "lo", "t": t()},
          lambda: {"op": "hi", "t": t()}, lambda: {"op": "dec", "n": r.choice([5000, 10000, 1000])}, lambda: {"op": "st", "v": r.choice([20, 180, 200])}, lambda: {"op": r.choice(["clear", "cid", "cnm", "ct", "cdec", "cst"])}]
    return {"op": "filt", "on": r.random() < .85, "new": r.random() < .5, "l": [r.choice(mk)() for _ in range(r.choice([0, 1, 1, 2, 3]))]}


def options(r, w):
    o = {"op": "opt"}
    k = r.choice(["unk", "abr", "f", "f", "rc"])
    o[k] = r.choice(FORMATS) if k == "f" else r.random() < .5
    if k == "rc" and any(m["id"] in RANGE for m in w.msgs): o[k] = False
    return o


def setup(r, w):
    ev = []
    if any(m["id"] in RANGE for m in w.msgs): ev.append({"op": "opt", "rc": False})
    ev.append({"op": "opt", "f": r.choice(FORMATS)})
    if r.random() < .5: ev.append({"op": "opt", "unk": r.random() < .5})
    if r.random() < .3: ev.append({"op": "opt", "abr": False})
    if r.random() < .3: ev.append(filt(r, w, None))
    return ev


def reading(r, inc=False):
    k = r.random()
    e = {"op": "drain", "how": r.choice(["ri", "rd", "mix"])} if k < .75 else {"op": r.choice(["ri", "rd"])}
    e["inc"], e["mess"] = inc, r.choice([0, 1, 2, 2])
    return e


def flush(r, n=200):
    e = {"op": "fl", "bs": r.choice([0, 1, 10, 1000, 262144])}
    if r.random() < .2: e["nob"] = True; e["bs"] = 262144
    else: e["nob"] = False
    return e


def direct(r, w, items, n):
    ev = setup(r, w)
    s = b"".join(bits_of(r, w, items, n, r.random() < .4))
    for c in FG.split(r, s, r.choice(["one", "cut", "cut", "bytes" if len(s) < 150 else "one"])):
        ev.append({"op": "w", "d": list(c)})
        if r.random() < .75: ev.append(reading(r))
        k = r.random()
        if k < .08: ev.append(options(r, w))
        elif k < .12: ev.append(filt(r, w, None))
        elif k < .16: ev.append({"op": "cnt"})
        elif k < .18: ev.append({"op": "rst"})
        elif k < .20: ev.append(flush(r))
        elif k < .22: ev.append({"op": "db"})
    ev.append(dict(reading(r), op="drain", how=r.choice(["ri", "rd", "mix"])))
    ev.append({"op": "cnt"})
    if r.random() < .8: ev.append(dict(reading(r, True), op="drain", how=r.choice(["ri", "rd", "mix"])))
    ev.append({"op": "cnt"})
    ev.append({"op": "fl", "bs": 262144, "nob": False})
    return ev


def filed(r, w, items, n):
    ev = setup(r, w)
    if r.random() < .15: ev.append(dict(reading(r), op="ri"))                     # no stream yet
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        s = b"".join(bits_of(r, w, items, r.randint(1, n), r.random() < .4)) if r.random() > .05 else b""
        if k < .06: ev.append({"op": "str", "d": [], "null": True, "eof": False})
        elif k < .12: ev.append({"op": "str", "d": list(s), "null": False, "eof": True})
        else: ev.append({"op": "str", "d": list(s), "null": False, "eof": False})
        if r.random() < .3: ev += [dict(reading(r), op=r.choice(["ri", "rd"])) for _ in range(r.randint(1, 3))]
        if r.random() < .2: ev.append(r.choice([options, lambda r, w: filt(r, w, None)])(r, w))
        if r.random() < .25: ev.append({"op": "reset"})
        if r.random() < .2: ev.append({"op": "rst"})
        if r.random() < .85:
            ev.append(dict(reading(r), op="drain", how=r.choice(["ri", "rd", "mix"])))
            ev.append({"op": "cnt"})
            if r.random() < .3: ev.append({"op": "fl", "bs": r.choice([5, 262144]), "nob": False})
            if r.random() < .3: ev += [{"op": "reset"}, {"op": "cnt"}, dict(reading(r), op="drain", how=r.choice(["ri", "rd"]))]
    return ev


def scenarios(ctx, r, file, worlds, per):
    out = []
    for w, items in MG.corpus(ctx, r, worlds, 3):
        if r.random() < .25:
            import rxc
            rxc.world(r, w)
        for _ in range(per):
            s = w.scenario((filed if file else direct)(r, w, items, r.choice([1, 2, 3, 5, 8])))
            s["file"], s["db"] = file, r.random() > .03
            for e in s["ev"]:
                if e["op"] == "drain": e.setdefault("inc", False)
            out.append(s)
    return out


GOOD, BAD, NODEF, RESP, OUT, CUT = 1, 2, 3, 4, 5, 6


def concrete(r, w, items, plan, file):
    """a plan of the toy model on real messages; message 31001 is what the filter keeps out"""
    parts = []
    for k in plan["items"]:
        m, d, v, e = r.choice(items)
        kind = r.choice(["bin", "sbin", "asc", "sasc", "abb"])
        mid, name, crc = m["id"], m["name"], n32(d["crc"])
        if k == NODEF: mid, name = 31000, "NOSUCH"
        if k == OUT: mid, name = 2999, "KEPTOUT"
        if crc != n32(m["latest"]): kind = r.choice(["asc", "abb"] + ["bin"] * (crc <= 0xFFFF))
        if k == BAD: kind = r.choice(["bin", "asc"] if crc <= 0xFFFF else ["asc"])
        if k == 0: x = r.choice([b"x", b"\x80", b"\r\n", b"zz top", b"#abc\xff"])
        elif k == RESP: x = r.choice([b"<OK\r\n", b"<ERROR:No\r\n"])
        elif kind in ("bin", "sbin"): x = binary(r, kind, mid, crc, [] if k == BAD and e["bin"] else e["bin"])
        elif kind == "abb": x = textual(r, kind, name, crc, e["abb"], short=crc == n32(m["latest"]))
        else: x = sealed(textual(r, kind, name, crc, [] if k == BAD else bytes(e["asc"])[:-11]))
        if k == CUT: x = x[:r.randint(1, len(x) - 1)]
        parts.append(x)
    s = b"".join(parts)
    ev = [{"op": "opt", "rc": False}, {"op": "opt", "f": r.choice(FORMATS)}, {"op": "opt", "unk": plan["unk"]}, {"op": "opt", "abr": plan["abr"]},
          {"op": "filt", "on": True, "new": True, "l": [{"op": "mid", "v": [2999, 11, 0]}, {"op": "iid", "b": True}]}]
    how = r.choice(["ri", "rd", "mix"])
    drain = {"op": "drain", "how": how, "inc": False, "mess": r.choice([0, 1, 2])}
    if file: ev += [{"op": "str", "d": list(s), "null": False, "eof": False}, drain, {"op": "cnt"}]
    else:
        # toy chunks are numbers of toy bytes: a whole message or a part of it
        units = []
        for k, x in zip(plan["items"], parts):
            if k in (0, CUT): units.append(x)
            else:
                c = r.randint(1, len(x) - 1)
                units += [x[:c], x[c:]]
        i = 0
        for n in plan["chunks"]:
            ev += [{"op": "w", "d": list(b"".join(units[i:i + n]))}, dict(drain)]
            i += n
        ev += [{"op": "cnt"}, dict(drain, inc=True)]
    ev.append({"op": "fl", "bs": 262144, "nob": False})
    return dict(w.scenario(ev), file=file, db=True)


def plans(ctx, r, file, n):
    cfg = "SPECIFICATION Spec\nCONSTANT Items = %d\nINVARIANTS Conserved Same Complete NothingElse Counts\n"
    ctx.model_check("ParserMC", cfg % ctx.pick(3, 4), timeout=600)
    ps = scen.generate(ctx, "ParserMC", cfg % ctx.pick(2, 3) + "INVARIANT Emit\n")
    if file: ps = [p for p in ps if len(p["chunks"]) == 1]
    ps.sort(key=str)
    r.shuffle(ps)
    cs = MG.corpus(ctx, r, ctx.pick(40, 200), 3)
    return [concrete(r, *r.choice(cs), p, file) for p in ps[:n]]


def longs(ctx, r, file):
    """streams longer than what a file parser reads at once; messages as long as they can be"""
    out = []
    w = G.World(r, 1)
    w.msgs = [M.msg(42, "BIG", [(1, G.strip([M.simple("a", "USHORT", "%hu"), M.string("s", 8)]))])]
    w.defs = [{"id": 42, "name": b("BIG")}]
    for n in [[16370, 16380, 20], [32728, 32729, 5], [32730, 40], [9, 32720, 11], [30000, 30000, 30000, 5]][:ctx.pick(3, 5)]:
        s = []
        for k in n:
            t = bytes(r.choice(b"abcxyz,.") for _ in range(k))
            kind = r.choice(["asc", "bin"])
            if kind == "bin": s.append(binary(r, "bin", 42, 1, [1, 2] + list(t) + [0] * (2 - k % 2)))
            else: s.append(sealed(textual(r, "asc", "BIG", 1, b"513,\"" + t + b"\"")))
            if r.random() < .5: s.append(b"x" * r.choice([1, 1000, 33000]))
        s = b"".join(s)
        ev = [{"op": "opt", "f": r.choice(["ASCII", "BINARY", "ABBREV_ASCII"])}, {"op": "opt", "unk": r.random() < .5}]
        drain = {"op": "drain", "how": r.choice(["ri", "rd"]), "inc": False, "mess": 0}
        if file: ev += [{"op": "str", "d": list(s), "null": False, "eof": False}, drain, {"op": "reset"}, {"op": "ri", "inc": False, "mess": 0}, {"op": "reset"}, drain]
        else: ev += [{"op": "w", "d": list(s)}, drain]
        out.append(dict(w.scenario(ev + [{"op": "cnt"}]), file=file, db=True))
    # messages that are too long once they are text, among others
    w = G.World(r, 1)
    w.msgs = [M.msg(42, "BIG", [(1, G.strip([M.var("v", "USHORT", "%hu", 6000)]))])]
    w.defs = [{"id": 42, "name": b("BIG")}]
    for n in [[6000, 2], [1, 5800, 5700, 3], [4000, 6000, 0]][:ctx.pick(2, 3)]:
        s = b"".join(binary(r, "bin", 42, 1, list(struct.pack("<I", k)) + [1 + i % 250 if i % 2 == 0 else 200 for i in range(2 * k)]) for k in n)
        ev = [{"op": "opt", "f": r.choice(["ASCII", "ABBREV_ASCII", "JSON"])}]
        drain = {"op": "drain", "how": "rd", "inc": False, "mess": 0}
        ev += [{"op": "str", "d": list(s), "null": False, "eof": False}, drain] if file else [{"op": "w", "d": list(s)}, drain]
        out.append(dict(w.scenario(ev + [{"op": "cnt"}]), file=file, db=True))
    return out


def check(ctx, file, worlds, per):
    r = random.Random(ctx.seed)
    exe = vf.build("h_parser")
    sc = plans(ctx, r, file, ctx.pick(700, 8000))
    scen.validate(ctx, exe, sc, "ParserTrace", "SPECIFICATION Spec\n", "plans", "every small stream, cut everywhere", timeout=600)
    scen.validate(ctx, exe, longs(ctx, r, file), "ParserTrace", "SPECIFICATION Spec\n", "long", "long stream", timeout=600)
    scen.validate(ctx, exe, scenarios(ctx, r, file, ctx.pick(*worlds), per), "ParserTrace", "SPECIFICATION Spec\n", "parse", "%s history" % ("file parser" if file else "parser"), timeout=600)
