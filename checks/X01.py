"""X01: messages that hold a message (RXCONFIG)."""
import random
import framegen as FG, msg as MG, msgdef as M, msggen as G, parse as PA, scen, vf
from rxc import IDS, body, frame, outer, plain, spoil, world
LEVEL = "model_checking"
b = G.b
FORMATS = ["ASCII", "ABBREV_ASCII", "BINARY", "JSON"]


def stream(r, w, items, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < .1: out.append(FG.junk(r))
        elif k < .16:
            g = bytearray(frame(r, w, r.choice(items)))
            g[r.randrange(len(g))] ^= 1 << r.randrange(8)
            out.append(bytes(g))
        elif k < .2: out.append(frame(r, w, r.choice(items))[:r.randint(1, 60)])
        elif k < .3: out.append(PA.message(r, w, r.choice(items)))
        else: out.append(frame(r, w, r.choice(items)))
    s = b"".join(out)
    ev = []
    for c in FG.split(r, s, r.choice(["one", "cut", "cut"])):
        ev.append({"op": "w", "d": list(c)})
        if r.random() < .7: ev.append({"op": "drain", "f": r.choice(FORMATS * 4 + ["FLATTENED_BINARY", "UNSPECIFIED"])})
    ev.append({"op": "drain", "f": r.choice(FORMATS)})
    ev.append({"op": "fl"})
    return ev


def dec(r, w, item):
    x = plain(r, w, item, r.choice(["bin", "asc", "abb", "sbin", "sasc"]))
    k = "BINARY" if x[:1] == b"\xaa" else "ASCII" if x[:1] in b"#%" else "ABB_ASCII"
    bod = body(r, x)
    if k == "BINARY": bod += bytes(r.randrange(256) for _ in range(4))
    if k == "ASCII": bod += b"*%08x\r\n" % r.randrange(2 ** 32)
    if k == "ASCII" and r.random() < .15: bod = bod[:-19] + b"%08x" % (r.choice([0xFFFFFFFF, 0xFFFFFFFE, 0xFF000000, 0xF0000000, 0]) ^ r.choice([0, 1, 0xFFFF])) + bod[-11:]
    if r.random() < .25: bod = bod[r.randint(0, len(bod)):] if r.random() < .5 else bod[:r.randint(0, len(bod))]
    if r.random() < .05: k = r.choice(["SHORT_ASCII", "SHORT_BINARY", "JSON", "UNKNOWN", "SHORT_ABB_ASCII", "ASCII", "BINARY", "ABB_ASCII"])
    return {"op": "dec", "id": r.choice([128, 128, 2474, 2474, 42]), "fmt": k, "hl": r.choice([0, 28, 70]), "crc": M.limbs(r.choice([1, 63234, 9])), "b": list(bod)}


def header(r, mid):
    w32 = lambda v: M.limbs(v)
    return {"id": mid, "type": r.choice([0, 0, 1, 31, 0x20, 0x41]), "port": w32(r.choice([0, 32, 64, 33])), "len": 0, "seq": r.choice([0, 1, 65535]), "idle": r.choice([0, 117, 200]), "ts": w32(r.choice([20, 180, 99])),
            "week": r.choice([0, 2000, 65535]), "ms": w32(r.choice([0, 1, 12468, 604799999])), "rs": w32(r.choice([0, 0x20, 0xFFFFFFFF])), "crc": w32(r.choice([0, 1, 63234])), "ver": r.choice([0, 15, 65535])}


def enc(r, w, held, item, x=None):
    x = x or plain(r, w, item, r.choice(["bin", "asc", "abb", "sbin", "sasc"]))
    if x[:1] == b"<" and r.random() < .7: x = x.replace(b"\r\n", b" \r\n", 1)
    if r.random() < .12: x = spoil(r, x)
    elif item and r.random() < .05: x = PA.message(r, w, item)
    mid = r.choice(held)
    e = {"op": "enc", "h": header(r, mid), "id": mid, "held": True, "raw": list(x), "f": r.choice(FORMATS), "cap": r.choice([70000, 70000, 3 * len(x) + 600, len(x) + 150, len(x) + 40, r.randint(0, 200)]), "null": r.random() < .02}
    if r.random() < .03: e["held"], e["id"] = False, r.choice([9998] + [m["id"] for m in w.msgs if m["id"] not in IDS])
    if r.random() < .04: e["f"] = r.choice(["FLATTENED_BINARY", "UNSPECIFIED"])
    return e


def every(ctx, r, n):
    """one message into every buffer size around its length"""
    out = []
    for w, items in MG.corpus(ctx, r, n, 1):
        held = world(r, w)
        x = plain(r, w, r.choice(items), r.choice(["bin", "asc", "abb", "sbin", "sasc"]))
        e = enc(r, w, held, None, x)
        e.update(held=True, id=held[0], null=False)
        e["h"]["id"] = held[0]
        top = len(x) * 4 + 400
        out.append(dict(w.scenario([dict(e, cap=k) for k in range(0, min(top, 900), r.choice([1, 5, 5]))]), db=True, held=held))
    return out


def longs(ctx, r):
    w = G.World(r, 1)
    w.msgs = [M.msg(42, "BIG", [(1, G.strip([M.simple("a", "USHORT", "%hu"), M.string("s", 8)]))])]
    held = world(r, w)
    out = []
    for n in [32606, 65496, 65500, 65504] + r.sample([32500, 32560, 32580, 32600, 32610, 32640, 65000, 65480, 65520], ctx.pick(3, 9)):
        x = PA.binary(r, "bin", 42, 1, [1, 2] + [97] * n + [0] * (2 - n % 2))
        if len(x) < 32700: ev = [{"op": "w", "d": list(outer(r, body(r, x), "bin", mid=held[0], whole=True))}] + [{"op": "drain", "f": f} for f in r.sample(FORMATS, 1)]
        else: ev = [dict(enc(r, w, held, None, x), raw=list(x), held=True, id=held[0], null=False, cap=140000, f=r.choice(["BINARY", "BINARY", "ASCII"]) if n > 65504 or n < 65496 else "BINARY")]
        out.append(dict(w.scenario(ev), db=True, held=held))
    return out


def run(ctx):
    r = random.Random(ctx.seed)
    exe = vf.build("h_rx")
    hist, one = [], []
    for w, items in MG.corpus(ctx, r, ctx.pick(250, 2500), 3):
        held = world(r, w)
        for _ in range(2):
            ev = []
            for _ in range(r.choice([1, 2])): ev += stream(r, w, items, r.choice([1, 3, 6]))
            if r.random() < .05: ev.insert(0, {"op": "db", "on": True})
            s = dict(w.scenario(ev), db=r.random() > .03, held=held)
            if not s["db"]: s["ev"].insert(r.randint(0, len(ev)), {"op": "db", "on": True})
            hist.append(s)
        ev = [dec(r, w, r.choice(items)) if r.random() < .4 else enc(r, w, held, r.choice(items)) for _ in range(r.choice([4, 8]))]
        one.append(dict(w.scenario(ev), db=r.random() > .02, held=held))
    scen.validate(ctx, exe, one, "RxTrace", "SPECIFICATION Spec\n", "one", "one message at a time", timeout=600)
    scen.validate(ctx, exe, hist, "RxTrace", "SPECIFICATION Spec\n", "streams", "streams of messages", timeout=600)
    scen.validate(ctx, exe, every(ctx, r, ctx.pick(25, 250)), "RxTrace", "SPECIFICATION Spec\n", "caps", "every buffer size", timeout=600)
    scen.validate(ctx, exe, longs(ctx, r), "RxTrace", "SPECIFICATION Spec\n", "long", "long messages", timeout=600)
