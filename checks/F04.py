"""F04: framing options and limits: payload-only, JSON, unknown-byte reporting, maximum message lengths, responses."""
import random
import framegen as G, frames as F, framing as K, vf
LEVEL = "model_checking"


def run(ctx):
    K.toy(ctx, ["json", "nmea"])
    exe = vf.build("h_framer")
    r = random.Random(ctx.seed)
    ps = K.plans(ctx, G.KINDS + ["junk"], ["ok", "crc"], ["mid", "crc"], ["big"], 2, 1)
    sc = []
    for p in K.sample(r, ps, ctx.pick(1500, 20000)):
        sc.append(G.concretise(r, p, ["OEM"], False, {"json": r.random() < .5, "payload": r.random() < .5, "unk": r.random() < .5}))
    # options changed half way
    for _ in range(ctx.pick(400, 4000)):
        a, b = G.stream(r, G.KINDS, 2), G.stream(r, G.KINDS, 2)
        o = lambda: {"op": "opt", "json": r.random() < .5, "payload": r.random() < .5, "unk": r.random() < .6}
        sc.append({"dialects": ["OEM"], "mgr": False, "cap": 262144, "ev": [o(), {"op": "w", "d": list(a)}, {"op": "drain", "bs": 32768, "fresh": False}, {"op": "fl", "bs": 32768},
                   o(), {"op": "w", "d": list(b)}, {"op": "drain", "bs": 32768, "fresh": False}]})
    K.check(ctx, exe, sc, "options", "framing under every combination of options")
    # NMEA around its length limits
    sc = []
    for n in list(range(0, 8)) + [244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 260]:
        for c in (None, 3, n // 2):
            f = F.nmea(b"G" * n)
            sc.append(K.big(["OEM"], f + F.ascii_(b"END"), [] if c is None else [min(c, len(f))], bs=32768))
    K.check(ctx, exe, sc, "nmea", "NMEA sentences around their length limits")
    # messages around the maximum length
    sc = []
    tail = F.ascii_(b"END") + F.binary(b"")
    lens = ctx.pick([32767, 32768, 32769], [32766, 32767, 32768, 32769, 32770, 32779, 32780, 32790])
    for d in ["OEM", "OEM_ASCII", "OEM_BINARY", "OEM_ABB_ASCII"]:
        if d != "OEM" and not ctx.thorough and d != "OEM_BINARY":
            continue
        for s in K.limit_streams(d, lens):
            for sp in ctx.pick([[20000]], [[], [20000]]):
                sc.append(K.big([d], s + tail, sp))
    K.check(ctx, exe, sc, "limit", "messages around the maximum length")
    ctx.assumptions += ["maximum message length 32768 (MESSAGE_SIZE_MAX), NMEA sentences 11..256 bytes"]
