"""F03: the framer respects the caller's buffer and its own capacity and loses nothing when either is too small."""
import random
import framegen as G, frames as F, framing as K, vf
LEVEL = "model_checking"


def run(ctx):
    K.toy(ctx, ["bin", "f_asc"])
    exe = vf.build("h_framer", san=False)
    r = random.Random(ctx.seed)
    ps = K.plans(ctx, G.KINDS + ["junk"], ["ok", "crc", "trunc"], ["hdr", "mid", "crc", "l1"], ["big", "exact", "less", "tiny"], 2, 1)
    opts = [None, {"json": True, "payload": False, "unk": True}, {"json": False, "payload": True, "unk": True}, {"json": True, "payload": True, "unk": False}, {"json": False, "payload": False, "unk": False}]
    one = [p for p in ps if len(p["segs"]) == 1]
    sc = [G.concretise(r, p, ["OEM"], False, o) for p in one for o in opts]
    sc += [G.concretise(r, p, ["OEM"], False, r.choice(opts)) for p in K.sample(r, ps, ctx.pick(3000, 25000))]
    K.check(ctx, exe, sc, "plans", "framing into buffers of every relevant size")
    # every buffer size for a frame of each kind
    allbs = []
    for d in ["OEM"] + K.FIVE:
        for k in sorted(set(K.KF[d])):
            g, _ = G.segment(r, k, "ok")
            if len(g) > 120:
                g = G.good(r, "sbin" if k == "sbin" else k)[:120]
            for bs in range(0, len(g) + 2):
                allbs.append({"dialects": [d], "mgr": False, "cap": 262144, "ev": [{"op": "opt", "json": True, "payload": False, "unk": True}] * (d == "OEM") +
                              [{"op": "w", "d": list(g + b"xyz")}, {"op": "drain", "bs": bs, "fresh": True}, {"op": "drain", "bs": 32768, "fresh": True}]})
    K.check(ctx, exe, allbs, "sizes", "framing into a buffer of every size")
    # small framer capacity: refused writes, ring wrap-around; small caller buffers; flush
    caps = [1, 2, 5, 12, 32, 50, 64, 90, 128, 200]
    sc = []
    for d in ["OEM"] + K.FIVE:
        sc += K.rand(r, [d], False, ctx.pick(70, 700), caps=caps, modes=("cut", "bytes"), bss=([32768], [32768, 40], [12, 30, 60], [200, 5]), nseg=6)
    K.check(ctx, exe, sc, "caps", "framing with little room on either side")
    for d, m in ((["OEM"], True), (K.FIVE, True)):
        K.check(ctx, exe, K.rand(r, d, m, ctx.pick(80, 600), bss=([32768, 40], [12, 30, 60], [200, 5])), "mgr%d" % len(d), "manager framing with little room")
    # the full-size buffer: filled to the brim, refused, drained, flushed
    fill = [G.text(r, 1)[0:1] * 1 + bytes(65 for _ in range(262143))]
    sc = []
    for d, m in (("OEM", False), ("OEM_BINARY", False)) + ((("OEM_ASCII", True),) if ctx.thorough else ()):
        sc.append({"dialects": [d], "mgr": m, "cap": 262144, "ev": [{"op": "w", "d": list(fill[0][:262140])}, {"op": "w", "d": [1] * 5}, {"op": "w", "d": [2] * 4}, {"op": "w", "d": [3]},
                   {"op": "fl", "bs": 262130}, {"op": "fl", "bs": 32768}, {"op": "fl", "bs": 100}]})
    K.check(ctx, exe, sc, "brim", "the framer's buffer filled to the brim")
    ctx.assumptions += ["writes outside the caller's buffer are looked for in the 1024 bytes on either side of it"]
