"""F02: what a framer reports depends on the bytes only, not on how they arrive or on what the caller's metadata held."""
import random
import framegen as G, framing as K, vf
LEVEL = "model_checking"
MARKS = ["s1", "s2", "s3", "hdr", "mid", "crc", "crc1", "l2", "l1", "end"]


def run(ctx):
    K.toy(ctx, ["asc", "bin", "f_abb"])
    exe = vf.build("h_framer")
    r = random.Random(ctx.seed)
    js = {"json": True, "payload": False, "unk": True}
    # every frame kind, sound or damaged, cut at every single position, with and without caller history
    every = []
    for k in G.KINDS + ["junk"]:
        for f in ["ok", "crc", "trunc"] + ctx.pick([], ["ins", "nest", "len"]):
            for fresh in (True, False):
                g, _ = G.segment(r, k, f)
                pre = G.good(r, r.choice(G.KINDS))
                post = G.good(r, r.choice(G.KINDS))
                s = pre + g + post
                step = 1 if len(g) < 60 else 3
                for c in range(len(pre), len(pre) + len(g) + 1, step):
                    every.append({"dialects": ["OEM"], "mgr": False, "cap": 262144, "ev": [{"op": "opt", **js}, {"op": "w", "d": list(s[:c])}, {"op": "drain", "bs": 32768, "fresh": fresh},
                                  {"op": "w", "d": list(s[c:])}, {"op": "drain", "bs": 32768, "fresh": fresh}]})
    K.check(ctx, exe, every, "every", "framing with the stream cut at every position")
    ps = K.plans(ctx, G.KINDS + ["junk"], ["ok", "crc"], MARKS, ["big"], 2, 2)
    sc = [G.concretise(r, p, ["OEM"], False, js if r.random() < 0.5 else None) for p in K.sample(r, ps, ctx.pick(2500, 20000))]
    K.check(ctx, exe, sc, "plans", "framing with the stream cut at landmarks of two segments")
    K.check(ctx, exe, K.rand(r, ["OEM"], False, ctx.pick(250, 3000), modes=("bytes", "cut")), "random", "framing of random streams in random chunks")
    ctx.assumptions += ["frame grammar as written in spec/FrameSpec.tla"]
