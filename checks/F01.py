"""F01: the framer reports exactly the valid frames of the stream, and every other byte as unknown."""
import random
import framegen as G, framing as K, vf
LEVEL = "model_checking"


def run(ctx):
    K.toy(ctx, ["asc", "bin", "abb", "nmea", "json"])
    exe = vf.build("h_framer")
    r = random.Random(ctx.seed)
    ps = K.plans(ctx, G.KINDS + ["junk"], ["ok", "crc", "trunc", "ins", "len", "nest"], ["mid"], ["big"], 2, 0)
    sc = []
    for p in ps:
        for _ in range(ctx.pick(1, 3)):
            sc.append(K.G.concretise(r, p, ["OEM"], False, {"json": True, "payload": False, "unk": True} if r.random() < 0.6 else None, fresh=True))
    K.check(ctx, exe, sc, "plans", "framing of one or two segments, sound or damaged")
    K.check(ctx, exe, K.rand(r, ["OEM"], False, ctx.pick(700, 6000)), "random", "framing of random streams")
    ctx.assumptions += ["frame grammar as written in spec/FrameSpec.tla", "streams of at most a few frames; toy parameters for the exhaustive part"]
