"""F05: each single-format framer reports exactly the frames of its own format."""
import random
import framegen as G, frames as F, framing as K, vf
LEVEL = "model_checking"


def run(ctx):
    K.toy(ctx, ["f_asc", "f_sasc", "f_bin", "f_sbin", "f_abb"])
    exe = vf.build("h_framer")
    r = random.Random(ctx.seed)
    for d in K.FIVE:
        kinds = sorted(set(K.KF[d])) + ["junk"]
        ps = K.plans(ctx, kinds, ["ok", "crc", "trunc", "nest", "len"], ["s1", "s2", "hdr", "mid", "crc", "crc1", "l1", "end"], ["big"], 2, 1)
        sc = [G.concretise(r, p, [d], False) for p in K.sample(r, ps, ctx.pick(900, 12000))]
        sc += K.rand(r, [d], False, ctx.pick(200, 3000))
        K.check(ctx, exe, sc, d, "framing by the %s framer" % d)
    sc = []
    tail = F.ascii_(b"END") + F.binary(b"")
    for d in K.FIVE:
        for s in K.limit_streams(d, ctx.pick([32768, 32769], [32767, 32768, 32769, 32770, 32780])):
            for sp in ctx.pick([[20000]], [[], [20000], [32760]]):
                sc.append(K.big([d], s + tail, sp))
    K.check(ctx, exe, sc, "limit", "messages around the maximum length")
    ctx.assumptions += ["frame grammar as written in spec/FrameSpec.tla"]
