"""F06: a framer manager hands out the first frame any of its framers recognises and loses nothing of the others."""
import random
import framegen as G, framing as K, vf
LEVEL = "model_checking"
SETS = [["OEM"], ["OEM_ASCII", "OEM_BINARY"], K.FIVE, ["OEM_ABB_ASCII", "OEM"], ["OEM_BINARY_SHORT", "OEM_ABB_ASCII", "OEM_ASCII_SHORT"], list(reversed(K.FIVE))]


def run(ctx):
    K.toy(ctx, ["f_bin", "f_abb"])
    exe = vf.build("h_framer")
    r = random.Random(ctx.seed)
    for i, d in enumerate(SETS):
        kinds = sorted({k for x in d for k in K.KF[x]} | {"junk", "asc", "bin"})
        ps = K.plans(ctx, kinds, ["ok", "crc", "trunc"], ["s1", "s2", "hdr", "mid", "crc1", "l1", "end"], ["big"], 2, 1)
        sc = [G.concretise(r, p, d, True) for p in K.sample(r, ps, ctx.pick(700, 10000))]
        sc += K.rand(r, d, True, ctx.pick(150, 2500))
        K.check(ctx, exe, sc, "set%d" % i, "framing by a manager of %s" % ",".join(d))
    ctx.assumptions += ["frame grammar as written in spec/FrameSpec.tla"]
