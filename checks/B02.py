"""B02: every CRC entry point is the definition's remainder."""
import random
import scen, vf
LEVEL = "model_checking"
KINDS = {"8f": (8, [0x2F], False), "8r": (8, [0xF4], True), "16f": (16, [0x1021], False), "16r": (16, [0x8408], True),
         "32f": (32, [0xF4AC, 0xFB13], False), "32r": (32, [0xC8DF, 0x352F], True), "oem": (32, [0xEDB8, 0x8320], True),
         "64f": (64, [0x42F0, 0xE1EB, 0xA9EA, 0x3693], False), "64r": (64, [0xC96C, 0x5795, 0xD787, 0x0F42], True)}


def run(ctx):
    ctx.model_check("CrcMC", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {0, 1, 127, 255}\n MaxLen = %d\nINVARIANTS IncrementalIsWhole SplitAnywhere Linear DetectsOneBit OemAgrees\n" % ctx.pick(4, 5), deadlock=False)
    exe = vf.build("h_common", lib=False)
    r = random.Random(ctx.seed)
    evs = []

    def add(kind, d, init=None, at=()):
        w, poly, rev = KINDS[kind]
        n = 1 if w in (8, 16) else w // 16
        m = 256 if w == 8 else 65536
        if init is None:
            init = [0] * n
        elif init == "r":
            init = [r.randrange(m) for _ in range(n)]
        elif init == "f":
            init = [m - 1] * n
        evs.append({"op": "crc", "kind": kind, "w": w, "poly": poly, "rev": rev, "d": d, "init": init, "at": list(at)})

    for kind in KINDS:
        # every single byte value (the whole lookup table), and each table slice: one nonzero byte in a block of 8
        for b in range(256):
            add(kind, [b])
        for pos in range(8):
            for b in ([1, 2, 0x80, 0xFF] if not ctx.thorough else range(1, 256)):
                add(kind, [b if i == pos else 0 for i in range(8)])
        # every length across the block/window boundaries, random data, zero / ones / random initial value
        for n in list(range(0, 34)) + ([40, 41, 47, 48, 49, 50, 55, 56, 57, 58, 63, 64, 65, 96, 97, 128] if kind == "oem" else []):
            for init in (None, "f", "r"):
                d = [r.randrange(256) for _ in range(n)]
                add(kind, d, init, {r.randint(0, n), r.randint(0, n), n // 2})
    for n in range(34, ctx.pick(140, 420)):
        for init in (None, "r"):
            d = [r.randrange(256) for _ in range(n)]
            add("oem", d, init, {r.randint(0, n), min(n, 48), min(n, 49)})
    # sparse long messages: one nonzero bit, so that each term of the windowed reduction is isolated
    for n in (49, 56, 90, 130):
        for bit in (range(0, n * 8, 7) if not ctx.thorough else range(0, n * 8)):
            d = [0] * n
            d[bit // 8] = 1 << (bit % 8)
            add("oem", d, None)
    for n in ctx.pick([511, 1000], [511, 1000, 4093, 9001]):
        add("oem", [r.randrange(256) for _ in range(n)], "r", {r.randint(0, n)})
    r.shuffle(evs)
    scens = [{"k": "crc", "ev": evs[i:i + 40]} for i in range(0, len(evs), 40)]
    scen.validate(ctx, exe, scens, "CrcTrace", "SPECIFICATION Spec\n", "crc", "CRC computation")
    ctx.cov["crc_cases"] = len(evs)
    ctx.assumptions += ["generator polynomials tried: the nine of the repository's tests and of the OEM protocol"]
