"""Shared by the framing checks F01..F06.

Every check model-checks the framing specification on toy parameters (alphabets chosen for the check), then replays
specification-generated plans and random histories into the real framers and has TLC accept or reject what they did."""
import random
import framegen as G, frames as F, scen, vf

CFG = """SPECIFICATION Spec
CONSTANTS
 CrcLen = 8
 BinHdr = 28
 ShortHdr = 12
 BinCrc = 4
 LenAt = 8
 ShortLenAt = 3
 LenBytes = 2
 MaxLen = 32768
 NmeaMin = 11
 NmeaMax = 256
 AscCrcOk <- RealAscCrcOk
 BinCrcOk <- RealBinCrcOk
 Xor8 <- RealXor
 NmeaCrcOk <- RealNmeaCrcOk
"""
KF = {"OEM": G.KINDS, "OEM_ASCII": ["asc", "asc", "rx", "sasc", "abb"], "OEM_ASCII_SHORT": ["sasc", "sasc", "asc"], "OEM_BINARY": ["bin", "bin", "sbin", "prop"],
      "OEM_BINARY_SHORT": ["sbin", "sbin", "bin"], "OEM_ABB_ASCII": ["abb", "abb", "resp", "asc"]}
FIVE = ["OEM_ASCII", "OEM_ASCII_SHORT", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ABB_ASCII"]

# toy alphabets: (dialect, alphabet, stream length in the quick tier, JSON framing)
TOY = {
    "asc": ("OEM", [35, 42, 13, 10, 48, 200], 6, False),
    "bin": ("OEM", [170, 68, 69, 18, 19, 0, 1], 6, False),
    "abb": ("OEM", [60, 32, 65, 79, 75, 13, 10], 6, False),
    "nmea": ("OEM", [36, 42, 48, 13, 10, 200], 6, False),
    "json": ("OEM", [123, 125, 200, 35, 60], 7, True),
    "f_asc": ("OEM_ASCII", [35, 42, 13, 10, 48], 7, False),
    "f_sasc": ("OEM_ASCII_SHORT", [37, 42, 13, 10, 48], 7, False),
    "f_bin": ("OEM_BINARY", [170, 68, 18, 0, 1], 7, False),
    "f_sbin": ("OEM_BINARY_SHORT", [170, 68, 19, 0, 1], 7, False),
    "f_abb": ("OEM_ABB_ASCII", [60, 32, 79, 13, 10], 7, False),
}


def toy(ctx, names, more=1):
    for n in names:
        dia, alpha, N, js = TOY[n]
        ctx.model_check("FramerMC", """SPECIFICATION Spec
CONSTANTS
 CrcLen = 1
 BinHdr = 5
 ShortHdr = 4
 BinCrc = 1
 LenAt = 4
 ShortLenAt = 3
 LenBytes = 1
 MaxLen = 8
 NmeaMin = 6
 NmeaMax = 7
 AscCrcOk <- ToyAscCrcOk
 BinCrcOk <- ToyBinCrcOk
 Xor8 <- ToyXor
 NmeaCrcOk <- ToyNmeaCrcOk
 Dia = "%s"
 Alphabet = {%s}
 N = %d
 WithJson = %s
INVARIANTS SyncsOnly JunkAgrees SameFrames Conserved Progress
PROPERTY Stable
""" % (dia, ",".join(map(str, alpha)), N + ctx.pick(0, more), "TRUE" if js else "FALSE"), deadlock=False, timeout=850)


def plans(ctx, kinds, faults, marks, rooms, segs, cuts):
    q = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    return scen.generate(ctx, "FramePlan", "SPECIFICATION Spec\nCONSTANTS\n Kinds = %s\n Faults = %s\n Marks = %s\n Rooms = %s\n MaxSegs = %d\n MaxCuts = %d\nACTION_CONSTRAINT Emit\n" %
                         (q(sorted(set(kinds))), q(faults), q(marks), q(rooms), segs, cuts), workers=1, timeout=850)


def sample(r, xs, n):
    return xs if len(xs) <= n else r.sample(xs, n)


def rand(r, dial, mgr, n, bss=([32768], [32768], [32768, 40, 100], [12, 30, 60]), modes=("one", "cut", "cut", "bytes"), opts=0.3, caps=(262144,), nseg=None):
    out = []
    kinds = [k for d in dial for k in KF[d]]
    for _ in range(n):
        s = G.stream(r, kinds, nseg)
        o = None
        if r.random() < opts:
            o = {"json": r.random() < 0.7 and not mgr, "payload": r.random() < .5 and not mgr and dial == ["OEM"], "unk": r.random() < .7}
        cap = r.choice(caps) if not mgr else 262144
        out.append(G.history(r, dial, mgr, s, r.choice(modes), r.choice(bss), r.choice([True, False, None]), o, flush=r.random() < .3, cap=cap))
    return out


def check(ctx, exe, scens, name, desc, timeout=850):
    for i in range(0, len(scens), 6000):
        scen.validate(ctx, exe, scens[i:i + 6000], "FramerTrace", CFG, "%s%d" % (name, i // 6000), desc, timeout=timeout)


def big(dial, s, splits, bs=40000, mgr=False):
    """a stream with messages around the maximum length"""
    ev, p = [], 0
    for c in splits + [len(s)]:
        ev += [{"op": "w", "d": list(s[p:c])}, {"op": "drain", "bs": bs, "fresh": False}]
        p = c
    return {"dialects": dial, "mgr": mgr, "cap": 262144, "ev": ev}


def limit_streams(dialect, lens):
    asc = lambda n: F.ascii_(b"A" * (n - 12))
    sasc = lambda n: F.ascii_(b"A" * (n - 12), b"%")
    bi = lambda n: F.binary(b"\1" * (n - 32))
    ab1 = lambda n: F.abb(b"B" * 50, [b"c" * (n - 61)]) + b"zz"
    ab2 = lambda n: F.abb(b"B" * 50, [b"c" * (n - 61 - 68), b"d" * 60]) + b"zz"
    rs = lambda n: b"<OK" + b"x" * (n - 5) + b"\r\n"
    m = {"OEM": [asc, sasc, bi, ab1, ab2, rs], "OEM_ASCII": [asc], "OEM_ASCII_SHORT": [sasc], "OEM_BINARY": [bi], "OEM_BINARY_SHORT": [], "OEM_ABB_ASCII": [ab1, ab2, rs]}[dialect]
    return [f(n) for f in m for n in lens]
