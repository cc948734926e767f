"""R01: compressed range messages (RANGECMP, RANGECMP2, RANGECMP4, RANGECMP5) and the observations they state."""
import json, os, random, struct
import frames as FR, msgdef as M, msggen as G, scen, vf
LEVEL = "model_checking"
b = G.b
HERE = os.path.dirname(os.path.abspath(__file__))
IDS = {140: "RANGECMP", 1273: "RANGECMP2", 1734: "RANGECMP3", 2050: "RANGECMP4", 2537: "RANGECMP5"}
WEEK = 604800000
MOST = 325
ROWS = [M.simple("prn", "USHORT", "%hu"), M.simple("glofreq", "SHORT", "%hd"), M.simple("psr", "DOUBLE", "%.3f"), M.simple("psrstd", "FLOAT", "%.3f"), M.simple("adr", "DOUBLE", "%.6f"),
        M.simple("adrstd", "FLOAT", "%.3f"), M.simple("dopp", "FLOAT", "%.3f"), M.simple("cno", "FLOAT", "%.1f"), M.simple("lock", "FLOAT", "%.3f"), M.simple("status", "ULONG", "%lx")]


def world(r, without=()):
    w = G.World(r, 1)
    var = lambda: [M.var("data", "HEXBYTE", "%Z", 8000)]
    fs = {43: [M.rows("obs", MOST, ROWS)], 140: [M.rows("obs", MOST, [M.fixed("d", "HEXBYTE", "%Z", 24)])]}
    names = dict(IDS)
    names.update({43: "RANGE"})
    w.msgs = [M.msg(42, "OTHER", [(1, G.strip([M.simple("a", "ULONG", "%lu")]))])]
    w.msgs += [M.msg(i, names[i], [(1, G.strip(fs[i] if i in fs else var()))]) for i in sorted(names) if i not in without]
    w.defs = [{"id": m["id"], "name": b(m["name"])} for m in w.msgs]
    return w


# --- headers -------------------------------------------------------------------
def header(r, t):
    return {"week": (t // WEEK) % 65536, "ms": t % WEEK, "seq": r.choice([0, 1, 65535]), "idle": r.choice([0, 117, 200]), "ver": r.choice([0, 15, 65535]), "rs": r.choice([0, 32, 0xFFFFFFFF])}


def message(r, kind, mid, body, t, sib=0, resp=False):
    """body: bytes; for text: the body's text"""
    h = header(r, t)
    crc = r.choice([1, 1, 0, 0x1fe3])
    if kind == "bin":
        m = bytes([0xAA, 0x44, 0x12]) + struct.pack("<BHBBHHBBHIIHH", 28, mid, sib | (0x80 if resp else 0), r.choice([0, 32, 64]), len(body), h["seq"], h["idle"], 180, h["week"], h["ms"], h["rs"], crc, h["ver"]) + body
        return m + struct.pack("<I", FR.crc(m))
    if kind == "sbin":
        m = bytes([0xAA, 0x44, 0x13]) + struct.pack("<BHHI", len(body), mid, h["week"], h["ms"]) + body
        return m + struct.pack("<I", FR.crc(m))
    sfx = "_%d" % sib if sib else ""
    name = IDS.get(mid, "OTHER")
    secs = "%d.%03d" % (h["ms"] // 1000, h["ms"] % 1000)
    f = [r.choice(["COM1", "COM2"]), h["seq"], "%.1f" % (h["idle"] / 2), "FINESTEERING", h["week"], secs, "%08x" % h["rs"], "%04x" % crc, h["ver"]]
    if kind == "sasc": t = ("%" + ",".join([name + "A" + sfx, str(h["week"]), secs]) + ";").encode() + body
    elif kind == "abb": return ("<" + " ".join(map(str, [name + sfx] + f)) + "\r\n<     ").encode() + body + b"\r\n"
    else: t = ("#" + ",".join(map(str, [name + "A" + sfx] + f)) + ";").encode() + body
    return t + b"*%08x\r\n" % FR.crc(t[1:])


def text(mid, body, abb):
    """the body of a binary message as text"""
    n = struct.unpack_from("<I", body)[0]
    if mid == 140:
        rows = [body[4 + 24 * i:28 + 24 * i].hex() for i in range(n)]
        if abb: return (b"%d" % n) + b"".join(b"\r\n<          " + x.encode() for x in rows)
        return ",".join([str(n)] + rows).encode()
    return ("%d%s%s" % (n, " " if abb else ",", body[4:4 + n].hex())).encode()


class Bits:
    def __init__(self): self.v, self.n = 0, 0

    def put(self, v, n):
        self.v |= (v & ((1 << n) - 1)) << self.n
        self.n += n

    def bytes(self): return self.v.to_bytes((self.n + 7) // 8, "little")


# --- what a receiver would report -------------------------------------------------
SIG2 = {0: [1, 4, 5, 6, 7, 15], 1: [1, 3, 4, 6], 2: [1, 2], 5: [1, 2, 3, 4, 5, 12], 6: [1, 2, 3, 4, 13, 16, 19, 20, 21], 7: [1, 2, 3, 4, 8, 10, 11], 9: [1], 8: [1]}
SIG4 = {0: [1, 4, 5, 6, 7, 15], 1: [1, 3, 4, 6], 2: [1, 2], 5: [1, 2, 3, 4, 5, 12], 6: [1, 2, 3, 4, 5, 6, 7, 9, 11], 7: [1, 2, 3, 4, 8, 10, 11], 9: [1]}


def signed(r, n, typical=None):
    k = r.random()
    if k < .06: return -(1 << (n - 1))
    if k < .1: return (1 << (n - 1)) - 1
    if k < .16: return r.choice([-1, 0, 1])
    if k < .2: return -(1 << (n - 1)) + 1
    return r.randrange(-(1 << (n - 1)), 1 << (n - 1)) if typical is None or k < .5 else r.randint(-typical, typical)


class Sky:
    """satellites tracked over a while; lock times run on, now and then one is lost"""
    def __init__(self, r, mid):
        self.r, self.mid = r, mid
        self.t = r.choice([2000, 1419, 65534]) * WEEK + r.choice([0, WEEK - 5000, WEEK - 500, 1000, r.randrange(0, WEEK // 1000) * 1000])
        self.sats, self.locks = {}, {}
        tab = SIG2 if mid == 1273 else SIG4
        for y in sorted(r.sample(sorted(tab), r.choice([1, 1, 2, 3]))):
            for s in sorted(r.sample(range(64), r.choice([1, 2, 3]))) if r.random() < .6 else [r.choice([0, 1, 31, 62, 63])]:
                if y == 1 and mid != 1273 and r.random() < .7: s %= 42
                if y == 2 and mid != 1273: s = r.choice([s % 39, 53 + s % 9])
                self.sats[(y, s)] = sorted(r.sample(tab[y], r.randint(1, min(4, len(tab[y])))))
                self.g = {k: r.randint(0, 13) for k in self.sats}
        for k, sg in self.sats.items():
            for x in sg: self.locks[k + (x,)] = self.t - r.choice([0, 1, 20, 100, 1000, 130000, 131071, 262143, 500000, r.randrange(300000)])

    def step(self, ms):
        r = self.r
        self.t += ms
        for k in self.locks:
            if r.random() < .06: self.locks[k] = self.t - r.choice([0, r.randint(0, ms + 1)])

    def lock(self, k): return max(0, self.t - self.locks[k])


def bits4(ms):
    i = 0
    while i < 15 and ms >= (1 << (i + 4)): i += 1
    return i


def body2(r, sky, strange=0.0):
    out, n = b"", 0
    for (y, s), sg in sky.sats.items():
        sg = [x for x in sg if r.random() < .9]
        y2 = r.choice([3, 4, 10, 31]) if r.random() < strange else y
        c = Bits()
        for v, k in [(r.randrange(256) if r.random() < .3 else s % 32, 8), (r.choice([s + 1, s + 1, 255]) if r.random() < .05 else s + 1, 8), (r.randrange(16) if r.random() < .1 else sky.g[(y, s)], 4), (y2, 5), (r.randrange(2), 1),
                     (signed(r, 29, 30000000), 29), (signed(r, 21, 5000), 21), (len(sg), 4)]: c.put(v, k)
        out += c.bytes()[:10]
        for x in sg:
            x2 = r.randrange(32) if r.random() < strange else x
            lk = min(sky.lock((y, s, x)), 131071)
            c = Bits()
            for v, k in [(x2, 5), (r.randrange(2), 1), (r.randrange(2), 1), (r.randrange(2), 1), (lk, 17), (r.randrange(16) if r.random() < .2 else r.randrange(7), 4), (r.randrange(2), 1), (r.randrange(2), 1), (0, 1),
                         (r.randrange(32), 5), (r.randrange(16), 4), (r.randrange(16), 4), (r.randrange(1 << 14), 14), (r.randrange(1 << 20), 20), (signed(r, 17), 17)]: c.put(v, k)
            out += c.bytes()
            n += 1
    return struct.pack("<I", len(out)) + out


def block(r, c, sky, k, psd):
    for v, n in [(r.randrange(2), 1), (r.randrange(2), 1), (r.randrange(1 << 11), 11), (bits4(sky.lock(k)) if r.random() < .97 else r.randrange(16), 4), (r.randrange(1 << psd), psd), (r.randrange(1 << psd), psd)]: c.put(v, n)


def body4(r, sky, diff, ids, five=False, strange=0.0):
    """diff: whether a satellite's blocks are differential (by the dice); ids: reference identifiers by satellite"""
    c = Bits()
    ys = sorted({y for y, _ in sky.sats})
    if r.random() < .1 or five and r.random() < .1: ys = sorted(set(ys + [r.choice([3, 4, 8, 10])])) if r.random() < strange else ys
    c.put(sum(1 << y for y in ys), 16)
    for y in ys:
        sats = sorted(s for q, s in sky.sats if q == y and r.random() < .95) if r.random() < .97 else []
        sigs = sorted({x for s in sats for x in sky.sats[(y, s)]} | ({r.randrange(16)} if r.random() < .1 else set()))
        if r.random() < strange: sigs = sorted(r.sample(range(16), r.randint(0, 16)))
        c.put(sum(1 << s for s in sats), 64)
        c.put(sum(1 << x for x in sigs), 16)
        have = {s: [x for x in sigs if (x in sky.sats[(y, s)] and r.random() < .95) or r.random() < strange * .2] for s in sats}
        for s in sats:
            c.put(sum(1 << i for i, x in enumerate(sigs) if x in have[s]), len(sigs))
        for s in sats:
            d = not five and r.random() < diff
            if not d and not five: ids[(y, s)] = r.randrange(8)
            flag = int(d) if not five or r.random() < .9 else 1
            c.put(flag, 1)
            c.put(ids.get((y, s), r.randrange(8)) if r.random() < .93 else r.randrange(8), 3)
            if y == 1 and not d: c.put(sky.g[(y, s)] if r.random() < .95 else r.randrange(32 if strange else 21), 5)
            first = True
            for x in have[s]:
                k = (y, s, x) if (y, s, x) in sky.locks else next(iter(sky.locks))
                block(r, c, sky, k, 5 if five else 4)
                if d: c.put(signed(r, 19), 19), c.put(signed(r, 16), 16), c.put(signed(r, 18 if first else 14), 18 if first else 14)
                elif first:
                    c.put(r.choice([(1 << 37) - 1, 0, 1, (1 << 37) - 2]) if r.random() < .1 else r.randrange(40000000, 80000000) if r.random() < .8 else r.randrange(1 << 37), 37)
                    c.put(signed(r, 23), 23), c.put(signed(r, 28 if five else 26), 28 if five else 26)
                else: c.put(signed(r, 20), 20), c.put(signed(r, 23), 23), c.put(signed(r, 16 if five else 14), 16 if five else 14)
                first = False
    out = c.bytes()
    return struct.pack("<I", len(out)) + out


def word(r, y=None, sig=None):
    y = r.randrange(8) if y is None else y
    sig = r.randrange(32) if sig is None else sig
    return r.randrange(1 << 16) | (y << 16) | (r.randrange(2) << 20) | (sig << 21) | (r.randrange(32) << 27) | (r.randrange(2) << 19)


CTS = [(0, s) for s in (0, 5, 9, 14, 16, 17)] + [(1, s) for s in (0, 1, 5, 6)] + [(2, 0), (2, 6)] + [(3, s) for s in (2, 6, 7, 12, 17, 20)] + [(4, s) for s in (0, 1, 2, 4, 5, 6, 7, 9, 11)] + [(5, s) for s in (0, 14, 16, 17, 24, 27, 28)] + [(6, 0)]


def body1(r, n, strange=0.0):
    out = b""
    for _ in range(n):
        y, s = (r.randrange(8), r.randrange(32)) if r.random() < strange else r.choice(CTS)
        g = r.randint(0, 20) if r.random() < .97 - strange else r.randrange(64)
        psr = r.randrange(18000000 * 128, 42000000 * 128) if r.random() < .8 else r.choice([0, 1, (1 << 36) - 1, r.randrange(1 << 36)])
        c = Bits()
        for v, k in [(word(r, y, s), 32), (signed(r, 28, 1300000), 28), (psr, 36), (r.choice([0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]) if r.random() < .15 else r.randrange(1 << 32), 32), (r.randrange(16), 4), (r.randrange(16), 4),
                     (r.choice([0, 255, r.randrange(256)]), 8), (r.choice([0, (1 << 21) - 1, r.randrange(1 << 21)]), 21), (r.randrange(32), 5), (g, 6), (r.randrange(1 << 16), 16)]: c.put(v, k)
        out += c.bytes()
    return struct.pack("<I", n) + out


# --- histories ---------------------------------------------------------------------
FORMATS = ["ASCII", "ASCII", "ABBREV_ASCII", "BINARY", "JSON", "UNSPECIFIED", "FLATTENED_BINARY"]
KINDS = ["bin", "bin", "bin", "asc", "abb", "sbin", "sasc"]


def event(r, mid, body, t, sib=0, kind=None, resp=False, null=False):
    kind = kind or r.choice(KINDS)
    if kind == "sbin" and len(body) > 255: kind = "bin"
    n = struct.unpack_from("<I", body)[0] if len(body) >= 4 else 0
    if kind[-3:] != "bin" and (mid not in IDS or n > 8000 or len(body) != 4 + n * (24 if mid == 140 else 1)): kind = "bin"
    x = message(r, kind, mid, body if kind[-3:] == "bin" else text(mid, body, kind == "abb"), t, sib, resp)
    return {"op": "dc", "b": list(x), "f": r.choice(FORMATS) if kind != "sbin" else r.choice(FORMATS[:4]), "cap": len(x) + r.choice([0, 0, 16, 200, 3000, 16000, 40000, r.randrange(20000)]), "null": null}


def spoil(r, mid, body):
    k = r.random()
    x = bytearray(body)
    if k < .4: return bytes(x[:r.randint(0, len(x))])
    if k < .6:
        struct.pack_into("<I", x, 0, r.choice([0, 1, 0xFFFFFFFF, 0x80000000, MOST, MOST + 1, len(x), len(x) - 4, len(x) - 3, struct.unpack_from("<I", x)[0] + r.choice([-1, 1, 8, 100])]) & 0xFFFFFFFF)
        return bytes(x)
    if k < .8: return bytes(x) + bytes(r.randrange(256) for _ in range(r.choice([1, 4, 12, 30])))
    for _ in range(r.choice([1, 3, 10])):
        if len(x) > 4: x[r.randrange(4, len(x))] = r.randrange(256)
    return bytes(x)


def history(r, w, mid, n, strange=0.0, bad=0.0):
    ev = []
    sky = Sky(r, mid if mid != 140 else 1273)
    ids, src = {}, r.choice([0, 0, 1])
    grid = mid in (1734, 2050) and r.random() < .8
    if grid: sky.t = sky.t // 1000 * 1000
    fraction = 0
    for i in range(n):
        if mid == 140: body = body1(r, r.choice([0, 1, 2, 3, 6]), strange)
        elif mid == 1273: body = body2(r, sky, strange)
        elif mid == 2537: body = body4(r, sky, 0, ids, True, strange)
        else: body = body4(r, sky, (0 if sky.t % 1000 == 0 else 1) if grid and r.random() < .9 else r.random(), ids, False, strange)
        if r.random() < bad: body = spoil(r, mid, body)
        ev.append(event(r, mid, body, sky.t, src if r.random() < .9 else 1 - src))
        k = r.random()
        if k < .03: ev.append({"op": "reset"})
        elif k < .06: ev.append(event(r, r.choice([42, 43, mid]), body, sky.t, r.choice([2, 31, 0]), "bin"))
        elif k < .08: ev.append(event(r, mid, body, sky.t, src, "bin", null=True))
        elif k < .10: ev.append(event(r, mid, body, sky.t, src, "bin", resp=True)); break
        sky.step(r.choice([250, 250, 500, 1000 - sky.t % 1000]) if grid else r.choice([0, 1, 50, 250, 1000, 1000, 5000, 20000, 60000, 150000]))
    return ev


def many(r, w):
    """as many observations as there can be, and more"""
    out = []
    for n in (324, 325, 326): out.append([event(r, 140, body1(r, n), 2000 * WEEK, kind="bin")])
    for n in (325, 326):
        body, left = b"", n
        while left:
            k = min(left, r.choice([15, 14, 9]))
            c = Bits()
            for v, q in [(0, 8), (1 + left % 60, 8), (3, 4), (0, 5), (0, 1), (22000000, 29), (1000, 21), (k, 4)]: c.put(v, q)
            body += c.bytes()
            for _ in range(k):
                c = Bits()
                c.put(r.choice([1, 4, 5]), 5), c.put(r.randrange(1 << 24), 24), c.put(1, 1), c.put(r.getrandbits(64) << 2, 66)
                body += c.bytes()[:12]
            left -= k
        out.append([event(r, 1273, struct.pack("<I", len(body)) + body, 2000 * WEEK, kind="bin")])
    for mid in (2050, 2537):
        for extra in (0, 1):
            sky = Sky(r, mid)
            sky.sats, sky.g = {}, {}
            for y, m in ((0, 54), (5, 0), (6, 0)):
                for s in range(m): sky.sats[(y, s)] = SIG4[y][:6]
            sky.sats[(5, 0)] = [1]
            if extra: sky.sats[(5, 1)] = [1, 2]
            sky.locks = {k + (x,): sky.t for k, v in sky.sats.items() for x in v}
            state = r.getstate()
            out.append([event(r, mid, exact4(r, sky, mid == 2537), sky.t // 1000 * 1000, kind="bin")])
    return out


def exact4(r, sky, five):
    c = Bits()
    ys = sorted({y for y, _ in sky.sats})
    c.put(sum(1 << y for y in ys), 16)
    for y in ys:
        sats = sorted(s for q, s in sky.sats if q == y)
        sigs = sorted({x for s in sats for x in sky.sats[(y, s)]})
        c.put(sum(1 << s for s in sats), 64), c.put(sum(1 << x for x in sigs), 16)
        for s in sats: c.put(sum(1 << i for i, x in enumerate(sigs) if x in sky.sats[(y, s)]), len(sigs))
        for s in sats:
            c.put(0, 1), c.put(r.randrange(8), 3)
            for i, x in enumerate(sky.sats[(y, s)]):
                block(r, c, sky, (y, s, x), 5 if five else 4)
                if i == 0: c.put(r.randrange(40000000, 80000000), 37), c.put(5, 23), c.put(-77777, 28 if five else 26)
                else: c.put(-100, 20), c.put(9, 23), c.put(r.randint(-80, 80), 16 if five else 14)
    out = c.bytes()
    return struct.pack("<I", len(out)) + out


def vectors(r, w):
    """messages of real receivers"""
    for v in json.load(open(os.path.join(HERE, "range_vectors.json"))):
        yield dict(w.scenario([{"op": "dc", "b": list(x.encode()), "f": "ASCII", "cap": 20000, "null": False} for x in v["in"]]), db=True)


LOCK = """SPECIFICATION Spec
CONSTANTS
 GAPS = %s
 MAX2 = %d
 LAST = %d
INVARIANTS Exact2 AtLeast2 NotLonger Near Sane
PROPERTY Grow
"""
REF = """SPECIFICATION Spec
CONSTANTS
 SIGNALS = %s
 IDS = %d
 SECOND = 2
 TRUTHS = {0, 5}
 LAST = %d
INVARIANT Right
"""


def run(ctx):
    r = random.Random(ctx.seed)
    exe = vf.build("h_rc")
    for gaps, most, last in ctx.pick([("{0, 1, 3}", 6, 12)], [("{0, 1, 3}", 6, 12), ("{0, 1, 2, 5}", 6, 16), ("{1, 4, 7}", 3, 30)]):
        ctx.model_check("RangeLockMC", LOCK % (gaps, most, last), deadlock=False)
    for sig, ids, last in ctx.pick([("{1}", 2, 7), ("{1, 2}", 2, 4)], [("{1}", 2, 9), ("{1}", 3, 9), ("{1, 2}", 2, 5)]):
        ctx.model_check("RangeRefMC", REF % (sig, ids, last), deadlock=False)
    w = world(r)
    sc = lambda ev, w=w, db=True, pf="": dict(w.scenario(ev), db=db, pf=pf)
    one = [sc([{"op": "cts", "w": M.limbs(v)} for v in [0, 0xFFFFFFFF] + [1 << i for i in range(32)] + [r.getrandbits(32) for _ in range(ctx.pick(100, 5000))]])]
    hist = []
    for _ in range(ctx.pick(60, 700)):
        for mid in IDS: hist.append(sc(history(r, w, mid, r.choice([2, 4, 8]))))
    odd = []
    for _ in range(ctx.pick(60, 700)):
        for mid in IDS: odd.append(sc(history(r, w, mid, r.choice([1, 2, 3]), strange=r.choice([0, .1, .5]), bad=r.choice([.3, .8]))))
    # a parser that decompresses, in every format
    pars = []
    for _ in range(ctx.pick(15, 200)):
        for mid in IDS:
            ev = history(r, w, mid, r.choice([2, 4, 8]), bad=r.choice([0, 0, .2]))
            for e in ev:
                if e["op"] == "dc": e["f"] = "UNSPECIFIED"
            pars.append(sc(ev, pf=r.choice(["ASCII", "BINARY", "BINARY", "ABBREV_ASCII", "JSON", "FLATTENED_BINARY"])))
    lone = world(r, (r.choice(sorted(IDS) + [43]),))
    for mid in IDS:
        odd.append(sc(history(r, lone, mid, 2), lone))
        ev = history(r, w, mid, 2)
        odd.append(sc(ev + [{"op": "db", "on": True}] + ev, w, False))
    def judge(scens, name, what, size=350):
        for x in scens: x.setdefault("pf", "")
        for i in range(0, len(scens), size):
            scen.validate(ctx, exe, scens[i:i + size], "RangeTrace", "SPECIFICATION Spec\n", "%s%d" % (name, i // size), what, timeout=600)
    judge(one + list(vectors(r, w)), "real", "messages of real receivers, status words")
    judge(hist, "hist", "histories")
    judge(pars, "parser", "histories read by a parser")
    judge(odd, "odd", "damaged and strange messages")
    judge([sc(ev) for ev in many(r, w)], "many", "as many observations as there can be")
