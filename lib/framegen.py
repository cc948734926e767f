"""Scenario generators for framers: streams, chunkings, capacities."""
import frames as F

ALL = ["OEM", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ABB_ASCII"]


def rb(r, n, lo=0, hi=255):
    return bytes(r.randint(lo, hi) for _ in range(n))


def text(r, n):
    return bytes(r.choice(b"ABCXYZabc019,.;- \"_") for _ in range(n))


def good(r, kind):
    """One well-formed frame of a kind."""
    if kind == "bin":
        return F.binary(rb(r, r.choice([0, 0, 1, 4, 12, 33, 72])), msg=r.randint(0, 65535))
    if kind == "prop":
        return F.binary(rb(r, r.choice([0, 3, 20])), sync2=0x45)
    if kind == "sbin":
        return F.short_binary(rb(r, r.choice([0, 1, 8, 40, 255])), sync2=r.choice([0x44, 0x44, 0x45]))
    if kind == "asc":
        t = r.choice([b"BESTPOSA,COM1,0;X", text(r, r.choice([0, 1, 2, 5, 30, 90])), b"A*B,C", b"LOGA;" + text(r, 8) + b"*12345678\r"])
        return F.ascii_(t, upper=r.random() < 0.3)
    if kind == "sasc":
        return F.ascii_(r.choice([b"RAWIMUSA,1105,425384.180;1", text(r, r.choice([0, 1, 3, 20]))]), sync=b"%")
    if kind == "rx":
        return F.rxconfig()
    if kind == "abb":
        return F.abb(text(r, 1).replace(b" ", b"A") * 0 + r.choice([b"B", b"BESTPOS COM1", b"LOG A B C"]), [text(r, r.choice([0, 1, 5, 30])) for _ in range(r.choice([1, 1, 2, 3]))])
    if kind == "resp":
        return r.choice([b"<OK\r\n", b"<ERROR:Invalid Message. Field = 1\r\n", b"<OK extra\r\n"])
    if kind == "nmea":
        return F.nmea(r.choice([b"GPGGA,220147.50,5106.7,N", b"GPZDA", b"GPRMC,", text(r, r.randint(5, 40)), b"GPQQQ*" + text(r, 3) if 0 else b"GPXTE,A"]))
    if kind == "json":
        return r.choice([b"{}", b"{\"a\": {\"b\": [1,2]}}", b"{\"header\": {}, \"body\": {\"x\": 1.5}}"])
    raise ValueError(kind)


KINDS = ["bin", "prop", "sbin", "asc", "sasc", "rx", "abb", "resp", "nmea", "json"]


def broken(r, kind):
    g = bytearray(good(r, kind))
    how = r.randrange(8)
    if how == 0 and len(g) > 3:
        g[r.randrange(1, len(g))] ^= 1 << r.randrange(8)
    elif how == 1:
        del g[r.randrange(len(g)):]
    elif how == 2:
        p = r.randrange(len(g)); g[p:p] = rb(r, 1)
    elif how == 3 and len(g) > 2:
        del g[r.randrange(1, len(g) - 1)]
    elif how == 4:
        p = r.randrange(1, len(g)); g[p:p] = bytes([r.randint(128, 255)])
    elif how == 5:
        p = r.randrange(1, len(g)); g[p:p] = good(r, r.choice(KINDS))        # one frame inside another
    elif how == 6 and kind in ("bin", "sbin", "prop"):
        i = 8 if g[2] == 0x12 else 3
        g[i] = r.choice([0, 1, 200, 255])
        if g[2] == 0x12:
            g[9] = r.choice([0, 1, 0x7F, 0x80, 0xFF])
    else:
        g = g[r.randrange(1, len(g)):] if len(g) > 1 else g
    return bytes(g)


SYNCY = [b"#", b"%", b"$", b"<", b"{", b"}", b"\xaa", b"\xaaD", b"\xaaE", b"\xaaD\x12", b"\xaaD\x13", b"*", b"\r", b"\n", b"\r\n", b"< ", b"<O", b"<OK", b"<OK\r", b"<E", b"x", b"\x80", b"\xff", b"A", b" "]


def junk(r):
    k = r.random()
    if k < 0.3:
        return rb(r, r.randint(1, 12))
    if k < 0.7:
        return b"".join(r.choice(SYNCY) for _ in range(r.randint(1, 5)))
    if k < 0.8:
        return b"#" + text(r, r.randint(1, 30)) + rb(r, 1, 128, 255) + text(r, 3)
    if k < 0.85:
        return text(r, r.choice([255, 256, 257, 300]))
    return text(r, r.randint(1, 20))


def stream(r, kinds, n=None, pj=0.3, pb=0.25):
    out = []
    for _ in range(n or r.randint(1, 5)):
        k = r.random()
        if k < pj:
            out.append(junk(r))
        elif k < pj + pb:
            out.append(broken(r, r.choice(kinds)))
        else:
            out.append(good(r, r.choice(kinds)))
    return b"".join(out)


def split(r, s, mode):
    """cut a byte string into chunks"""
    if mode == "one":
        return [s]
    if mode == "bytes":
        return [s[i:i + 1] for i in range(len(s))]
    cuts = sorted(r.randrange(len(s) + 1) for _ in range(r.choice([1, 2, 3, 8]))) if s else []
    out, p = [], 0
    for c in cuts + [len(s)]:
        if c > p:
            out.append(s[p:c])
            p = c
    return out


def history(r, dialects, mgr, s, mode, bss, fresh, opts=None, drain_each=True, flush=False, cap=262144):
    ev = []
    if opts:
        ev.append({"op": "opt", **opts})
    for c in split(r, s, mode):
        ev.append({"op": "w", "d": list(c)})
        if drain_each and r.random() < 0.85:
            ev.append({"op": "drain" if r.random() < 0.8 else "g", "bs": r.choice(bss), "fresh": fresh if isinstance(fresh, bool) else r.random() < 0.5})
        if flush and r.random() < 0.15:
            ev.append({"op": "fl", "bs": r.choice([0, 1, 5, 32768])})
    ev.append({"op": "drain", "bs": max(bss), "fresh": bool(fresh)})
    ev.append({"op": "drain", "bs": 32768, "fresh": bool(fresh)})
    if flush:
        ev.append({"op": "fl", "bs": r.choice([0, 1, 7, 32768])})
        ev.append({"op": "drain", "bs": 32768, "fresh": True})
        ev.append({"op": "w", "d": list(good(r, r.choice(KINDS)))})
        ev.append({"op": "drain", "bs": 32768, "fresh": True})
        ev.append({"op": "fl", "bs": 32768})
    return {"dialects": dialects, "mgr": mgr, "cap": cap, "ev": ev}


# ---- plans (spec/FramePlan.tla) made concrete ---------------------------------------------------------
def segment(r, kind, fault):
    """bytes of a segment and its landmarks"""
    g = bytearray(junk(r)) if kind == "junk" else bytearray(good(r, kind))
    n = len(g)
    binary = kind in ("bin", "prop", "sbin")
    hdr = 28 if kind in ("bin", "prop") else 12 if kind == "sbin" else max(1, g.find(b";") + 1)
    crc = n - 4 if binary else max(1, g.rfind(b"*"))
    if fault == "crc":
        g[min(crc + (0 if binary else 1), n - 1)] ^= 1
    elif fault == "trunc":
        del g[max(1, n - r.choice([1, 2, 3, 5, 9])):]
    elif fault == "ins":
        p = r.randrange(1, n) if n > 1 else 0
        g[p:p] = bytes([r.choice([0x80, 0xFF, 0xAA, 35, 60, 36, 42, 13, 10])])
    elif fault == "len" and binary:
        i = 3 if kind == "sbin" else 8
        g[i] = (g[i] + r.choice([1, 255, 7])) % 256
    elif fault == "nest":
        p = min(len(g), r.choice([1, 2, hdr, crc]))
        g[p:p] = good(r, r.choice(KINDS))
    n = len(g)
    lm = {"s1": 1, "s2": 2, "s3": 3, "hdr": hdr, "mid": (hdr + crc) // 2, "crc": crc, "crc1": crc + 1, "l2": n - 2, "l1": n - 1, "end": n}
    return bytes(g), {k: min(max(v, 0), n) for k, v in lm.items()}


def concretise(r, plan, dialects, mgr, opts=None, rooms=None, fresh=None, cap=262144, tail=True):
    rooms = rooms or {"big": lambda g: 32768, "exact": lambda g: len(g), "less": lambda g: max(0, len(g) - 1), "tiny": lambda g: r.choice([0, 1, 5, 11, 12, 27, 28])}
    ev, buf = ([{"op": "opt", **opts}] if opts else []), b""
    fr = r.random() < 0.5 if fresh is None else fresh
    for s, c in zip(plan["segs"], plan["cuts"]):
        g, lm = segment(r, s["k"], s["f"])
        room = rooms[c["room"]](g)
        if c["m"] != "none":
            p = lm[c["m"]]
            ev += [{"op": "w", "d": list(buf + g[:p])}, {"op": "drain", "bs": room, "fresh": fr}]
            buf = g[p:]
        else:
            buf += g
            if c["room"] != "big":
                ev += [{"op": "w", "d": list(buf)}, {"op": "drain", "bs": room, "fresh": fr}]
                buf = b""
    ev += [{"op": "w", "d": list(buf)}, {"op": "drain", "bs": 32768, "fresh": fr}]
    if tail:
        ev += [{"op": "w", "d": list(good(r, r.choice(KINDS)))}, {"op": "drain", "bs": 32768, "fresh": fr}]
    return {"dialects": dialects, "mgr": mgr, "cap": cap, "ev": ev}
