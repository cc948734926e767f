"""Messages that hold a message (RXCONFIG), for X01, P01 and P02."""
import msg as MG, msgdef as M, msggen as G, parse as PA
b = G.b
IDS = {128: "RXCONFIG", 2474: "RXCONFIGUSER"}


def world(r, w):
    """the messages that hold messages, added to a world; the values of an enumeration come first in its list"""
    held = r.choice([[128, 2474], [128, 2474], [128], [2474]])
    w.msgs = [m for m in w.msgs if m["id"] not in IDS] + [M.msg(i, IDS[i], [(r.choice([1, 63234]), G.strip([M.var("data", "UCHAR", "%R", 100)]))]) for i in held]
    w.defs = [{"id": m["id"], "name": b(m["name"])} for m in w.msgs]
    w.held = held
    return held


def plain(r, w, item, kind):
    """a valid message of that kind: bin, sbin, asc, sasc, abb"""
    m, d, v, e = item
    crc, sib = PA.n32(d["crc"]), PA.bits(r)
    if kind[0] == "s" and PA.n32(m["latest"]) != crc: kind = kind[1:]
    if kind in ("bin", "sbin") and crc > 0xFFFF and PA.n32(m["latest"]) != crc: kind = "asc"
    if kind == "sbin" and len(e["bin"]) > 255: kind = "bin"
    if kind in ("bin", "sbin"): return PA.binary(r, kind, m["id"], crc, e["bin"], False, sib)
    if kind == "abb": return PA.textual(r, kind, m["name"], crc, e["abb"], False, sib, PA.n32(m["latest"]) == crc)
    return PA.sealed(PA.textual(r, kind, m["name"], crc, bytes(e["asc"])[:-11], False, sib))


def spoil(r, x):
    x = bytearray(x)
    k = r.random()
    if k < .4: return bytes(x[:r.randint(0, len(x))])
    if k < .8 and x:
        i = r.randrange(len(x))
        x[i] = r.choice([0, 1, 42, 44, 59, 13, 32, 255, x[i] ^ 1, x[i] ^ 128])
        return bytes(x)
    return bytes(x) + bytes(r.randrange(256) for _ in range(r.randint(1, 5)))


def body(r, inner):
    """what a message holding this one consists of, in the same format: the message with its checksum inverted"""
    k = inner[:1]
    if k == b"\xaa": return inner[:-4] + bytes(255 - c for c in inner[-4:])
    if k in b"#%": return inner[:-10] + b"%08x" % (int(inner[-10:-2], 16) ^ 0xFFFFFFFF)
    x = b"<     " + inner[1:]
    if r.random() < .7: x = x.replace(b"\r\n", b" \r\n", 1)
    return x


def outer(r, bod, kind, crc=1, mid=None, whole=False):
    mid = mid or r.choice([128, 128, 2474])
    if kind in ("bin", "sbin"): return PA.binary(r, kind, mid, crc, bod, False, PA.bits(r))
    t = PA.textual(r, kind, IDS[mid], crc, bod, False, PA.bits(r), r.random() < .3)
    if not whole and r.random() < .08: t = t[:r.randint(1, min(len(t), 75))] + (b"\r\n" if kind == "abb" else b"")       # ends within its header, or soon after
    return t if kind == "abb" else PA.sealed(t)


def frame(r, w, item):
    kind = r.choice(["bin", "bin", "asc", "asc", "abb", "abb", "sbin", "sasc"])
    x = plain(r, w, item, kind)
    if r.random() < .12: x = PA.message(r, w, item)
    bod = body(r, x) if r.random() > .15 and len(x) > 12 and x[:1] != b"$" else x
    if r.random() < .12: bod = spoil(r, bod)
    k = "bin" if x[:1] == b"\xaa" else "asc" if x[:1] in b"#%" else "abb"
    if r.random() < .04: k = r.choice(["asc", "bin", "abb", "sbin", "sasc"])
    if k == "sbin" and len(bod) > 255: k = "bin"
    return outer(r, bod, k, r.choice([1, 63234, 5]))
