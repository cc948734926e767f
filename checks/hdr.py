"""Shared by H01/H02: header histories."""
import random
import msgdef as M, oemdb as O, scen
b = O.b


def gen(ctx):
    lvl = ctx.pick(1, 2)
    ctx.model_check("HeaderMC", "SPECIFICATION Spec\nCONSTANT Level = %d\nINVARIANT RoundTrip\n" % lvl, deadlock=False)
    return [x["b"] for x in scen.generate(ctx, "HeaderMC", "SPECIFICATION Spec\nCONSTANT Level = 1\nINVARIANT Emit\n", workers=1)]


def num(r, hi):
    return str(r.choice([0, 1, 9, 10, 255, 256, hi - 1, hi, r.randint(0, hi)]))


def text(r):
    """a random text header, mostly well-formed, with arbitrary field texts"""
    name = r.choice(["BESTPOS", "BESTPOS", "A9", "VERSION", "NOSUCH", "BESTPOSX", "Q"]) 
    sfx = r.choice(["A", "A", "A", "R", "B", "", "A_1", "A_31", "_2", "R_7", "_12"])
    secs = "%d.%03d" % (r.randint(0, 604799), r.randint(0, 999))
    F = {"port": r.choice(["COM1", "COM2", "COM1_9", "NO_PORTS", "COM9", "Z"]), "seq": num(r, 65535), "idle": r.choice(["0.0", "58.5", "100.0", "45", "7.50", "99.5", "127.5"]),
         "ts": r.choice(["UNKNOWN", "FINESTEERING", "SATTIME", "COARSE"]), "week": num(r, 65535), "secs": r.choice([secs, secs, secs, "0.000", "1.001", "12", "5.5", "4294967.295", "604799.999"]),
         "rs": "%08x" % r.randrange(2**32) if r.random() < .8 else r.choice(["0", "FFFFFFFF", "a", "00000000ff"]), "crc": "%04x" % r.randrange(65536), "ver": num(r, 65535)}
    if r.random() < .35:
        k = r.choice(list(F))
        F[k] = r.choice(["", "x", "-1", "1x", "x1", " 1", "1e3", "65536", "99999999999999999999", "0x1", ".5", "1.", "1.2345", "g", "1.5.5", "\x80", "5;", "*", "_", "100000000", "Aé", "45.3", "128.0"])
    if r.random() < .05: sfx = r.choice(["", "_", "__1", " ", ";", "*", "_123"])
    if r.random() < .03: name = r.choice(["", "1X", "_", "OK", "ERROR", "OKAY", "ERRORS", "ER"])
    keys = ["port", "seq", "idle", "ts", "week", "secs", "rs", "crc", "ver"]
    k = r.randrange(4)
    if k == 0: t = "#" + ",".join([name + sfx] + [F[x] for x in keys]) + ";"
    elif k == 1: t = "%" + ",".join([name + sfx, F["week"], F["secs"]]) + ";"
    elif k == 2: t = "<" + " ".join([name + sfx.strip("ARB")] + [F[x] for x in keys]) + "\r\n"
    else: t = "<" + " ".join([name + sfx.strip("ARB"), F["week"], F["secs"]]) + "\r\n"
    if r.random() < .06: t = t[:r.randint(1, len(t))]
    if r.random() < .04:
        i = r.randrange(1, len(t) + 1)
        t = t[:i] + r.choice([",", ";", " ", "\r\n", "\r", "\n", ",,", "  "]) + t[i:]
    tail = r.choice(["", "SOL_COMPUTED,1.0,2.0*00000000\r\n", "1 2 3\r\n", ";", ","])
    return [c for c in (t + tail).encode("latin-1", "replace") if c]


def json_(r):
    f = []
    def add(k, v, q=False, p=.9):
        if r.random() < p: f.append({"k": k, "v": b(v), "q": q})
    add("message", r.choice(["BESTPOS", "X"]), True)
    add("id", str(r.choice([42, 7, 65535, 0, 9])))
    add("port", r.choice(["COM1", "COM2", "NOPE"]), True)
    add("sequence_num", num(r, 65535))
    add("percent_idle_time", r.choice(["0.0", "58.5", "100.0", "0.5", "127.5"]))
    add("time_status", r.choice(["FINESTEERING", "UNKNOWN", "ODD"]), True)
    add("week", num(r, 65535))
    add("seconds", "%d.%03d" % (r.randint(0, 604799), r.randint(0, 999)))
    add("receiver_status", num(r, 2**32 - 1))
    add("HEADER_reserved1", num(r, 65535))
    add("receiver_sw_version", num(r, 65535))
    r.shuffle(f)
    return f


def binary(r):
    x = [170, 68, 18, 28] + [r.randrange(256) for _ in range(24)] if r.random() < .5 else [170, 68, 19] + [r.randrange(256) for _ in range(9)]
    if r.random() < .6:
        x[4:6] = r.choice([[42, 0], [255, 255], [7, 0], [0, 0]])
    if r.random() < .05: x[r.randrange(3)] = r.randrange(256)
    return x


def event(r, pool):
    e = {"op": "hd", "fresh": r.random() < .3, "null": r.random() < .01, "db": r.random() > .01}
    k = r.random()
    if k < .25: e["b"] = r.choice(pool)
    elif k < .60: e["b"] = text(r)
    elif k < .78: e["json"] = json_(r)
    elif k < .96: e["b"] = binary(r)
    else: e["b"] = b(r.choice(["<OK\r\n", "<ERROR:Bad\r\n", "$GPGGA,1", "?", "<OKX", "xBESTPOSA", "<ERRO 1 2 3", "\xaa"])) 
    return e


def scenario(ev, es=None):
    ms, es = O.msgs(), O.enums() if es is None else es
    return {"msgs": ms, "enums": es, "defs": O.defs(ms), "vals": O.vals(es), "ev": ev}
