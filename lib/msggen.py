"""Random message definitions and values for the message-body checks (all within the domain MsgSpec describes)."""
import re, struct
import msgdef as M
b = lambda s: list(s.encode())

# (data type, conversion letters, arrays of it too)
LEAVES = [("SHORT", "hd", 1), ("LONG", "ld", 1), ("LONGLONG", "lld", 1), ("USHORT", "hu", 1), ("ULONG", "lu", 1), ("ULONGLONG", "llu", 1), ("INT", "d", 1),
          ("BOOL", "d", 0), ("UCHAR", "u", 1), ("USHORT", "u", 1), ("UINT", "u", 1), ("ULONGLONG", "u", 1), ("UCHAR", "x", 1), ("USHORT", "x", 1), ("ULONG", "X", 1),
          ("UINT", "x", 1), ("ULONGLONG", "x", 1), ("ULONG", "lx", 1), ("ULONGLONG", "llx", 1), ("CHAR", "B", 1), ("UCHAR", "UB", 1), ("HEXBYTE", "XB", 1), ("UCHAR", "XB", 1),
          ("FLOAT", "f", 1), ("DOUBLE", "f", 1), ("FLOAT", "e", 1), ("DOUBLE", "e", 1), ("DOUBLE", "lf", 1), ("DOUBLE", "le", 1), ("DOUBLE", "lg", 1), ("DOUBLE", "lk", 1),
          ("FLOAT", "g", 1), ("FLOAT", "k", 1), ("UCHAR", "c", 0), ("ULONG", "c", 0), ("ULONG", "m", 0), ("ULONG", "T", 0), ("SATELLITEID", "id", 1)]
FLOATS = {"f", "e", "lf", "le", "lg", "lk", "g", "k"}
RAW = [("HEXBYTE", "Z"), ("CHAR", "P"), ("UCHAR", "P"), ("CHAR", "s"), ("UCHAR", "s")]
UNSIGNED = {"UCHAR", "USHORT", "UINT", "ULONG"}


def conv(r, dt, k):
    if k in FLOATS:
        return "%" + r.choice(["", "", str(r.randint(1, 16))]) + r.choice(["", "." + str(r.randint(0, 9))]) + k
    return "%" + (r.choice(["2", "8"]) if r.random() < .08 and k not in ("c", "s", "Z", "P") else "") + k


def ann(f):
    """the parts of the conversion string, the name as bytes"""
    m = re.fullmatch(r"(?:%(\d*)\.?(\d*)([A-Za-z]*))?", f["conv"])
    f["w"] = int(m.group(1)) if m.group(1) else -1
    f["p"] = int(m.group(2)) if m.group(2) else -1
    f["k"] = m.group(3) or ""
    f["nb"] = b(f["n"])
    for g in f["fields"]:
        ann(g)
    return f


def leaf(r, nm, eids, array=False):
    if eids and not array and r.random() < .12:
        return M.enum(nm, r.choice(eids), r.choice(["UCHAR", "SHORT", "UINT", "INT"]))
    dt, k, arr = r.choice(LEAVES)
    while array and not arr:
        dt, k, arr = r.choice(LEAVES)
    return M.simple(nm, dt, conv(r, dt, k))


def fields(r, eids, n, depth=2, pre="f", only=None):
    out = []
    while len(out) < n:
        nm = "%s%d" % (pre, len(out))
        k = r.random()
        if only == "fixed" and k >= .62:
            k = r.random() * .62
        if k < .44:
            out.append(leaf(r, nm, eids))
        elif k < .54:
            x = leaf(r, nm, [], True)
            out.append(M.fixed(nm, x["dt"], x["conv"], r.randint(1, 5)))
        elif k < .62:
            dt, c = r.choice(RAW)
            out.append(M.fixed(nm, dt, conv(r, dt, c), r.randint(1, 7)))
        elif k < .70:
            x = leaf(r, nm, [], True)
            out.append(M.var(nm, x["dt"], x["conv"], r.randint(1, 6), r.choice([4, 4, 1, 2])))
        elif k < .76:
            dt, c = r.choice(RAW)
            out.append(M.var(nm, dt, conv(r, dt, c), r.randint(1, 9), r.choice([4, 4, 1, 2])))
        elif k < .82:
            out.append(M.string(nm, r.randint(1, 12)))
        elif k < .85:
            # length held by an earlier field
            cand = [f["n"] for f in out if f["t"] == "SIMPLE" and f["dt"] in UNSIGNED and f["k0"] in ("u", "hu", "lu", "UB") and not f.get("used")]
            if not cand:
                continue
            c = r.choice(cand)
            for f in out:
                if f["n"] == c:
                    f["used"] = True
            x = leaf(r, nm, [], True)
            out.append(M.var(nm, x["dt"], x["conv"], r.randint(1, 6), 4, c))
        elif depth > 0:
            sub = fields(r, eids, r.randint(1, 4), depth - 1, nm + "_", r.choice([None, "fixed"]))
            if not any(f["t"] in ("SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY") for f in sub):
                continue
            out.append(M.rows(nm, r.randint(1, 4), sub, r.choice([4, 4, 1, 2])))
        else:
            continue
        f = out[-1]
        f["k0"] = re.sub(r"[%\d.]", "", f["conv"])
    return out


def strip(fs):
    for f in fs:
        f.pop("k0", None); f.pop("used", None)
        ann(f)
        strip(f["fields"])
    return fs


class World:
    """a database with some messages; wild: values beyond what every text format can carry"""
    def __init__(self, r, nmsg=3, hard=False):
        self.r = r
        n = r.randint(1, 3)
        self.enums = []
        for i in range(n):
            vs = r.sample([0, 1, 2, 3, 5, 9, 17, 100, 127], r.randint(1, 5))
            self.enums.append(M.enumdef("e%d" % i, "En%d" % i, [(v, "V%d_%d" % (i, v), "") for v in vs]))
        eids = [e["id"] for e in self.enums]
        self.responses = M.enumdef("resp", "Responses", [(1, "OK", "OK"), (2, "BAD", "Requested log does not exist"), (3, "FULL", "Not enough resources in system"), (77, "Z", "x")])
        self.enums.append(self.responses)
        self.enums += [M.enumdef("p", "PortAddress", [(32, "COM1", ""), (64, "COM2", ""), (0, "NO_PORTS", "")]),
                       M.enumdef("t", "GPSTimeStatus", [(20, "UNKNOWN", ""), (180, "FINESTEERING", ""), (200, "SATTIME", "")])]
        self.msgs = []
        ids = r.sample([42, 7, 140, 1430, 65535, 1, 2050, 37], nmsg)
        for i, mid in enumerate(ids):
            defs = []
            for c in r.sample([1, 0x12345678, 0xFFFFFFFF, 77, 500], r.choice([1, 1, 2])):
                defs.append((c, strip(fields(r, eids, r.choice([1, 2, 3, 4, 6, 9]) if not hard else r.randint(5, 14)))))
            self.msgs.append(M.msg(mid, "M" + "ABCDEFGH"[i] + r.choice(["", "Q1", "POS"]), defs, latest=r.choice(defs)[0]))
        hv = lambda e: {"name": e["name"], "vals": self.ev(e)}
        self.vals = [hv(e) for e in self.enums if e["name"] in ("PortAddress", "GPSTimeStatus", "Responses")]
        self.evals = [{"id": e["id"], "vals": self.ev(e)} for e in self.enums]
        self.defs = [{"id": m["id"], "name": b(m["name"])} for m in self.msgs]

    def ev(self, e): return [{"v": v["v"], "n": b(v["n"]), "d": b(v["d"])} for v in e["vals"]]

    def scenario(self, ev): return {"msgs": self.msgs, "enums": self.enums, "vals": self.vals, "evals": self.evals, "defs": self.defs, "ev": ev}

    def case(self, fs, v): return {"fields": fs, "v": v, "evals": self.evals, "defs": self.defs}

    # -- values --
    def leafv(self, f, wild, ctl=None):
        r = self.r
        n, k = f["len"], f["k"]
        if f["t"] == "ENUM":
            e = [e for e in self.enums if e["id"] == f["enum"]][0]
            v = M.limbs(r.randrange(2 ** 32)) if wild and r.random() < .2 else r.choice(e["vals"])["v"]
            w = v[0] * 65536 + v[1]
            return list((w % 256 ** n).to_bytes(n, "little"))
        if f["dt"] == "BOOL":
            return [r.randint(0, 1)] + [0] * (n - 1)
        if k in FLOATS:
            return list(struct.pack("<f" if n == 4 else "<d", self.num(f)))
        if k == "c":
            return [r.choice(b("aZ5~!#")) if not wild else r.choice([c for c in range(33, 127) if c not in (34, 92)])] + [0] * (n - 1)
        if k == "m":
            mid = r.choice(self.msgs)["id"]
            if wild and r.random() < .3: mid = r.randrange(65536)
            ty = r.choice([0, 0x20, 0x40, 0xA0]) | r.choice([0, 0, 1, 31])
            return [mid % 256, mid // 256, ty, 0]
        if k == "id":
            fr = r.choice([0, 0, 1, 7, 65535, 65529, 0x7FFF, 0x8001])
            return list(r.choice([0, 1, 38, 255, 65535]).to_bytes(2, "little")) + list(fr.to_bytes(2, "little"))
        w = r.random()
        if w < .2: return [0] * n
        if w < .3: return [255] * n
        if w < .4: return [0] * (n - 1) + [128]
        if w < .5: return [255] * (n - 1) + [127]
        if w < .7: return [r.choice([1, 9, 10, 99, 100, 127, 128, 200])] + [0] * (n - 1)
        return [r.randrange(256) for _ in range(n)]

    def num(self, f):
        r = self.r
        k = r.random()
        if k < .1: return 0.0 if r.random() < .7 else -0.0
        if k < .2: return float(r.choice([1, 10, 100, 1e5, 1e9, 1e15, -1, -1000]))
        if k < .3: return r.choice([-1, 1]) * r.choice([0.5, 0.25, 2.5, 1.5, 0.125, 99.5, 999999.5, 0.0625])
        for _ in range(100):
            x = r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-12, 12)
            if f["len"] == 4: x = struct.unpack("<f", struct.pack("<f", x))[0]
            if all(not (0.999 < abs(x) * 10 ** w < 1.001) for w in range(0, 17)):
                return x
        return 3.0

    def chars(self, n, wild, k):
        r = self.r
        if wild:
            pool = list(range(1, 256)) if wild == 2 else list(range(32, 127)) + [1, 9, 10, 13]
        elif k == "P": pool = list(range(32, 127))
        else: pool = [c for c in range(32, 127) if c not in (34, 42, 92)]
        return [r.choice(pool) if r.random() < .5 else r.choice(b("abcXYZ019 ,")) for _ in range(n)]

    def array(self, f, n, wild):
        r = self.r
        if f["k"] in ("s", "P") and not (f["k"] == "P" and r.random() < .5):
            m = n if r.random() < .5 else r.randint(0, n)
            c = self.chars(m, wild, f["k"])
            v = [[x] for x in c] + ([[0]] * (n - m) if f["t"] == "FIXED_LENGTH_ARRAY" or (wild and f["k"] == "s") else [[x] for x in self.chars(n - m, wild, f["k"])])
            return self.first(f, v) if not wild else v
        if f["k"] in ("P", "Z"):
            v = [[r.randrange(256)] for _ in range(n)]
            return self.first(f, v) if not wild else v
        return [self.leafv(f, wild) for _ in range(n)]

    # a text array of %P characters does not start with what separates fields
    def first(self, f, v):
        if f["k"] == "P" and v and v[0][0] in (44, 42, 32, 60, 13, 10): v[0] = [65]
        return v

    def values(self, fs, wild=0):
        r = self.r
        out, ix = [], {f["n"]: i for i, f in enumerate(fs)}
        for f in fs:
            t = f["t"]
            if t in ("SIMPLE", "ENUM"): v = self.leafv(f, wild)
            elif t == "FIXED_LENGTH_ARRAY": v = self.array(f, f["al"], wild)
            elif t == "STRING": v = [c for c in self.chars(r.choice([0, 1, 2, 3, 4, f["al"], r.randint(0, f["al"])]) % (f["al"] + 1), wild, "s")]
            else:
                n = r.choice([0, f["al"], r.randint(0, f["al"])])
                v = self.array(f, n, wild) if t == "VARIABLE_LENGTH_ARRAY" else [self.values(f["fields"], wild) for _ in range(n)]
                if f["ref"]:
                    i = ix[f["ref"]]
                    out[i] = list(n.to_bytes(fs[i]["len"], "little"))
            out.append(v)
        return out
