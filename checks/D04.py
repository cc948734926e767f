"""D04: definitions of messages, enumerations and fields are values: copies equal their source and are independent of it."""
import copy, random
import msgdef as M, scen, vf
LEVEL = "model_checking"
NAMES = ["", "a", "ab", "A", "name that is too long to be stored in place", "name that is too long to be stored in plac", "x.y", "BESTPOS"]
VALS = [0, 1, 2, 255, 65535, 65536, 0x7FFFFFFE]
CRCS = [0, 1, 2, 0x81234567, 0xFFFFFFFF]
CONVS = ["%d", "%f", "%s", "%S", "%Z", "%P", "%10.5lf", "%.3f", "%7u", "%0d", "%5.0lf", "%.lf", "%12.s", "%lu", "%2.P", "%ss"]
BADCONVS = ["", "d", "%", "%%d", "%5", "%5.", "%5.2", "%d ", " %d", "%d1", "%5.2.1f", "%-5d", "%d%d", "%.", "%..f", "%+d", "%5 d", "%d\x01", "%#x", "%5,3f"]
TYPES = ["SIMPLE", "ENUM", "STRING", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "FIELD_ARRAY", "RESPONSE_ID", "RESPONSE_STR", "UNKNOWN"]
DTS = ["BOOL", "CHAR", "SHORT", "UINT", "FLOAT", "DOUBLE", "HEXBYTE", "SATELLITEID", "UNKNOWN"]


class Gen:
    """definitions as values, and the same changes made to them as the scenario makes (to know what there is to change)"""

    def __init__(self, r):
        self.r, self.sl, self.ev = r, {}, []

    def name(self): return self.r.choice(NAMES)

    def conv(self):
        r = self.r
        if r.random() < .2:
            return "%" + (str(r.randint(0, 99)) if r.random() < .5 else "") + ("." + str(r.randint(0, 20)) if r.random() < .5 else "") + "".join(r.choice("dfsSZPulxB") for _ in range(r.randint(1, 2)))
        return r.choice(CONVS)

    def field(self, depth=2, null=False):
        r = self.r
        f = {"k": r.choice(["base", "base", "enum", "array"] + (["rows", "rows"] if depth else []) + (["null"] if null else [])), "n": "", "t": "", "d": "", "conv": [], "dt": "", "len": 0,
             "dd": "", "enum": "", "al": 0, "ref": "", "alfs": 0, "i": 0, "e": "", "fb": 0, "vc": 0, "fs": 0, "fields": []}
        if f["k"] == "null": return f
        f.update(n=self.name(), t=r.choice(TYPES), d=self.name(), dt=r.choice(DTS), len=r.choice([0, 1, 4, 65535]), dd=self.name(), i=r.choice([0, 4, 1000]))
        if r.random() < .8: f["conv"] = list(self.conv().encode())
        if f["k"] == "enum": f.update(enum=self.name(), e=self.name())
        if f["k"] in ("array", "rows"): f.update(al=r.choice([0, 1, 7, 70000]), ref=self.name(), alfs=r.choice([0, 1, 2, 4]))
        if f["k"] == "rows": f.update(fb=r.randint(0, 9), vc=r.randint(0, 3), fs=r.randint(0, 99), fields=[self.field(depth - 1, null) for _ in range(r.randint(0, 3))])
        return f

    def vals(self):
        r = self.r
        n = r.randint(0, 4)
        return [{"v": M.limbs(v), "n": a, "d": b} for v, a, b in zip(r.sample(VALS, n), r.sample(NAMES, n), r.sample(NAMES, n))]

    def value(self, k):
        r = self.r
        if k == "enum": return {"id": self.name(), "name": self.name(), "vals": self.vals()}
        if k == "field": return self.field()
        if k == "info": return {"fb": r.randint(0, 9), "vc": r.randint(0, 3), "fields": [self.field() for _ in range(r.randint(0, 4))]}
        crcs = sorted(r.sample(CRCS, r.randint(0, 3)))
        return {"id": self.name(), "log": r.choice([0, 1, 65535, 100000]), "name": self.name(), "tag": self.name(), "latest": M.limbs(r.choice(CRCS)),
                "defs": [{"crc": M.limbs(c), "fb": r.randint(0, 9), "vc": r.randint(0, 3), "fields": [self.field(2, True) for _ in range(r.randint(0, 3))]} for c in crcs]}

    def new(self, s, k):
        v = self.value(k)
        self.sl[s] = (k, v)
        self.ev.append({"op": "new", "s": s, "k": k, "v": copy.deepcopy(v)})

    def cp(self, d, s):
        self.sl[d] = copy.deepcopy(self.sl[s])
        self.ev.append({"op": "cp", "d": d, "s": s})

    def mv(self, d, s):
        self.sl[d] = self.sl.pop(s)
        self.ev.append({"op": "mv", "d": d, "s": s})

    def delete(self, s):
        self.sl.pop(s)
        self.ev.append({"op": "del", "s": s})

    def nodes(self, v, k, path=()):
        """(path, kind of thing, the thing)"""
        out = [(list(path), k, v)]
        for i, f in enumerate(v["defs"] if k == "msg" else v["fields"] if k in ("info", "def", "rows") else []):
            if k == "msg": out += self.nodes(f, "def", path + (i + 1,))
            elif f["k"] != "null": out += self.nodes(f, f["k"], path + (i + 1,))
        return out

    def change(self, s, deep=None, conv=None):
        """change a part of the definition itself (deep False) or of a field in it (True)"""
        r = self.r
        k, v = self.sl[s]
        ns = self.nodes(v, v["k"] if k == "field" else k)
        if deep is not None and len(ns) > 1: ns = ns[1:] if deep else ns[:1]
        path, t, x = r.choice(ns)
        isf = t in ("base", "enum", "array", "rows") and not (k == "enum")
        if isf and (conv if conv is not None else r.random() < .3):
            c = self.conv() if r.random() < .6 else r.choice(BADCONVS)
            if c not in BADCONVS: x["conv"] = list(c.encode())
            self.ev.append({"op": "conv", "s": s, "path": path, "x": list(c.encode())})
            return
        if k == "enum": parts = ["id", "name", "vals", "vals"]
        elif t == "msg": parts = ["id", "log", "name", "tag", "latest"] + (["rmdef"] if x["defs"] and r.random() < .3 else [])
        elif t in ("info", "def"): parts = ["push", "fb", "vc"] + (["pop"] if x["fields"] else [])
        else:
            parts = ["n", "t", "d", "dt", "len", "dd", "i"]
            if t == "enum": parts += ["enum"] * 3
            if t in ("array", "rows"): parts += ["al", "ref", "alfs"] * 2
            if t == "rows": parts += ["push", "fb", "vc"] + (["pop"] if x["fields"] else [])
        p = r.choice(parts)
        if p == "vals":
            y = self.vals()
            if x["vals"] and r.random() < .7:  # one part of one enumerator
                y = copy.deepcopy(x["vals"])
                e = r.choice(y)
                q = r.choice(["v", "n", "d"])
                pool = [z for z in ([M.limbs(a) for a in VALS] if q == "v" else NAMES) if all(o[q] != z for o in y)]
                e[q] = r.choice(pool)
        elif p == "rmdef": y = r.choice(x["defs"])["crc"]
        elif p == "push": y = self.field(1, t == "def")
        elif p == "pop": y = 0
        elif p == "latest": y = M.limbs(r.choice(CRCS))
        else:
            y = {"t": TYPES, "dt": DTS, "len": [0, 1, 2, 4, 65535], "i": [0, 4, 8], "al": [0, 1, 7, 8, 70000], "alfs": [0, 1, 2, 4], "fb": range(10), "vc": range(4), "log": [0, 1, 2, 65535, 65536]}.get(p, NAMES)
            y = r.choice([z for z in y if z != x[p]])
        if p == "rmdef": x["defs"] = [d for d in x["defs"] if d["crc"] != y]
        elif p == "push": x["fields"].append(copy.deepcopy(y))
        elif p == "pop": x["fields"].pop()
        else: x[p] = y
        self.ev.append({"op": "set", "s": s, "path": path, "part": p, "x": y})

    def scenario(self):
        return {"kind": "def", "qs": {"n": NAMES, "v": [M.limbs(v) for v in VALS + [3]], "c": [M.limbs(c) for c in CRCS]}, "ev": self.ev}


def run(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Slots = {%s}\n Vals = {0, 1}\n Deep = TRUE\nVIEW View\nINVARIANTS Refines Disjoint\n"
    ctx.model_check("DefMC", cfg % "1, 2, 3", deadlock=False)
    exe = vf.build("h_def")
    r = random.Random(ctx.seed)
    # generation: fewer cells, so that every transition between values is printed once
    hs = scen.generate(ctx, "DefMC", (cfg % "1, 2, 3") + "ACTION_CONSTRAINT Emit\n", workers=1)
    hs = [h for h in hs if len(h) > 2]
    hs = r.sample(hs, min(len(hs), ctx.pick(400, 6000)))
    sc = []
    for h in hs:
        g = Gen(r)
        k = r.choice(["enum", "msg", "msg", "field", "info"])
        for o in h:
            if o["op"] == "new": g.new(o["s"], k)
            elif o["op"] == "cp": g.cp(o["d"], o["s"])
            elif o["op"] == "mv": g.mv(o["d"], o["s"])
            elif o["op"] == "del": g.delete(o["s"])
            else: g.change(o["s"], o["k"] == 2)
        sc.append(g.scenario())
    scen.validate(ctx, exe, sc, "DefTrace", "SPECIFICATION Spec\n", "plans", "history of definitions (every transition of the heap model)")
    sc = []
    for _ in range(ctx.pick(300, 5000)):
        g = Gen(r)
        ks = r.sample(["enum", "msg", "field", "info"], r.choice([1, 1, 2]))
        for _ in range(r.randint(4, 14)):
            live = sorted(g.sl)
            free = [s for s in (1, 2, 3, 4) if s not in g.sl]
            x = r.random()
            if not live or (free and x < .1): g.new(r.choice(free or [1]), r.choice(ks))
            elif x < .45:
                s = r.choice(live)
                d = r.choice(free + [t for t in live if g.sl[t][0] == g.sl[s][0]])
                g.cp(d, s)
                if r.random() < .6: g.change(r.choice([d, s]))
            elif x < .52:
                s = r.choice(live)
                d = [t for t in free + live if t != s and (t in free or g.sl[t][0] == g.sl[s][0])]
                if d: g.mv(r.choice(d), s)
            elif x < .6: g.delete(r.choice(live))
            else: g.change(r.choice(live))
        sc.append(g.scenario())
    scen.validate(ctx, exe, sc, "DefTrace", "SPECIFICATION Spec\n", "random", "history of definitions")
    # every conversion string there is, up to a length, over the letters of the grammar
    sc = []
    al = "%5.d"
    todo = [""]
    for n in range(ctx.pick(5, 6)):
        todo += [t + c for t in todo if len(t) == n for c in al]
    todo += BADCONVS + CONVS
    for t in ("SIMPLE", "STRING"):
        for i in range(0, len(todo), 40):
            g = Gen(r)
            g.new(1, "field")
            g.ev[0]["v"].update(t=t, conv=list(b"%7.2f"))
            for c in todo[i:i + 40]: g.ev.append({"op": "conv", "s": 1, "path": [], "x": list(c.encode())})
            sc.append(g.scenario())
    scen.validate(ctx, exe, sc, "DefTrace", "SPECIFICATION Spec\n", "conv", "conversion strings set")
    ctx.assumptions += ["enumerators of one enumeration have distinct values, names and descriptions", "conversion strings whose numbers have leading zeros or more than nine digits are not judged"]
