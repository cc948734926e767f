"""Histories over message objects and flat field arrays (M04)."""
import struct
import msggen as G
from msgdef import SIZE

TY = {"BOOL": "b", "CHAR": "i8", "UCHAR": "u8", "HEXBYTE": "u8", "SHORT": "i16", "USHORT": "u16", "LONG": "i32", "INT": "i32", "ULONG": "u32", "UINT": "u32",
      "SATELLITEID": "u32", "LONGLONG": "i64", "ULONGLONG": "u64", "FLOAT": "f", "DOUBLE": "d"}
N = {"b": 1, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "f": 4, "i64": 8, "u64": 8, "d": 8}
FIXED = ("SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY")


def ctype(f):
    return {1: "i8", 2: "i16", 4: "i32"}[f["len"]] if f["t"] == "ENUM" else TY.get(f["dt"], "")


def layout(fields):
    at, var, pos = 0, 0, []
    for f in fields:
        if f["t"] in FIXED:
            a = min(f["len"], 4)
            at += -at % a
            pos.append(at)
            at += f["len"] * (f["al"] if f["t"] == "FIXED_LENGTH_ARRAY" else 1)
        else:
            pos.append(var)
            var += 1
    return at, var, pos


class Obj:
    def __init__(self): self.i, self.nf, self.nv, self.kinds = 0, 0, 0, []

    def copy(self):
        o = Obj()
        o.i, o.nf, o.nv, o.kinds = self.i, self.nf, self.nv, list(self.kinds)
        return o


class Gen:
    """one scenario; keeps just enough of the state to stay clear of what has no meaning (fields outside of the storage)"""
    def __init__(self, r, world):
        self.r, self.w = r, world
        self.infos, self.ix = [], []
        for m in world.msgs:
            self.ix.append([self.add(m["id"], d["crc"], [], d["fields"]) for d in m["defs"]])
        self.tops = [i for x in self.ix for i in x]
        self.o = [Obj(), Obj(), Obj()]
        self.f = [None, None]
        self.ev = []

    def add(self, mid, crc, path, fields):
        self.infos.append({"id": mid, "crc": crc, "path": path, "fields": fields, "sub": []})
        me = len(self.infos)
        self.infos[me - 1]["sub"] = [self.add(mid, crc, path + [f["n"]], f["fields"]) if f["t"] == "FIELD_ARRAY" else 0 for f in fields]
        return me

    def fields(self, i): return self.infos[i - 1]["fields"]
    def sub(self, i, j): return self.infos[i - 1]["sub"][j - 1]
    def lay(self, i): return layout(self.fields(i))

    def value(self, ty):
        r = self.r
        if ty == "b": return [r.randint(0, 1)]
        if ty in "fd" and len(ty) == 1: return list(struct.pack("<" + ty, r.choice([0.0, -1.5, 3.25, 1e9, -7e-4])))
        k = r.random()
        if k < .15: return [255] * N[ty]
        if k < .3: return [r.randint(1, 9)] + [0] * (N[ty] - 1)
        return [r.randrange(256) for _ in range(N[ty])]

    def e(self, op, s, **k):
        x = {"op": op, "s": s, "i": 0, "j": 0, "k": "", "ty": "", "x": [], "v": [], "null": False, "way": self.r.randint(0, 1), "at": 0, "want": "", "m": 0, "n": 0, "t": 0,
             "crc": [], "r": 0, "g": 0, "rows": [], "from": 0, "direct": False, "name": ""}
        x.update(k)
        self.ev.append(x)

    def kinds(self, i):
        return ["str" if f["t"] == "STRING" else "comp" if f["t"] == "FIELD_ARRAY" else "vec" for f in self.fields(i) if f["t"] not in FIXED]

    def resize(self, o, nf, nv):
        o.nf, o.nv = nf, nv
        o.kinds = (o.kinds + ["none"] * nv)[:nv]

    # -- the operations --
    def new(self, s):
        i = self.r.choice([0] + 6 * self.tops + list(range(1, len(self.infos) + 1)))
        o = Obj()
        o.i = i
        if i:
            o.nf, o.nv, _ = self.lay(i)
            o.kinds = self.kinds(i)
        self.o[s] = o
        self.e("new", s + 1, i=i)

    def misc(self, s):
        r = self.r
        k = r.random()
        o = self.o[s]
        if k < .12:
            n, m = r.randint(0, 20), r.randint(0, 3)
            o = self.o[s] = Obj()
            self.resize(o, n, m)
            self.e("sized", s + 1, n=n, m=m)
        elif k < .24:
            n, m = max(0, o.nf + r.randint(-6, 6)), max(0, o.nv + r.randint(-1, 2))
            self.resize(o, n, m)
            self.e("resize", s + 1, n=n, m=m)
        elif k < .6:
            i = r.choice([0, o.i] + self.tops)
            o.i = i
            if i: self.resize(o, *self.lay(i)[:2])
            self.e("info", s + 1, i=i)
        else:
            m = r.choice([0] + 4 * list(range(1, len(self.w.msgs) + 1)))
            crc = []
            if m == 0: o.i = 0
            else:
                d = self.w.msgs[m - 1]
                c = [x["crc"] for x in d["defs"]]
                crc = r.choice([[], [7, 7]] + c)
                want = crc if crc in c else d["latest"]
                o.i = self.ix[m - 1][c.index(want)]
                self.resize(o, *self.lay(o.i)[:2])
            self.e("def", s + 1, m=m, crc=crc)

    def copy(self, s):
        t = self.r.randrange(3)
        self.o[s] = self.o[t].copy()
        self.e("copy", s + 1, t=t + 1, way=self.r.randint(0, 2))

    def text(self): return [self.r.randint(1, 255) for _ in range(self.r.choice([0, 1, 2, 5, 11]))]

    def raw(self, s):
        """by place"""
        r, o = self.r, self.o[s]
        ty = r.choice(list(N))
        null = r.random() < .04
        if r.random() < .5:
            k = r.choice(["one", "vec", "vec", "str"]) if not null else "vec"
            at = r.choice([-1, -2, -3, o.nf, o.nf + 1] + 6 * list(range(max(1, o.nf))))
            if ty == "b" and k == "vec" and not null: ty = "u16"
            v = [self.value(ty) for _ in range(1 if k == "one" else r.choice([0, 1, 2, 3, 3]))]
            self.e("fix", s + 1, k=k, ty=ty, v=v if k != "str" else [], x=self.text() if k == "str" else [], at=at, null=null, way=0 if null else r.randint(0, 1))
        else:
            at = r.choice([-1, o.nv, o.nv + 3] + 8 * list(range(o.nv)))
            k = r.choice(["one", "vec", "vec", "str"]) if not null else "vec"
            v = [self.value(ty) for _ in range(1 if k == "one" else r.choice([0, 1, 2, 5]))]
            if 0 <= at < o.nv and not null: o.kinds[at] = "str" if k == "str" else "vec"
            if k == "one": k2 = "vec"
            else: k2 = k
            self.e("var", s + 1, k=k2 if k != "one" else "vec", ty=ty, v=v if k != "str" else [], x=self.text() if k == "str" else [], at=at, null=null, way=0 if null or ty == "b" else r.randint(0, 1))

    def pick(self, s):
        """a list of fields and one of them that is within the storage"""
        r, o = self.r, self.o[s]
        i = o.i if o.i and r.random() < .93 else r.choice(self.tops)
        j = r.randint(1, len(self.fields(i)))
        f = self.fields(i)[j - 1]
        p = self.lay(i)[2][j - 1]
        n = f["len"] * (f["al"] if f["t"] == "FIXED_LENGTH_ARRAY" else 1)
        return i, j, f, p, (p + n <= o.nf if f["t"] in FIXED else p < o.nv)

    def set(self, s):
        r, o = self.r, self.o[s]
        i, j, f, p, inside = self.pick(s)
        ty = ctype(f)
        wrong = r.random() < .06
        t = f["t"]
        if wrong: t = r.choice(["SIMPLE", "STRING", "VARIABLE_LENGTH_ARRAY", "FIELD_ARRAY", "FIXED_LENGTH_ARRAY"])
        ty = ty or r.choice(["u8", "i32", "d"])
        if t in ("SIMPLE", "ENUM"):
            if wrong and f["t"] in FIXED and ty != ctype(f): return
            self.e("field", s + 1, i=i, j=j, k="one", ty=ty, v=[self.value(ty)])
        elif t == "FIXED_LENGTH_ARRAY":
            if ty == "b": return
            n = r.choice([f["al"]] * 4 + [0, max(0, f["al"] - 1), f["al"] + 1])
            self.e("field", s + 1, i=i, j=j, k="buf", ty=ty, v=[self.value(ty) for _ in range(n)])
        elif t == "STRING":
            if inside and f["t"] in ("STRING", "VARIABLE_LENGTH_ARRAY"): o.kinds[p] = "str"
            self.e("field", s + 1, i=i, j=j, k="str", x=self.text())
        elif t == "VARIABLE_LENGTH_ARRAY":
            if ty == "b": ty = "u8"
            if inside and f["t"] in ("STRING", "VARIABLE_LENGTH_ARRAY"): o.kinds[p] = "vec"
            self.e("field", s + 1, i=i, j=j, k="vec", ty=ty, v=[self.value(ty) for _ in range(r.choice([0, 1, 2, 3, 3, 7]))])
        else:
            sub = self.sub(i, j)
            rows = [x for x in range(3) if self.o[x].i == sub and sub] if r.random() < .9 else [x for x in range(3)]
            fl = [x for x in range(2) if self.f[x] and (self.f[x][0] == sub or r.random() < .1)]
            if fl and r.random() < .6:
                y = r.choice(fl)
                if inside and f["t"] == "FIELD_ARRAY": o.kinds[p] = "flat" if self.f[y][0] == sub else "odd"
                self.e("field", s + 1, i=i, j=j, k="flat", **{"from": y + 1})
            else:
                rows = [x for x in rows if not self.deep(x)]
                rows = [r.choice(rows) for _ in range(r.choice([0, 1, 2, 3]))] if rows else []
                fit = all(self.o[x].i == sub and (self.o[x].nf, self.o[x].nv) == self.lay(sub)[:2] for x in rows)
                if inside and f["t"] == "FIELD_ARRAY": o.kinds[p] = "comp" if fit else "odd"
                self.e("field", s + 1, i=i, j=j, k="comp", rows=[x + 1 for x in rows])

    def deep(self, x): return len(self.ev) > 80        # rows of rows of rows: keep traces small

    def elem(self, s):
        r, o = self.r, self.o[s]
        i, j, f, p, inside = self.pick(s)
        if f["t"] in ("STRING", "FIELD_ARRAY"):
            ty, at = "u8", 0
        else:
            ty = ctype(f)
            if f["t"] == "VARIABLE_LENGTH_ARRAY" and r.random() < .1: ty = r.choice(list(N))
            n = f["al"] if f["t"] == "FIXED_LENGTH_ARRAY" else 3
            at = r.choice(list(range(n)) * 3 + [n, n + 1, -1]) if f["t"] not in ("SIMPLE", "ENUM") else r.choice([0, 0, 0, 1, -1])
        self.e("elem", s + 1, i=i, j=j, ty=ty, v=[self.value(ty)], at=at)

    def ask(self, f):
        """how a field is read: mostly as what it is"""
        r = self.r
        ty = ctype(f) or "i32"
        want = {"STRING": "str", "FIELD_ARRAY": "rows", "FIXED_LENGTH_ARRAY": r.choice(["one", "one", "buf"]), "VARIABLE_LENGTH_ARRAY": r.choice(["one", "one", "vec"])}.get(f["t"], "one")
        if r.random() < .1:
            want = r.choice(["one", "str", "vec", "buf", "rows"])
        if f["t"] not in FIXED and r.random() < .1: ty = r.choice(list(N))
        if want == "buf" and f["dt"] == "BOOL": want = "one"
        n = f["al"] if f["t"] == "FIXED_LENGTH_ARRAY" else 3 if f["t"] == "VARIABLE_LENGTH_ARRAY" else 1
        at = r.choice(list(range(n)) * 4 + [n, n + 1, -1]) if n > 1 or f["t"] == "FIXED_LENGTH_ARRAY" else 0
        return dict(ty=ty, want=want, at=at)

    def get(self, s):
        r, o = self.r, self.o[s]
        if r.random() < .08:
            return self.e("noname", s + 1, name=r.choice(["zz", "", "f", "F0"]))
        i, j, f, p, inside = self.pick(s)
        if not inside: return
        way = r.randint(0, 1) if o.i == i else 0
        if f["t"] == "FIELD_ARRAY" and o.kinds[p] == "odd": return
        self.e("get", s + 1, i=i, j=j, way=way, **self.ask(f))

    def row(self, s):
        r, o = self.r, self.o[s]
        if not o.i: return
        c = [(j, p) for j, (f, p) in enumerate(zip(self.fields(o.i), self.lay(o.i)[2]), 1) if f["t"] == "FIELD_ARRAY" and p < o.nv and o.kinds[p] != "odd"]
        if not c: return
        j, p = r.choice(c)
        sub = self.sub(o.i, j)
        g = r.randint(1, len(self.fields(sub)))
        a = self.ask(self.fields(sub)[g - 1])
        self.e("row", s + 1, i=o.i, j=j, r=r.choice([0, 0, 0, 1, 1, 2, 3, -1]), g=g, direct=r.random() < .4, **a)

    def flat(self, s=None, k=None):
        r = self.r
        if s is None: s = r.randrange(2)
        if k is None: k = r.random()
        if k < .35 or not self.f[s]:
            subs = [x for i in range(1, len(self.infos) + 1) for x in self.infos[i - 1]["sub"] if x]
            i = r.choice([0] + 20 * (subs or self.tops) + self.tops)
            ok = i != 0 and self.lay(i)[1] == 0 and self.lay(i)[0] > 0
            if i and self.lay(i)[0] == 0: return
            n = r.choice([0, 1, 2, 3])
            if r.random() < .5:
                if ok: self.f[s] = [i, n * self.lay(i)[0]]
                self.e("fnew", s + 1, i=i, n=n)
            else:
                nb = n * (self.lay(i)[0] if i else 4) + r.choice([0, 0, 0, 1])
                if ok and nb % self.lay(i)[0] == 0: self.f[s] = [i, nb]
                self.e("fdata", s + 1, i=i, x=[r.randrange(256) if not self.bools(i) else 0 for _ in range(nb)])
            return
        i, nb = self.f[s]
        w, _, pos = self.lay(i)
        n = nb // w
        if k < .62:
            j = r.choice([0] + 2 * list(range(1, len(pos) + 1)))
            f = self.fields(i)[j - 1] if j else None
            ty = ctype(f) if f else r.choice(list(N))
            kk = r.choice(["one", "one", "vec", "str"]) if not f or (f["t"] == "FIXED_LENGTH_ARRAY") else "one"
            if ty == "b": kk = "one"
            if kk == "str" and f and f["dt"] not in ("CHAR", "UCHAR"): kk = "one"
            cnt = 1 if kk == "one" else r.choice([0, 1, 2]) if not f else r.randint(0, f["al"])
            at = pos[j - 1] if j else r.choice(list(range(w)) + [w])
            x = self.text() if kk == "str" else []
            if f and kk == "str": x = x[:f["al"]]
            row = r.choice(list(range(n)) * 3 + [n, n + 1, -1])
            if not j and self.bools(i): return
            self.e("fput", s + 1, r=row, j=j, k=kk, ty=ty, at=at, v=[] if kk == "str" else [self.value(ty) for _ in range(cnt)], x=x)
        elif k < .68:
            t = r.randrange(2)
            if not self.f[t]: return
            self.f[s] = list(self.f[t])
            self.e("fcopy", s + 1, t=t + 1)
        elif k < .72:
            m = r.choice([nb, nb + w, max(0, nb - w), 0])
            self.f[s][1] = m
            self.e("fresize", s + 1, n=m)
        else:
            j = r.randint(1, len(pos))
            a = self.ask(self.fields(i)[j - 1])
            d = r.random() < .5
            if a["want"] not in ("one", "buf") or (d and self.fields(i)[j - 1]["t"] == "FIXED_LENGTH_ARRAY" and a["want"] == "one"): d = False
            self.e("fget", s + 1, r=r.choice(list(range(n)) * 3 + [n, n + 1, -1]), j=j, direct=d, **a)

    def rowfields(self, s):
        o = self.o[s]
        if not o.i or (o.nf, o.nv) != self.lay(o.i)[:2]: return []
        return [(j, p) for j, (f, p) in enumerate(zip(self.fields(o.i), self.lay(o.i)[2]), 1) if f["t"] == "FIELD_ARRAY"]

    def fill(self, s, n):
        for _ in range(n): self.set(s) if self.r.random() < .7 else self.elem(s)

    def build(self, s):
        """rows, made, stored, read and changed"""
        r = self.r
        c = self.rowfields(s)
        if not c:
            t = [i for i in range(1, len(self.infos) + 1) if any(self.infos[i - 1]["sub"])]
            if not t: return
            o = Obj()
            o.i = r.choice(t)
            o.nf, o.nv, _ = self.lay(o.i)
            o.kinds = self.kinds(o.i)
            self.o[s] = o
            self.e("new", s + 1, i=o.i)
            c = self.rowfields(s)
        j, p = r.choice(c)
        o, i = self.o[s], self.o[s].i
        sub = self.sub(i, j)
        if self.lay(sub)[1] == 0 and r.random() < .5:
            x = r.randrange(2)
            n = r.choice([1, 2, 2, 3])
            w = self.lay(sub)[0]
            self.f[x] = [sub, n * w]
            if self.bools(sub): self.e("fnew", x + 1, i=sub, n=n)
            else: self.e("fdata", x + 1, i=sub, x=[r.randrange(256) for _ in range(n * w)])
            for _ in range(r.randint(0, 3)): self.flat(x, .5)
            o.kinds[p] = "flat"
            self.e("field", s + 1, i=i, j=j, k="flat", **{"from": x + 1})
        else:
            t = r.choice([x for x in range(3) if x != s])
            if self.o[t].i != sub or (self.o[t].nf, self.o[t].nv) != self.lay(sub)[:2]:
                y = Obj()
                y.i = sub
                y.nf, y.nv, _ = self.lay(sub)
                y.kinds = self.kinds(sub)
                self.o[t] = y
                self.e("new", t + 1, i=sub)
            self.fill(t, r.randint(1, 4))
            o.kinds[p] = "comp" if "odd" not in self.o[t].kinds else "odd"
            self.e("field", s + 1, i=i, j=j, k="comp", rows=[t + 1] * r.choice([1, 2, 3]))
            if r.random() < .6: self.fill(t, 1)
        for _ in range(r.randint(1, 5)): self.row(s)

    def bools(self, i): return i and any(f["dt"] == "BOOL" and f["t"] == "SIMPLE" for f in self.fields(i))

    def scenario(self, n):
        r = self.r
        for s in range(3): self.new(s)
        while len(self.ev) < n:
            s = r.randrange(3)
            k = r.random()
            if k < .06: self.new(s)
            elif k < .12: self.copy(s)
            elif k < .16: self.misc(s)
            elif k < .21: self.raw(s)
            elif k < .45: self.set(s)
            elif k < .55: self.elem(s)
            elif k < .69: self.get(s)
            elif k < .76: self.row(s)
            elif k < .85: self.build(s)
            else: self.flat()
        sc = self.w.scenario(self.ev)
        sc["msgs"] = [dict(m, ix=ix) for m, ix in zip(sc["msgs"], self.ix)]
        sc["infos"] = self.infos
        return sc
