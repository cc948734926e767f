"""C01: commands given as text, encoded."""
import random
import msg as MG, msgdef as M, msggen as G, scen, vf
LEVEL = "model_checking"
b = G.b


def command(r, w, item):
    m, d, v, e = item
    name, k = b(m["name"]), r.random()
    if k < .04: name = r.choice([b("NOSUCH"), [], name[:-1], name + b("A"), [c | 32 for c in name]])
    par = e["abb"][6:] if bytes(e["abb"][:6]) == b"<     " and r.random() < .95 else list(e["abb"])
    if bytes(par[-2:]) == b"\r\n" and r.random() < .8: par = par[:-2]
    if d["crc"] == m["latest"]:
        if r.random() < .25: par = MG.mut_text(r, par, 32)
    if r.random() < .04: return name
    return name + [32] * r.choice([1, 1, 1, 1, 1, 2, 3]) + par


def events(r, w, items, n):
    ev = []
    for _ in range(n):
        c = command(r, w, r.choice(items))
        e = {"op": "cmd", "cmd": c, "f": r.choice(["ASCII", "BINARY"]), "cap": r.choice([70000, 4000, 4000, 2 * len(c) + 200, len(c) + 100, len(c) + 60, r.randint(0, 200)]), "null": False, "stat": r.random() < .4}
        k = r.random()
        if k < .03: e["null"], e["nobuf"] = True, r.random() < .5
        elif k < .07: e["f"] = r.choice(["ABBREV_ASCII", "FLATTENED_BINARY", "JSON", "UNSPECIFIED"])
        ev.append(e)
    return ev


def every(ctx, r, n):
    """one command into every buffer size around its length"""
    out = []
    for w, items in MG.corpus(ctx, r, n, 1):
        c, f = command(r, w, r.choice(items)), r.choice(["ASCII", "BINARY"])
        top = 60 + len(c) * (1 if f == "BINARY" else 2)
        out.append(dict(w.scenario([{"op": "cmd", "cmd": c, "f": f, "cap": k, "null": False, "stat": False} for k in range(0, min(top, 400), r.choice([1, 3]))]), db=True))
    return out


def longs(r):
    w = G.World(r, 1)
    w.msgs = [M.msg(42, "BIG", [(1, G.strip([M.simple("a", "USHORT", "%hu"), M.string("s", 8)]))])]
    w.defs = [{"id": 42, "name": b("BIG")}]
    ev = []
    for n in [32700, 32757, 32758, 32759, 32768, 40000, 66000]:
        ev += [{"op": "cmd", "cmd": b("BIG 513 \"" + "x" * n + "\""), "f": f, "cap": 70000, "null": False, "stat": r.random() < .5} for f in ["ASCII", "BINARY"]]
    return [dict(w.scenario(ev), db=True)]


def run(ctx):
    r = random.Random(ctx.seed)
    exe = vf.build("h_cmd")
    out = []
    for w, items in MG.corpus(ctx, r, ctx.pick(250, 2500), 4):
        ev = events(r, w, items, r.choice([3, 8]))
        s = w.scenario(ev)
        s["db"] = r.random() < .7
        if not s["db"]:
            for e in ev: e["stat"] = False
        if not s["db"] or r.random() < .1: ev.insert(r.randint(0, len(ev)), {"op": "db", "on": True})
        if r.random() < .05: ev.append({"op": "db", "on": False}); ev += [dict(e, stat=False) for e in events(r, w, items, 1)]
        out.append(s)
    scen.validate(ctx, exe, out, "CommandTrace", "SPECIFICATION Spec\n", "cmd", "commands", timeout=600)
    scen.validate(ctx, exe, every(ctx, r, ctx.pick(25, 300)), "CommandTrace", "SPECIFICATION Spec\n", "caps", "every buffer size", timeout=600)
    scen.validate(ctx, exe, longs(r), "CommandTrace", "SPECIFICATION Spec\n", "long", "long commands", timeout=600)
