"""M04: message objects are values."""
import json, random
import msggen as G, objgen, scen, vf
LEVEL = "model_checking"


def worlds(r, n):
    """mostly with rows in them"""
    out = []
    while len(out) < n:
        w = G.World(r, r.choice([1, 2]), r.random() < .3)
        if r.random() < .25 or any(f["t"] == "FIELD_ARRAY" for m in w.msgs for d in m["defs"] for f in d["fields"]): out.append(w)
    return out


def reorder(infos, i):
    """list i first"""
    if i == 1: return infos
    sw = lambda x: 1 if x == i else i if x == 1 else x
    out = [dict(x, sub=[sw(y) for y in x["sub"]]) for x in infos]
    out[0], out[i - 1] = out[i - 1], out[0]
    return out


def run(ctx):
    r = random.Random(ctx.seed * 7 + 4)
    # the model: fields do not share storage
    cases = []
    while len(cases) < ctx.pick(24, 90):
        w = worlds(r, 1)[0]
        g = objgen.Gen(r, w)
        for i in g.tops:
            if len(g.fields(i)) <= 4:
                k = [dict(x, fields=x["fields"], sub=x["sub"]) for x in g.infos]
                cases.append({"infos": reorder(k, i)})
    p = ctx.path("cases.ndjson")
    with open(p, "w") as f:
        for c in cases: f.write(json.dumps(c) + "\n")
    ctx.model_check("ObjMC", "SPECIFICATION Spec\nINVARIANT Framed\nINVARIANT Sizes\nCHECK_DEADLOCK FALSE\n", env={"CASES": p})
    exe = vf.build("h_obj", extra=["-fsanitize=address", "-fno-omit-frame-pointer"])
    sc = [objgen.Gen(r, w).scenario(40) for w in worlds(r, ctx.pick(260, 1500))]
    for i in range(0, len(sc), 260):
        scen.validate(ctx, exe, sc[i:i + 260], "ObjTrace", "SPECIFICATION Spec\n", "obj%d" % i, "message objects", timeout=600)
    ctx.assumptions += ["objects are read and set with field definitions whose fields lie within their storage", "values have the type of their field"]
