"""D01: look-ups of the message database always agree with its history of additions and removals."""
import random
import msgdef as M, scen, vf
LEVEL = "model_checking"
CRCS = [[0, 1], [0, 2], [0x8123, 0x4567], [0, 0]]
C = [1, 2, 0x81234567]


class Gen:
    def __init__(self, r, eids):
        self.r, self.eids, self.k = r, eids, 0

    def msg(self, mid, name):
        r = self.r
        self.k += 1
        crcs = r.sample(C, r.randint(1, 3))
        defs = [(c, M.rand_fields(r, self.eids, r.randint(0, 4))) for c in crcs]
        return M.msg(mid, name, defs, latest=r.choice(crcs + [7]), tag="t%d" % self.k)

    def enum(self, eid, name):
        self.k += 1
        return M.enumdef(eid, name, [(0, "e%d" % self.k, "")])


def run(ctx):
    small = "Ids = {1, 2}\n Names = {\"A\", \"B\"}\n EIds = {\"x\", \"y\"}\n ENames = {\"E\", \"F\"}\n"
    cfg = "SPECIFICATION Spec\nCONSTANTS\n %s MaxM = 2\n MaxE = 2\nVIEW View\nINVARIANTS IndexOk OnePerId OnePerEnumName\n"
    big = "Ids = {1, 2, 3}\n Names = {\"A\", \"B\"}\n EIds = {\"x\", \"y\"}\n ENames = {\"E\", \"F\", \"G\"}\n"
    ctx.model_check("DbMC", cfg % ctx.pick(small, big) if not ctx.thorough else (cfg % big).replace("MaxM = 2", "MaxM = 3").replace("MaxE = 2", "MaxE = 3"), deadlock=False)
    exe = vf.build("h_db")
    r = random.Random(ctx.seed)
    hs = scen.generate(ctx, "DbMC", (cfg % small) + "ACTION_CONSTRAINT Emit\n", workers=1)
    hs = r.sample(hs, min(len(hs), ctx.pick(500, 8000)))
    sc = []
    for h in hs:
        g = Gen(r, ["x", "y"])
        ev = [{"op": "load", "msgs": [], "enums": [], "fam": r.choice(["", "OEM", "ZZ"])}]
        for o in h:
            if o["op"] == "am":
                ev.append({"op": "am", "msgs": [g.msg(m["id"], m["name"]) for m in o["l"]], "fam": r.choice(["", "OEM"])})
            elif o["op"] == "ae":
                ev.append({"op": "ae", "enums": [g.enum(e["id"], e["name"]) for e in o["l"]]})
            else:
                ev.append(o)
            if r.random() < .1: ev.append({"op": "vec", "fam": ev[0]["fam"]})
        sc.append({"kind": "hist", "crcs": CRCS, "ev": ev})
    scen.validate(ctx, exe, sc, "DbTrace", "SPECIFICATION Spec\n", "plans", "database history (every transition of the index model)")
    sc = []
    for _ in range(ctx.pick(250, 4000)):
        eids, en = ["x", "y", "z"], ["E", "F", "G", "H"]
        g = Gen(r, eids)
        ids, nm = [1, 2, 3, 42, 65535, 100000], ["A", "B", "BESTPOS", "AB", "LONGNAMETHATISNOTSMALL"]
        mm = lambda: [g.msg(i, r.choice(nm)) for i in r.sample(ids, r.randint(0, 3))]
        ee = lambda: [g.enum(r.choice(eids), n) for n in r.sample(en, r.randint(0, 3))]
        fam = lambda: r.choice(["", "OEM", "OEM", "ZZ"])
        ev = [{"op": "load", "msgs": mm(), "enums": ee(), "fam": fam()}]
        for _ in range(r.randint(2, 9)):
            k = r.random()
            if k < .25: ev.append({"op": "am", "msgs": mm(), "fam": fam()})
            elif k < .4: ev.append({"op": "ae", "enums": ee()})
            elif k < .55: ev.append({"op": "rm", "id": r.choice(ids)})
            elif k < .7: ev.append({"op": "re", "name": r.choice(en)})
            elif k < .9: ev.append({"op": "mg", "msgs": mm(), "enums": ee(), "fam": fam()})
            elif k < .95: ev.append({"op": "fam", "fam": fam()})
            else: ev.append({"op": "vec", "fam": [x["fam"] for x in ev if x["op"] in ("load", "fam", "vec")][-1]})
        sc.append({"kind": "hist", "crcs": CRCS, "ev": ev})
    scen.validate(ctx, exe, sc, "DbTrace", "SPECIFICATION Spec\n", "random", "database history")
    ctx.assumptions += ["message ids are unique within one list of definitions, and so are enumeration names"]
