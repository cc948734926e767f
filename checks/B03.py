"""B03: a message counts tracker counts exactly."""
import random
import scen, vf
LEVEL = "model_checking"


def run(ctx):
    exe = vf.build("h_common", lib=False)
    r = random.Random(ctx.seed)
    scens = []
    for i in range(ctx.pick(150, 1500)):
        ev = []
        for _ in range(r.randint(1, 60)):
            if r.random() < 0.06:
                ev.append({"op": "reset"})
            else:
                ev.append({"op": "inc", "k": r.randrange(r.choice([1, 3, 9, 20])), "n": r.choice([0, 1, 1, 1, 2, 255, 256, 257, 300, 70000 if r.random() < .05 else 3])})
        scens.append({"k": "cnt", "T": r.choice(["int", "str", "pair"]), "ev": ev})
    # many distinct keys, over several growths of the table
    for T in ("int", "str", "pair"):
        ev, hi = [], 0
        while hi < ctx.pick(1500, 6000):
            n = r.choice([1, 5, 60, 300])
            ev.append({"op": "incs", "k": max(0, hi - r.randint(0, 20)), "k2": hi + n})
            hi += n
            if r.random() < .1:
                ev.append({"op": "inc", "k": r.randrange(hi), "n": 2})
        scens.append({"k": "cnt", "T": T, "ev": ev + [{"op": "reset"}, {"op": "incs", "k": 5, "k2": 40}]})
    scen.validate(ctx, exe, scens, "CountsTrace", "SPECIFICATION Spec\n", "counts", "message counts history")
