"""H02: the header decoder counts every message it decodes, once, under its own id, format and sibling."""
import random
import hdr, scen, vf
LEVEL = "model_checking"


def run(ctx):
    pool = hdr.gen(ctx)
    exe = vf.build("h_hdr")
    r = random.Random(ctx.seed + 1000)
    sc = []
    for _ in range(ctx.pick(250, 4000)):
        ev = []
        few = r.sample(pool, 3) + [hdr.binary(r) for _ in range(2)]
        for _ in range(r.randint(5, 40)):
            k = r.random()
            if k < .6: ev.append({"op": "hd", "fresh": r.random() < .3, "null": False, "db": True, "b": r.choice(few)})
            elif k < .85: ev.append(hdr.event(r, pool))
            elif k < .97: ev.append({"op": "cnt"})
            else: ev.append({"op": "rst"})
        ev.append({"op": "cnt"})
        sc.append(hdr.scenario(ev))
    scen.validate(ctx, exe, sc, "HeaderTrace", "SPECIFICATION Spec\n", "counts", "message counts of the header decoder")
