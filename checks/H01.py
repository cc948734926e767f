"""H01: every header is decoded to exactly the fields it states."""
import random
import hdr, oemdb as O, scen, vf
LEVEL = "model_checking"


def run(ctx):
    pool = hdr.gen(ctx)
    exe = vf.build("h_hdr")
    r = random.Random(ctx.seed)
    mk = lambda x, fresh=False: {"op": "hd", "fresh": fresh, "null": False, "db": True, "b": x}
    ps = pool if ctx.thorough else r.sample(pool, min(len(pool), 2500))
    r.shuffle(ps)
    sc = [hdr.scenario([mk(x) for x in ps[i:i + 25]]) for i in range(0, len(ps), 25)]
    scen.validate(ctx, exe, sc, "HeaderTrace", "SPECIFICATION Spec\n", "rendered", "headers rendered by the specification")
    sc = []
    for _ in range(ctx.pick(300, 6000)):
        es = r.choice([None] * 8 + [[], O.enums()[:1]])
        sc.append(hdr.scenario([hdr.event(r, pool) for _ in range(r.randint(3, 14))], es))
    scen.validate(ctx, exe, sc, "HeaderTrace", "SPECIFICATION Spec\n", "mixed", "header histories")
    ctx.assumptions += ["text headers are NUL-terminated in memory and binary headers complete, as the framer delivers them"]
