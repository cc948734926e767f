"""B01: the framers' byte buffer is a bounded FIFO."""
import random
import scen, vf
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Bounded\n"


def rand_history(r, cap, T, n):
    ev, nxt = [], r.randrange(150)
    sz = 0
    alpha = [0xAA, 0x44, 0x12, 0x13]
    patterned = r.random() < 0.5 and T == "u8"
    for _ in range(n):
        k = r.random()
        if k < 0.40:
            m = r.choice([0, 1, 1, 2, 3, cap - sz, cap - sz + 1, r.randint(0, cap + 1), cap])
            m = max(0, m)
            if patterned:
                d = [r.choice(alpha) for _ in range(m)]
            else:
                d = [(nxt + i) % 200 for i in range(m)]
            nxt += m
            null = r.random() < 0.05
            ev.append({"op": "w", "d": d, "null": null})
            if not null and m <= cap - sz:
                sz += m
        elif k < 0.70:
            m = r.choice([0, 1, 2, sz, sz - 1, sz + 1, r.randint(0, cap + 2), -1])
            if m < -1:
                m = 0
            ev.append({"op": "e", "n": m})
            sz = 0 if m < 0 else sz - min(sz, m)
        elif k < 0.78:
            ev.append({"op": "c", "n": r.choice([0, 1, sz, sz + 3, r.randint(0, cap + 1), -1])})
        elif k < 0.83:
            ev.append({"op": "set", "i": r.randint(0, max(0, cap - 1)), "v": r.randrange(200)})
        elif T == "u8":
            if r.random() < 0.8:
                pat = r.choice([[0xAA, 0x44, 0x12], [0xAA, 0x44, 0x13], [0xAA, 0xAA, 0x44], [0x44], [0xAA], [0x12, 0x13], [r.randrange(200)], [r.randrange(200), r.randrange(200)]])
                ev.append({"op": "s", "p": pat, "start": r.randint(0, cap + 1), "cnt": r.choice([-1, -1, 0, 1, 2, 3, r.randint(0, cap + 1)])})
            else:
                ev.append({"op": "rv", "i": r.randint(0, max(0, cap - 1))})
        else:
            ev.append({"op": "c", "n": sz})
    return {"k": "buf", "cap": cap, "T": T, "ev": ev}


def run(ctx):
    cap = ctx.pick(4, 5)
    ctx.model_check("FixedBufferMC", "SPECIFICATION Spec\nCONSTANTS\n Cap = %d\n Vals = {1, 2}\nVIEW View\nINVARIANTS Refines InBounds NoOverlap\n" % cap, deadlock=False)
    exe = vf.build("h_common", lib=False)
    # every transition of the layout graph at several capacities, replayed on three element types
    scens = []
    for c in ctx.pick([1, 2, 3, 4, 6], [1, 2, 3, 4, 5, 6, 8, 11]):
        g = scen.generate(ctx, "FixedBufferGen", "SPECIFICATION Spec\nCONSTANT Cap = %d\nVIEW View\nACTION_CONSTRAINT Emit\n" % c, workers=1)
        for i, h in enumerate(g):
            for T in (["u8", "u32", "rec"] if ctx.thorough else [["u8", "u32", "rec"][i % 3]]):
                scens.append({"k": "buf", "cap": c, "T": T, "ev": h + [{"op": "c", "n": -1}, {"op": "e", "n": 1}, {"op": "w", "d": [91, 92], "null": False}]})
    r = random.Random(ctx.seed)
    rnd = []
    for i in range(ctx.pick(260, 1500)):
        c = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 24])
        rnd.append(rand_history(r, c, r.choice(["u8", "u8", "u32", "rec"]), ctx.pick(60, 120)))
    # one large-capacity history (bulk moves)
    for T in ("u8", "u32"):
        c = 300
        rnd.append(rand_history(r, c, T, 60))
    scen.validate(ctx, exe, scens, "FixedBufferTrace", CFG, "graph", "buffer history (transition tour of the layout graph)")
    scen.validate(ctx, exe, rnd, "FixedBufferTrace", CFG, "random", "buffer history (random)")
    ctx.assumptions += ["element types tried: unsigned char, uint32_t, a 4-byte struct", "capacities <= 24 plus 300"]
