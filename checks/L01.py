"""L01: a filter passes exactly the messages its settings select."""
import random
import scen, vf
LEVEL = "model_checking"
ALL = 11
FM = [2, 3, 5, 6, 7, 8, 9, 10, 1]
NAMES = ["BESTPOS", "RANGE", "BESTPO", "BESTPOSA", "", "A"]
IDS = [42, 43, 140, 0, 65535, 1]
TS = [20, 60, 80, 100, 120, 130, 140, 160, 170, 180, 190, 200]


def small_q():
    q = []
    for fmt in (1, 8, 2, 5):
        for rs in (False, True):
            for i in (7, 8):
                for sib in (0, 1):
                    for w, ms in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)):
                        for ts in (20, 180):
                            if (fmt, rs) == (5, False) or (i + sib + w + ms + ts // 20) % 5 == 0:
                                q.append({"fmt": fmt, "resp": rs, "id": i, "name": "A" if (i == 7) != (w + ms == 3) else "B", "sib": sib, "week": w, "ms": ms, "ts": ts})
    return q


def rand(r):
    wk = r.choice([0, 5, 2000, 65534])
    base = r.choice([0, 1, 999, 4350, 1001, 86400000, 604799999, r.randrange(604800000)])
    t = lambda: [max(0, wk + r.choice([0, 0, 0, 1, -1])), max(0, min(604799999, base + r.choice([0, 0, 1, -1, 10, -1000, 500])))]
    per = r.choice([1, 2, 3, 10, 29, 100, 1000, 1001, 60000, base or 7])
    ids, nms = r.sample(IDS, 3), r.sample(NAMES, 3)
    fm, sibs = [ALL] + r.sample(FM, 2), [0, r.choice([1, 2, 31])]
    key = lambda s: [r.choice(s), r.choice(fm), r.choice(sibs)]
    tss = r.sample(TS, 3)
    B = lambda o: {"op": o, "b": r.random() < .5}
    L = lambda o, k: {"op": o, "l": [k() for _ in range(r.randint(0, 3))]}
    mk = [lambda: {"op": "lo", "t": t()}, lambda: {"op": "hi", "t": t()}, lambda: {"op": r.choice(["clo", "chi", "ct", "cdec", "cst", "cid", "cnm", "copy", "clear"])},
          lambda: B(r.choice(["it", "idec", "ist", "iid", "inm", "nmea", "resp", "nresp"])), lambda: {"op": r.choice(["dec", "decs"]), "n": r.choice([per, per, 1, 0 if r.random() < .3 else per])},
          lambda: {"op": r.choice(["st", "st", "rst"]), "v": r.choice(tss)}, lambda: L("sts", lambda: r.choice(tss)),
          lambda: {"op": r.choice(["mid", "mid", "rid"]), "v": key(ids)}, lambda: L("mids", lambda: key(ids)),
          lambda: {"op": r.choice(["nm", "nm", "rnm"]), "v": key(nms)}, lambda: L("nms", lambda: key(nms))]
    foc = r.choice([mk, mk, [mk[0], mk[1], mk[2], mk[3]], [mk[4], mk[3]], r.sample(mk, 3)])
    q = []
    for _ in range(45):
        w, ms = t()
        if r.random() < .3:
            ms = r.randrange(1, 50) * per % 604800000
        q.append({"fmt": r.choice(fm[1:] + [r.choice(FM)]), "resp": r.random() < .25, "id": r.choice(ids), "name": r.choice(nms), "sib": r.choice(sibs), "week": w, "ms": ms, "ts": r.choice(tss)})
    return {"q": q, "ev": [r.choice(foc)() for _ in range(r.randint(3, 14))]}


def run(ctx):
    exe = vf.build("h_filter")
    r = random.Random(ctx.seed)
    q = small_q()
    inv = "INVARIANTS EmptyOk Inverse Monotone TakeBack ClearOk\n"
    groups = [["time"], ["dec", "st"], ["id"], ["name"], ["st", "flag"], ["mini"]] + ctx.pick([], [["time", "dec"], ["id", "st"], ["name", "flag", "dec"], ["mini", "flag"]])
    sc = []
    for g in groups:
        cfg = "SPECIFICATION Spec\nCONSTANT Groups = {%s}\nVIEW View\n%s" % (", ".join('"%s"' % x for x in g), inv)
        hs = scen.generate(ctx, "FilterMC", cfg + "ACTION_CONSTRAINT Emit\n", workers=1)
        hs = hs if len(hs) <= ctx.pick(700, 6000) else r.sample(hs, ctx.pick(700, 6000))
        sc += [{"q": r.sample(q, 60), "ev": h} for h in hs]
    scen.validate(ctx, exe, sc, "FilterTrace", "SPECIFICATION Spec\n", "plans", "filter history (every transition of the small model)")
    sc = [rand(r) for _ in range(ctx.pick(1500, 20000))]
    scen.validate(ctx, exe, sc, "FilterTrace", "SPECIFICATION Spec\n", "rand", "random filter history")
    ctx.assumptions += ["message times are whole milliseconds"]
