"""D02: names, packed identifiers and enumerations translate both ways."""
import random
import msgdef as M, scen, vf
LEVEL = "model_checking"
b = lambda s: list(s.encode())


def mk(msgs, enums, ev):
    return {"kind": "names", "msgs": msgs, "enums": enums, "ev": ev, "defs": [{"id": m["id"], "name": b(m["name"])} for m in msgs],
            "vals": [{"name": e["name"], "vals": [{"v": v["v"], "n": b(v["n"]), "d": b(v["d"])} for v in e["vals"]]} for e in enums]}


def run(ctx):
    ctx.model_check("NamesMC", "SPECIFICATION Spec\nCONSTANT Dummy = 0\nINVARIANTS PackOk RoundTrip Unknown\n")
    exe = vf.build("h_db")
    r = random.Random(ctx.seed)
    sc = []
    msgs = [M.msg(42, "BESTPOS", [(1, [])]), M.msg(65535, "A_B", [(1, [])]), M.msg(7, "X", [(1, [])]), M.msg(100, "BESTPOSA", [(1, [])]), M.msg(8, "RXSTATUSB_", [(1, [])])]
    ev = []
    for mid in [0, 7, 42, 65535, 9, 100]:
        for sib in range(32):
            for fmt in range(4):
                for resp in (0, 1):
                    w = [sib + 32 * fmt + 128 * resp, mid]
                    ev += [{"op": "i2n", "i": w}, {"op": "un", "i": w}, {"op": "mk", "id": mid, "sib": sib, "fmt": fmt, "resp": resp}]
                    if mid == 7: ev.append({"op": "mt", "sib": sib, "fmt": fmt, "resp": resp})
    for x in [65536 + 3, 32, 255, 4, 2, 5]:
        ev += [{"op": "mk", "id": x, "sib": x, "fmt": x, "resp": x}, {"op": "mt", "sib": x, "fmt": x, "resp": x}, {"op": "un", "i": [x * 257 % 65536, x % 65536]}]
    sc.append(mk(msgs, [], ev))
    for base in ["BESTPOS", "A_B", "X", "BESTPOSA", "RXSTATUSB_", "NOPE", "BESTPO", "BESTPOSB", "A", "B", "R", "A_", "XX"]:
        ev = []
        for sfx in ["", "A", "B", "R", "C", "AA", "AB", "AR", "BA", "RA", "a", "T"]:
            for sib in [""] + ["_%d" % i for i in range(32)] + ["_01", "_99", "__1", "_1_2", "1", "12"]:
                ev.append({"op": "n2i", "s": b(base + sfx + sib)})
        sc.append(mk(msgs, [], ev))
    # random databases
    for _ in range(ctx.pick(40, 600)):
        al = "ABRX_"
        names = set()
        while len(names) < 5:
            n = r.choice("ABRX") + "".join(r.choice(al) for _ in range(r.randint(0, 5)))
            names.add(n)
        ms = [M.msg(i, n, [(1, [])]) for i, n in zip(r.sample(range(65536), 5), sorted(names))]
        vs = []
        for j in range(r.randint(0, 6)):
            vs.append((r.choice([0, 1, 2, 5, 255, 256, 65535, 65536, 70000, 2**31 - 2, r.randrange(2**31 - 1)]), r.choice(["A", "B", "INS_OK", "UNKNOWN", "", "a b"]) if r.random() < .5 else "N%d" % j,
                       r.choice(["OK", "Invalid", "", "A"]) if r.random() < .5 else "D%d" % j))
        es = [M.enumdef("e1", "E1", vs), M.enumdef("e2", "E2", [])]
        ev = []
        for m in ms:
            for s in (m["name"], m["name"] + r.choice("ABR"), m["name"] + "_%d" % r.randrange(32), m["name"] + r.choice("ABR") + "_%d" % r.randrange(32)):
                ev.append({"op": "n2i", "s": b(s)})
            ev.append({"op": "i2n", "i": [r.randrange(256), m["id"]]})
        for en in ("E1", "E2", "E3"):
            for v, n, d in vs + [(3, "ZZ", "zz"), (2**31 - 1, "UNKNOWN", "UNKNOWN")]:
                ev += [{"op": "es", "en": en, "i": M.limbs(v)}, {"op": "es", "en": en, "i": M.limbs((v + 1) % 2**32)}, {"op": "ev", "en": en, "s": b(n)}, {"op": "rid", "en": en, "s": b(d)},
                       {"op": "ev", "en": en, "s": b(n[:-1])}, {"op": "es", "en": en, "i": [0xFFFF, 0xFFFF]}]
        sc.append(mk(ms, es, ev))
    scen.validate(ctx, exe, sc, "NamesTrace", "SPECIFICATION Spec\n", "names", "names, identifiers and enumerations")
