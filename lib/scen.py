"""Helpers for scenario files and TLC-generated behaviours."""
import json, re
from vf import tlc, CheckError


def write(path, scens):
    n = 0
    with open(path, "w") as f:
        for s in scens:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
            n += len(s["ev"])
    return len(scens), n


def read(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def generate(ctx, module, cfg, **kw):
    """Behaviours printed by TLC from an action constraint/invariant as lines "@@<json>" (TLC quotes strings)."""
    r = tlc(ctx, module, cfg, deadlock=False, **kw)
    if not r.ok:
        raise CheckError("generator %s: %s %s\n%s" % (module, r.kind, r.name, r.out[-3000:]))
    out = []
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
        elif line.startswith("@@"):
            out.append(json.loads(line[2:]))
    if not out:
        raise CheckError("generator %s produced nothing:\n%s" % (module, r.out[-3000:]))
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.states
    return out


def validate(ctx, exe, scens, module, cfg, name, desc, timeout=300, **kw):
    """scenarios -> real code -> traces -> TLC"""
    sp, tp = ctx.path(name + ".scen"), ctx.path(name + ".trace")
    nt, ne = write(sp, scens)
    ctx.run_harness(exe, [sp, tp], timeout=timeout)
    ctx.validate(module, cfg, tp, nt, ne, desc, **kw)
    if len(ctx.cov["samples"]) < 6:
        tr = read(tp)
        s = json.dumps(tr[len(tr) // 2])
        ctx.cov["samples"].append({"part": name, "trace": s[:700] + ("..." if len(s) > 700 else "")})
    return tp
