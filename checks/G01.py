"""G01: structs generated for the messages of a database are laid out as flattened messages are."""
import json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import msg, msggen as G, scen, vf
LEVEL = "model_checking"
MC = "SPECIFICATION Spec\nINVARIANT Placed\nINVARIANT Sized\nINVARIANT Apart\nINVARIANT Fixed\n"
PUBLIC = ["BESTPOS", "RANGE", "VERSION", "TIME"]
HEAD = """#include "%s"
#include <cstdio>
#include <type_traits>
using namespace novatel::edie::oem;
template <class T> constexpr char kind() { return std::is_same_v<T, bool> ? 'b' : std::is_floating_point_v<T> ? 'f' : std::is_signed_v<T> ? 'i' : 'u'; }
#define MEMBER(T, P) { using X = std::remove_reference_t<decltype((static_cast<T*>(nullptr)->P))>; using Y = std::remove_all_extents_t<X>; static_assert(std::is_arithmetic_v<Y>); \\
  static T t; std::printf("m %%s %%zu %%zu %%zu %%c\\n", #P, static_cast<size_t>((char*)&t.P - (char*)&t), sizeof(Y), std::is_array_v<X> ? std::extent_v<X> : size_t{0}, kind<Y>()); }
int main() {
"""


def latest(m):
    return [d for d in m["defs"] if d["crc"] == m["latest"]][0]["fields"]


def members(fs, pre=""):
    for f in fs:
        n = {"switch": "sw", "operator": "opr"}.get(f["n"], f["n"])
        if f["t"] in ("VARIABLE_LENGTH_ARRAY", "FIELD_ARRAY") and not f["ref"]:
            yield pre + n + "_arraylength"
        if f["t"] == "FIELD_ARRAY":
            for i in range(f["al"]):
                yield from members(f["fields"], "%s%s[%d]." % (pre, n, i))
        else:
            yield pre + n


def rename(r, fs):
    """names that recur in other messages and rows, names that C++ reserves"""
    used = {f["ref"] for f in fs}
    pool = {True: ["obs", "sats"], False: ["switch", "operator", "obs_arraylengths", "id"]}
    for f in fs:
        rename(r, f["fields"])
        p = pool[f["t"] == "FIELD_ARRAY"]
        if p and f["n"] not in used and (f["t"] == "FIELD_ARRAY" or r.random() < .1):
            f["n"] = p.pop(r.randrange(len(p)))
            f["nb"] = G.b(f["n"])


def laid_out(ctx, d, msgs):
    """runs the script on the database in the directory d and asks a compiler what came of it"""
    out = []
    for all_ in (False, True):
        h = os.path.join(d, "all.hpp" if all_ else "web.hpp")
        q = subprocess.run([sys.executable, os.path.join(vf.REPO, "scripts/gen_flat_cpp_structs.py"), os.path.join(d, "db.json"), "-o", h] + (["-al"] if all_ else []) + (["-ts"] if len(msgs) % 2 else []),
                           cwd=d, capture_output=True, text=True, errors="replace", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), timeout=120)
        text = open(h, errors="replace").read() if q.returncode == 0 and os.path.exists(h) else ""
        out.append({"op": "gen", "all": all_, "names": re.findall(r"\bstruct\s+(\w+)", text), "rc": q.returncode, "err": q.stderr[-300:] if q.returncode else ""})
    for m in msgs:
        src = os.path.join(d, m["name"] + ".cpp")
        with open(src, "w") as f:
            f.write(HEAD % "all.hpp")
            f.write('std::printf("s %%zu\\n", sizeof(%s));\n' % m["name"])
            for p in members(latest(m)):
                f.write("MEMBER(%s, %s)\n" % (m["name"], p))
            f.write("}\n")
        e = {"op": "struct", "id": m["id"], "ok": False, "size": 0, "members": [], "err": ""}
        q = subprocess.run(["g++", "-std=c++17", "-w", "-O0", src, "-o", src[:-4]], cwd=d, capture_output=True, text=True, errors="replace", timeout=120)
        if q.returncode == 0:
            q = subprocess.run([src[:-4]], cwd=d, capture_output=True, text=True, timeout=60)
            for x in q.stdout.splitlines():
                x = x.split()
                if x[0] == "s": e["size"] = int(x[1])
                else: e["members"].append({"p": x[1], "o": int(x[2]), "s": int(x[3]), "n": int(x[4]), "k": x[5]})
            e["ok"] = q.returncode == 0
        else:
            e["err"] = q.stderr[:400]
        out.append(e)
    return out


def run(ctx):
    r = random.Random(ctx.seed * 5 + 11)
    exe = vf.build("h_flat")
    cases, worlds = [], []
    for _ in range(ctx.pick(30, 250)):
        w = G.World(r, r.choice([1, 2, 3]), r.random() < .5)
        for m in w.msgs:
            for x in m["defs"]: rename(r, x["fields"])
        for m, n in zip(w.msgs, r.sample(PUBLIC, len(w.msgs))):
            if r.random() < .5: m["name"] = n
        w.defs = [{"id": m["id"], "name": G.b(m["name"])} for m in w.msgs]
        items = []
        for m in w.msgs:
            for _ in range(ctx.pick(4, 6)):
                v = w.values(latest(m), r.choice([0, 0, 1, 2]))
                cases.append(w.case(latest(m), v))
                items.append((m, v, len(cases)))
        worlds.append((w, items))
    p = ctx.path("cases.ndjson")
    with open(p, "w") as f:
        for c in cases: f.write(json.dumps(c, separators=(",", ":")) + "\n")
    ctx.model_check("FlatMC", MC, deadlock=False, env={"CASES": p})
    enc = {x["i"]: x["bin"] for x in scen.generate(ctx, "MsgGen", "SPECIFICATION Spec\nINVARIANT RtFlat\nINVARIANT Emit\n", env={"CASES": p})}
    scens = []
    for i, (w, items) in enumerate(worlds):
        d = ctx.path("db%d" % i)
        os.makedirs(d)
        scens.append(dict(w.scenario([{"op": "flat", "id": m["id"], "v": v, "b": enc[k]} for m, v, k in items]), file=os.path.join(d, "db.json")))
    sp, tp = ctx.path("flat.scen"), ctx.path("flat.trace")
    scen.write(sp, scens)
    ctx.run_harness(exe, [sp, tp])
    tr = scen.read(tp)
    with ThreadPoolExecutor(8) as ex:
        for t, e in zip(tr, ex.map(lambda t: laid_out(ctx, os.path.dirname(t["file"]), t["msgs"]), tr)):
            t["ev"] = e + t["ev"]
            t["file"] = ""
    n, ne = scen.write(tp, tr)
    ctx.validate("FlatTrace", "SPECIFICATION Spec\n", tp, n, ne, "generated structs over flattened messages")
    s = [e for e in tr[len(tr) // 2]["ev"] if e["op"] == "struct"]
    ctx.cov["samples"].append({"part": "struct", "trace": json.dumps(s)[:700]})
