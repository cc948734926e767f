"""The small database the header-level checks use (mirrors HeaderMC's)."""
import msgdef as M
b = lambda s: list(s.encode())
PORTS = [(32, "COM1", ""), (64, "COM2", ""), (41, "COM1_9", ""), (0, "NO_PORTS", "")]
TS = [(20, "UNKNOWN", ""), (180, "FINESTEERING", ""), (200, "SATTIME", "")]
MSGS = [(42, "BESTPOS"), (65535, "A9"), (7, "VERSION")]


def msgs(): return [M.msg(i, n, [(1, [])]) for i, n in MSGS]
def enums(): return [M.enumdef("p", "PortAddress", PORTS), M.enumdef("t", "GPSTimeStatus", TS)]
def vals(es): return [{"name": e["name"], "vals": [{"v": v["v"], "n": b(v["n"]), "d": b(v["d"])} for v in e["vals"]]} for e in es]
def defs(ms): return [{"id": m["id"], "name": b(m["name"])} for m in ms]
