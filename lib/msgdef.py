"""Compact message-definition values shared by the message-level checks (all keys always present)."""
SIZE = {"BOOL": 4, "CHAR": 1, "UCHAR": 1, "SHORT": 2, "USHORT": 2, "INT": 4, "UINT": 4, "LONG": 4, "ULONG": 4, "LONGLONG": 8, "ULONGLONG": 8,
        "FLOAT": 4, "DOUBLE": 8, "HEXBYTE": 1, "SATELLITEID": 4, "UNKNOWN": 0}


def field(n, t, dt, conv, length=None, enum="", al=0, ref="", alfs=4, fields=()):
    return {"n": n, "t": t, "dt": dt, "len": SIZE[dt] if length is None else length, "conv": conv, "enum": enum, "al": al, "ref": ref,
            "alfs": alfs, "fields": list(fields)}


def simple(n, dt, conv):
    return field(n, "SIMPLE", dt, conv)


def enum(n, eid, dt="UINT"):
    return field(n, "ENUM", dt, "%d", enum=eid)


def fixed(n, dt, conv, al):
    return field(n, "FIXED_LENGTH_ARRAY", dt, conv, al=al)


def var(n, dt, conv, al, alfs=4, ref=""):
    return field(n, "VARIABLE_LENGTH_ARRAY", dt, conv, al=al, alfs=alfs, ref=ref)


def string(n, al):
    return field(n, "STRING", "CHAR", "%s", al=al)


def rows(n, al, fields, alfs=4, ref=""):
    return field(n, "FIELD_ARRAY", "UNKNOWN", "", length=0, al=al, fields=fields, alfs=alfs, ref=ref)


def limbs(v):
    return [(v >> 16) & 0xFFFF, v & 0xFFFF]


def msg(mid, name, defs, latest=None, tag=""):
    """defs: [(crc, fields)]"""
    return {"id": mid, "name": name, "tag": tag, "latest": limbs(defs[-1][0] if latest is None else latest),
            "defs": [{"crc": limbs(c), "fields": f} for c, f in defs]}


def enumdef(eid, name, vals, tag=None):
    """vals: [(value, name, description)]"""
    return {"id": eid, "name": name, "tag": tag if tag is not None else (vals[0][1] if vals else ""),
            "vals": [{"v": limbs(v), "n": n, "d": d} for v, n, d in vals]}


PLAIN = [("BOOL", "%d"), ("CHAR", "%c"), ("UCHAR", "%uc"), ("SHORT", "%hd"), ("USHORT", "%hu"), ("INT", "%d"), ("UINT", "%u"), ("LONG", "%ld"),
         ("ULONG", "%lu"), ("LONGLONG", "%lld"), ("ULONGLONG", "%llu"), ("FLOAT", "%f"), ("DOUBLE", "%lf"), ("HEXBYTE", "%Z")]


def rand_fields(r, eids, n, depth=2, pre="f"):
    out = []
    for i in range(n):
        k = r.random()
        nm = "%s%d" % (pre, i)
        dt, cv = r.choice(PLAIN)
        if k < 0.40:
            out.append(simple(nm, dt, cv))
        elif k < 0.52 and eids:
            out.append(enum(nm, r.choice(eids), r.choice(["UCHAR", "SHORT", "UINT"])))
        elif k < 0.66:
            out.append(fixed(nm, dt, cv, r.randint(0, 7)))
        elif k < 0.78:
            out.append(var(nm, dt, cv, r.randint(0, 9), r.choice([1, 2, 4])))
        elif k < 0.86:
            out.append(string(nm, r.randint(0, 12)))
        elif depth > 0:
            out.append(rows(nm, r.randint(0, 5), rand_fields(r, eids, r.randint(0, 4), depth - 1, nm + "_"), r.choice([1, 2, 4])))
        else:
            out.append(simple(nm, dt, cv))
    return out
