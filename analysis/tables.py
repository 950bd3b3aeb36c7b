"""Constant tables of the program as plain values."""
from .terms import Giveup


def plain(p, v):
    if isinstance(v, (list, tuple)):
        if v and v[0] == "K":
            return plain(p, p.consts[v[1]][1])
        if v and v[0] == "k":
            return plain(p, v[2])
    if isinstance(v, dict):
        if "a" in v:
            return [plain(p, x) for x in v["a"]]
        if "t" in v:
            return tuple(plain(p, x) for x in v["t"])
        if "e" in v:
            return v["e"] if not v["f"] else (v["e"], [plain(p, x) for x in v["f"]])
        if "s" in v:
            return [plain(p, x) for x in v["s"]]
        if "ref" in v:
            return plain(p, v["ref"])
        raise Giveup("constant %r" % (v,))
    return v


def table(p, name):
    """value of the constant (or immutable static) of that name; None when there is none, or more than one"""
    r = [n for k, n in p.named.items() if k.split("::")[-1] == name]
    if len(r) == 1:
        return plain(p, r[0]["v"])
    if not r:
        s = [x for k, x in p.statics.items() if k.split("::")[-1] == name]
        if len(s) == 1:
            return plain(p, s[0]["v"])
    return None


def fields(p, name):
    """field values of a constant of struct type, by field name"""
    r = [n for k, n in p.named.items() if k.split("::")[-1] == name]
    if len(r) != 1:
        return None
    v = r[0]["v"]
    ty, val = p.consts[v[1]] if v[0] == "K" else (v[1], v[2])
    t = p.tys[ty]
    return {f[0]: plain(p, x) for f, x in zip(t["v"][0]["f"], val["s"])}
