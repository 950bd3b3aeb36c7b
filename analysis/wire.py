"""Reference bit layouts: navigation of abstract structures by field name, and a writer for expected bit sequences."""
from contextlib import contextmanager
from .core import *


class Nav:
    """a (symbolic) structure in state st"""

    def __init__(self, I, st, v, ty):
        self.I, self.st, self.ty = I, st, ty
        v = I.force(v)
        p = I.p
        while True:
            t = p.tys[self.ty]
            if t["k"] in ("ref", "ptr"):
                v = I.deref_read(st, v)
                self.ty = t["e"]
            elif t["k"] == "adt" and t["n"] in ("alloc::rc::Rc", "alloc::rcs::rc::Rc", "alloc::boxed::Box"):
                v = I.deref_read(st, v)
                self.ty = t["args"][0]
            elif t["k"] == "adt" and t["n"] == "core::cell::RefCell":
                v = I.force(v.f[0])
                self.ty = t["args"][0]
            else:
                break
        self.v = v

    @property
    def t(self):
        return self.I.p.tys[self.ty]

    def has(self, name):
        t = self.t
        return t["k"] == "adt" and any(f[0] == name for f in t["v"][0]["f"])

    def __getitem__(self, k):
        t = self.t
        if isinstance(k, str):
            if t["k"] != "adt" or t["ak"] != "struct":
                raise Giveup("no field %s" % k)
            for i, f in enumerate(t["v"][0]["f"]):
                if f[0] == k:
                    return Nav(self.I, self.st, self.v.f[i], f[1])
            raise Giveup("no field %s" % k)
        if t["k"] == "array":
            return Nav(self.I, self.st, self.v.f[k], t["e"])
        if t["k"] == "slice":
            v = self.v
            return Nav(self.I, self.st, v.f[k] if isinstance(v, Agg) else self.I.seq_at(v, k, TRUE), t["e"])
        if t["k"] == "tuple":
            return Nav(self.I, self.st, self.v.f[k], t["f"][k])
        if t["k"] == "adt" and t["n"] == "alloc::vec::Vec":
            v = self.v.norm() if isinstance(self.v, DqV) else self.v
            return Nav(self.I, self.st, self.I.seq_at(v, k, TRUE), t["args"][0])
        raise Giveup("index of " + t["k"])

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self[name]

    @property
    def n(self):
        """number"""
        v = self.v
        if isinstance(v, EnumV):
            return self.I.idx2d(v.ty if v.ty is not None else self.ty, v.d)
        return to_int(self.I.need_term(v)) if False else T._as_int(self.I.need_term(v))

    @property
    def b(self):
        v = self.I.need_term(self.v)
        return v if isbool(v) else i2b(v)

    @property
    def length(self):
        v = self.v
        if isinstance(v, (SeqV, DqV)):
            return v.length()
        raise Giveup("length of %r" % (v,))

    def maxlen(self):
        return len(self.v.items)

    # enums
    def variant(self, name):
        for i, x in enumerate(self.t["v"]):
            if x["n"] == name:
                return i
        raise Giveup("no variant " + name)

    def isv(self, name):
        return EQ(self.v.d, const(self.variant(name)))

    @property
    def some(self):
        return self.isv("Some")

    def pay(self, name="Some", k=0):
        i = self.variant(name)
        fs = self.t["v"][i]["f"]
        if isinstance(k, str):
            k = [f[0] for f in fs].index(k)
        return Nav(self.I, self.st, self.v.pay[i][k], fs[k][1])


class Wire:
    """expected bits, under a guard stack"""

    def __init__(self, g=TRUE):
        self.items = []
        self.g = g
        self.done = FALSE

    def cur(self):
        return AND(self.g, NOT(self.done))

    @contextmanager
    def when(self, c):
        old = self.g
        self.g = AND(self.g, c)
        try:
            yield
        finally:
            self.g = old

    def stop(self):
        """the rest is not written under the current guard"""
        self.done = OR(self.done, self.g)

    def f(self, n, x, what):
        x = T._as_int(x)
        g = self.cur()
        if g is FALSE:
            return
        for k in range(n - 1, -1, -1):
            self.items.append((g, mod_const(shr_const(x, k), 1), "%s bit %d" % (what, k) if n > 1 else what))

    def flag(self, c, what):
        self.f(1, b2i(c) if isbool(c) else c, what)

    def fsym(self, n, x, what, mx):
        """field of symbolic width n <= mx"""
        x = T._as_int(x)
        g = self.cur()
        if g is FALSE:
            return
        for k in range(mx - 1, -1, -1):
            self.items.append((AND(g, GT(n, const(k))), mod_const(shr_const(x, k), 1), "%s bit %d" % (what, k)))

    def tok(self, name, x, what, n=None):
        """a variable length code checked elsewhere, as one token"""
        g = self.cur()
        if g is FALSE:
            return
        self.items.append((g, token(name, x, n), what))

    def su(self, n, x, what):
        x = T._as_int(x)
        neg = LT(x, ZERO)
        self.f(1, b2i(neg), what + " sign")
        v = ite(neg, add(x, const(1 << n)), x)
        self.f(n - 1, mod_const(v, n - 1), what)


TOK = {}


def token(name, x, n=None):
    """a term that identifies one coded value: equal iff kind, value and parameter are equal"""
    k = TOK.setdefault(name, len(TOK) + 1)
    x = T._as_int(x)
    t = add(mul(const(4), x), const(2))
    if n is not None:
        t = add(t, mul(T._as_int(n), const(1 << 44)))
    return add(t, const(k << 60))


def tok_hook(name, pos=2, npos=None):
    from . import models

    def h(I, st, fi, args, dty):
        x = I.need_term(args[pos])
        n = I.need_term(args[npos]) if npos is not None else None
        models.push(I, st, args[1], token(name, x, n), tuple(I.site()))
        return [(UNIT, st)]
    return h


HOOKS = {"encode_uvlc": tok_hook("uvlc"), "encode_ns": tok_hook("ns", 2, 3), "encode_leb128": tok_hook("leb128"), "encode_le": tok_hook("le", 2, 3)}
