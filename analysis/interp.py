"""Forward dataflow analysis over MIR with gated value graphs as abstract values.

One pass over each function's control-flow graph; states are merged at every join (no path
enumeration), callees are analysed in the caller's state, loops are unrolled while their trip
count is decided by the values and, where it is not, up to a stated bound with the remaining
iterations guarded.  Nothing of the program is run.
"""
import re
from .terms import *
from . import terms as T
from .mir import Prog, short


class Panic(Exception):
    pass


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.f[:12]))


class EnumV:
    __slots__ = ("ty", "d", "pay")

    def __init__(self, ty, d, pay):
        self.ty = ty
        self.d = d          # variant index
        self.pay = pay      # dict variant -> tuple of values

    def __repr__(self):
        return "enum(%r,%r)" % (self.d, self.pay)


class Ptr:
    __slots__ = ("obj", "path", "win")

    def __init__(self, obj, path=(), win=None):
        self.obj = obj
        self.path = path
        self.win = win

    def key(self):
        return (self.obj, pathkey(self.path), None if self.win is None else (self.win[0].id, self.win[1].id))

    def __repr__(self):
        return "&%r%r%s" % (self.obj, self.path, "" if self.win is None else "[%r;%r]" % self.win)


def pathkey(p):
    return tuple((e[0], e[1].id if e[0] == "i" else e[1]) for e in p)


class RefV:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "ref" + repr(self.alts)


class SeqV:
    """Vec / VecDeque / log: guarded items in order.  prefix: item i is element i (array like)."""
    __slots__ = ("items", "len_", "prefix", "tail")

    def __init__(self, items, len_=None, prefix=True, tail=None):
        self.items = tuple(items)
        self.len_ = len_
        self.prefix = prefix
        self.tail = tail

    def length(self):
        if self.len_ is not None:
            return self.len_
        n = ZERO
        for it in self.items:
            n = add(n, b2i(it[0]))
        return n

    def __repr__(self):
        return "seq%r" % (self.items[:10],)


class DqV:
    """VecDeque being consumed from the front: fixed items, position of the next one"""
    __slots__ = ("items", "head", "tot")
    prefix = True
    len_ = None

    def __init__(self, items, head, tot=None):
        self.items, self.head, self.tot = tuple(items), head, tot

    def total(self):
        return self.tot if self.tot is not None else const(len(self.items))

    def length(self):
        return sub(self.total(), self.head)

    def norm(self):
        if is_const(self.head) and self.tot is None:
            return SeqV(self.items[self.head.c:], None, True)
        raise Giveup("queue position depends on data")

    def __repr__(self):
        return "dq(%d,%r)" % (len(self.items), self.head)


class IterV:
    """iterator over a sequence place: positions [pos, end)"""
    __slots__ = ("ptr", "pos", "end", "mode", "extra")

    def __init__(self, ptr, pos, end, mode="ref", extra=None):
        self.ptr, self.pos, self.end, self.mode, self.extra = ptr, pos, end, mode, extra


class Opaque:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty

    def __repr__(self):
        return "opaque(%s)" % (self.key,)


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class FnV:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class Lazy:
    __slots__ = ("ty", "path", "val")

    def __init__(self, ty, path):
        self.ty, self.path, self.val = ty, path, None

    def __repr__(self):
        return "<%s>" % self.path


UNIT = Agg(())
TERM = (Flat, Node, BoolT)


class State:
    __slots__ = ("mem", "g")

    def __init__(self, mem, g):
        self.mem, self.g = mem, g

    def fork(self, g):
        return State(dict(self.mem), g)


INT_RNG = {}


def int_range(signed, bits):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


TRANSPARENT = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
               "core::cell::UnsafeCell", "core::ptr::non_null::NonNull", "core::ptr::unique::Unique",
               "core::mem::maybe_dangling::MaybeDangling", "core::mem::MaybeUninit")


class Interp:
    def __init__(self, prog, ranges=None, veclen=None, sym_unroll=70, fuel=3_000_000, max_iter=5000,
                 hooks=None, default_usize=(0, 1 << 32), types_from=None, alias=None, maxrec=3):
        self.p = prog
        self.alias = alias or {}            # leaf path -> leaf path it shares its value with
        self.ranges = ranges or {}          # leaf path (or predicate) -> (lo, hi)
        self.veclen = veclen or {}          # path -> bound on the symbolic length
        self.default_veclen = 2
        self.sym_unroll = sym_unroll
        self.max_iter = max_iter
        self.fuel = fuel
        self.hooks = hooks or {}
        self.default_usize = default_usize
        self.panics = []                    # (guard, kind, where)
        self.cuts = []                      # (guard, where)
        self.over = {}
        self._holds = {}
        self.exits = []                     # (guard, what)
        self.nframe = 0
        self.maxrec = maxrec
        self.nobj = 0
        self.stack = []
        self.visited = set()
        self.nblocks = 0
        self.strict_uf = False
        self._constcache = {}
        self._lazy = {}
        self.assume_cache = {}
        self.uf_calls = {}
        self.diverges = []
        T._budget[0] = 0

    # ------------------------------------------------------------------ symbolic inputs
    def lazy(self, ty, path):
        k = (ty, path)
        v = self._lazy.get(k)
        if v is None:
            v = Lazy(ty, path)
            self._lazy[k] = v
        return v

    def pinned(self, path, table=None):
        """entry for a leaf path, its last component, or its last component without indices"""
        table = self.ranges if table is None else table
        if path in table:
            return table[path]
        l = path.rsplit(".", 1)[-1] if not path.endswith(".#") else path[:-2].rsplit(".", 1)[-1] + ".#"
        if l in table:
            return table[l]
        l = re.sub(r"\[\d+\]", "", l)
        return table.get(l)

    def rng_for(self, path, signed, bits):
        lo, hi = int_range(signed, bits)
        r = self.pinned(path)
        if r is not None:
            return max(lo, r[0]), min(hi, r[1])
        if bits == 64:
            if signed:
                return max(lo, -self.default_usize[1]), min(hi, self.default_usize[1])
            return max(lo, self.default_usize[0]), min(hi, self.default_usize[1])
        return lo, hi

    def force(self, v):
        while isinstance(v, Lazy):
            if v.val is None:
                v.val = self.expand(v.ty, v.path)
            v = v.val
        return v

    def expand(self, ty, path):
        t = self.p.tys[ty]
        k = t["k"]
        if k == "int":
            path = self.alias.get(path, path)
            lo, hi = self.rng_for(path, t["s"], t["b"])
            return leaf(path, lo, hi)
        if k == "bool":
            r = self.pinned(path)
            if r is not None and r[0] == r[1]:
                return TRUE if r[0] else FALSE
            return i2b(leaf(path, 0, 1))
        if k == "char":
            return leaf(path, 0, 0x10ffff)
        if k == "ref" or k == "ptr":
            e = self.p.tys[t["e"]]
            if e["k"] == "slice":
                n = self.lenleaf(path)
                return RefV([(TRUE, Ptr(("sym", path, t["e"]), (), (ZERO, n)))])
            return RefV([(TRUE, Ptr(("sym", path, t["e"])))])
        if k == "tuple" or k == "closure":
            return Agg([self.lazy(f, "%s.%d" % (path, i)) for i, f in enumerate(t.get("f") or ())])
        if k == "array":
            return Agg([self.lazy(t["e"], "%s[%d]" % (path, i)) for i in range(t["n"])])
        if k == "slice":
            n = self.lenleaf(path)
            return self.symseq(t["e"], path, n)
        if k == "str":
            return Opaque(path)
        if k == "adt":
            n = t["n"]
            if n in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                ln = self.lenleaf(path)
                return self.symseq(t["args"][0], path, ln)
            if n == "alloc::string::String":
                return Opaque(path)
            if n in ("alloc::rcs::rc::Rc", "alloc::boxed::Box", "alloc::rc::Rc"):
                e = self.p.tys[t["args"][0]]
                if e["k"] == "dyn":
                    return Opaque(path)
                return RefV([(TRUE, Ptr(("sym", path, t["args"][0])))])
            if n in ("core::cell::RefMut", "core::cell::Ref"):
                a = [x for x in t["args"]]
                return RefV([(TRUE, Ptr(("sym", path, a[-1])))])
            if n == "core::cell::RefCell":
                return Agg([self.lazy(t["args"][0], path)])
            if t["ak"] == "enum":
                nv = len(t["v"])
                if nv == 0:
                    return UNDEF
                lo, hi = 0, nv - 1
                r = self.pinned(path + ".#")
                if r is not None:
                    lo, hi = r
                d = leaf(path + ".#", lo, hi)
                pay = {}
                for i, v in enumerate(t["v"]):
                    pay[i] = tuple(self.lazy(f[1], "%s.%s%s" % (path, v["n"] + "." if nv > 2 else "", f[0])) for f in v["f"])
                return EnumV(ty, d, pay)
            if t["ak"] == "struct":
                if n.startswith("core::") or n.startswith("alloc::") or n.startswith("std::"):
                    if n not in ("core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom"):
                        return Opaque(path, ty)
                return Agg([self.lazy(f[1], "%s.%s" % (path, f[0])) for f in t["v"][0]["f"]])
            return Opaque(path, ty)
        return Opaque(path, ty)

    def vlen(self, path):
        r = self.pinned(path, self.veclen)
        return self.default_veclen if r is None else r

    def lenleaf(self, path):
        r = self.vlen(path)
        if isinstance(r, tuple):
            return const(r[0]) if r[0] == r[1] else leaf(path + ".len", r[0], r[1])
        return leaf(path + ".len", 0, r)

    def symseq(self, ety, path, ln):
        items = []
        mx = ln.mx
        for i in range(mx):
            items.append((ge0(f_sub(ln, const(i + 1))), self.lazy(ety, "%s[%d]" % (path, i)), None))
        return SeqV(items, ln, True)

    # ------------------------------------------------------------------ constants
    def cval(self, ty, v):
        key = None
        t = self.p.tys[ty]
        k = t["k"]
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            if k == "bool":
                return TRUE if v else FALSE
            return const(v)
        if isinstance(v, dict):
            if "a" in v:
                et = t["e"]
                return Agg([self.cval(et, x) for x in v["a"]])
            if "t" in v:
                return Agg([self.cval(ft, x) for ft, x in zip(t["f"], v["t"])])
            if "s" in v:
                fs = t["v"][0]["f"]
                vals = [self.cval(f[1], x) for f, x in zip(fs, v["s"])]
                if t["n"] in TRANSPARENT:
                    return vals[0] if t["n"] != TRANSPARENT[0] else vals[-1]
                if t["n"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                    return SeqV((), None, True)
                return Agg(vals)
            if "e" in v:
                fs = t["v"][v["e"]]["f"]
                return EnumV(ty, const(v["e"]), {v["e"]: tuple(self.cval(f[1], x) for f, x in zip(fs, v["f"]))})
            if "ref" in v:
                et = t["e"]
                self.nobj += 1
                o = ("const", self.nobj)
                self.constobj[o] = self.cval(et, v["ref"])
                win = None
                if self.p.tys[et]["k"] == "slice":
                    win = (ZERO, const(len(self.constobj[o].f)))
                return RefV([(TRUE, Ptr(o, (), win))])
            if "str" in v:
                return StrV(v["str"])
            if "static" in v:
                return RefV([(TRUE, Ptr(("static", v["static"])))])
            if "fn" in v:
                return FnV(v["fn"])
            if "zst" in v:
                if k == "fndef":
                    return FnV(t["i"])
                if k == "closure":
                    return Agg([])
                if k == "tuple":
                    return UNIT
                if k == "adt" and t["ak"] == "struct":
                    return Agg([self.cval(f[1], {"zst": 1}) for f in t["v"][0]["f"]])
                if k == "array":
                    return Agg([])
                return UNIT
            return Opaque(("const", str(v.get("opaque"))), ty)
        if isinstance(v, str):
            return StrV(v)
        return Opaque(("const", repr(v)[:40]), ty)

    constobj = {}

    # ------------------------------------------------------------------ memory
    def root(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "sym":
                v = self.lazy(obj[2], obj[1])
                st.mem[obj] = v
            elif obj[0] == "const":
                v = self.constobj[obj]
            elif obj[0] == "static":
                s = self.p.d["statics"][obj[1]] if isinstance(obj[1], int) else self.p.statics[obj[1]]
                if s.get("v") is None or (isinstance(s["v"], dict) and "opaque" in s["v"]):
                    v = Opaque(("static", s["n"]), s["t"])
                else:
                    ck = ("static", s["n"])
                    v = self._constcache.get(ck)
                    if v is None:
                        v = self.cval(s["t"], s["v"])
                        self._constcache[ck] = v
            else:
                return UNDEF
        return v

    def get(self, v, path, k, g):
        v = self.force(v)
        while k < len(path):
            e = path[k]
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Opaque):
                return Opaque((v.key,) + pathkey(path[k:]))
            if e[0] == "f":
                if isinstance(v, EnumV):
                    raise Giveup("field of enum without variant")
                if not isinstance(v, Agg):
                    raise Giveup("field of %r" % (v,))
                if e[1] >= len(v.f):
                    return UNDEF
                v = self.force(v.f[e[1]])
                k += 1
            elif e[0] == "d":
                if not isinstance(v, EnumV):
                    raise Giveup("variant of %r" % (v,))
                nxt = path[k + 1] if k + 1 < len(path) else None
                pay = v.pay.get(e[1])
                if nxt is None:
                    return v
                if nxt[0] != "f":
                    raise Giveup("variant path")
                if pay is None or nxt[1] >= len(pay):
                    return UNDEF
                v = self.force(pay[nxt[1]])
                k += 2
            elif e[0] == "i":
                idx = e[1]
                n = self.seqlen_static(v)
                if is_const(idx):
                    i = idx.c
                    if isinstance(v, Agg):
                        if not 0 <= i < len(v.f):
                            return UNDEF
                        v = self.force(v.f[i])
                    elif isinstance(v, SeqV):
                        v = self.force(self.seq_at(v, i, g))
                    else:
                        raise Giveup("index of %r" % (v,))
                    k += 1
                else:
                    return self.get_sym(v, idx, path, k + 1, g)
            else:
                raise Giveup("path " + repr(e))
        return v

    def seqlen_static(self, v):
        return len(v.f) if isinstance(v, Agg) else len(v.items) if isinstance(v, SeqV) else None

    def seq_at(self, v, i, g):
        if v.prefix:
            if 0 <= i < len(v.items):
                return v.items[i][1]
            return UNDEF
        # general guarded list: element i is the item whose predecessors contribute exactly i
        if all(it[0] is TRUE for it in v.items[:i + 1]) and i < len(v.items):
            return v.items[i][1]
        out = UNDEF
        cnt = {0: TRUE}
        for it in v.items:
            if i in cnt:
                c = AND(cnt[i], it[0])
                if c is not FALSE:
                    out = it[1] if out is UNDEF else self.merge_val(c, it[1], out)
            n = {}
            for k, gg in cnt.items():
                if k > i:
                    continue
                a, b = AND(gg, it[0]), AND(gg, NOT(it[0]))
                if a is not FALSE:
                    n[k + 1] = OR(n.get(k + 1, FALSE), a)
                if b is not FALSE:
                    n[k] = OR(n.get(k, FALSE), b)
            cnt = n
        return out

    def get_sym(self, v, idx, path, k, g):
        n = self.seqlen_static(v)
        if n is None:
            if isinstance(v, Opaque):
                return Opaque((v.key,) + pathkey(path[k - 1:]))
            raise Giveup("symbolic index of %r" % (v,))
        if n == 0:
            return UNDEF
        items = v.f if isinstance(v, Agg) else [it[1] for it in v.items]
        if isinstance(v, SeqV) and not v.prefix:
            if not all(it[0] is TRUE for it in v.items):
                raise Giveup("symbolic index into guarded list")
        # large constant table: keep the lookup symbolic
        lo, hi = self.idx_range(idx, g)
        lo, hi = max(lo, 0), min(hi, n - 1)
        if lo > hi:
            return UNDEF
        if hi - lo > 8 and k == len(path) and all(isinstance(x, Flat) and not x.t for x in items[lo:hi + 1]):
            # constant table with few distinct runs: a threshold chain
            runs = []
            for i in range(lo, hi + 1):
                if not runs or items[i] is not runs[-1][1]:
                    runs.append((i, items[i]))
                    if len(runs) > 40:
                        break
            if len(runs) <= 40:
                out = runs[0][1]
                for i, x in runs[1:]:
                    out = ite(GE(idx, const(i)), x, out)
                return out
        if hi - lo > 72:
            if k == len(path) and all(isinstance(x, Flat) and not x.t for x in items) and not idx.isnode:
                tab = tuple(x.c for x in items)
                a = T._atom("sel", (table_id(tab), idx), min(tab), max(tab))
                return T._mkflat(0, ((a.id, 1),))
            raise Giveup("index range too large: %r in %s..%s" % (idx, lo, hi))
        out = None
        for i in range(lo, hi + 1):
            c = EQ(idx, const(i))
            if AND(c, g) is FALSE:
                continue
            x = self.get(items[i], path, k, AND(g, c))
            if x is UNDEF:
                continue
            out = x if out is None else self.merge_val(c, x, out)
        return UNDEF if out is None else out

    def idx_range(self, idx, g):
        lo, hi = INF, -INF

        def go(v, g):
            nonlocal lo, hi
            if not v.isnode:
                a, b = flat_rng_under(v, g)
                lo, hi = min(lo, a), max(hi, b)
                return
            c = mk(v.key, v.T, TRUE, FALSE)
            gh = AND(g, c)
            gl = AND(g, NOT(c))
            if gh is not FALSE:
                go(v.hi, gh)
            if gl is not FALSE:
                go(v.lo, gl)
        if size(idx) > 400:
            return rng(idx)
        go(idx, g)
        return lo, hi

    def put(self, v, path, k, new, g):
        """functional update; g: condition under which the write happens relative to the state"""
        if k == len(path):
            if g is TRUE:
                return new
            return self.merge_val(g, new, v)
        v = self.force(v)
        e = path[k]
        if isinstance(v, Opaque):
            return Opaque(("upd", v.key, self.fresh()))
        if e[0] == "f":
            if v is UNDEF:
                v = Agg(())
            if not isinstance(v, Agg):
                raise Giveup("field write to %r" % (v,))
            f = list(v.f)
            while len(f) <= e[1]:
                f.append(UNDEF)
            f[e[1]] = self.put(f[e[1]], path, k + 1, new, g)
            return Agg(f)
        if e[0] == "d":
            if v is UNDEF:
                v = EnumV(None, UNDEF, {})
            nxt = path[k + 1]
            pay = dict(v.pay)
            f = list(pay.get(e[1], ()))
            while len(f) <= nxt[1]:
                f.append(UNDEF)
            f[nxt[1]] = self.put(f[nxt[1]], path, k + 2, new, g)
            pay[e[1]] = tuple(f)
            return EnumV(v.ty, v.d, pay)
        if e[0] == "i":
            idx = e[1]
            if isinstance(v, Agg):
                f = list(v.f)
                if is_const(idx):
                    if not 0 <= idx.c < len(f):
                        return v
                    f[idx.c] = self.put(f[idx.c], path, k + 1, new, g)
                else:
                    lo, hi = self.idx_range(idx, self.curg)
                    for i in range(max(lo, 0), min(hi, len(f) - 1) + 1):
                        c = AND(EQ(idx, const(i)), g)
                        if AND(c, self.curg) is FALSE:
                            continue
                        f[i] = self.put(f[i], path, k + 1, new, c)
                return Agg(f)
            if isinstance(v, SeqV):
                if not v.prefix and not all(it[0] is TRUE for it in v.items):
                    raise Giveup("write into guarded list")
                its = list(v.items)
                lo, hi = (idx.c, idx.c) if is_const(idx) else self.idx_range(idx, self.curg)
                for i in range(max(lo, 0), min(hi, len(its) - 1) + 1):
                    c = AND(EQ(idx, const(i)), g)
                    if c is FALSE or AND(c, self.curg) is FALSE:
                        continue
                    its[i] = (its[i][0], self.put(its[i][1], path, k + 1, new, c), its[i][2])
                return SeqV(its, v.len_, v.prefix)
        raise Giveup("write path %r into %r" % (e, v))

    def fresh(self):
        self.nobj += 1
        return self.nobj

    def alloc(self, st, val, tag="heap"):
        o = (tag, self.fresh())
        st.mem[o] = val
        return Ptr(o)

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Lazy):
            a = self.force(a)
        if isinstance(b, Lazy):
            b = self.force(b)
        if a is b:
            return a
        if isinstance(a, TERM) and isinstance(b, TERM):
            if isbool(a) != isbool(b):
                a, b = T._as_int(a), T._as_int(b)
            return ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            n = max(len(a.f), len(b.f))
            fa = a.f + (UNDEF,) * (n - len(a.f))
            fb = b.f + (UNDEF,) * (n - len(b.f))
            return Agg([self.merge_val(c, x, y) for x, y in zip(fa, fb)])
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            pay = {}
            for k in set(a.pay) | set(b.pay):
                pa, pb = a.pay.get(k), b.pay.get(k)
                if pa is None:
                    pay[k] = pb
                elif pb is None:
                    pay[k] = pa
                else:
                    n = max(len(pa), len(pb))
                    pa = tuple(pa) + (UNDEF,) * (n - len(pa))
                    pb = tuple(pb) + (UNDEF,) * (n - len(pb))
                    pay[k] = tuple(self.merge_val(c, x, y) for x, y in zip(pa, pb))
            d = a.d if a.d is b.d else b.d if a.d is UNDEF else a.d if b.d is UNDEF else ite(c, a.d, b.d)
            return EnumV(a.ty if a.ty is not None else b.ty, d, pay)
        if isinstance(a, RefV) and isinstance(b, RefV):
            alts = {}
            nc = NOT(c)
            for (g, p) in a.alts:
                k = p.key()
                gg = AND(c, g)
                if gg is not FALSE:
                    alts[k] = (OR(alts[k][0], gg), p) if k in alts else (gg, p)
            for (g, p) in b.alts:
                k = p.key()
                gg = AND(nc, g)
                if gg is not FALSE:
                    alts[k] = (OR(alts[k][0], gg), p) if k in alts else (gg, p)
            # same object and shape, different symbolic index/window: merge the parts
            lst = list(alts.values())
            return RefV(self.fuse(lst))
        if isinstance(a, DqV) or isinstance(b, DqV):
            if isinstance(a, SeqV) and all(i[0] is TRUE for i in a.items):
                a = DqV(a.items, ZERO)
            elif isinstance(a, SeqV) and a.len_ is not None and a.prefix:
                a = DqV(a.items, ZERO, a.len_)
            if isinstance(b, SeqV) and all(i[0] is TRUE for i in b.items):
                b = DqV(b.items, ZERO)
            elif isinstance(b, SeqV) and b.len_ is not None and b.prefix:
                b = DqV(b.items, ZERO, b.len_)
            if isinstance(a, DqV) and isinstance(b, DqV) and a.tot is b.tot and len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items)):
                return DqV(a.items, ite(c, a.head, b.head), a.tot)
            raise Giveup("merge of queues")
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.merge_seq(c, a, b)
        if isinstance(a, IterV) and isinstance(b, IterV):
            if a.mode == b.mode:
                return IterV(self.merge_val(c, a.ptr, b.ptr), self.merge_val(c, a.pos, b.pos),
                             self.merge_val(c, a.end, b.end), a.mode,
                             a.extra if a.extra is b.extra else self.merge_val(c, a.extra, b.extra))
        if isinstance(a, StrV) and isinstance(b, StrV) and a.s == b.s:
            return a
        if isinstance(a, FnV) and isinstance(b, FnV) and a.i == b.i:
            return a
        return Opaque(("phi", c.id, okey(a), okey(b)))

    def fuse(self, lst):
        return lst

    def merge_seq(self, c, a, b):
        if a.items is b.items or a.items == b.items:
            if a.len_ is b.len_:
                return a
            if a.len_ is not None and b.len_ is not None:
                return SeqV(a.items, ite(c, a.len_, b.len_), a.prefix and b.prefix)
        n = 0
        ai, bi = a.items, b.items
        m = min(len(ai), len(bi))
        while n < m and ai[n] is bi[n]:
            n += 1
        out = list(ai[:n])
        pre = a.prefix and b.prefix
        if pre and (a.len_ is not None or b.len_ is not None):
            la, lb = a.length(), b.length()
            for i in range(n, max(len(ai), len(bi))):
                ga = ai[i][0] if i < len(ai) else FALSE
                gb = bi[i][0] if i < len(bi) else FALSE
                va = ai[i][1] if i < len(ai) else UNDEF
                vb = bi[i][1] if i < len(bi) else UNDEF
                out.append((ite(c, ga, gb), self.merge_val(c, va, vb), None))
            return SeqV(out, ite(c, la, lb), True)
        i = n
        while i < m and ai[i][0] is bi[i][0] and (ai[i][0] is TRUE):
            out.append((ai[i][0], self.merge_val(c, ai[i][1], bi[i][1]), ai[i][2]))
            i += 1
        nc = NOT(c)
        ra, rb = ai[i:], bi[i:]
        for it in ra:
            g = AND(c, it[0])
            if g is not FALSE:
                out.append((g, it[1], it[2]))
        for it in rb:
            g = AND(nc, it[0])
            if g is not FALSE:
                out.append((g, it[1], it[2]))
        if not ra and not rb:
            return SeqV(out, None, pre)
        ok = pre and (not ra or not rb)
        return SeqV(out, None, ok)

    def merge(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        g = OR(s1.g, s2.g)
        c = restrict(s1.g, g)
        m1, m2 = s1.mem, s2.mem
        if len(m1) < len(m2):
            m1, m2, c2 = m2, m1, NOT(c)
        else:
            c2 = c
        out = dict(m1)
        self.curg = g
        for k, v in m2.items():
            w = m1.get(k)
            if w is None:
                if k[0] == "bor":
                    out[k] = self.merge_val(c2, ZERO, v)
                elif k[0] in ("sym", "static"):
                    # untouched on the other side: its initial value there
                    w = self.root(State({}, g), k)
                    out[k] = v if w is v else self.merge_val(c2, w, v)
                else:
                    out[k] = v
            elif w is not v:
                out[k] = self.merge_val(c2, w, v)
        for k in m1.keys() - m2.keys():
            if k[0] == "bor":
                out[k] = self.merge_val(c2, m1[k], ZERO)
            elif k[0] in ("sym", "static"):
                w = m1[k]
                v = self.root(State({}, g), k)
                out[k] = w if w is v else self.merge_val(c2, w, v)
        return State(out, g)

    # ------------------------------------------------------------------ places
    def place_alts(self, st, fid, body, place):
        local, proj = place
        alts = [(TRUE, ("L", fid, local), (), None)]
        ty = body["locals"][local]
        for pr in proj:
            k = pr[0]
            t = self.p.tys[ty] if ty is not None else {"k": "?"}
            if k == "*":
                na = []
                for (g, o, path, win) in alts:
                    v = self.get(self.root(st, o), path, 0, st.g)
                    v = self.force(v)
                    if isinstance(v, RefV):
                        for (g2, p) in v.alts:
                            gg = AND(g, g2)
                            if gg is FALSE or (gg is not TRUE and AND(gg, st.g) is FALSE):
                                continue
                            na.append((gg, p.obj, p.path, p.win))
                    elif isinstance(v, (StrV, Opaque)):
                        o2 = ("val", id(v))
                        st.mem[o2] = v
                        self.keep.append(v)
                        na.append((g, o2, (), None))
                    elif isinstance(v, IterV):
                        raise Giveup("deref of iterator")
                    elif v is UNDEF:
                        continue
                    else:
                        raise Giveup("deref of %r" % (v,))
                alts = na
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "adt" and t.get("args"):
                    ty = t["args"][0]
                else:
                    ty = None
            elif k == "f":
                nm = t.get("n") if t["k"] == "adt" else None
                if nm in TRANSPARENT:
                    pass
                elif nm == "alloc::boxed::Box" and pr[1] == 0:
                    pass
                else:
                    alts = [(g, o, path + (("f", pr[1]),), win) for (g, o, path, win) in alts]
                ty = pr[2]
            elif k == "d":
                alts = [(g, o, path + (("d", pr[1]),), win) for (g, o, path, win) in alts]
            elif k == "i":
                idx = self.read_obj(st, ("L", fid, pr[1]))
                na = []
                for (g, o, path, win) in alts:
                    ii = idx if win is None else add(idx, win[0])
                    na.append((g, o, path + (("i", ii),), None))
                alts = na
                ty = t.get("e")
            elif k == "c":
                na = []
                for (g, o, path, win) in alts:
                    if pr[2]:
                        ln = win[1] if win is not None else self.len_of(st, o, path)
                        ii = sub(ln, const(pr[1]))
                    else:
                        ii = const(pr[1])
                    if win is not None:
                        ii = add(ii, win[0])
                    na.append((g, o, path + (("i", ii),), None))
                alts = na
                ty = t.get("e")
            else:
                raise Giveup("projection " + k)
        return alts, ty

    keep = []

    def len_of(self, st, o, path):
        v = self.force(self.get(self.root(st, o), path, 0, st.g))
        if isinstance(v, Agg):
            return const(len(v.f))
        if isinstance(v, (SeqV, DqV)):
            return v.length()
        if isinstance(v, StrV):
            return const(len(v.s.encode()))
        if isinstance(v, Opaque):
            return self.uf("len", v)
        raise Giveup("len of %r" % (v,))

    def uf(self, name, *vals, lo=0, hi=1 << 32):
        key = "?%s(%s)" % (name, ",".join(str(okey(v)) for v in vals))
        return leaf(key, lo, hi)

    def read_obj(self, st, o):
        return self.force(self.root(st, o))

    def read_alts(self, st, alts):
        out = None
        for (g, o, path, win) in alts:
            v = self.get(self.root(st, o), path, 0, AND(st.g, g))
            if v is UNDEF:
                continue
            out = v if out is None else self.merge_val(g, v, out)
        if out is None:
            return UNDEF
        return out

    def read_place(self, st, fid, body, place):
        if not place[1]:
            return self.root(st, ("L", fid, place[0]))
        alts, ty = self.place_alts(st, fid, body, place)
        return self.read_alts(st, alts)

    def write_place(self, st, fid, body, place, val):
        if not place[1]:
            st.mem[("L", fid, place[0])] = val
            return
        alts, ty = self.place_alts(st, fid, body, place)
        self.write_alts(st, alts, val)

    def write_alts(self, st, alts, val):
        self.curg = st.g
        for (g, o, path, win) in alts:
            g2 = restrict(g, st.g) if len(alts) > 1 else TRUE
            st.mem[o] = self.put(self.root(st, o), path, 0, val, g2)

    curg = TRUE

    # pointers helpers for models
    def deref_read(self, st, ref, extra=()):
        ref = self.force(ref)
        if isinstance(ref, (Opaque, StrV)):
            return ref
        if not isinstance(ref, RefV):
            raise Giveup("read through %r" % (ref,))
        return self.force(self.read_alts(st, [(g, p.obj, p.path + tuple(extra), p.win) for g, p in ref.alts]))

    def deref_write(self, st, ref, val, extra=()):
        ref = self.force(ref)
        if not isinstance(ref, RefV):
            raise Giveup("write through %r" % (ref,))
        self.write_alts(st, [(g, p.obj, p.path + tuple(extra), p.win) for g, p in ref.alts], val)

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fid, body, op):
        k = op[0]
        if k == "c" or k == "m":
            return self.read_place(st, fid, body, op[1])
        if k == "k":
            ty, v = op[1], op[2]
            if isinstance(v, int) and not isinstance(v, bool):
                t = self.p.tys[ty]
                if t["k"] == "bool":
                    return TRUE if v else FALSE
                return const(v)
            ck = (ty, repr(v)) if not isinstance(v, dict) or "ref" not in v else None
            if ck is not None and ck in self._constcache:
                return self._constcache[ck]
            r = self.cval(ty, v)
            if ck is not None:
                self._constcache[ck] = r
            return r
        if k == "K":
            ck = ("K", op[1])
            if ck not in self._constcache:
                ty, v = self.p.consts[op[1]]
                self._constcache[ck] = self.cval(ty, v)
            return self._constcache[ck]
        if k == "rt":
            return FALSE if len(op) > 1 and op[1] in ("ub_checks", "UbChecks") else FALSE
        raise Giveup("operand " + str(op))

    def optype(self, body, op):
        k = op[0]
        if k in ("c", "m"):
            return self.place_ty(body, op[1])
        if k == "k":
            return op[1]
        if k == "K":
            return self.p.consts[op[1]][0]
        return None

    def place_ty(self, body, place):
        ty = body["locals"][place[0]]
        for pr in place[1]:
            t = self.p.tys[ty] if ty is not None else {"k": "?"}
            if pr[0] == "*":
                ty = t["e"] if t["k"] in ("ref", "ptr") else (t.get("args") or [None])[0]
            elif pr[0] == "f":
                ty = pr[2]
            elif pr[0] in ("i", "c"):
                ty = t.get("e")
            elif pr[0] == "s":
                ty = ty
        return ty

    def need_term(self, v, what="value"):
        v = self.force(v)
        if isinstance(v, TERM):
            return v
        if isinstance(v, Opaque):
            return leaf("?opaque:" + str(v.key), -(1 << 63), (1 << 64) - 1)
        if v is UNDEF:
            raise Undefined(what)
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.need_term(v.f[0], what)
        raise Giveup("%s: not a number: %r" % (what, v))

    def ity(self, ty):
        t = self.p.tys[ty]
        if t["k"] == "int":
            return t["s"], t["b"]
        if t["k"] == "bool":
            return False, 1
        if t["k"] == "char":
            return False, 32
        return None

    def wrap_g(self, v, signed, bits, g):
        """wrap to the type's range, using the guard to see that most values fit"""
        if isbool(v):
            return b2i(v)
        lo, hi = int_range(signed, bits)
        a, b = rng(v)
        if a >= lo and b <= hi:
            return v

        def w(t, g):
            if t.mn >= lo and t.mx <= hi:
                return t
            x, y = flat_rng_under(t, g)
            if x >= lo and y <= hi:
                return t
            if IMPLIES(g, AND(ge0(f_sub(t, const(lo))), ge0(f_sub(const(hi), t)))):
                return t
            if signed:
                h = 1 << (bits - 1)
                return f_sub(f_mod(f_add(t, const(h)), bits), const(h))
            return f_mod(t, bits)
        return self.map_g(v, g, w)

    def map_g(self, v, g, f):
        memo = {}

        def go(v, g):
            if not v.isnode:
                k = (v.id, g.id)
                if k not in memo:
                    memo[k] = f(v, g)
                return memo[k]
            c = mk(v.key, v.T, TRUE, FALSE)
            gh, gl = AND(g, c), AND(g, NOT(c))
            if gh is FALSE:
                return go(v.lo, gl)
            if gl is FALSE:
                return go(v.hi, gh)
            return T._join(v.key, v.T, go(v.hi, gh), go(v.lo, gl))
        return go(v, g)

    def shift(self, op, a, s, sty, aty, g):
        signed, bits = self.ity(aty)
        # shift amount is taken modulo the width for unchecked; asserts have already excluded more

        def sh(k):
            if k < 0:
                k = k % bits
            if k >= bits:
                k = k % bits
            if op == "Shr":
                return shr_const(a, k)
            return self.wrap_g(mul(a, const(1 << k)), signed, bits, g)
        if is_const(s):
            return sh(s.c)
        return expand_small(s, g, sh, "shift amount", cap=70)

    def binop(self, st, op, a, b, aty, bty):
        t = self.p.tys[aty]
        if t["k"] in ("ptr", "ref", "fnptr"):
            if op in ("Eq", "Ne"):
                if isinstance(a, RefV) and isinstance(b, RefV) and len(a.alts) == 1 and len(b.alts) == 1:
                    r = TRUE if a.alts[0][1].key() == b.alts[0][1].key() else FALSE
                    return r if op == "Eq" else NOT(r)
            raise Giveup("pointer arithmetic " + op)
        if t["k"] == "float":
            raise Giveup("float")
        if isinstance(a, RefV) and isinstance(b, TERM):
            # pointer alignment / null checks inserted by the compiler
            if op == "BitAnd":
                return ZERO
            if op in ("Eq", "Ne"):
                return FALSE if op == "Eq" else TRUE
        a, b = self.need_term(a, op), self.need_term(b, op)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if isbool(a) != isbool(b):
                a, b = T._as_int(a), T._as_int(b)
            if isbool(a):
                if op == "Eq":
                    return NOT(XOR(a, b))
                if op == "Ne":
                    return XOR(a, b)
                a, b = b2i(a), b2i(b)
            if op == "Cmp":
                d = sub(b2i(GT(a, b)), b2i(LT(a, b)))
                return ("cmp", d)
            return {"Eq": EQ, "Ne": NE, "Lt": LT, "Le": LE, "Gt": GT, "Ge": GE}[op](a, b)
        if isbool(a) and isbool(b):
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op == "BitXor":
                return XOR(a, b)
        a, b = T._as_int(a), T._as_int(b)
        signed, bits = self.ity(aty)
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            if op.endswith("Unchecked"):
                return r
            return self.wrap_g(r, signed, bits, st.g)
        if op in ("Div", "Rem"):
            # exact interval knowledge from the guard
            if not signed:
                return (div if op == "Div" else rem)(a, b)
            if is_const(b) and b.c > 0:
                k = b.c

                def tdiv(t, g):
                    mn, mx = flat_rng_under(t, g)
                    if mn >= 0:
                        T._bound(t, t.mn, t.mx)
                        if t.mn >= 0:
                            return f_div(t, b)
                    return f_div(t, b)
                q = self.map_g(a, st.g, tdiv)
                return q if op == "Div" else sub(a, mul(q, b))
            return (div if op == "Div" else rem)(a, b)
        if op == "BitAnd":
            return band(a, b)
        if op == "BitOr":
            return bor(a, b)
        if op == "BitXor":
            r = bxor(a, b)
            return r
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return self.shift("Shl" if op.startswith("Shl") else "Shr", a, b, bty, aty, st.g)
        raise Giveup("binop " + op)

    def overflow(self, op, a, b, aty, bty):
        signed, bits = self.ity(aty)
        a, b = T._as_int(a), T._as_int(b)
        if op in ("Add", "Sub", "Mul"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            lo, hi = int_range(signed, bits)
            ok = AND(GE(r, const(lo)), GE(const(hi), r))
            return r, NOT(ok)
        if op in ("Shl", "Shr"):
            ok = AND(GE(b, ZERO), LT(b, const(bits)))
            return self.shift(op, a, b, bty, aty, AND(ok, self.curst.g)), NOT(ok)
        raise Giveup("checked " + op)

    curst = None

    def rvalue(self, st, fid, body, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fid, body, rv[1])
        if k == "ref" or k == "addr":
            alts, ty = self.place_alts(st, fid, body, rv[1])
            if not alts:
                return UNDEF
            return RefV([(g, Ptr(o, path, win)) for (g, o, path, win) in alts])
        if k == "bin":
            a = self.operand(st, fid, body, rv[2])
            b = self.operand(st, fid, body, rv[3])
            r = self.binop(st, rv[1], self.force(a), self.force(b), self.optype(body, rv[2]), self.optype(body, rv[3]))
            if isinstance(r, tuple):
                # Ordering: variants Less=-1, Equal=0, Greater=1 -> index 0,1,2
                return EnumV(dty, add(r[1], ONE), {0: (), 1: (), 2: ()})
            return r
        if k == "cbin":
            a = self.need_term(self.operand(st, fid, body, rv[2]), "cbin")
            b = self.need_term(self.operand(st, fid, body, rv[3]), "cbin")
            self.curst = st
            r, o = self.overflow(rv[1], a, b, self.optype(body, rv[2]), self.optype(body, rv[3]))
            return Agg((r, o))
        if k == "un":
            v = self.operand(st, fid, body, rv[2])
            if rv[1] == "Not":
                v = self.need_term(v, "not")
                ty = self.optype(body, rv[2])
                if isbool(v):
                    return NOT(v)
                s, b = self.ity(ty)
                return sub(const(-1), v) if s else sub(const((1 << b) - 1), v)
            if rv[1] == "Neg":
                ty = self.optype(body, rv[2])
                s, b = self.ity(ty)
                return self.wrap_g(sub(ZERO, self.need_term(v, "neg")), s, b, st.g)
            if rv[1] == "PtrMetadata":
                return self.ptr_len(st, v)
            raise Giveup("unop " + rv[1])
        if k == "cast":
            return self.cast(st, fid, body, rv, dty)
        if k == "agg":
            return self.aggregate(st, fid, body, rv, dty)
        if k == "discr":
            v = self.force(self.read_place(st, fid, body, rv[1]))
            return self.discr(v, st)
        if k == "len":
            alts, ty = self.place_alts(st, fid, body, rv[1])
            out = None
            for (g, o, path, win) in alts:
                n = win[1] if win is not None else self.len_of(st, o, path)
                out = n if out is None else self.merge_val(g, n, out)
            return out
        if k == "repeat":
            v = self.operand(st, fid, body, rv[1])
            n = rv[2] if isinstance(rv[2], int) else self.p.tys[dty]["n"]
            return Agg([v] * n)
        raise Giveup("rvalue " + k)

    def ptr_len(self, st, v):
        v = self.force(v)
        if isinstance(v, RefV):
            out = None
            for g, p in v.alts:
                n = p.win[1] if p.win is not None else self.len_of(st, p.obj, p.path)
                out = n if out is None else self.merge_val(g, n, out)
            return out
        if isinstance(v, StrV):
            return const(len(v.s.encode()))
        if isinstance(v, Opaque):
            return self.uf("len", v)
        raise Giveup("metadata of %r" % (v,))

    def discr(self, v, st):
        if isinstance(v, EnumV):
            if v.d is UNDEF:
                raise Undefined("discriminant of %r at %s" % (v, self.where()))
            if v.ty is None:
                return v.d
            return self.idx2d(v.ty, v.d, st.g)
        if isinstance(v, Opaque):
            return leaf("?discr:" + str(v.key), 0, 1)
        if v is UNDEF:
            raise Undefined("discriminant of %r at %s" % (v, self.where()))
        raise Giveup("discriminant of %r" % (v,))

    def idx2d(self, ty, d, g=TRUE):
        vs = [x["d"] for x in self.p.tys[ty]["v"]]
        if all(x == i for i, x in enumerate(vs)):
            return d
        if all(x == i + vs[0] for i, x in enumerate(vs)):
            return add(d, const(vs[0]))
        return expand_small(d, g, lambda i: const(vs[i]) if 0 <= i < len(vs) else ZERO, "discriminant")

    def cast(self, st, fid, body, rv, dty):
        kind, op, ty = rv[1], rv[2], rv[3]
        v = self.operand(st, fid, body, op)
        sty = self.optype(body, op)
        if kind == "IntToInt":
            v = self.force(v)
            if isinstance(v, EnumV):
                v = self.idx2d(v.ty, v.d, st.g)
            v = self.need_term(v, "cast")
            if self.p.tys[ty]["k"] == "bool":
                return i2b(v)
            s, b = self.ity(ty)
            return self.wrap_g(v, s, b, st.g)
        if "ClosureFnPointer" in kind:
            t = self.p.tys[sty]
            return FnV(t["i"])
        if "ReifyFnPointer" in kind:
            return v
        if "Unsize" in kind:
            v = self.force(v)
            if isinstance(v, RefV):
                st_t = self.p.tys[sty]
                e = st_t.get("e")
                if e is None and st_t["k"] == "adt":
                    e = (st_t.get("args") or [None])[0]
                if e is not None and self.p.tys[e]["k"] == "array":
                    n = self.p.tys[e]["n"]
                    return RefV([(g, Ptr(p.obj, p.path, (ZERO, const(n)))) for g, p in v.alts])
            return v
        if "PtrToPtr" in kind or "Transmute" in kind or "Pointer" in kind:
            return v
        raise Giveup("cast " + kind)

    def aggregate(self, st, fid, body, rv, dty):
        kind = rv[1]
        ops = [self.operand(st, fid, body, o) for o in rv[2]]
        k = kind[0] if isinstance(kind, list) else kind
        if k == "adt":
            ty, var = kind[1], kind[2]
            t = self.p.tys[ty]
            if t["ak"] == "enum":
                return EnumV(ty, const(var), {var: tuple(ops)})
            if t["n"] in TRANSPARENT:
                return ops[0]
            if t["ak"] == "union":
                return Opaque(("union", self.fresh()))
            return Agg(ops)
        if k == "rawptr":
            v = self.force(ops[0])
            if isinstance(v, RefV) and len(ops) == 2 and isinstance(self.force(ops[1]), TERM):
                n = self.force(ops[1])
                return RefV([(g, Ptr(p.obj, p.path, (p.win[0] if p.win else ZERO, n))) for g, p in v.alts])
            return v
        return Agg(ops)

    # ------------------------------------------------------------------ execution
    def site(self):
        out = []
        for (i, bb) in self.stack[-4:]:
            x = self.p.inst[i]
            l = x["body"]["blocks"][bb]["l"]
            out.append("%s:%s" % (short(x["n"]).split("::")[-1], l[1] if l else "?"))
        return out

    def where(self):
        # innermost local function on the stack
        for (i, bb) in reversed(self.stack):
            x = self.p.inst[i]
            if x["local"]:
                l = x["body"]["blocks"][bb]["l"]
                return "%s (%s:%s)" % (short(x["n"]), self.p.files[l[0]], l[1])
        return "?"

    def panic(self, st, kind):
        self.panics.append((st.g, kind, self.where()))

    def call_fn(self, st, i, args):
        """analyse instance i in state st; returns (ret, state) or (None, None) when it never returns"""
        x = self.p.inst[i]
        if i in self.over:
            return self.over[i](self, st, args)
        body = x.get("body")
        if body is None:
            raise Giveup("no body: " + x["n"])
        if len(self.stack) > 120:
            raise Giveup("call depth")
        if sum(1 for (j, _) in self.stack if j == i) > self.maxrec:
            raise Giveup("recursion in " + x["n"])
        self.visited.add(i)
        self.nframe += 1
        fid = self.nframe
        cfg = self.p.cfg(i)
        if cfg.irreducible:
            raise Giveup("irreducible control flow in " + x["n"])
        argc = body["argc"]
        if body.get("spread") is not None and body.get("spread") is not False and len(args) == 2 and argc != 2:
            pass
        if len(args) != argc:
            # rust-call: last argument is a tuple
            last = self.force(args[-1]) if args else UNIT
            if isinstance(last, Agg) and len(args) - 1 + len(last.f) == argc:
                args = list(args[:-1]) + list(last.f)
            elif len(args) + 1 == argc and "{closure#" in x["n"].rsplit("::", 1)[-1]:
                # a closure without captures called through a function pointer: the environment is empty
                args = [Agg(())] + list(args)
            elif body.get("spread") and len(args) > argc:
                args = list(args[:argc - 1]) + [Agg(args[argc - 1:])]
            else:
                raise Giveup("argument count of " + x["n"])
        for n, a in enumerate(args):
            st.mem[("L", fid, n + 1)] = a
        self.stack.append((i, 0))
        try:
            exits = self.run_region(cfg, i, fid, body, None, st)
        finally:
            self.stack.pop()
        out = exits.get("ret")
        if out is None:
            return None, None
        ret = out.mem.get(("L", fid, 0), UNIT)
        for n in range(len(body["locals"])):
            out.mem.pop(("L", fid, n), None)
        return ret, out

    def run_region(self, cfg, i, fid, body, h, st):
        entry, order, rep, blocks = cfg.region(h)
        pend = {entry: st}
        exits = {}

        def out_edge(tgt, s):
            if s is None or s.g is FALSE:
                return
            if tgt == "ret" or tgt not in blocks or (h is not None and tgt == entry):
                exits[tgt] = self.merge(exits.get(tgt), s)
            else:
                pend[tgt] = self.merge(pend.get(tgt), s)
        for node in order:
            if node in cfg.loops and node != h:
                s = pend.pop(node, None)
                if s is None:
                    continue
                for tgt, s2 in self.run_loop(cfg, i, fid, body, node, s).items():
                    out_edge(tgt, s2)
                continue
            s = pend.pop(node, None)
            if s is None:
                continue
            for tgt, s2 in self.run_block(cfg, i, fid, body, node, s):
                out_edge(tgt, s2)
        return exits

    def run_loop(self, cfg, i, fid, body, h, st):
        exits = {}
        n = 0
        undecided = 0
        cur = st
        while cur is not None:
            n += 1
            if n > self.max_iter:
                self.stack[-1] = (i, h)
                if undecided == 0:
                    self.diverges.append((cur.g, self.where()))
                else:
                    self.cuts.append((cur.g, self.where()))
                break
            ex = self.run_region(cfg, i, fid, body, h, cur)
            nxt = ex.pop(h, None)
            before = any(True for _ in ex)
            for t, s in ex.items():
                exits[t] = self.merge(exits.get(t), s)
            if nxt is not None and before:
                undecided += 1
                if undecided > self.sym_unroll:
                    self.stack[-1] = (i, h)
                    self.cuts.append((nxt.g, self.where()))
                    break
            cur = nxt
        return exits

    def run_block(self, cfg, i, fid, body, b, st):
        self.nblocks += 1
        if self.nblocks > self.fuel:
            raise Giveup("analysis budget exhausted")
        self.stack[-1] = (i, b)
        blk = body["blocks"][b]
        try:
            for s in blk["s"]:
                k = s[0]
                if k == "=":
                    dty = self.place_ty(body, s[1])
                    try:
                        v = self.rvalue(st, fid, body, s[2], dty)
                    except Undefined:
                        v = UNDEF
                    self.write_place(st, fid, body, s[1], v)
                elif k == "dead":
                    st.mem.pop(("L", fid, s[1]), None)
                elif k == "sd":
                    old = self.force(self.read_place(st, fid, body, s[1]))
                    if isinstance(old, EnumV):
                        nv = EnumV(old.ty if old.ty is not None else self.place_ty(body, s[1]), const(s[2]), old.pay)
                    else:
                        nv = EnumV(self.place_ty(body, s[1]), const(s[2]), {s[2]: ()})
                    self.write_place(st, fid, body, s[1], nv)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                return [(t[1], st)]
            if k == "ret":
                return [("ret", st)]
            if k == "drop":
                self.drop(st, fid, body, t[1])
                return [(t[2], st)]
            if k in ("unreachable", "resume", "abort", "terminate"):
                return []
            if k == "switch":
                return self.do_switch(st, fid, body, t)
            if k == "assert":
                c = self.need_term(self.operand(st, fid, body, t[1]), "assert")
                if not t[2]:
                    c = NOT(c)
                bad = AND(st.g, NOT(c))
                if bad is not FALSE and infeasible(bad, 300):
                    return [(t[4], st)]
                if bad is not FALSE:
                    self.panics.append((bad, t[3][0] if isinstance(t[3], list) else t[3], self.where()))
                g = AND(st.g, c)
                if g is FALSE:
                    return []
                st.g = g
                return [(t[4], st)]
            if k == "call":
                return self.do_call(st, i, fid, body, t, b)
        except Undefined as e:
            # an undefined value can only be met on a path that is not taken
            if not infeasible(st.g, 300):
                raise Giveup("undefined value: %s" % e)
            return []
        raise Giveup("terminator " + k)

    def drop(self, st, fid, body, place):
        """a value goes out of scope: the cell borrows it holds end"""
        ty = self.place_ty(body, place)
        if not self.holds_borrow(ty):
            return
        try:
            self.release(st, TRUE, self.read_place(st, fid, body, place), ty)
        except Undefined:
            pass

    def holds_borrow(self, ty, seen=None):
        r = self._holds.get(ty)
        if r is None:
            seen = seen or set()
            if ty in seen:
                return False
            seen.add(ty)
            t = self.p.tys[ty]
            k = t["k"]
            if k == "adt" and t["n"] in ("core::cell::RefMut", "core::cell::Ref"):
                r = True
            elif k == "adt":
                r = any(self.holds_borrow(f[1], seen) for v in t["v"] for f in v["f"]) or any(self.holds_borrow(a, seen) for a in t.get("args") or () if isinstance(a, int))
            elif k in ("tuple", "closure"):
                r = any(self.holds_borrow(f, seen) for f in t.get("f") or ())
            elif k == "array":
                r = self.holds_borrow(t["e"], seen)
            else:
                r = False
            self._holds[ty] = r
        return r

    def release(self, st, g, v, ty):
        if not self.holds_borrow(ty):
            return
        t = self.p.tys[ty]
        v = self.force(v)
        if v is UNDEF:
            return
        if t["k"] == "adt" and t["n"] in ("core::cell::RefMut", "core::cell::Ref"):
            for h, q in (v.alts if isinstance(v, RefV) else ()):
                k = ("bor", q.obj, pathkey(q.path[:-1]))
                o = st.mem.get(k)
                if o is not None:
                    h = AND(g, h)
                    n = sub(o, ONE) if t["n"].endswith("::Ref") else ZERO
                    st.mem[k] = n if h is TRUE else ite(h, n, o)
            return
        if isinstance(v, Agg) and t["k"] in ("tuple", "closure"):
            fs = list(t.get("f") or ())
        elif isinstance(v, Agg) and t["k"] == "adt" and t["ak"] == "struct":
            fs = [f[1] for f in t["v"][0]["f"]]
        elif isinstance(v, Agg) and t["k"] == "array":
            fs = [t["e"]] * len(v.f)
        elif isinstance(v, EnumV):
            for n, x in enumerate(t["v"]):
                h = AND(g, EQ(v.d, const(n)))
                if h is not FALSE and n in v.pay:
                    for y, f in zip(v.pay[n], x["f"]):
                        self.release(st, h, y, f[1])
            return
        else:
            raise Giveup("drop of a value that holds a cell borrow")
        for x, f in zip(v.f, fs):
            self.release(st, g, x, f)

    def do_switch(self, st, fid, body, t):
        v = self.need_term(self.operand(st, fid, body, t[1]), "switch")
        out = []
        rest = TRUE
        ty = self.optype(body, t[1])
        ty = self.p.tys[ty] if ty is not None else None
        for val, tgt in t[2]:
            if ty is not None and ty["k"] == "int" and ty["s"] and val >= 1 << (ty["b"] - 1):
                val -= 1 << ty["b"]
            if isbool(v):
                c = v if val else NOT(v)
            else:
                c = EQ(v, const(val))
            g = AND(st.g, c)
            if g is not FALSE:
                out.append((tgt, g))
            rest = AND(rest, NOT(c))
        g = AND(st.g, rest)
        if g is not FALSE and t[3] is not None:
            out.append((t[3], g))
        if len(out) == 1:
            st.g = out[0][1]
            return [(out[0][0], st)]
        return [(tgt, st.fork(g)) for tgt, g in out]

    def do_call(self, st, i, fid, body, t, b):
        func, aops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fid, body, a) for a in aops]
        fv = self.force(self.operand(st, fid, body, func))
        if isinstance(fv, RefV):
            fv = self.deref_read(st, fv)
        if not isinstance(fv, FnV):
            if isinstance(fv, Opaque):
                raise Giveup("call through unknown function pointer")
            raise Giveup("callee %r" % (fv,))
        self.dest_ty = self.place_ty(body, dest)
        self.arg_tys = [self.place_ty(body, a[1]) if a[0] in ("c", "m") else None for a in aops]
        cb = self.p.inst[fv.i].get("body")
        if len(args) == 2 and cb is not None and cb["argc"] == 2 and "{closure#" in self.p.inst[fv.i]["n"].rsplit("::", 1)[-1]:
            # rust-call with one argument: a tuple of one
            ty = self.optype(body, aops[1])
            t2 = self.p.tys[ty] if ty is not None else None
            if t2 is not None and t2["k"] == "tuple" and len(t2.get("f") or ()) == 1 and cb["locals"][2] != ty:
                args = [args[0], self.force(args[1]).f[0]]
        res = self.dispatch(st, fv.i, args, self.dest_ty)
        out = []
        for (ret, s) in res:
            if s is None or target is None:
                continue
            self.stack[-1] = (i, b)
            self.write_place(s, fid, body, dest, ret)
            out.append((target, s))
        if len(out) > 1:
            m = None
            for _, s in out:
                m = self.merge(m, s)
            out = [(target, m)]
        return out

    def dispatch(self, st, fi, args, dty):
        from . import models
        x = self.p.inst[fi]
        h = self.hooks.get(x["n"]) or self.hooks.get(x["d"].rsplit("::", 1)[-1] if x["local"] else "ext:" + x["d"].rsplit("::", 1)[-1])
        if h is not None:
            r = h(self, st, fi, args, dty)
            if r is not NotImplemented:
                return r
        r = models.call(self, st, fi, x, args, dty)
        if r is not NotImplemented:
            return r
        if x.get("body") is not None and x["k"] != "virtual":
            return [self.call_fn(st, fi, args)]
        # unknown external function: an uninterpreted function of its arguments
        return models.uninterpreted(self, st, fi, x, args, dty)


class Undefined(Exception):
    pass


def okey(v):
    if isinstance(v, TERM):
        return ("t", v.id) if v.isnode or not isinstance(v, Flat) else repr(v)
    if isinstance(v, Opaque):
        return v.key
    if isinstance(v, StrV):
        return "'%s'" % v.s
    if isinstance(v, Lazy):
        return v.path
    if isinstance(v, Agg):
        return "{%s}" % ",".join(str(okey(x)) for x in v.f)
    if isinstance(v, EnumV):
        return "enum(%s;%s)" % (okey(v.d) if v.d is not UNDEF else "?", ";".join("%s:%s" % (k, ",".join(str(okey(x)) for x in p)) for k, p in sorted(v.pay.items())))
    if isinstance(v, RefV):
        return "&" + "|".join(str(p.key()) for _, p in v.alts)
    if isinstance(v, SeqV):
        return "[%s]" % ",".join("%s:%s" % (it[0].id, okey(it[1])) for it in v.items)
    if isinstance(v, FnV):
        return "fn%d" % v.i
    return repr(type(v))
