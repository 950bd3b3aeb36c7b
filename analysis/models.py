"""Abstract transfer functions for the library types the program uses."""
import re
from .terms import *
from . import terms as T
from .interp import *
from .interp import Undefined

NONE, SOME = 0, 1


def mkkey(d):
    """(container, method) of a library function's definition path"""
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", d)
    if m:
        return head(m.group(1)), m.group(3), head(m.group(2))
    m = re.match(r"^(.*)::(\w+)$", d)
    if m:
        return head(m.group(1)), m.group(2), None
    return "", d, None


def head(s):
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s).strip()
        return "&" + head(s)
    m = re.match(r"^(.*)<impl (.*)>$", s)
    if m:
        x = m.group(2)
        if x.startswith("[T"):
            return "slice"
        if " for " in x:
            return head(x.rsplit(" for ", 1)[1])
        return head(x)
    s = re.sub(r"::<.*$", "", s)
    s = re.sub(r"<.*$", "", s)
    return s.split("::")[-1] if s not in ("[T]",) else "slice"


_kc = {}


def some(I, ty, v):
    return EnumV(ty, ONE, {1: (v,), 0: ()})


def none(ty):
    return EnumV(ty, ZERO, {0: ()})


def opt(I, ty, c, v):
    """Some(v) if c else None"""
    if c is TRUE:
        return some(I, ty, v)
    if c is FALSE:
        return none(ty)
    return EnumV(ty, b2i(c), {0: (), 1: (v,)})


def seq_of(I, st, ref):
    v = I.deref_read(st, ref)
    return v


def elem_ref(ref, idx):
    """reference(s) to element idx of the sequence behind ref"""
    out = []
    for g, p in ref.alts:
        ii = idx if p.win is None else add(idx, p.win[0])
        out.append((g, Ptr(p.obj, p.path + (("i", ii),), None)))
    return RefV(out)


def index_check(I, st, ref, idx, kind="index out of bounds"):
    n = I.ptr_len(st, ref)
    bad = AND(st.g, NOT(LT(idx, n)))
    if bad is not FALSE:
        I.panics.append((bad, kind, I.where()))
        st.g = AND(st.g, NOT(bad))
    return st.g is not FALSE


def rv(I, ref):
    r = I.force(ref)
    if not isinstance(r, RefV):
        raise Giveup("not a reference: %r" % (r,))
    return r


def fix_seq(v):
    """a SeqV with trailing/leading FALSE items dropped"""
    return v


def push(I, st, ref, val, site=None):
    r = rv(I, ref)
    if len(r.alts) == 1 and not r.alts[0][1].path:
        p = r.alts[0][1]
        old = I.force(I.root(st, p.obj))
        st.mem[p.obj] = pushed(I, old, val, site, st)
        return
    old = I.deref_read(st, r)
    I.deref_write(st, r, pushed(I, old, val, site, st))


def pushed(I, old, val, site, st):
    if isinstance(old, DqV):
        return DqV(old.items + ((TRUE, val, site),), old.head)
    if isinstance(old, Opaque):
        return Opaque(("push", old.key, okey(val)))
    if not isinstance(old, SeqV):
        raise Giveup("push onto %r" % (old,))
    if old.len_ is None:
        return SeqV(old.items + ((TRUE, val, site),), None, old.prefix and all(i[0] is TRUE for i in old.items))
    # symbolic length: the new item is element len
    n = old.len_
    items = list(old.items)
    lo, hi = I.idx_range(n, st.g)
    while len(items) <= hi:
        items.append((FALSE, UNDEF, None))
    for i in range(lo, hi + 1):
        c = EQ(n, const(i))
        items[i] = (OR(items[i][0], c), I.merge_val(c, val, items[i][1]), site)
    return SeqV(items, add(n, ONE), True)


def call(I, st, fi, x, args, dty):
    d = x["d"]
    k = _kc.get(d)
    if k is None:
        k = mkkey(d)
        _kc[d] = k
    if x["local"]:
        return NotImplemented
    c, m, tr = k
    if x["k"] == "intrinsic" or x.get("intr"):
        r = intrinsic(I, st, x, args, dty, m)
        if r is not NotImplemented:
            return r
    f = TABLE.get((c, m)) or TABLE.get((None, m) if m in ANY else None)
    if f is not None:
        r = f(I, st, x, args, dty)
        if r is not NotImplemented:
            return r
    if d in FULL:
        return FULL[d](I, st, x, args, dty)
    if d.startswith("core::fmt") or d.startswith("alloc::fmt") or d.startswith("<core::fmt"):
        return [(Opaque(("fmt", m) + tuple(str(okey(a))[:60] for a in args), dty), st)]
    if d.startswith("core::panicking") or d.startswith("std::panicking") or m in ("unwrap_failed", "expect_failed", "panic_already_borrowed", "panic_bounds_check"):
        I.panic(st, "panic: " + m)
        return []
    if m == "precondition_check":
        return [(UNIT, st)]
    return NotImplemented


OPAQUE_MUT = ()


def uninterpreted(I, st, fi, x, args, dty):
    """external function: unknown result that depends only on its arguments; &mut arguments become unknown"""
    I.uf_calls[x["n"]] = I.uf_calls.get(x["n"], 0) + 1
    n = x["n"]
    key = (short_name(n),) + tuple(str(okey(a)) for a in args)
    t = I.p.tys[dty]
    if t["k"] == "never":
        I.exits.append((st.g, n, I.where()))
        return []
    for v, ty in zip(args, I.arg_tys):
        u = I.p.tys[ty] if ty is not None else {"k": "?"}
        if u["k"] == "closure":
            raise Giveup("closure passed to unmodelled " + n)
        if u["k"] == "ref" and u["m"]:
            e = I.p.tys[u["e"]]
            if e["k"] == "dyn" or e["k"] == "adt" and (e["n"].startswith("core::fmt") or e["n"] in OPAQUE_MUT):
                continue
            I.nclob = getattr(I, "nclob", 0) + 1
            I.deref_write(st, I.force(v), I.lazy(u["e"], "?after %s#%d" % (short_name(n), I.nclob)))
    path = "?%s(%s)" % (short_name(n), ",".join(str(k)[:80] for k in key[1:]))
    return [(I.lazy(dty, path), st)]


def short_name(n):
    return re.sub(r"<[^<>]*>", "", n).split("::")[-1]


# ------------------------------------------------------------------ models
TABLE = {}
FULL = {}
ANY = set()


def model(*names):
    def w(f):
        for n in names:
            if isinstance(n, tuple):
                TABLE[n] = f
            else:
                TABLE[(None, n)] = f
                ANY.add(n)
        return f
    return w


@model(("Vec", "new"), ("VecDeque", "new"), ("Vec", "with_capacity"), ("VecDeque", "with_capacity"), ("Vec", "default"))
def vec_new(I, st, x, a, dty):
    return [(SeqV((), None, True), st)]


@model(("Vec", "push"), ("VecDeque", "push_back"))
def vec_push(I, st, x, a, dty):
    push(I, st, a[0], a[1], tuple(I.site()))
    return [(UNIT, st)]


@model(("Vec", "len"), ("VecDeque", "len"), ("slice", "len"))
def vec_len(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    if isinstance(v, DqV):
        return [(v.length(), st)]
    return [(I.ptr_len(st, a[0]), st)]


@model(("Vec", "is_empty"), ("VecDeque", "is_empty"), ("slice", "is_empty"))
def vec_is_empty(I, st, x, a, dty):
    n = vec_len(I, st, x, a, dty)[0][0]
    return [(EQ(n, ZERO), st)]


@model(("Vec", "clear"), ("VecDeque", "clear"))
def vec_clear(I, st, x, a, dty):
    I.deref_write(st, a[0], SeqV((), None, True))
    return [(UNIT, st)]


@model(("Vec", "reserve"), ("Vec", "shrink_to_fit"), ("VecDeque", "reserve"))
def vec_reserve(I, st, x, a, dty):
    return [(UNIT, st)]


@model(("Vec", "deref"), ("Vec", "deref_mut"), ("Vec", "as_slice"), ("Vec", "as_mut_slice"), ("Vec", "borrow"), ("Vec", "as_ref"))
def vec_deref(I, st, x, a, dty):
    r = I.force(a[0])
    if not isinstance(r, RefV):
        return [(r, st)]
    out = []
    for g, p in r.alts:
        out.append((g, Ptr(p.obj, p.path, (ZERO, I.len_of(st, p.obj, p.path)))))
    return [(RefV(out), st)]


@model(("Vec", "index"), ("Vec", "index_mut"), ("VecDeque", "index"), ("slice", "index"), ("slice", "index_mut"))
def vec_index(I, st, x, a, dty):
    r = I.force(a[0])
    idx = I.force(a[1])
    if isinstance(r, Opaque) or isinstance(r, StrV):
        return NotImplemented
    if isinstance(idx, TERM):
        v = I.deref_read(st, r)
        if isinstance(v, DqV):
            raise Giveup("index into queue")
        if not index_check(I, st, r, idx):
            return []
        return [(elem_ref(r, idx), st)]
    if isinstance(idx, Agg):
        n = I.ptr_len(st, r)
        nm = adt_of(I, x, 1)
        if nm and nm.endswith("::RangeFull"):
            lo, hi = ZERO, n
        elif nm and nm.endswith("::RangeFrom"):
            lo, hi = I.need_term(idx.f[0]), n
        elif nm and nm.endswith("::RangeTo"):
            lo, hi = ZERO, I.need_term(idx.f[0])
        elif nm and nm.endswith("::Range"):
            lo, hi = I.need_term(idx.f[0]), I.need_term(idx.f[1])
        else:
            raise Giveup("range index")
        bad = AND(st.g, NOT(AND(LE(lo, hi), LE(hi, n))))
        if bad is not FALSE:
            I.panics.append((bad, "slice range", I.where()))
            st.g = AND(st.g, NOT(bad))
        if st.g is FALSE:
            return []
        return [(RefV([(g, Ptr(p.obj, p.path, (add(p.win[0] if p.win else ZERO, lo), sub(hi, lo)))) for g, p in r.alts]), st)]
    raise Giveup("index by %r" % (idx,))


def adt_of(I, x, argi):
    a = x["body"]["locals"][argi + 1] if x.get("body") else None
    if a is None:
        return None
    t = I.p.tys[a]
    return t.get("n")


@model(("slice", "get"), ("Vec", "get"))
def slice_get(I, st, x, a, dty):
    r = rv(I, a[0])
    idx = I.force(a[1])
    if not isinstance(idx, TERM):
        return NotImplemented
    n = I.ptr_len(st, r)
    return [(opt(I, dty, restrict(LT(idx, n), st.g), elem_ref(r, idx)), st)]


@model(("slice", "last"), ("slice", "first"))
def slice_last(I, st, x, a, dty):
    r = rv(I, a[0])
    n = I.ptr_len(st, r)
    last = x["d"].endswith("last")
    return [(opt(I, dty, GE(n, ONE), elem_ref(r, sub(n, ONE) if last else ZERO)), st)]


@model(("VecDeque", "pop_front"))
def pop_front(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    if isinstance(v, SeqV):
        if not v.items:
            return [(none(dty), st)]
        if all(i[0] is TRUE for i in v.items):
            v = DqV(v.items, ZERO)
        elif v.prefix and v.len_ is not None:
            v = DqV(v.items, ZERO, v.len_)
        else:
            raise Giveup("pop_front of guarded queue")
    if not isinstance(v, DqV):
        if isinstance(v, Opaque):
            return NotImplemented
        raise Giveup("pop_front of %r" % (v,))
    c = restrict(LT(v.head, v.total()), st.g)
    if c is FALSE:
        return [(none(dty), st)]
    val = I.get(SeqV(v.items, None, True), (("i", v.head),), 0, AND(st.g, c))
    nh = add(v.head, b2i(c))
    I.deref_write(st, a[0], DqV(v.items, nh, v.tot))
    return [(opt(I, dty, c, val), st)]


@model(("Vec", "pop"))
def vec_pop(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    if isinstance(v, SeqV) and v.len_ is None and all(i[0] is TRUE for i in v.items):
        if not v.items:
            return [(none(dty), st)]
        I.deref_write(st, a[0], SeqV(v.items[:-1], None, v.prefix))
        return [(some(I, dty, v.items[-1][1]), st)]
    raise Giveup("pop")


@model(("vec", "from_elem"), ("vec", "from_elem_zero"))
def from_elem(I, st, x, a, dty):
    n = I.need_term(a[1], "vec length")
    if is_const(n):
        if n.c > getattr(I, "bigvec", 5000):
            return [(Opaque(("bigvec", I.fresh()), dty), st)]
        return [(SeqV([(TRUE, a[0], None)] * n.c, None, True), st)]
    lo, hi = I.idx_range(n, st.g)
    if hi > 300:
        return [(Opaque(("symvec", n.id, str(okey(a[0]))[:40]), dty), st)]
    items = [(GE(n, const(i + 1)), a[0], None) for i in range(hi)]
    return [(SeqV(items, n, True), st)]


@model(("Box", "new"), ("Rc", "new"))
def box_new(I, st, x, a, dty):
    p = I.alloc(st, a[0])
    return [(RefV([(TRUE, p)]), st)]


@model(("Box", "new_uninit"))
def box_uninit(I, st, x, a, dty):
    p = I.alloc(st, UNDEF)
    return [(RefV([(TRUE, p)]), st)]


@model(("boxed", "box_assume_init_into_vec_unsafe"), ("slice", "into_vec"))
def box_into_vec(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    if isinstance(v, Agg):
        return [(SeqV([(TRUE, e, None) for e in v.f], None, True), st)]
    raise Giveup("vec! of %r" % (v,))


@model(("Rc", "clone"), ("&", "clone"))
def rc_clone(I, st, x, a, dty):
    return [(I.deref_read(st, a[0]), st)]


@model(("Rc", "deref"), ("Box", "deref"), ("Box", "deref_mut"), ("Box", "as_ref"), ("Box", "as_mut"))
def rc_deref(I, st, x, a, dty):
    return [(I.deref_read(st, a[0]), st)]


@model(("RefCell", "new"), ("Cell", "new"))
def refcell_new(I, st, x, a, dty):
    return [(Agg([a[0]]), st)]


@model(("RefCell", "borrow_mut"), ("RefCell", "borrow"))
def borrow_mut(I, st, x, a, dty):
    r = rv(I, a[0])
    out = []
    mut = x["d"].endswith("borrow_mut")
    for g, p in r.alts:
        out.append((g, Ptr(p.obj, p.path + (("f", 0),), None)))
        k = ("bor", p.obj, pathkey(p.path))
        o = st.mem.get(k, ZERO)
        bad = AND(AND(st.g, g), NE(o, ZERO) if mut else LT(o, ZERO))
        if bad is not FALSE:
            I.panics.append((bad, "cell already borrowed", I.where()))
            st.g = AND(st.g, NOT(bad))
            if st.g is FALSE:
                return []
        n = const(-1) if mut else add(o, ONE)
        st.mem[k] = n if g is TRUE else ite(g, n, o)
    return [(RefV(out), st)]


@model(("RefMut", "deref"), ("RefMut", "deref_mut"), ("Ref", "deref"))
def refmut_deref(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    return [(v, st)]


@model(("Vec", "clone"), ("slice", "to_vec"), ("slice", "to_owned"))
def vec_clone(I, st, x, a, dty):
    r = I.force(a[0])
    v = I.deref_read(st, r)
    if isinstance(v, Agg):
        v = SeqV([(TRUE, e, None) for e in v.f], None, True)
    if isinstance(r, RefV) and len(r.alts) == 1 and r.alts[0][1].win is not None and isinstance(v, SeqV):
        w = r.alts[0][1].win
        if is_const(w[0]) and is_const(w[1]):
            v = SeqV(v.items[w[0].c:w[0].c + w[1].c], None, v.prefix)
        elif not (w[0] is ZERO):
            raise Giveup("to_vec of symbolic window")
    # elements: deep copies of plain values are the values themselves; boxed / reference elements go through their clone
    ety = I.p.tys[dty]["args"][0]
    if plain(I, ety):
        return [(v, st)]
    if not isinstance(v, (SeqV, DqV)):
        return [(v, st)]
    cl = clone_inst(I, ety)
    if cl is None:
        raise Giveup("clone of elements")
    items = []
    for g, e, s in v.items:
        p = I.alloc(st, e)
        rr = I.dispatch(st, cl, [RefV([(TRUE, p)])], ety)
        rr = [q for q in rr if q[1] is not None]
        if len(rr) != 1:
            raise Giveup("clone of element")
        items.append((g, rr[0][0], s))
        st = rr[0][1]
    return [(SeqV(items, v.len_, v.prefix), st)]


def clone_inst(I, ety):
    t = I.p.tys[ety]
    if t["k"] != "adt":
        return None
    nm = t["n"].split("::")[-1]
    for i, x in enumerate(I.p.inst):
        if x["n"].endswith(" as core::clone::Clone>::clone") and x.get("body"):
            if x["body"]["locals"][0] == ety:
                return i
    return None


def plain(I, ty, seen=None):
    """type without indirection: a clone is the same value"""
    seen = seen or set()
    if ty in seen:
        return True
    seen.add(ty)
    t = I.p.tys[ty]
    k = t["k"]
    if k in ("int", "bool", "char", "float"):
        return True
    if k in ("array", "slice"):
        return plain(I, t["e"], seen)
    if k == "tuple":
        return all(plain(I, f, seen) for f in t.get("f") or ())
    if k == "adt":
        if t["n"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return plain(I, t["args"][0], seen)
        if t["n"] == "alloc::string::String":
            return True
        if t["ak"] in ("struct", "enum") and t["n"].startswith("av1enc") or t["n"].startswith("core::option") :
            # a hand-written Clone may differ from the value: only derive-like (checked elsewhere) copies are plain
            cl = clone_inst(I, ty)
            if cl is not None and I.p.inst[cl]["local"] and t["ak"] == "struct":
                return bool(I.p.inst[cl].get("derived"))
            return all(plain(I, f[1], seen) for v in t["v"] for f in v["f"])
    return False


@model(("Option", "is_some"), ("Result", "is_ok"), ("Option", "is_none"), ("Result", "is_err"))
def opt_is(I, st, x, a, dty):
    return NotImplemented


# ---- iterators
@model(("Vec", "into_iter"), ("&Vec", "into_iter"), ("slice", "iter"), ("slice", "iter_mut"), ("VecDeque", "iter"),
       ("&slice", "into_iter"), ("array", "into_iter"), ("&[T; N]", "into_iter"), ("&VecDeque", "into_iter"))
def seq_iter(I, st, x, a, dty):
    r = I.force(a[0])
    if isinstance(r, RefV):
        v = I.deref_read(st, r)
        if isinstance(v, Opaque):
            return NotImplemented
        if isinstance(v, DqV):
            if not is_const(v.head):
                raise Giveup("iterate queue")
            v = v.norm()
            p = I.alloc(st, v)
            return [(IterV(RefV([(TRUE, p)]), ZERO, v.length(), "ref"), st)]
        if isinstance(v, SeqV) and not v.prefix and not all(i[0] is TRUE for i in v.items):
            # a guarded list: iterate over the possible items, skipping absent ones
            p = I.alloc(st, v)
            return [(IterV(RefV([(TRUE, p)]), ZERO, const(len(v.items)), "guarded"), st)]
        return [(IterV(r, ZERO, I.ptr_len(st, r), "ref"), st)]
    if isinstance(r, SeqV):
        p = I.alloc(st, r)
        md = "val" if r.prefix or all(i[0] is TRUE for i in r.items) else "gval"
        return [(IterV(RefV([(TRUE, p)]), ZERO, r.length() if md == "val" else const(len(r.items)), md), st)]
    if isinstance(r, Agg):
        p = I.alloc(st, r)
        return [(IterV(RefV([(TRUE, p)]), ZERO, const(len(r.f)), "val"), st)]
    return NotImplemented


@model(("I", "into_iter"))
def id_into_iter(I, st, x, a, dty):
    return [(a[0], st)]


@model("next", "next_back")
def iter_next(I, st, x, a, dty):
    r = I.force(a[0])
    if not isinstance(r, RefV):
        return NotImplemented
    it = I.deref_read(st, r)
    if isinstance(it, Agg) and "range::Range<" in x["n"] and "RangeInclusive" not in x["n"] and len(it.f) == 2 \
            and ("iter::range::" in x["n"]):
        s, e = I.need_term(it.f[0], "range"), I.need_term(it.f[1], "range")
        c = restrict(LT(s, e), st.g)
        back = "next_back" in x["d"]
        if c is FALSE:
            return [(none(dty), st)]
        one = b2i(c) if c is not TRUE else ONE
        if back:
            ne = sub(e, one)
            I.deref_write(st, r, Agg((s, ne)))
            return [(opt(I, dty, c, sub(e, ONE)), st)]
        I.deref_write(st, r, Agg((add(s, one), e)))
        return [(opt(I, dty, c, s), st)]
    if isinstance(it, IterV):
        if it.mode in ("guarded", "gval"):
            if not is_const(it.pos):
                raise Giveup("guarded iteration")
            back = "next_back" in x["d"]
            # skip items that are absent here: split into 'present' and continue with the rest
            outs = []
            pos, end = it.pos, it.end
            seq = I.deref_read(st, it.ptr)
            g = st.g
            lo, hi = pos.c, end.c
            while lo < hi and g is not FALSE:
                j = hi - 1 if back else lo
                lo2, hi2 = (lo, hi - 1) if back else (lo + 1, hi)
                gj = AND(g, seq.items[j][0])
                if gj is not FALSE:
                    s2 = st.fork(gj)
                    I.deref_write(s2, r, IterV(it.ptr, const(lo2), const(hi2), it.mode))
                    e = elem_ref(it.ptr, const(j)) if it.mode == "guarded" else seq.items[j][1]
                    outs.append((some(I, dty, e), s2))
                    if gj is g:
                        return outs
                g = AND(g, NOT(seq.items[j][0]))
                lo, hi = lo2, hi2
            if len(outs) > 1 or (outs and g is not FALSE):
                raise Giveup("iteration over a conditionally built list")
            if g is not FALSE:
                s2 = st.fork(g)
                I.deref_write(s2, r, IterV(it.ptr, const(lo), const(hi), it.mode))
                outs.append((none(dty), s2))
            return outs
        c = restrict(LT(it.pos, it.end), st.g)
        if c is FALSE:
            return [(none(dty), st)]
        one = b2i(c) if c is not TRUE else ONE
        back = "next_back" in x["d"]
        pos = sub(it.end, ONE) if back else it.pos
        ni = IterV(it.ptr, it.pos, sub(it.end, one), it.mode, it.extra) if back else \
            IterV(it.ptr, add(it.pos, one), it.end, it.mode, it.extra)
        I.deref_write(st, r, ni)
        if it.mode == "ref":
            e = elem_ref(it.ptr, pos)
        else:
            e = I.read_alts(st.fork(AND(st.g, c)), [(g, p.obj, p.path, p.win) for g, p in elem_ref(it.ptr, pos).alts])
        return [(opt(I, dty, c, e), st)]
    return NotImplemented


@model(("slice", "contains"), ("VecDeque", "contains"))
def contains(I, st, x, a, dty):
    r = rv(I, a[0])
    v = I.deref_read(st, r)
    y = I.deref_read(st, a[1])
    if isinstance(y, EnumV):
        y = y.d
    if not isinstance(y, TERM):
        return NotImplemented
    if isinstance(v, Agg):
        items = [(TRUE, e) for e in v.f]
    elif isinstance(v, SeqV):
        items = [(i[0], i[1]) for i in v.items]
    else:
        return NotImplemented
    if any(p.win is not None and not (p.win[0] is ZERO) for _, p in r.alts):
        return NotImplemented
    out = FALSE
    for g, e in items:
        e = I.force(e)
        if isinstance(e, EnumV):
            e = e.d
        out = OR(out, AND(g, EQ(I.need_term(e), y)))
    return [(out, st)]


@model(("Option", "eq"))
def opt_eq(I, st, x, a, dty):
    return NotImplemented


@model(("process", "exit"))
def p_exit(I, st, x, a, dty):
    I.exits.append((st.g, a[0], I.where()))
    return []


@model(("hint", "must_use"), ("hint", "black_box"), ("convert", "identity"))
def ident(I, st, x, a, dty):
    return [(a[0], st)]


@model(("FromPrimitive", "from_isize"), ("FromPrimitive", "from_u8"), ("FromPrimitive", "from_usize"),
       ("FromPrimitive", "from_i32"), ("FromPrimitive", "from_u32"), ("FromPrimitive", "from_i16"),
       ("FromPrimitive", "from_u16"), ("FromPrimitive", "from_i8"))
def from_prim(I, st, x, a, dty):
    t = I.p.tys[dty]["args"][0]
    tn = I.p.tys[t]["n"]
    want = "from_u64" if re.search(r"from_u", x["n"].rsplit("::", 1)[1]) else "from_i64"
    for i, y in enumerate(I.p.inst):
        if y["local"] and y["n"].endswith("::" + want) and y.get("body"):
            if y["body"]["locals"][0] == dty:
                return [I.call_fn(st, i, [a[0]])]
    for i, y in enumerate(I.p.inst):
        if y["local"] and y["n"].endswith("::from_i64") and y.get("body"):
            if y["body"]["locals"][0] == dty:
                return [I.call_fn(st, i, [a[0]])]
    return NotImplemented


@model(("Option", "unwrap"), ("Option", "expect"), ("Result", "unwrap"), ("Result", "expect"))
def unwrap(I, st, x, a, dty):
    v = I.force(a[0])
    if not isinstance(v, EnumV):
        return NotImplemented
    okv = 1 if "Option" in x["d"] else 0
    ok = EQ(v.d, const(okv))
    bad = AND(st.g, NOT(ok))
    if bad is not FALSE:
        I.panics.append((bad, "unwrap of none", I.where()))
        st.g = AND(st.g, ok)
        if st.g is FALSE:
            return []
    p = v.pay.get(okv)
    return [(p[0] if p else UNDEF, st)]


# ---- integer helpers
def ibits(I, x, dty):
    t = I.p.tys[dty]
    return (t["s"], t["b"]) if t["k"] == "int" else None


@model("wrapping_add", "wrapping_sub", "wrapping_mul")
def wrapping(I, st, x, a, dty):
    s, b = ibits(I, x, dty)
    f = {"a": add, "s": sub, "m": mul}[x["d"].rsplit("_", 1)[1][0]]
    return [(I.wrap_g(f(I.need_term(a[0]), I.need_term(a[1])), s, b, st.g), st)]


@model("min", "max")
def minmax(I, st, x, a, dty):
    if I.p.tys[dty]["k"] != "int" or len(a) != 2:
        return NotImplemented
    u, v = I.need_term(a[0]), I.need_term(a[1])
    c = LE(u, v)
    return [(ite(c, u, v) if x["d"].endswith("min") else ite(c, v, u), st)]


@model("abs")
def iabs(I, st, x, a, dty):
    if I.p.tys[dty]["k"] != "int":
        return NotImplemented
    u = I.need_term(a[0])
    return [(ite(GE(u, ZERO), u, sub(ZERO, u)), st)]


@model("leading_zeros", "trailing_zeros", "count_ones", "ilog2")
def bitcount(I, st, x, a, dty):
    t = None
    body = x.get("body")
    if body is None:
        return NotImplemented
    t = I.p.tys[body["locals"][1]]
    if t["k"] != "int":
        return NotImplemented
    return clz(I, st, a[0], t["b"], x["d"])


def clz(I, st, v, b, d):
    v = I.need_term(v)
    if d.endswith("leading_zeros") or d.endswith("ctlz") or d.endswith("ctlz_nonzero") or d.endswith("ilog2"):
        out = const(b)
        for k in range(b):
            out = ite(GE(v, const(1 << k)), const(b - 1 - k), out)
        if d.endswith("ilog2"):
            bad = AND(st.g, NOT(GE(v, ONE)))
            if bad is not FALSE:
                I.panics.append((bad, "ilog2 of zero", I.where()))
                st.g = AND(st.g, NOT(bad))
                if st.g is FALSE:
                    return []
            out = sub(const(b - 1), out)
        return [(out, st)]
    if is_const(v):
        n = v.c & ((1 << b) - 1)
        if d.endswith("count_ones") or d.endswith("ctpop"):
            return [(const(bin(n).count("1")), st)]
        return [(const((n & -n).bit_length() - 1 if n else b), st)]
    lo, hi = I.idx_range(v, st.g)
    if hi - lo <= 300 and lo >= 0:
        f = (lambda n: const(bin(n).count("1"))) if d.endswith("ones") or d.endswith("ctpop") else (lambda n: const((n & -n).bit_length() - 1 if n else b))
        return [(expand_small(v, st.g, f, "bit count"), st)]
    raise Giveup("bit count")


@model("swap")
def mem_swap(I, st, x, a, dty):
    if "core::mem" not in x["n"]:
        return NotImplemented
    u, v = I.deref_read(st, a[0]), I.deref_read(st, a[1])
    I.deref_write(st, a[0], v)
    I.deref_write(st, a[1], u)
    return [(UNIT, st)]


@model("replace")
def mem_replace(I, st, x, a, dty):
    if "core::mem" not in x["n"]:
        return NotImplemented
    u = I.deref_read(st, a[0])
    I.deref_write(st, a[0], a[1])
    return [(u, st)]


@model(("array", "eq"), ("[T; N]", "eq"), ("slice", "eq"))
def arr_eq(I, st, x, a, dty):
    u, v = I.deref_read(st, a[0]), I.deref_read(st, a[1])
    r = struct_eq(I, u, v)
    return [(r, st)] if r is not None else NotImplemented


def struct_eq(I, u, v):
    u, v = I.force(u), I.force(v)
    if isinstance(u, TERM) and isinstance(v, TERM):
        if isbool(u) and isbool(v):
            return NOT(XOR(u, v))
        return EQ(T._as_int(u), T._as_int(v))
    if isinstance(u, Agg) and isinstance(v, Agg) and len(u.f) == len(v.f):
        r = TRUE
        for p, q in zip(u.f, v.f):
            e = struct_eq(I, p, q)
            if e is None:
                return None
            r = AND(r, e)
        return r
    if isinstance(u, EnumV) and isinstance(v, EnumV):
        if all(not p for p in u.pay.values()) and all(not p for p in v.pay.values()):
            return EQ(u.d, v.d)
    return None


def intrinsic(I, st, x, args, dty, m):
    if m in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "assume"):
        return [(UNIT, st)]
    if m in ("likely", "unlikely", "black_box"):
        return [(args[0], st)]
    if m in ("saturating_sub", "saturating_add"):
        s, b = ibits(I, x, dty)
        lo, hi = int_range(s, b)
        r = (sub if "sub" in m else add)(I.need_term(args[0]), I.need_term(args[1]))
        r = ite(GE(r, const(lo)), r, const(lo))
        r = ite(GE(const(hi), r), r, const(hi))
        return [(r, st)]
    if m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        s, b = ibits(I, x, dty)
        f = {"a": add, "s": sub, "m": mul}[m.rsplit("_", 1)[1][0]]
        return [(I.wrap_g(f(I.need_term(args[0]), I.need_term(args[1])), s, b, st.g), st)]
    if m in ("ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "ctpop"):
        body = x.get("args")
        t = I.p.tys[body[0]] if body else None
        if t and t["k"] == "int":
            return clz(I, st, args[0], t["b"], m)
        return NotImplemented
    if m == "raw_eq":
        r = struct_eq(I, I.deref_read(st, args[0]), I.deref_read(st, args[1]))
        return [(r, st)] if r is not None else NotImplemented
    if m == "discriminant_value":
        v = I.deref_read(st, args[0])
        return [(I.discr(v, st), st)]
    if m in ("size_of", "min_align_of", "needs_drop", "align_of"):
        raise Giveup("intrinsic " + m)
    if m == "abort":
        I.panic(st, "abort")
        return []
    if m == "three_way_compare":
        u, v = I.need_term(args[0]), I.need_term(args[1])
        return [(EnumV(dty, add(sub(b2i(GT(u, v)), b2i(LT(u, v))), ONE), {0: (), 1: (), 2: ()}), st)]
    return NotImplemented
