"""Iterator adaptors over sequence places: the library implements them with raw pointers, so they are modelled here."""
from .terms import *
from .interp import *
from .models import *
from .models import TABLE, elem_ref, opt, some, none


def closure_ty(I, v, k):
    ty = I.arg_tys[k] if k < len(I.arg_tys) else None
    return I.p.tys[ty] if ty is not None else None


def fn_of(I, st, v, k):
    """how to call the k-th argument: (instance, environment or None)"""
    v = I.force(v)
    if isinstance(v, FnV):
        return v.i, None
    t = closure_ty(I, v, k)
    if t is not None and t["k"] == "ref":
        v = I.deref_read(st, v)
        t = I.p.tys[t["e"]]
        if isinstance(v, FnV):
            return v.i, None
    if t is None or t["k"] != "closure":
        raise Giveup("callee of an iterator adaptor")
    b = I.p.inst[t["i"]].get("body")
    if b is None:
        raise Giveup("callee of an iterator adaptor")
    if I.p.tys[b["locals"][1]]["k"] == "ref":
        v = RefV([(TRUE, I.alloc(st, v))])
    return t["i"], v


def apply(I, st, f, args):
    i, env = f
    return I.call_fn(st, i, ([env] if env is not None else []) + list(args))


def elems(I, st, it):
    """elements of an iterator as (guard, value) when they are known"""
    if not isinstance(it, IterV) or it.mode not in ("ref", "val") or not is_const(it.pos):
        return None
    lo, hi = I.idx_range(it.end, st.g)
    if hi - it.pos.c > 4000:
        return None
    out = []
    for k in range(it.pos.c, int(hi)):
        g = LT(const(k), it.end)
        if AND(st.g, g) is FALSE:
            continue
        r = elem_ref(it.ptr, const(k))
        e = r if it.mode == "ref" else I.read_alts(st.fork(AND(st.g, g)), [(h, p.obj, p.path, p.win) for h, p in r.alts])
        out.append((g, e, k))
    return out


def recv(I, st, v):
    """(iterator, reference to it or None)"""
    v = I.force(v)
    if isinstance(v, RefV):
        w = I.deref_read(st, v)
        return (w, v) if isinstance(w, IterV) else (None, None)
    return (v, None) if isinstance(v, IterV) else (None, None)


def search(kind):
    def f(I, st, x, a, dty):
        it, ref = recv(I, st, a[0])
        if it is None:
            return NotImplemented
        es = elems(I, st, it)
        if es is None:
            return NotImplemented
        fn = fn_of(I, st, a[1], 1)
        outs = []
        n = 0
        for g, e, k in es:
            rest = AND(st.g, NOT(g))
            if rest is not FALSE:
                outs.append((end(kind, dty), st.fork(rest)))
            st = st.fork(AND(st.g, g))
            arg = e
            if kind == "find":
                arg = RefV([(TRUE, I.alloc(st, e))])
            c, st = apply(I, st, fn, [arg])
            if st is None:
                return outs
            if not isinstance(c, TERM):
                raise Giveup("predicate")
            c = c if isbool(c) else i2b(c)
            if kind == "all":
                c = NOT(c)
            hit = AND(st.g, c)
            if hit is not FALSE:
                s2 = st.fork(hit)
                if ref is not None:
                    I.deref_write(s2, ref, IterV(it.ptr, const(k + 1), it.end, it.mode, it.extra))
                outs.append(({"any": TRUE, "all": FALSE}.get(kind) if kind in ("any", "all") else
                             some(I, dty, e) if kind == "find" else some(I, dty, const(n)), s2))
            miss = AND(st.g, NOT(c))
            if miss is FALSE:
                return outs
            st = st.fork(miss)
            n += 1
        if ref is not None:
            I.deref_write(st, ref, IterV(it.ptr, it.end, it.end, it.mode, it.extra))
        outs.append((end(kind, dty), st))
        return outs

    def end(kind, dty):
        return FALSE if kind == "any" else TRUE if kind == "all" else none(dty)
    return f


for _k in ("any", "all", "find", "position"):
    model(_k)(search(_k))


def for_each(I, st, x, a, dty):
    it, ref = recv(I, st, a[0])
    es = elems(I, st, it) if it is not None else None
    if es is None:
        return NotImplemented
    fn = fn_of(I, st, a[1], 1)
    outs = []
    for g, e, k in es:
        rest = AND(st.g, NOT(g))
        if rest is not FALSE:
            outs.append((UNIT, st.fork(rest)))
        st = st.fork(AND(st.g, g))
        _, st = apply(I, st, fn, [e])
        if st is None:
            return outs
    return outs + [(UNIT, st)]


model("for_each")(for_each)


def fold(I, st, x, a, dty):
    it, ref = recv(I, st, a[0])
    es = elems(I, st, it) if it is not None else None
    if es is None:
        return NotImplemented
    fn = fn_of(I, st, a[2], 2)
    acc = a[1]
    outs = []
    for g, e, k in es:
        rest = AND(st.g, NOT(g))
        if rest is not FALSE:
            outs.append((acc, st.fork(rest)))
        st = st.fork(AND(st.g, g))
        acc, st = apply(I, st, fn, [acc, e])
        if st is None:
            return outs
    return outs + [(acc, st)]


model("fold")(fold)


def zip_(I, st, x, a, dty):
    it, _ = recv(I, st, a[0])
    jt = I.force(a[1])
    if isinstance(jt, RefV):
        # zip(&seq): an implicit into_iter
        v = I.deref_read(st, jt)
        if not isinstance(v, (SeqV, Agg)):
            return NotImplemented
        jt = IterV(jt, ZERO, I.ptr_len(st, jt), "ref")
    elif isinstance(jt, SeqV):
        jt = IterV(RefV([(TRUE, I.alloc(st, jt))]), ZERO, jt.length(), "val")
    if it is None or not isinstance(jt, IterV):
        return NotImplemented
    es, fs = elems(I, st, it), elems(I, st, jt)
    if es is None or fs is None:
        return NotImplemented
    n = min(len(es), len(fs))
    items = [(AND(es[k][0], fs[k][0]), Agg((es[k][1], fs[k][1])), None) for k in range(n)]
    full = all(i[0] is TRUE for i in items)
    la, lb = sub(it.end, it.pos), sub(jt.end, jt.pos)
    ln = const(n) if full else ite(LT(la, lb), la, lb)
    q = SeqV(items, None if full else ln, True)
    return [(IterV(RefV([(TRUE, I.alloc(st, q))]), ZERO, ln, "val"), st)]


model("zip")(zip_)


def take(I, st, x, a, dty):
    it = I.force(a[0])
    n = I.force(a[1]) if len(a) > 1 else None
    if not isinstance(it, IterV) or it.mode not in ("ref", "val") or not isinstance(n, TERM):
        return NotImplemented
    e = add(it.pos, n)
    return [(IterV(it.ptr, it.pos, ite(LT(e, it.end), e, it.end), it.mode, it.extra), st)]


def enumerate_(I, st, x, a, dty):
    it = I.force(a[0])
    if not isinstance(it, IterV):
        return NotImplemented
    es = elems(I, st, it)
    if es is None:
        return NotImplemented
    q = SeqV([(g, Agg((const(n), e)), None) for n, (g, e, k) in enumerate(es)], None if all(x[0] is TRUE for x in es) else sub(it.end, it.pos), True)
    return [(IterV(RefV([(TRUE, I.alloc(st, q))]), ZERO, q.length(), "val"), st)]


def copied(I, st, x, a, dty):
    it = I.force(a[0])
    if not isinstance(it, IterV) or it.mode not in ("ref", "guarded"):
        return NotImplemented
    return [(IterV(it.ptr, it.pos, it.end, "val" if it.mode == "ref" else "gval", it.extra), st)]


model("copied", "cloned")(lambda I, st, x, a, dty: copied(I, st, x, a, dty) if x["d"].startswith("core::iter") else NotImplemented)


def total(I, st, x, a, dty):
    it = I.force(a[0])
    if not isinstance(it, IterV):
        return NotImplemented
    es = elems(I, st, it)
    if es is None:
        return NotImplemented
    t = I.p.tys[dty]
    if t["k"] != "int":
        return NotImplemented
    s = ZERO
    for g, e, k in es:
        e = I.deref_read(st, e) if isinstance(e, RefV) else e
        s = add(s, I.need_term(e) if g is TRUE else ite(g, I.need_term(e), ZERO))
    lo, hi = rng(s)
    mx = (1 << (t["b"] - (1 if t["s"] else 0))) - 1
    if hi is None or hi > mx or lo < (-(mx + 1) if t["s"] else 0):
        raise Giveup("sum may overflow")
    return [(s, st)]


model("sum")(total)


# ---- growing a list from a slice, an iterator or a repeated value
def append_items(I, st, ref, src):
    """append the elements of a slice or list"""
    v = I.deref_read(st, src)
    p = src.alts[0][1] if len(src.alts) == 1 else None
    if isinstance(v, DqV):
        v = v.norm()
    n = I.ptr_len(st, src)
    if isinstance(v, SeqV) and (p is None or p.win is None or (p.win[0] is ZERO and p.win[1] is I.len_of(st, p.obj, p.path))):
        if v.len_ is None and not all(i[0] is TRUE for i in v.items):
            old = I.deref_read(st, ref)
            if not isinstance(old, SeqV) or old.len_ is not None:
                raise Giveup("append a conditionally built list")
            I.deref_write(st, ref, SeqV(old.items + tuple((g, e, tuple(I.site())) for g, e, _ in v.items), None, False))
            return
    if not isinstance(v, (SeqV, Agg)):
        raise Giveup("append %r" % (v,))
    lo, hi = I.idx_range(n, st.g)
    if hi > 4000:
        raise Giveup("append a long list")
    if lo != hi:
        raise Giveup("append a list of unknown length")
    for k in range(int(hi)):
        r = elem_ref(src, const(k))
        e = I.read_alts(st, [(h, q.obj, q.path, q.win) for h, q in r.alts])
        push(I, st, ref, e, tuple(I.site()))


@model(("Vec", "extend_from_slice"), ("Vec", "append_elements"))
def extend_from_slice(I, st, x, a, dty):
    ref, src = I.force(a[0]), I.force(a[1])
    if not isinstance(ref, RefV) or not isinstance(src, RefV):
        return NotImplemented
    v = I.deref_read(st, src)
    if not isinstance(v, (SeqV, Agg, DqV)):
        return NotImplemented
    append_items(I, st, ref, src)
    return [(UNIT, st)]


@model(("Vec", "append"), ("VecDeque", "append"))
def vec_append(I, st, x, a, dty):
    ref, src = I.force(a[0]), I.force(a[1])
    if not isinstance(ref, RefV) or not isinstance(src, RefV) or not isinstance(I.deref_read(st, src), (SeqV, DqV)):
        return NotImplemented
    append_items(I, st, ref, src)
    I.deref_write(st, src, SeqV((), None, True))
    return [(UNIT, st)]


@model(("Vec", "extend_with"))
def extend_with(I, st, x, a, dty):
    n = I.need_term(a[1], "count")
    lo, hi = I.idx_range(n, st.g)
    if hi > 4000 or hi - lo > 64:
        raise Giveup("extend by an unknown count")
    outs = []
    for k in range(int(lo), int(hi) + 1):
        g = AND(st.g, EQ(n, const(k)))
        if g is FALSE:
            continue
        s2 = st.fork(g) if lo != hi else st
        for _ in range(k):
            push(I, s2, a[0], a[2], tuple(I.site()))
        outs.append((UNIT, s2))
    return outs


@model(("Vec", "truncate"))
def truncate(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    n = I.need_term(a[1], "length")
    if not isinstance(v, SeqV) or not all(i[0] is TRUE for i in v.items) or v.len_ is not None:
        raise Giveup("truncate")
    L = const(len(v.items))
    if restrict(GE(n, L), st.g) is TRUE:
        return [(UNIT, st)]
    lo, hi = I.idx_range(n, st.g)
    outs = []
    for k in range(int(lo), min(int(hi), len(v.items)) + 1):
        g = AND(st.g, EQ(n, const(k)) if k < len(v.items) else GE(n, L))
        if g is FALSE:
            continue
        s2 = st.fork(g)
        I.deref_write(s2, a[0], SeqV(v.items[:k], None, True))
        outs.append((UNIT, s2))
    return outs


@model(("Vec", "extend_trusted"))
def extend_trusted(I, st, x, a, dty):
    """run the library's own traversal of the iterator, with its element writer replaced by push"""
    ref, it = I.force(a[0]), I.force(a[1])
    if isinstance(it, IterV) and it.mode in ("ref", "val"):
        es = elems(I, st, it)
        if es is not None and all(g is TRUE for g, _, _ in es):
            for _, e, _ in es:
                push(I, st, ref, e, tuple(I.site()))
            return [(UNIT, st)]
    if isinstance(it, IterV) and it.mode == "gval" and is_const(it.pos) and is_const(it.end):
        v, old = I.deref_read(st, it.ptr), I.deref_read(st, ref)
        if isinstance(v, SeqV) and isinstance(old, SeqV) and old.len_ is None:
            site = tuple(I.site())
            I.deref_write(st, ref, SeqV(old.items + tuple((g, e, site) for g, e, _ in v.items[it.pos.c:it.end.c]), None, False))
            return [(UNIT, st)]
    body = x.get("body")
    if body is None:
        return NotImplemented
    for b in body["blocks"]:
        t = b["t"]
        if t[0] != "call" or t[1][0] != "k":
            continue
        ct = I.p.tys[t[1][1]]
        j = ct.get("i")
        if j is None or I.p.inst[j]["d"].rsplit("::", 1)[-1] != "for_each":
            continue
        fb = I.p.inst[j].get("body")
        ft = I.p.tys[fb["locals"][2]] if fb else None
        if ft is None or ft["k"] != "closure":
            continue
        site = tuple(I.site())

        def put(I2, s2, args):
            push(I2, s2, ref, args[-1], site)
            return UNIT, s2
        saved = I.over.get(ft["i"])
        I.over[ft["i"]] = put
        try:
            r, s = I.call_fn(st, j, [it, Agg(())])
        finally:
            if saved is None:
                del I.over[ft["i"]]
            else:
                I.over[ft["i"]] = saved
        return [(UNIT, s)] if s is not None else []
    return NotImplemented


@model(("Vec", "extend_desugared"))
def extend_desugared(I, st, x, a, dty):
    ref, it = I.force(a[0]), I.force(a[1])
    body = x.get("body")
    if body is None or isinstance(it, (Opaque, StrV)):
        return NotImplemented
    if isinstance(it, IterV) and it.mode not in ("ref", "val"):
        return NotImplemented
    nx = None
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k":
            j = I.p.tys[t[1][1]].get("i")
            if j is not None and I.p.inst[j]["d"].rsplit("::", 1)[-1] == "next":
                nx = j, t
    if nx is None:
        return NotImplemented
    j, t = nx
    oty = I.p.inst[j]["body"]["locals"][0] if I.p.inst[j].get("body") else None
    h = RefV([(TRUE, I.alloc(st, it))])
    for _ in range(400):
        if isinstance(I.deref_read(st, h), IterV):
            rs = iter_next_model(I, st, I.p.inst[j], [h], I.place_ty(body, t[3]))
            if rs is NotImplemented or len(rs) != 1:
                raise Giveup("extend")
            v, st = rs[0]
        elif oty is not None:
            v, st = I.call_fn(st, j, [h])
            if st is None:
                return []
        else:
            return NotImplemented
        v = I.force(v)
        if not isinstance(v, EnumV):
            raise Giveup("extend")
        d = restrict(EQ(v.d, ONE), st.g)
        if d is FALSE:
            return [(UNIT, st)]
        if d is not TRUE:
            raise Giveup("extend by an unknown count")
        push(I, st, ref, v.pay[1][0], tuple(I.site()))
    raise Giveup("extend by a long iterator")


iter_next_model = TABLE[(None, "next")]


@model(("VecDeque", "drain"))
def dq_drain(I, st, x, a, dty):
    """drain(..n) or drain(..): the drained part is dropped or read in order"""
    v = I.deref_read(st, a[0])
    r = I.force(a[1])
    if isinstance(v, SeqV) and all(i[0] is TRUE for i in v.items):
        v = DqV(v.items, ZERO)
    if not isinstance(v, DqV):
        return NotImplemented
    L = v.length()
    if isinstance(r, Agg) and len(r.f) == 1:
        n = I.need_term(r.f[0])
    elif isinstance(r, Agg) and not r.f:
        n = L
    elif isinstance(r, Agg) and len(r.f) == 2 and I.force(r.f[0]) is ZERO:
        n = I.need_term(r.f[1])
    else:
        return NotImplemented
    if "RangeFrom" in x["n"] or "Inclusive" in x["n"]:
        return NotImplemented
    bad = AND(st.g, LT(L, n))
    if bad is not FALSE and not infeasible(bad, 300):
        I.panics.append((bad, "slice range", I.where()))
        st.g = AND(st.g, NOT(bad))
        if st.g is FALSE:
            return []
    p = I.alloc(st, v.norm() if is_const(v.head) else v)
    I.deref_write(st, a[0], DqV(v.items, add(v.head, n), v.tot))
    if not is_const(v.head):
        return [(Opaque(("drain", I.fresh()), dty), st)]
    return [(IterV(RefV([(TRUE, p)]), ZERO, n, "val"), st)]


@model(("Vec", "resize"))
def resize(I, st, x, a, dty):
    v = I.deref_read(st, a[0])
    if not isinstance(v, SeqV):
        return NotImplemented
    n, L = I.need_term(a[1], "length"), v.length()
    grow = restrict(GE(n, L), st.g)
    if grow is TRUE:
        return extend_with(I, st, x, [a[0], sub(n, L), a[2]], dty)
    if grow is FALSE:
        return truncate(I, st, x, a, dty)
    s2 = st.fork(AND(st.g, grow))
    s3 = st.fork(AND(st.g, NOT(grow)))
    return extend_with(I, s2, x, [a[0], sub(n, L), a[2]], dty) + truncate(I, s3, x, a, dty)
