"""Gated value graphs: canonical abstract values for integers and booleans.

An integer value is a decision graph whose inner nodes test linear facts "K >= T" and whose
terminals are polynomials (Flat) over atoms (program inputs, bit fields of polynomials, ...).
A boolean value (also: a block's reachability guard) is such a graph with terminals TRUE / FALSE.
Everything is hash-consed, so equal normal forms are the same object.  There is no search and no
solver: the only decision procedure is normalisation.
"""
import math, random, sys
sys.setrecursionlimit(200000)

INF = float("inf")
NODE_CAP = 60000


class Giveup(Exception):
    """The analysis cannot represent this value: the obligation becomes undecided."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "args", "mn", "mx", "leaves")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "leaf":
            return a[0]
        if k == "ext":
            return "(%r)[%d+:%s]" % (a[0], a[1], a[2])
        if k == "mono":
            return "*".join(repr(ATOMS[i]) for i in a)
        if k == "sel":
            return "tab%d[%s]" % (a[0], ",".join(map(repr, a[1:])))
        return "%s(%s)" % (k, ",".join(map(repr, a)))


ATOMS = []
_atom_tab = {}


def _atom(kind, args, mn, mx):
    k = (kind,) + tuple(a.id if isinstance(a, Flat) else a for a in args)
    t = _atom_tab.get(k)
    if t is None:
        t = Atom()
        t.id = len(ATOMS)
        t.kind = kind
        t.args = tuple(args)
        t.mn = mn
        t.mx = mx
        ATOMS.append(t)
        _atom_tab[k] = t
    else:
        if mn > t.mn:
            t.mn = mn
        if mx < t.mx:
            t.mx = mx
    return t


class Flat:
    __slots__ = ("id", "c", "t", "mn", "mx")
    isflat = True
    isnode = False

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("%r" % ATOMS[a]) if k == 1 else ("%d*%r" % (k, ATOMS[a])))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)


class BoolT:
    __slots__ = ("id", "v")
    isflat = True
    isnode = False

    def __repr__(self):
        return "TRUE" if self.v else "FALSE"


class Node:
    __slots__ = ("id", "key", "T", "hi", "lo")
    isflat = False
    isnode = True

    def __repr__(self):
        return show(self)


_ids = [0]


def _nid():
    _ids[0] += 1
    return _ids[0]


TRUE = BoolT()
TRUE.id = _nid()
TRUE.v = True
FALSE = BoolT()
FALSE.id = _nid()
FALSE.v = False

_flat_tab = {}


def _mkflat(c, t):
    """t: tuple of (atom id, coef != 0) sorted by atom id"""
    k = (c, t)
    f = _flat_tab.get(k)
    if f is None:
        f = Flat()
        f.id = _nid()
        f.c = c
        f.t = t
        mn = mx = c
        for a, q in t:
            at = ATOMS[a]
            if q > 0:
                mn += q * at.mn
                mx += q * at.mx
            else:
                mn += q * at.mx
                mx += q * at.mn
        f.mn = mn
        f.mx = mx
        _flat_tab[k] = f
    return f


def const(n):
    return _mkflat(n, ())


ZERO = const(0)
ONE = const(1)
leaf_registry = {}


def leaf(name, mn=-INF, mx=INF):
    if mn == mx:
        return const(mn)
    a = _atom("leaf", (name, mn, mx), mn, mx)
    leaf_registry[name] = a
    return _mkflat(0, ((a.id, 1),))


def single(f):
    """the atom if f is exactly one atom"""
    if f.c == 0 and len(f.t) == 1 and f.t[0][1] == 1:
        return ATOMS[f.t[0][0]]
    return None


def is_const(f):
    return f.isflat and isinstance(f, Flat) and not f.t


# ------------------------------------------------------------------ flat arithmetic
def f_from(c, d):
    return _norm_ext(c, d)


def _norm_ext(c, d):
    """merge adjacent bit fields of the same value, then intern"""
    exts = None
    for a, q in list(d.items()):
        if q == 0:
            del d[a]
    for a in d:
        if ATOMS[a].kind == "ext":
            if exts is None:
                exts = {}
            at = ATOMS[a]
            exts.setdefault(at.args[0].id, []).append(a)
    if exts:
        for xid, lst in exts.items():
            if len(lst) < 2:
                continue
            changed = True
            while changed:
                changed = False
                lst = [a for a in lst if a in d]
                for a in lst:
                    A = ATOMS[a]
                    if A.args[2] is None:
                        continue
                    for b in lst:
                        B = ATOMS[b]
                        if b != a and B.args[1] == A.args[1] + A.args[2] and d[b] == d[a] << A.args[2]:
                            n = None if B.args[2] is None else A.args[2] + B.args[2]
                            q = d[a]
                            del d[a]
                            del d[b]
                            r = f_ext(A.args[0], A.args[1], n)
                            c += q * r.c
                            for (ra, rq) in r.t:
                                d[ra] = d.get(ra, 0) + q * rq
                                if d[ra] == 0:
                                    del d[ra]
                                elif ATOMS[ra].kind == "ext" and ra not in lst:
                                    lst.append(ra)
                            changed = True
                            break
                    if changed:
                        break
    return _mkflat(c, tuple(sorted(d.items())))


def f_add(a, b):
    if not a.t and a.c == 0:
        return b
    if not b.t and b.c == 0:
        return a
    d = dict(a.t)
    for x, q in b.t:
        d[x] = d.get(x, 0) + q
    r = _norm_ext(a.c + b.c, d)
    _bound(r, a.mn + b.mn, a.mx + b.mx)
    return r


def _bound(r, mn, mx):
    if mn > r.mn:
        r.mn = mn
    if mx < r.mx:
        r.mx = mx


def f_scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    r = _mkflat(a.c * k, tuple((x, q * k) for x, q in a.t))
    if k > 0:
        _bound(r, a.mn * k, a.mx * k)
    else:
        _bound(r, a.mx * k, a.mn * k)
    return r


def f_sub(a, b):
    return f_add(a, f_scale(b, -1))


def _mul_rng(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    v = [m(a.mn, b.mn), m(a.mn, b.mx), m(a.mx, b.mn), m(a.mx, b.mx)]
    return min(v), max(v)


def _mono(x, y):
    ax = ATOMS[x].args if ATOMS[x].kind == "mono" else (x,)
    ay = ATOMS[y].args if ATOMS[y].kind == "mono" else (y,)
    ids = tuple(sorted(ax + ay))
    mn, mx = _mul_rng(ATOMS[x], ATOMS[y])
    return _atom("mono", ids, mn, mx).id


def f_mul(a, b):
    if not a.t:
        return f_scale(b, a.c)
    if not b.t:
        return f_scale(a, b.c)
    if len(a.t) * len(b.t) > 64:
        raise Giveup("polynomial too large")
    d = {}
    for x, q in a.t:
        d[x] = d.get(x, 0) + q * b.c
    for y, p in b.t:
        d[y] = d.get(y, 0) + p * a.c
    for x, q in a.t:
        for y, p in b.t:
            m = _mono(x, y)
            d[m] = d.get(m, 0) + q * p
    r = _norm_ext(a.c * b.c, d)
    _bound(r, *_mul_rng(a, b))
    return r


def _split_pow(t, c):
    """t = 2^c * A + B, B keeps the terms whose coefficient is not divisible by 2^c"""
    m = 1 << c
    A, B = {}, {}
    for x, q in t.t:
        if q % m == 0:
            A[x] = q // m
        else:
            B[x] = q
    ac, bc = t.c // m, t.c % m
    return f_from(ac, A), f_from(bc, B)


def f_shr(t, c):
    """floor(t / 2^c)"""
    if c == 0:
        return t
    return f_ext(t, c, None)


def f_mod(t, n):
    return f_ext(t, 0, n)


def f_ext(t, lo, n):
    """floor(t/2^lo) mod 2^n   (n None: no mod)"""
    if n == 0:
        return ZERO
    if not t.t:
        v = t.c >> lo
        return const(v if n is None else v & ((1 << n) - 1))
    if n is not None:
        # reduce modulo 2^(lo+n)
        m = 1 << (lo + n)
        if 0 <= t.mn and t.mx < m:
            n = None
        else:
            if t.mn != -INF and t.mx != INF and (t.mn >> (lo + n)) == (t.mx >> (lo + n)):
                return f_ext(f_add(t, const(-((t.mn >> (lo + n)) << (lo + n)))), lo, None)
            r = _norm_ext(t.c % m, {x: q % m for x, q in t.t if q % m})
            if r is not t:
                # prefer the representation that keeps small values small
                return f_ext(r, lo, n)
    if lo > 0:
        A, B = _split_pow(t, lo)
        if A.t or A.c:
            r = f_add(A, f_ext(B, lo, None))
            if n is None:
                return r
            if r is not t:
                # floor(t/2^lo) mod 2^n with a linear head
                a = single(r)
                if a is None or a.kind != "ext" or a.args[0] is not t:
                    return f_ext(r, 0, n)
        if 0 <= t.mn and t.mx < (1 << lo):
            return ZERO
        if t.mn != -INF and t.mx != INF and (t.mn >> lo) == (t.mx >> lo):
            return const(t.mn >> lo if n is None else (t.mn >> lo) & ((1 << n) - 1))
        # common power of two
        g = 0
        for x, q in t.t:
            g = math.gcd(g, q)
        z = (g & -g).bit_length() - 1 if g else 0
        z = min(z, lo)
        if z > 0:
            # t = 2^z*u + r, 0<=r<2^z  ->  floor(t/2^lo) = floor(u/2^(lo-z))
            u = _mkflat(t.c >> z, tuple((x, q >> z) for x, q in t.t))
            _bound(u, t.mn // (1 << z) if t.mn != -INF else -INF, t.mx // (1 << z) if t.mx != INF else INF)
            return f_ext(u, lo - z, n)
    elif n is None:
        return t
    a = single(t)
    if a is not None and a.kind == "ext":
        x, l2, n2 = a.args
        if n2 is None:
            return f_ext(x, l2 + lo, n)
        rest = n2 - lo
        if rest <= 0:
            return ZERO
        nn = rest if n is None else min(n, rest)
        return f_ext(x, l2 + lo, nn)
    if lo == 0 and n is not None and t.c and len(t.t) >= 1:
        pass
    if n is None:
        mn = -INF if t.mn == -INF else t.mn >> lo
        mx = INF if t.mx == INF else t.mx >> lo
    else:
        mn, mx = 0, (1 << n) - 1
    at = _atom("ext", (t, lo, n), mn, mx)
    return _mkflat(0, ((at.id, 1),))


def _runs(mask):
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def f_and(a, b):
    if not a.t and b.t:
        a, b = b, a
    if not b.t:
        m = b.c
        if not a.t:
            return const(a.c & m)
        if m < 0:
            return f_sub(a, f_and(a, const(~m)))
        r = ZERO
        for lo, n in _runs(m):
            r = f_add(r, f_scale(f_ext(a, lo, n), 1 << lo))
        return r
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        k = _align(x)
        if k and 0 <= y.mn and y.mx < (1 << k):
            return ZERO
        if y.mn >= 0 and y.mx != INF and x.t:
            # x = 2^k*X + c with y < 2^k: only the constant low bits of x matter
            k = y.mx.bit_length()
            if all(q % (1 << k) == 0 for _, q in x.t):
                return f_and(y, const(x.c % (1 << k)))
    if a.mn >= 0 and b.mn >= 0:
        mx = min(a.mx, b.mx)
        at = _atom("and", (a, b), 0, mx)
    else:
        at = _atom("and", (a, b), -INF, INF)
    return _mkflat(0, ((at.id, 1),))


def _align(x):
    """largest k with 2^k dividing x structurally"""
    g = x.c
    for _, q in x.t:
        g = math.gcd(g, q)
    if g == 0:
        return 0
    return (g & -g).bit_length() - 1


def f_or(a, b):
    return f_sub(f_add(a, b), f_and(a, b))


def f_xor(a, b):
    return f_sub(f_add(a, b), f_scale(f_and(a, b), 2))


def f_div(a, b, guard_nonneg=True):
    """truncating division (Rust)"""
    if not b.t:
        k = b.c
        if k == 0:
            raise Giveup("division by constant zero")
        if not a.t:
            q = abs(a.c) // abs(k)
            return const(q if (a.c >= 0) == (k >= 0) else -q)
        if k == 1:
            return a
        if k > 0 and a.mn >= 0:
            if k & (k - 1) == 0:
                return f_shr(a, k.bit_length() - 1)
            if a.mx < k:
                return ZERO
            A, B = {}, {}
            for x, q in a.t:
                if q % k == 0:
                    A[x] = q // k
                else:
                    B[x] = q
            rest = f_from(a.c % k, B)
            head = f_from(a.c // k, A)
            if rest.mn >= 0:
                if rest.mx < k:
                    return head
                at = _atom("fdiv", (rest, b), 0, rest.mx // k if rest.mx != INF else INF)
                return f_add(head, _mkflat(0, ((at.id, 1),)))
            at = _atom("fdiv", (a, b), 0, a.mx // k if a.mx != INF else INF)
            return _mkflat(0, ((at.id, 1),))
    if not a.t and a.c == 0:
        return ZERO
    if a.mn >= 0 and b.mn >= 0:
        at = _atom("div", (a, b), 0, a.mx)
    else:
        at = _atom("div", (a, b), -INF, INF)
    return _mkflat(0, ((at.id, 1),))


def f_rem(a, b):
    if not b.t and b.c > 0 and a.mn >= 0 and b.c & (b.c - 1) == 0:
        return f_mod(a, b.c.bit_length() - 1)
    r = f_sub(a, f_mul(f_div(a, b), b))
    if a.mn >= 0 and b.mn >= 0:
        _bound(r, 0, min(a.mx, b.mx - 1 if b.mx != INF else INF))
    return r


# ------------------------------------------------------------------ decision graph nodes
KEYS = []        # key id -> tuple of (atom, coef)
_key_tab = {}
KEY_T = []       # key id -> sorted list of thresholds in use
_node_tab = {}
_key01 = []


def _key(t):
    k = _key_tab.get(t)
    if k is None:
        k = len(KEYS)
        KEYS.append(t)
        KEY_T.append(set())
        a = ATOMS[t[0][0]]
        _key01.append(a.id if len(t) == 1 and t[0][1] == 1 and a.mn >= 0 and a.mx <= 1 else None)
        _key_tab[t] = k
    return k


def _strip(x, key, T):
    while x.isnode and x.key == key and x.T <= T:
        x = x.hi
    return x


def mk(key, T, hi, lo):
    hi = _strip(hi, key, T)
    if hi is lo:
        return lo
    if lo.isnode and lo.key == key and _strip(lo, key, T) is hi:
        return lo
    a = _key01[key]
    if a is not None and isinstance(hi, Flat) and isinstance(lo, Flat) and hi.t == lo.t and T == 1:
        return f_add(lo, _mkflat(0, ((a, hi.c - lo.c),)))
    k = (key, T, hi.id, lo.id)
    n = _node_tab.get(k)
    if n is None:
        n = Node()
        n.id = _nid()
        n.key = key
        n.T = T
        n.hi = hi
        n.lo = lo
        _node_tab[k] = n
        KEY_T[key].add(T)
    return n


def before(x, y):
    """top variable of x strictly before y's"""
    return (x.key, -x.T) < (y.key, -y.T)


def cof(x, key, T, v):
    if not x.isnode:
        return x
    if x.key != key:
        return x
    if v:
        return _strip(x, key, T)
    return x.lo if x.T == T else x


def top(*xs):
    best = None
    for x in xs:
        if x.isnode:
            k = (x.key, -x.T)
            if best is None or k < best:
                best = k
    return best


_ite_memo = {}
_budget = [0, 40_000_000]


def tick():
    _budget[0] += 1
    if _budget[0] > _budget[1]:
        raise Giveup("value graph too large")


def ite(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return g
    k = (g.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    tick()
    kk, nt = top(g, a, b)
    T = -nt
    hi = ite(cof(g, kk, T, True), cof(a, kk, T, True), cof(b, kk, T, True))
    lo = ite(cof(g, kk, T, False), cof(a, kk, T, False), cof(b, kk, T, False))
    r = _join(kk, T, hi, lo)
    _ite_memo[k] = r
    return r


def _join(key, T, hi, lo):
    """key>=T ? hi : lo, whatever the order of hi's and lo's variables"""
    t = top(hi, lo)
    if t is None or t > (key, -T):
        return mk(key, T, hi, lo)
    return ite(mk(key, T, TRUE, FALSE), hi, lo)


def NOT(g):
    return ite(g, FALSE, TRUE)


def AND(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return ite(a, b, FALSE)


def OR(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return ite(a, TRUE, b)


def XOR(a, b):
    return ite(a, NOT(b), b)


def IMPLIES(a, b):
    return AND(a, NOT(b)) is FALSE


_memo1 = {}
_memo2 = {}


def map1(tag, f, a):
    """apply f to every terminal"""
    if not a.isnode:
        return f(a)
    k = (tag, a.id)
    r = _memo1.get(k)
    if r is None:
        tick()
        r = _join(a.key, a.T, map1(tag, f, a.hi), map1(tag, f, a.lo))
        _memo1[k] = r
    return r


def map2(tag, f, a, b):
    if not a.isnode and not b.isnode:
        return f(a, b)
    k = (tag, a.id, b.id)
    r = _memo2.get(k)
    if r is None:
        tick()
        kk, nt = top(a, b)
        T = -nt
        r = _join(kk, T,
                  map2(tag, f, cof(a, kk, T, True), cof(b, kk, T, True)),
                  map2(tag, f, cof(a, kk, T, False), cof(b, kk, T, False)))
        _memo2[k] = r
    return r


_restrict_memo = {}


def restrict(f, care):
    """a smaller graph that agrees with f wherever care holds"""
    if care is TRUE or not f.isnode or care is FALSE:
        return f
    k = (f.id, care.id)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    tick()
    if (care.key, -care.T) < (f.key, -f.T) and care.key != f.key:
        r = restrict(f, OR(care.hi, care.lo))
    else:
        kk, nt = top(f, care)
        T = -nt
        ch, cl = cof(care, kk, T, True), cof(care, kk, T, False)
        fh, fl = cof(f, kk, T, True), cof(f, kk, T, False)
        if ch is FALSE:
            r = restrict(fl, cl)
        elif cl is FALSE:
            r = restrict(fh, ch)
        elif f.isnode and (f.key, f.T) == (kk, T):
            r = _join(kk, T, restrict(fh, ch), restrict(fl, cl))
        else:
            r = restrict(f, OR(ch, cl))
    _restrict_memo[k] = r
    return r


# ------------------------------------------------------------------ comparisons
_ge_memo = {}


def ge0(f):
    """boolean: f >= 0 for a flat f"""
    if f.mn >= 0:
        return TRUE
    if f.mx < 0:
        return FALSE
    r = _ge_memo.get(f.id)
    if r is None:
        r = _ge0(f)
        _ge_memo[f.id] = r
    return r


def _ge0(f):
    g = 0
    for _, q in f.t:
        g = math.gcd(g, q)
    if g > 1:
        return ge0(_mkflat(f.c // g, tuple((a, q // g) for a, q in f.t)))
    # a pure shift with unit coefficient: floor(x/2^c) against a rest.  Innermost terms have smaller ids:
    # take the outermost shift first
    sh = [(a, q) for a, q in f.t if ATOMS[a].kind == "ext" and ATOMS[a].args[2] is None and abs(q) == 1]
    if sh:
        a, q = max(sh)
        x, c, _ = ATOMS[a].args
        rest = _mkflat(f.c, tuple((b, p) for b, p in f.t if b != a))
        if q == 1:      # floor(x/2^c) >= -rest
            return ge0(f_add(x, f_scale(rest, 1 << c)))
        return ge0(f_sub(f_add(f_scale(rest, 1 << c), const((1 << c) - 1)), x))
    fd = [(a, q) for a, q in f.t if ATOMS[a].kind == "fdiv"]
    if len(fd) == 1 and abs(fd[0][1]) == 1:
        a, q = fd[0]
        x, d = ATOMS[a].args
        d = d.c
        rest = _mkflat(f.c, tuple((b, p) for b, p in f.t if b != a))
        if q == 1:
            return ge0(f_add(x, f_scale(rest, d)))
        return ge0(f_sub(f_add(f_scale(rest, d), const(d - 1)), x))
    if any(ATOMS[a].kind == "ext" and ATOMS[a].args[2] is not None and 2 <= ATOMS[a].args[2] <= 4 for a, _ in f.t):
        d = {}
        for a, q in f.t:
            A = ATOMS[a]
            if A.kind == "ext" and A.args[2] is not None and 2 <= A.args[2] <= 4:
                for i in range(A.args[2]):
                    b = single(f_ext(A.args[0], A.args[1] + i, 1))
                    if b is None:
                        d = None
                        break
                    d[b.id] = d.get(b.id, 0) + (q << i)
                if d is None:
                    break
            else:
                d[a] = d.get(a, 0) + q
        if d is not None and len(d) <= 10 and all(ATOMS[a].mn >= 0 and ATOMS[a].mx <= 1 for a in d):
            return ge0(_mkflat(f.c, tuple(sorted((a, q) for a, q in d.items() if q))))
    if len(f.t) >= 2 and all(ATOMS[a].mn >= 0 and ATOMS[a].mx <= 1 for a, _ in f.t) and \
            (len(f.t) <= 10 or len(set(abs(q) for _, q in f.t)) == len(f.t)):
        a, q = max(f.t, key=lambda e: abs(e[1])) if len(f.t) > 10 else f.t[0]
        rest = tuple(e for e in f.t if e[0] != a)
        return _join(_key(((a, 1),)), 1, ge0(_mkflat(f.c + q, rest)), ge0(_mkflat(f.c, rest)))
    g = 0
    for _, q in f.t:
        g = math.gcd(g, q)
    neg = f.t[0][1] < 0
    if neg:
        key = _key(tuple((a, -q // g) for a, q in f.t))
        # -K*g + c >= 0  <=>  K <= floor(c/g)  <=>  not K >= floor(c/g)+1
        return mk(key, f.c // g + 1, FALSE, TRUE)
    key = _key(tuple((a, q // g) for a, q in f.t))
    return mk(key, -(f.c // g), TRUE, FALSE)


def key_flat(key):
    return _mkflat(0, KEYS[key])


def _b2i(t):
    return ONE if t is TRUE else ZERO if t is FALSE else t


def b2i(b):
    return map1("b2i", _b2i, b)


def _i2b(t):
    if isinstance(t, BoolT):
        return t
    return ge0(f_add(t, const(-1)))


def i2b(v):
    """int (0/1) -> boolean"""
    return map1("i2b", _i2b, v)


def to_int(v):
    if isinstance(v, BoolT):
        return _b2i(v)
    return v


def isbool(v):
    while v.isnode:
        v = v.lo
    return isinstance(v, BoolT)


def _as_int(v):
    return b2i(v) if isbool(v) else v


def add(a, b):
    return map2("add", f_add, a, b)


def sub(a, b):
    return map2("sub", f_sub, a, b)


def mul(a, b):
    return map2("mul", f_mul, a, b)


def div(a, b):
    return map2("div", f_div, a, b)


def rem(a, b):
    return map2("rem", f_rem, a, b)


def band(a, b):
    if isbool(a) and isbool(b):
        return AND(a, b)
    return map2("and", f_and, a, b)


def bor(a, b):
    if isbool(a) and isbool(b):
        return OR(a, b)
    return map2("or", f_or, a, b)


def bxor(a, b):
    if isbool(a) and isbool(b):
        return XOR(a, b)
    return map2("xor", f_xor, a, b)


def GE(a, b):
    return map2("ge", lambda x, y: ge0(f_sub(x, y)), a, b)


def GT(a, b):
    return map2("gt", lambda x, y: ge0(f_sub(f_sub(x, y), ONE)), a, b)


def LT(a, b):
    return GT(b, a)


def LE(a, b):
    return GE(b, a)


def _eq(x, y):
    if isinstance(x, BoolT) or isinstance(y, BoolT):
        return TRUE if x is y else FALSE
    d = f_sub(x, y)
    if not d.t:
        return TRUE if d.c == 0 else FALSE
    if d.mn > 0 or d.mx < 0:
        return FALSE
    return AND(ge0(d), NOT(ge0(f_sub(d, ONE))))


def EQ(a, b):
    if a is b:
        return TRUE
    return map2("eq", _eq, a, b)


def NE(a, b):
    return NOT(EQ(a, b))


def shr_const(a, c):
    return map1(("shr", c), lambda t: f_shr(t, c), a)


def mod_const(a, n):
    return map1(("mod", n), lambda t: f_mod(t, n), a)


def wrap(a, signed, bits):
    """reduce to the representable range of an integer type"""
    if bits == 1:
        return a

    def w(t):
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            lo, hi = 0, (1 << bits) - 1
        if t.mn >= lo and t.mx <= hi:
            return t
        if signed:
            h = 1 << (bits - 1)
            return f_sub(f_mod(f_add(t, const(h)), bits), const(h))
        return f_mod(t, bits)
    return map1(("wrap", signed, bits), w, a)


_rng_memo = {}


def rng(v):
    """interval of an int graph"""
    if not v.isnode:
        if isinstance(v, BoolT):
            return (int(v.v), int(v.v))
        return (v.mn, v.mx)
    r = _rng_memo.get(v.id)
    if r is None:
        a, b = rng(v.hi), rng(v.lo)
        r = (min(a[0], b[0]), max(a[1], b[1]))
        _rng_memo[v.id] = r
    return r


def flat_rng_under(f, g):
    """interval of a flat under guard g (uses the thresholds g speaks about)"""
    if not f.t:
        return f.c, f.c
    mn, mx = f.mn, f.mx
    if g is TRUE:
        return mn, mx
    a0 = f.t[0][1]
    gg = 0
    for _, q in f.t:
        gg = math.gcd(gg, q)
    s = -1 if a0 < 0 else 1
    kt = tuple((a, q * s // gg) for a, q in f.t)
    key = _key_tab.get(kt)
    cand = []
    if key is not None:
        cand = sorted(KEY_T[key])
    # K in [klo, khi];  f = s*gg*K + c
    klo, khi = -INF, INF
    for T in reversed(cand):
        if AND(g, mk(key, T, FALSE, TRUE)) is FALSE:
            klo = T
            break
    for T in cand:
        if AND(g, mk(key, T, TRUE, FALSE)) is FALSE:
            khi = T - 1
            break
    sh = [(a, q) for a, q in f.t if abs(q) == gg and ATOMS[a].kind == "ext" and ATOMS[a].args[2] is None]
    if sh:
        # K = floor(e / 2^c) for the expanded e (see _ge0)
        a, q = max(sh)
        x, c, _ = ATOMS[a].args
        rest = _mkflat(0, tuple((b, p * s // gg) for b, p in f.t if b != a))
        if q * s > 0:
            e = f_add(x, f_scale(rest, 1 << c))
        else:
            e = f_sub(f_add(f_scale(rest, 1 << c), const((1 << c) - 1)), x)
        l, h = flat_rng_under(e, g)
        if l != -INF:
            klo = max(klo, l >> c)
        if h != INF:
            khi = min(khi, h >> c)
    if s > 0:
        mn = max(mn, klo * gg + f.c)
        mx = min(mx, khi * gg + f.c)
    else:
        mn = max(mn, -khi * gg + f.c)
        mx = min(mx, -klo * gg + f.c)
    return mn, mx


def expand_small(v, g, f, what, cap=300):
    """apply f(int constant) -> graph to an int graph, expanding flats over their range under g"""
    memo = {}

    def term(t, g):
        if not t.t:
            return f(t.c)
        mn, mx = flat_rng_under(t, g)
        if mx - mn > cap:
            raise Giveup("%s: range of %r too large (%s..%s)" % (what, t, mn, mx))
        r = f(mn)
        # chain from the top threshold down keeps same-key order
        out = f(mn)
        for k in range(mn + 1, mx + 1):
            out = ite(ge0(f_add(t, const(-k))), f(k), out)
        return out

    def go(v, g):
        if not v.isnode:
            k = (v.id, g.id)
            if k not in memo:
                memo[k] = term(v, g)
            return memo[k]
        c = mk(v.key, v.T, TRUE, FALSE)
        gh, gl = AND(g, c), AND(g, NOT(c))
        if gh is FALSE:
            return go(v.lo, gl)
        if gl is FALSE:
            return go(v.hi, gh)
        return ite(c, go(v.hi, gh), go(v.lo, gl))
    return go(restrict(v, g), g)


# ------------------------------------------------------------------ tables
TABLES = []
_table_tab = {}


def table_id(vals):
    vals = tuple(vals)
    t = _table_tab.get(vals)
    if t is None:
        t = len(TABLES)
        TABLES.append(vals)
        _table_tab[vals] = t
    return t


# ------------------------------------------------------------------ evaluation / display
def eval_flat(f, env):
    v = f.c
    for a, q in f.t:
        v += q * eval_atom(ATOMS[a], env)
    return v


def eval_atom(a, env):
    r = env.get(a.id)
    if r is not None:
        return r
    k = a.kind
    if k == "leaf":
        raise KeyError(a.args[0])
    if k == "ext":
        v = eval_flat(a.args[0], env) >> a.args[1]
        if a.args[2] is not None:
            v &= (1 << a.args[2]) - 1
    elif k == "mono":
        v = 1
        for i in a.args:
            v *= eval_atom(ATOMS[i], env)
    elif k == "and":
        v = eval_flat(a.args[0], env) & eval_flat(a.args[1], env)
    elif k in ("fdiv", "div"):
        x, y = eval_flat(a.args[0], env), eval_flat(a.args[1], env)
        if y == 0:
            raise ZeroDivisionError
        q = abs(x) // abs(y)
        v = q if (x >= 0) == (y >= 0) else -q
    elif k == "sel":
        tab = TABLES[a.args[0]]
        i = eval_flat(a.args[1], env)
        v = tab[i] if 0 <= i < len(tab) else 0
    elif k == "uf":
        # uninterpreted: a fixed pseudo-random function of its arguments
        vals = tuple(eval_flat(x, env) if isinstance(x, Flat) else x for x in a.args)
        rnd = random.Random(repr(vals))
        mn = a.mn if a.mn != -INF else -1000
        mx = a.mx if a.mx != INF else 1000
        v = rnd.randint(mn, mx)
    else:
        raise KeyError(k)
    env[a.id] = v
    return v


def eval_key(key, env):
    return sum(q * eval_atom(ATOMS[a], env) for a, q in KEYS[key])


def evaluate(v, env):
    while v.isnode:
        v = v.hi if eval_key(v.key, env) >= v.T else v.lo
    if isinstance(v, BoolT):
        return v.v
    return eval_flat(v, env)


def support(v, acc=None, seen=None):
    """leaf atoms of a graph"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.isnode:
            st.append(x.hi)
            st.append(x.lo)
            for a, _ in KEYS[x.key]:
                _asup(ATOMS[a], acc)
        elif isinstance(x, Flat):
            for a, _ in x.t:
                _asup(ATOMS[a], acc)
    return acc


def _asup(a, acc):
    if a.kind == "leaf":
        acc.add(a.id)
    elif a.kind == "mono":
        for i in a.args:
            _asup(ATOMS[i], acc)
    else:
        for x in a.args:
            if isinstance(x, Flat):
                for b, _ in x.t:
                    _asup(ATOMS[b], acc)


def show(v, depth=0):
    if not v.isnode:
        return repr(v)
    if depth > 5:
        return "..."
    return "[%r>=%d ? %s : %s]" % (key_flat(v.key), v.T, show(v.hi, depth + 1), show(v.lo, depth + 1))


def size(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.isnode:
            st += [x.hi, x.lo]
    return len(seen)


def pick_path(g, rnd=None):
    """one satisfying path of a boolean graph: list of (key, T, bool); None if FALSE"""
    path = []
    while g.isnode:
        opts = []
        if g.hi is not FALSE:
            opts.append((True, g.hi))
        if g.lo is not FALSE:
            opts.append((False, g.lo))
        if not opts:
            return None
        v, n = rnd.choice(opts) if rnd else opts[0]
        path.append((g.key, g.T, v))
        g = n
    return path if g is TRUE else None


def infeasible(g, cap=4000):
    """True when no path of the boolean graph g to TRUE respects the interval bounds its own tests put on the atoms"""
    if g is FALSE:
        return True
    n = [0]

    def rng(key, b):
        lo = hi = 0
        for a, q in KEYS[key]:
            A = ATOMS[a]
            l, h = b.get(a) or (A.mn, A.mx)
            if q < 0:
                l, h = h, l
            lo += q * l if abs(l) != INF else -INF
            hi += q * h if abs(h) != INF else INF
        return lo, hi

    def tighten(b, key, T, v):
        """bounds after the test key >= T came out as v; None when that cannot be"""
        b = dict(b)
        kt = KEYS[key]
        for a, q in kt:
            A = ATOMS[a]
            if A.mn == -INF or A.mx == INF:
                return b
        for _ in range(2):
            for a, q in kt:
                ol = oh = 0
                for c, p in kt:
                    if c != a:
                        l, h = b.get(c) or (ATOMS[c].mn, ATOMS[c].mx)
                        ol += min(p * l, p * h)
                        oh += max(p * l, p * h)
                l, h = b.get(a) or (ATOMS[a].mn, ATOMS[a].mx)
                if v:            # q*x >= T - oh
                    m = T - oh
                    if q > 0:
                        l = max(l, -((-m) // q))
                    else:
                        h = min(h, (-m) // (-q))
                else:            # q*x <= T - 1 - ol
                    m = T - 1 - ol
                    if q > 0:
                        h = min(h, m // q)
                    else:
                        l = max(l, -(m // (-q)))
                if l > h:
                    return None
                b[a] = (l, h)
        return b

    def go(x, b):
        if x is FALSE:
            return True
        if x is TRUE or not x.isnode:
            return False
        n[0] += 1
        if n[0] > cap:
            return False
        lo, hi = rng(x.key, b)
        if lo >= x.T:
            return go(x.hi, b)
        if hi < x.T:
            return go(x.lo, b)
        for v, y in ((True, x.hi), (False, x.lo)):
            if y is FALSE:
                continue
            nb = tighten(b, x.key, x.T, v)
            if nb is not None and not go(y, nb):
                return False
        return True
    return go(g, {})


def exhaust(g, cap=20000):
    """decide satisfiability of g by enumerating its leaves when they are few: (True, env), (False, None) or (None, None)"""
    import itertools
    leaves = sorted(support(g))
    n = 1
    doms = []
    for l in leaves:
        a = ATOMS[l]
        if a.mn == -INF or a.mx == INF:
            return None, None
        n *= a.mx - a.mn + 1
        if n > cap:
            return None, None
        doms.append(range(a.mn, a.mx + 1))
    for vals in itertools.product(*doms):
        env = dict(zip(leaves, vals))
        try:
            if evaluate(g, dict(env)):
                return True, env
        except ZeroDivisionError:
            return None, None
    return False, None


def find_witness(g, extra=(), seed=1, tries=400):
    """leaf assignment under which the boolean graph g evaluates to true (confirmed by evaluation),
    or None.  Only used to confirm a mismatch before it is reported."""
    if g is FALSE:
        return None
    rnd = random.Random(seed)
    leaves = set()
    support(g, leaves)
    for e in extra:
        support(e, leaves)
    leaves = sorted(leaves)

    def dom(a):
        mn = a.mn if a.mn != -INF else -(1 << 20)
        mx = a.mx if a.mx != INF else (1 << 20)
        return mn, mx
    for attempt in range(tries):
        path = pick_path(g, rnd if attempt else None)
        if path is None:
            return None
        lo, hi = {}, {}
        for l in leaves:
            lo[l], hi[l] = dom(ATOMS[l])
        multi = []
        bad = False
        for key, T, v in path:
            kt = KEYS[key]
            if len(kt) == 1 and kt[0][1] == 1 and ATOMS[kt[0][0]].kind == "leaf":
                a = kt[0][0]
                if v:
                    lo[a] = max(lo[a], T)
                else:
                    hi[a] = min(hi[a], T - 1)
                if lo[a] > hi[a]:
                    bad = True
            else:
                multi.append((key, T, v))
        if bad:
            continue
        for sub_try in range(30):
            env = {}
            for l in leaves:
                a, b = lo[l], hi[l]
                r = rnd.random()
                if a == b:
                    env[l] = a
                elif r < 0.25:
                    env[l] = a
                elif r < 0.45:
                    env[l] = b
                elif r < 0.8:
                    env[l] = rnd.randint(a, min(b, a + 40))
                else:
                    env[l] = rnd.randint(a, b)
            # repair multi-atom constraints by moving single leaves
            base = {l: env[l] for l in leaves}
            ok = False
            for rep in range(25):
                env = dict(base)
                viol = []
                try:
                    for key, T, v in multi:
                        val = eval_key(key, env)
                        if (val >= T) != v:
                            viol.append((key, T, v, val))
                except ZeroDivisionError:
                    break
                if not viol:
                    ok = True
                    break
                key, T, v, val = rnd.choice(viol)
                cands = [(a, q) for a, q in KEYS[key] if ATOMS[a].kind == "leaf"]
                sup = set()
                for a, q in KEYS[key]:
                    _asup(ATOMS[a], sup)
                if cands and rnd.random() < 0.8:
                    a, q = rnd.choice(cands)
                    need = (T - val) if v else (T - 1 - val)
                    step = -(-need // q) if need * q > 0 else need // q if q else 0
                    if q != 0:
                        step = math.ceil(need / q) if v == (q > 0) else math.floor(need / q)
                    nv = base[a] + step
                    base[a] = min(max(nv, lo[a]), hi[a])
                elif sup:
                    a = rnd.choice(sorted(sup))
                    base[a] = rnd.randint(lo[a], hi[a])
            if ok:
                env = dict(base)
                try:
                    if evaluate(g, env):
                        return {l: base[l] for l in leaves}
                except ZeroDivisionError:
                    pass
    return None


def env_names(env):
    return {ATOMS[a].args[0]: v for a, v in env.items() if ATOMS[a].kind == "leaf"}
