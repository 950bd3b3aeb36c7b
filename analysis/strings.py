"""Strings whose text is known up to numbers: a StrV may contain placeholder characters that stand for the decimal digits of a
symbolic number or for some text that is neither a number nor an option."""
from .terms import *
from .interp import *
from .models import *
from .models import FULL, TABLE, ANY

NUMS = {}         # placeholder character -> term
TEXTS = {}        # placeholder character -> name
MAXU = (1 << 64) - 1


def num(name, hi=MAXU):
    """one character standing for the digits of any number"""
    for c, t in NUMS.items():
        if t[1] == name:
            return c
    c = chr(0xE000 + len(NUMS))
    NUMS[c] = (leaf(name, 0, hi), name)
    return c


def text(name):
    """one character standing for some nonempty text without separators that is no number and no keyword"""
    for c, t in TEXTS.items():
        if t == name:
            return c
    c = chr(0xF000 + len(TEXTS))
    TEXTS[c] = name
    return c


def known(s):
    return not any(c in NUMS or c in TEXTS for c in s)


def show(s):
    return "".join("<%s>" % NUMS[c][1] if c in NUMS else "<%s>" % TEXTS[c] if c in TEXTS else c for c in s)


def sval(I, st, v):
    """the string behind a &str, String, &String or &&str; None when it is none"""
    v = I.force(v)
    for _ in range(4):
        if isinstance(v, StrV):
            return v
        if not isinstance(v, RefV):
            return None
        v = I.deref_read(st, v)
    return v if isinstance(v, StrV) else None


def number(s, ty):
    """(ok, term) of parsing as an unsigned number"""
    if len(s) == 1 and s in NUMS:
        return NUMS[s][0]
    if known(s):
        t = s[1:] if s[:1] == "+" else s
        if t.isascii() and t.isdigit() and int(t) <= (1 << ty["b"]) - 1:
            return const(int(t))
        return None
    if s[:1] == "+" and len(s) == 2 and s[1] in NUMS:
        return NUMS[s[1]][0]
    if any(c in NUMS for c in s) and not any(c in TEXTS or not (c.isdigit() or c in NUMS or c == "+") for c in s):
        raise Giveup("number next to digits")
    return None


def pat(I, st, v):
    """a char or string pattern"""
    v = I.force(v)
    if isinstance(v, TERM):
        if not is_const(v):
            raise Giveup("pattern")
        return chr(v.c)
    s = sval(I, st, v)
    if s is None or not known(s.s):
        raise Giveup("pattern")
    return s.s


def S(f):
    """a model that only applies to known strings in its first argument"""
    def g(I, st, x, a, dty):
        s = sval(I, st, a[0]) if a else None
        if s is None:
            return NotImplemented
        return f(I, st, x, a, dty, s.s)
    return g


def smodel(*names):
    def w(f):
        h = S(f)
        for n in names:
            for c in n[0].split("|"):
                TABLE[(c, n[1])] = h
        return f
    return w


OWN = "str|String|&str|&String|&&str"


@smodel((OWN, "to_string"), (OWN, "clone"), (OWN, "to_owned"), (OWN, "into"), (OWN, "deref"), (OWN, "as_str"), (OWN, "as_ref"), (OWN, "borrow"),
        (OWN, "from"), (OWN, "into_string"), (OWN, "into_boxed_str"), ("T", "to_string"), ("T", "into"), (OWN, "to_lowercase_"), ("SpecToString", "spec_to_string"))
def s_same(I, st, x, a, dty, s):
    return [(StrV(s), st)]


@smodel((OWN, "len"))
def s_len(I, st, x, a, dty, s):
    if not known(s):
        raise Giveup("length of a partly known string")
    return [(const(len(s.encode())), st)]


@smodel((OWN, "is_empty"))
def s_empty(I, st, x, a, dty, s):
    return [(const_b(s == ""), st)]


def const_b(b):
    return TRUE if b else FALSE


@smodel((OWN, "eq"), (OWN, "ne"), ("A", "eq"), ("&A", "eq"), ("A", "ne"), ("&A", "ne"))
def s_eq(I, st, x, a, dty, s):
    o = sval(I, st, a[1])
    if o is None:
        return NotImplemented
    r = s == o.s
    if not r and any(c in NUMS for c in s + o.s):
        import re
        f = lambda z: re.sub("[0-9]+", "#", "".join("0" if c in NUMS else c for c in z))
        if f(s) == f(o.s):
            raise Giveup("comparison of numbers in strings")
    return [(const_b(r if x["d"].endswith("eq") else not r), st)]


@smodel((OWN, "starts_with"))
def s_starts(I, st, x, a, dty, s):
    return [(const_b(s.startswith(pat(I, st, a[1]))), st)]


@smodel((OWN, "ends_with"))
def s_ends(I, st, x, a, dty, s):
    return [(const_b(s.endswith(pat(I, st, a[1]))), st)]


@smodel((OWN, "contains"))
def s_contains(I, st, x, a, dty, s):
    return [(const_b(pat(I, st, a[1]) in s), st)]


@smodel((OWN, "strip_prefix"))
def s_strip(I, st, x, a, dty, s):
    p = pat(I, st, a[1])
    return [(some(I, dty, StrV(s[len(p):])) if s.startswith(p) else none(dty), st)]


@smodel((OWN, "trim_start_matches"), (OWN, "trim_left_matches"))
def s_trimm(I, st, x, a, dty, s):
    p = pat(I, st, a[1])
    while p and s.startswith(p):
        s = s[len(p):]
    return [(StrV(s), st)]


@smodel((OWN, "trim"))
def s_trim(I, st, x, a, dty, s):
    return [(StrV(s.strip()), st)]


@smodel((OWN, "find"))
def s_find(I, st, x, a, dty, s):
    i = s.find(pat(I, st, a[1]))
    if i >= 0 and not known(s[:i]):
        raise Giveup("position in a partly known string")
    return [(none(dty) if i < 0 else some(I, dty, const(len(s[:i].encode()))), st)]


def cut(s, lo, hi):
    """byte range of s; None if out of range or inside a character"""
    pos, n = {0: 0}, 0
    for i, c in enumerate(s):
        if c in NUMS or c in TEXTS:
            # unknown length: only positions before it are known
            if hi is None and lo in pos:
                return s[pos[lo]:]
            if hi in pos and lo in pos:
                break
            raise Giveup("slice of a partly known string")
        n += len(c.encode())
        pos[n] = i + 1
    if hi is None:
        hi = n
    if lo not in pos or hi not in pos or lo > hi:
        return None
    return s[pos[lo]:pos[hi]]


def rng(I, x, idx):
    nm = "::" + next((k for k in ("RangeFull", "RangeFrom", "RangeToInclusive", "RangeTo", "RangeInclusive", "Range") if k in x["n"]), "")
    if isinstance(idx, Agg):
        f = [I.need_term(t) for t in idx.f]
        if not all(is_const(t) for t in f):
            raise Giveup("string range")
        f = [t.c for t in f]
        if nm.endswith("::RangeFull"):
            return 0, None
        if nm.endswith("::RangeFrom"):
            return f[0], None
        if nm.endswith("::RangeTo"):
            return 0, f[0]
        if nm.endswith("::Range"):
            return f[0], f[1]
    raise Giveup("string range " + nm)


@smodel((OWN, "index"))
def s_index(I, st, x, a, dty, s):
    lo, hi = rng(I, x, I.force(a[1]))
    r = cut(s, lo, hi)
    if r is None:
        I.panic(st, "string index out of range or inside a character")
        return []
    return [(StrV(r), st)]


@smodel((OWN, "get"))
def s_get(I, st, x, a, dty, s):
    lo, hi = rng(I, x, I.force(a[1]))
    r = cut(s, lo, hi)
    return [(none(dty) if r is None else some(I, dty, StrV(r)), st)]


@smodel((OWN, "split_at"))
def s_split_at(I, st, x, a, dty, s):
    n = I.need_term(I.force(a[1]))
    if not is_const(n):
        raise Giveup("split_at")
    l, r = cut(s, 0, n.c), cut(s, n.c, None)
    if l is None or r is None:
        I.panic(st, "string index out of range or inside a character")
        return []
    return [(Agg((StrV(l), StrV(r))), st)]


def pieces(I, st, l):
    q = SeqV([(TRUE, StrV(p), None) for p in l], None, True)
    p = I.alloc(st, q)
    return IterV(RefV([(TRUE, p)]), ZERO, const(len(l)), "val")


@smodel((OWN, "split"))
def s_split(I, st, x, a, dty, s):
    return [(pieces(I, st, s.split(pat(I, st, a[1]))), st)]


@smodel((OWN, "split_whitespace"))
def s_splitw(I, st, x, a, dty, s):
    return [(pieces(I, st, s.split()), st)]


@smodel((OWN, "splitn"))
def s_splitn(I, st, x, a, dty, s):
    n = I.need_term(I.force(a[1]))
    if not is_const(n) or n.c == 0:
        raise Giveup("splitn")
    return [(pieces(I, st, s.split(pat(I, st, a[2]), n.c - 1)), st)]


@smodel((OWN, "split_once"))
def s_once(I, st, x, a, dty, s):
    p = pat(I, st, a[1])
    i = s.find(p)
    return [(none(dty) if i < 0 else some(I, dty, Agg((StrV(s[:i]), StrV(s[i + len(p):])))), st)]


@smodel((OWN, "chars"))
def s_chars(I, st, x, a, dty, s):
    if not known(s):
        raise Giveup("characters of a partly known string")
    q = SeqV([(TRUE, const(ord(c)), None) for c in s], None, True)
    p = I.alloc(st, q)
    return [(IterV(RefV([(TRUE, p)]), ZERO, const(len(s)), "val"), st)]


@smodel((OWN, "from_str"), (OWN, "parse"), ("usize", "from_str"), ("u64", "from_str"), ("u32", "from_str"), ("u16", "from_str"), ("u8", "from_str"))
def s_parse(I, st, x, a, dty, s):
    ty = I.p.tys[I.p.tys[dty]["args"][0]]
    if ty["k"] != "int" or ty["s"]:
        raise Giveup("parse to %s" % ty["k"])
    v = number(s, ty)
    if v is None:
        return [(EnumV(dty, ONE, {1: (Opaque(("parse error",)),), 0: ()}), st)]
    if ty["b"] < 64 and not is_const(v):
        raise Giveup("parse of a symbolic number to a small type")
    return [(EnumV(dty, ZERO, {0: (v,)}), st)]


def collect(I, st, x, a, dty):
    """an iterator that is a plain position range, collected into a Vec"""
    it = I.force(a[0])
    if not isinstance(it, IterV) or it.mode not in ("val",) or I.p.tys[dty]["k"] != "adt" or I.p.tys[dty]["n"] != "alloc::vec::Vec":
        return NotImplemented
    if not is_const(it.pos) or not is_const(it.end):
        return NotImplemented
    v = I.deref_read(st, it.ptr)
    if not isinstance(v, SeqV):
        return NotImplemented
    return [(SeqV(v.items[it.pos.c:it.end.c], None, True), st)]


model("collect")(collect)


def iskip(I, st, x, a, dty):
    it = I.force(a[0])
    n = I.force(a[1])
    if not isinstance(it, IterV) or not is_const(it.pos) or not is_const(it.end) or not isinstance(n, TERM) or not is_const(n):
        return NotImplemented
    return [(IterV(it.ptr, const(min(it.end.c, it.pos.c + n.c)), it.end, it.mode, it.extra), st)]


model("skip")(iskip)


def icount(I, st, x, a, dty):
    it = I.force(a[0])
    if not isinstance(it, IterV) or it.mode not in ("val", "ref"):
        return NotImplemented
    return [(sub(it.end, it.pos), st)]


model("count")(icount)


# ---- lazily initialised statics
def lazy_get(I, st, x, a, dty):
    r = I.force(a[0])
    key = ("lazy", r.alts[0][1].key() if isinstance(r, RefV) else str(r))
    o = ("lazyobj", str(key))
    if o not in st.mem:
        f = I.force(a[1])
        if isinstance(f, RefV):
            f = I.deref_read(st, f)
        if not isinstance(f, FnV):
            raise Giveup("lazy initialiser")
        v, s2 = I.call_fn(st, f.i, [])
        if s2 is None:
            return []
        st = s2
        st.mem[o] = v
    return [(RefV([(TRUE, Ptr(o))]), st)]


TABLE[("Lazy", "get")] = lazy_get


# ---- rationals: kept unreduced
def ratio_new(I, st, x, a, dty):
    n, d = I.need_term(a[0]), I.need_term(a[1])
    bad = AND(st.g, EQ(d, ZERO))
    if bad is not FALSE:
        I.panics.append((bad, "ratio with denominator zero", I.where()))
        st.g = AND(st.g, NOT(EQ(d, ZERO)))
        if st.g is FALSE:
            return []
    return [(Agg((n, d)), st)]


TABLE[("Ratio", "new")] = ratio_new
TABLE[("Ratio", "from_integer")] = lambda I, st, x, a, dty: [(Agg((I.need_term(a[0]), ONE)), st)]


def ratio_part(k):
    def f(I, st, x, a, dty):
        r = I.force(a[0])
        if not isinstance(r, RefV):
            return NotImplemented
        return [(RefV([(g, Ptr(p.obj, p.path + (("f", k),), p.win)) for g, p in r.alts]), st)]
    return f


TABLE[("Ratio", "numer")] = ratio_part(0)
TABLE[("Ratio", "denom")] = ratio_part(1)


def enum_eq(I, st, x, a, dty):
    """comparison of two values of an enumeration without contents"""
    if len(a) != 2:
        return NotImplemented
    v = []
    for y in a:
        y = I.force(y)
        for _ in range(3):
            if isinstance(y, RefV):
                y = I.deref_read(st, y)
        if not isinstance(y, EnumV) or any(y.pay.values()):
            return NotImplemented
        v.append(y)
    c = EQ(v[0].d, v[1].d)
    return [(NOT(c) if x["d"].endswith("ne") else c, st)]


for _c in ("ErrorKind",):
    for _m in ("eq", "ne"):
        TABLE[(_c, _m)] = enum_eq
