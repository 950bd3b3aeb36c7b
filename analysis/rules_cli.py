"""Command line, frame input, and the program's dealings with the outside world."""
from .core import *
from .wire import *
from .mir import short
from . import models, strings
from .models import none
from .strings import num, text, show, NUMS

NAMES = {"help": "h", "input": "i", "output": "o", "frames": "fr", "size": "s", "framerate": "r"}


def strvec(l):
    return lambda I, st: SeqV([(TRUE, StrV(s), None) for s in l], None, True)


# ------------------------------------------------------------------ what the command line means
def oracle(args):
    """(settings, None) or (None, 'error' | 'help'), where settings map a field to what it must hold"""
    out = {}
    ok = TRUE
    a = list(args)

    def number(s):
        if len(s) == 1 and s in NUMS:
            return NUMS[s][0]
        t = s[1:] if s[:1] == "+" else s
        if t.isascii() and t.isdigit() and int(t) < 1 << 64:
            return const(int(t))
        return None
    while a:
        n = a.pop(0)
        if n.startswith("--"):
            o = n[2:]
            o = o if o in NAMES else None
        elif n.startswith("-"):
            o = {v: k for k, v in NAMES.items()}.get(n[1:])
        else:
            o = None
        if o is None:
            return None, "error", ok
        if o == "help":
            return None, "help", ok
        if not a:
            return None, "error", ok
        v = a.pop(0)
        if o in ("input", "output"):
            out[o] = v
        elif o == "frames":
            t = number(v)
            if t is None:
                return None, "error", ok
            out[o] = t
        elif o == "size":
            p = [number(x) for x in v.split("x")]
            if len(p) != 2 or None in p:
                return None, "error", ok
            out["frame_width"], out["frame_height"] = p
        else:
            p = [number(x) for x in v.split("/")]
            if len(p) not in (1, 2) or None in p:
                return None, "error", ok
            if len(p) == 2:
                ok = AND(ok, NE(p[1], ZERO))
                if ok is FALSE:
                    return None, "error", TRUE
            out[o] = (p[0], p[1] if len(p) == 2 else ONE)
    return out, None, ok


def vectors(thorough):
    N, M, K, L = num("N"), num("M"), num("K"), num("L")
    P, Q = text("path"), text("other path")
    good = {"input": [P, "stdin", "-o", "-"], "output": [P, "stdout", "--size"], "frames": [K, "0", "18446744073709551615"],
            "size": [N + "x" + M, "176x144", "0x0"], "framerate": [N, N + "/" + M, "30000/1001"]}
    bad = {"frames": ["", P, K + "x", "-5", "18446744073709551616", "1.5", " 5", "5 ", "0x10"],
           "size": ["", P, N, N + "x", "x" + M, N + "x" + M + "x" + K, N + "X" + M, "1 x2", "-1x2", "x", N + "x" + P, N + "xx" + M],
           "framerate": ["", P, N + "/", "/" + M, N + "/" + M + "/" + K, "/", "30.5", "-30", N + "/" + P, "30/0", N + "/0", N + ":" + M]}
    out = [[]]
    full = lambda o: ("--" + o, "-" + NAMES[o])
    for o, vs in good.items():
        for v in vs:
            for f in full(o):
                out.append([f, v])
    # every option before and after every other one, the same one twice
    simple = {"input": P, "output": Q, "frames": K, "size": N + "x" + M, "framerate": N + "/" + L}
    for a in simple:
        for b in simple:
            v = simple[b] if a != b else {"input": Q, "output": P, "frames": L, "size": M + "x" + N, "framerate": M}[b]
            out.append([full(a)[0], simple[a], full(b)[1], v])
            if thorough:
                for c in simple:
                    out.append([full(a)[1], simple[a], full(b)[0], v, full(c)[1], simple[c]])
    allo = list(simple)
    for k in range(5):
        out.append([x for j in range(5) for x in (full(allo[(j + k) % 5])[(j + k) & 1], simple[allo[(j + k) % 5]])])
    out.append(["-r", N, "-i", P, "-o", Q, "-s", N + "x" + M])
    for o, vs in bad.items():
        for v in vs:
            out.append([full(o)[0], v])
            out.append(["-i", P, full(o)[1], v, "-o", Q])
    for o in good:
        for f in full(o):
            out.append([f])
            out.append(["-i", P, f])
    for x in ("", "-", "--", "---", "\u00e9", "-\u00e9", "--\u00e9", "x", "-x", "--x", "--i", "-input", "i", "input", "--INPUT", "-I", " -i", "--input ", "-frames", "--fr", "-f", "--frame", "--sizes",
              "\u00e9-", "-i=", "--input=x", "-\U0001f600", P):
        out.append([x])
        out.append([x, P])
        out.append(["-i", P, x, Q])
    for f in full("help"):
        out.append([f])
        out.append([f, P])
        out.append(["-i", P, f, "-o"])
        out.append(["-i", f])
    return out


FIELDS = ("input", "output", "frame_width", "frame_height", "framerate", "frames")


def config_fields(ctx, v):
    for i, t in enumerate(ctx.p.tys):
        if t["k"] == "adt" and short(t.get("n", "")).endswith("Config") and t.get("v") and len(t["v"]) == 1:
            fs = [f[0] for f in t["v"][0]["f"]]
            if all(f in fs for f in FIELDS):
                return {f: v.f[fs.index(f)] for f in FIELDS}
    raise Missing("configuration")


def is_some(ctx, nm, I, v, g, where, what):
    v = I.force(v)
    if not isinstance(v, EnumV):
        raise Giveup("option field %r" % (v,))
    ctx.same(nm, v.d, ONE, g, where, what + ": is set")
    return v.pay.get(1)


def expect(ctx, nm, r, cfg, want, g, default):
    I = r.I
    for f in FIELDS:
        v = I.force(cfg[f])
        what = "%s: %s" % (nm, f)
        w = want.get(f)
        if w is None:
            w = default.get(f)
        if w is None:
            if default.get("*") == "none":
                if isinstance(v, EnumV):
                    ctx.same(nm + ":" + f, v.d, ZERO, g, r.where, what + " stays unset")
                else:
                    raise Giveup("%r" % (v,))
            else:
                # must be what it was before
                if isinstance(v, EnumV):
                    ctx.same(nm + ":" + f, v.d, leaf("config.%s.#" % f, 0, 1), g, r.where, what + " is left alone")
            continue
        p = is_some(ctx, nm + ":" + f, I, v, g, r.where, what)
        if p is None:
            continue
        p = I.force(p[0]) if p else None
        if isinstance(w, str):
            if isinstance(p, StrV):
                if p.s == w:
                    ctx.passed(nm + ":" + f)
                else:
                    ctx.never(nm + ":" + f, g, r.where, "%s: holds %r instead of %r" % (what, show(p.s), show(w)))
            elif g is not FALSE:
                ctx.undec(nm + ":" + f, "holds %r" % (p,))
        elif isinstance(w, tuple):
            if not isinstance(p, Agg):
                raise Giveup("%s holds %r" % (f, p))
            ctx.same(nm + ":" + f, I.need_term(p.f[0]), w[0], g, r.where, what + " (numerator)")
            ctx.same(nm + ":" + f + ":d", I.need_term(p.f[1]), w[1], g, r.where, what + " (denominator)")
        else:
            ctx.same(nm + ":" + f, I.need_term(p), w, g, r.where, what)


def c20(ctx):
    def blank(I, st):
        """a configuration in which nothing is set"""
        for k, t in enumerate(ctx.p.tys):
            if t["k"] == "adt" and t.get("v") and len(t["v"]) == 1 and all(f in [x[0] for x in t["v"][0]["f"]] for f in FIELDS):
                return RefV([(TRUE, I.alloc(st, Agg([none(x[1]) for x in t["v"][0]["f"]])))])
        raise Missing("configuration")
    ctx.rule("options", "every argument vector of the family gives the settings, the rejection or the help text the documentation describes; numbers in it are symbolic")

    def one(args):
        nm = "arguments " + " ".join("'%s'" % show(a) if a == "" or " " in a else show(a) for a in args)
        want, how, ok = oracle(args)
        r = Run(ctx, "CommandOption::parse", [strvec(args), blank], TRUE, maxrec=20)
        ctx.count("argument vectors")
        r.no_panic(nm + ":panic", nm)
        fin = FALSE
        for g, code, w in r.I.exits:
            fin = OR(fin, g)
            if how == "help":
                ctx.same(nm + ":status", r.I.need_term(code) if not isinstance(code, str) else ONE, ZERO, g, w, nm + ": exit status of the help text")
        if how == "help":
            ctx.never(nm + ":help", AND(ok, NOT(fin)), r.where, nm + ": does not show the help text and end")
            return
        ctx.never(nm + ":exit", fin, r.where, nm + ": ends the program in the parser")
        if r.out is None:
            if fin is FALSE and not r.I.panics:
                raise Giveup("does not return")
            return
        d = r.I.force(r.ret)
        if not isinstance(d, EnumV):
            raise Giveup("result %r" % (d,))
        if how == "error":
            ctx.same(nm, d.d, ONE, AND(r.g, ok), r.where, nm + ": must be rejected (1)")
            return
        ctx.same(nm, d.d, b2i(NOT(ok)), r.g, r.where, nm + ": accepted (0) or rejected (1)")
        expect(ctx, nm, r, config_fields(ctx, r.deref(1)), want, AND(r.g, ok), {"*": "none"})
    for l in vectors(ctx.thorough):
        ctx.ob("arguments " + " ".join(map(show, l)), one, l)

    def dflt():
        i = [k for k in ctx.p.find("default") if "Config" in ctx.p.inst[k]["n"] and ctx.p.inst[k]["local"]]
        if len(i) != 1:
            raise Missing("default configuration")
        holder = []

        def cfg(I, st):
            v, s2 = I.call_fn(st, i[0], [])
            st.mem.update(s2.mem)
            holder.append(v)
            return RefV([(TRUE, I.alloc(st, v))])
        r = Run(ctx, "CommandOption::init_config", [cfg], TRUE, maxrec=20)
        r.returns("defaults:returns", "defaults", TRUE)
        r.no_panic("defaults:panic", "defaults")
        expect(ctx, "defaults", r, config_fields(ctx, r.deref(0)), {}, r.g, {"*": "none", "frames": const(4294967295), "framerate": (const(30), ONE)})
    ctx.rule("defaults", "nothing is set except the documented defaults")
    ctx.ob("defaults", dflt)

    def valid():
        r = Run(ctx, "CommandOption::validate_config", ["config"], TRUE, ranges={"config.framerate.0.denom": (1, (1 << 64) - 1)}, default_usize=(0, (1 << 64) - 1))
        r.returns("validation:returns", "validation", TRUE)
        L = lambda n, hi=1, lo=0: leaf("config." + n, lo, hi)
        big = (1 << 64) - 1
        ok = TRUE
        for f in FIELDS:
            ok = AND(ok, EQ(L(f + ".#"), ONE))
        for f in ("frame_width", "frame_height"):
            v = L(f + ".0", big)
            ok = AND(ok, AND(GE(v, ONE), LT(v, const(8192))))
        ok = AND(ok, GE(L("framerate.0.numer", big), ONE))
        d = r.I.force(r.ret)
        ctx.same("validation", d.d, b2i(NOT(ok)), r.g, r.where, "configuration accepted (0) or rejected (1)")
    ctx.rule("validation", "accepted exactly when input, output, frame count, size from 1 to 8191 and a positive frame rate are present")
    ctx.ob("validation", valid)


# ------------------------------------------------------------------ frame buffers and reading
class Vecs:
    """remembers the lengths of vectors created with a symbolic length"""

    def __init__(self):
        self.v = {}

    def from_elem(self, I, st, fi, args, dty):
        n = I.need_term(args[1], "vec length")
        if is_const(n) and n.c < 300:
            return NotImplemented
        k = ("symvec", len(self.v))
        self.v[k] = (n, I.force(args[0]))
        return [(Opaque(k, dty), st)]

    def length(self, I, v):
        v = I.force(v)
        if isinstance(v, Opaque) and v.key in self.v:
            return self.v[v.key][0]
        if isinstance(v, SeqV):
            return v.length()
        raise Giveup("length of %r" % (v,))

    def elem(self, I, v):
        v = I.force(v)
        if isinstance(v, Opaque) and v.key in self.v:
            return self.v[v.key][1]
        if isinstance(v, SeqV) and v.items:
            return v.items[0][1]
        raise Giveup("elements of %r" % (v,))


def half(x):
    return div(add(x, ONE), const(2))


def plane_sizes(w, h):
    return mul(w, h), mul(half(w), half(h)), mul(half(w), half(h))


def frame_fields(ctx, v, names):
    for t in ctx.p.tys:
        if t["k"] == "adt" and t.get("v") and len(t["v"]) == 1:
            fs = [f[0] for f in t["v"][0]["f"]]
            if all(n in fs for n in names) and len(fs) == len(v.f):
                return [v.f[fs.index(n)] for n in names]
    raise Missing("frame buffers")


def c21(ctx):
    ctx.rule("buffers", "the planes of a new frame hold width x height and twice half by half (rounded up) samples, the block records one entry per 4x4 unit of the whole frame")

    def bufs(w, h, nm):
        V = Vecs()
        r = Run(ctx, "Frame::new", ["kind", lambda I, st: w, lambda I, st: h], TRUE, hooks={"ext:from_elem": V.from_elem})
        r.returns(nm + ":returns", nm, TRUE)
        f = frame_fields(ctx, r.I.force(r.ret), ("original_y", "original_u", "original_v", "mis", "frame_width", "frame_height"))
        for v, e, n in zip(f, plane_sizes(w, h), ("luma", "first chroma", "second chroma")):
            ctx.same("%s:%s" % (nm, n), V.length(r.I, v), e, r.g, r.where, "%s plane of %s" % (n, nm))
        for k, x, n in ((3, h, "rows"), (None, w, "columns")):
            m = f[3] if k else V.elem(r.I, f[3])
            ctx.same("%s:%s" % (nm, n), V.length(r.I, m), mul(const(2), div(add(x, const(7)), const(8))), r.g, r.where, "%s of block records of %s" % (n, nm))
        ctx.same(nm + ":width", r.I.need_term(f[4]), w, r.g, r.where, "recorded width of " + nm)
        ctx.same(nm + ":height", r.I.need_term(f[5]), h, r.g, r.where, "recorded height of " + nm)
        ctx.count("frame sizes")
    ctx.ob("buffers, any size", bufs, leaf("width", 1, 8191), leaf("height", 1, 8191), "a frame of any size")
    for w, h in ((1, 1), (2, 2), (3, 5), (7, 8), (8, 7), (9, 9), (15, 17), (16, 16), (176, 144), (177, 143), (352, 288), (1920, 1080), (8191, 8191), (1, 8191), (8190, 3)):
        ctx.ob("buffers %dx%d" % (w, h), bufs, const(w), const(h), "a frame of %dx%d" % (w, h))

    ctx.rule("records", "the records of a new frame have room for every 64x64 area of its superblocks and every restoration unit of the smallest unit size, in all planes")

    def room(w, h):
        from .rules_tile import new_frame
        nm = "records of a frame of %dx%d" % (w, h)
        I = Interp(ctx.p)
        v, st, ty = new_frame(ctx, I, State({}, TRUE), w, h)
        F = Nav(I, st, v, ty)
        where = short(ctx.p.inst[ctx.fn("Frame::new")]["n"])

        def least(what, got, need):
            ctx.never("%s:%s" % (nm, what), LT(got, const(need)), where, "%s: less room than the %d %s need" % (nm, need, what))
        least("rows of 64x64 areas", F.cdef_idx.length, 32 * ((h + 127) // 128) - 15)
        least("columns of 64x64 areas", F.cdef_idx[0].length, 32 * ((w + 127) // 128) - 15)
        for n in ("lr_type", "lr_wiener", "lr_sgr_set", "lr_sgr_xqd"):
            a = getattr(F, n)
            least("planes of " + n, a.length, 3)
            for p in range(3):
                least("unit rows of %s, plane %d" % (n, p), a[p].length, max((h + 32) // 64, 1))
                least("unit columns of %s, plane %d" % (n, p), a[p][0].length, max((w + 32) // 64, 1))
        for p in range(3):
            least("passes of lr_wiener", F.lr_wiener[p][0][0].length, 2)
            least("coefficients of lr_wiener", F.lr_wiener[p][0][0][0].length, 3)
            least("weights of lr_sgr_xqd", F.lr_sgr_xqd[p][0][0].length, 2)
        ctx.count("frame sizes")
    for w, h in ((1, 1), (1, 40), (31, 33), (32, 31), (64, 64), (65, 63), (95, 96), (96, 95), (128, 129), (129, 128), (160, 224), (352, 288), (255, 1), (1, 257)):
        ctx.ob("records %dx%d" % (w, h), room, w, h)

    ctx.rule("reading", "reading fills the whole buffer with the next bytes in order, whatever pieces the input delivers, or reports an error")

    def rd(n, plan=None):
        if plan is None:
            try:
                return rd(n, (None, None, None))
            except Piecewise:
                if n > 300:
                    return
                # the code reads piece by piece: every way to deliver the bytes, to end and to fail
                for avail in (range(0, n + 2) if n <= 8 else (0, 1, n - 1, n, n + 1)):
                    for pieces in deliveries(min(n, avail)):
                        for err in [None] + list(range(len(pieces) + 1)):
                            rd(n, (avail, pieces, err))
                return
        i = [k for k in ctx.p.find("read_to_vec")]
        if not i:
            raise Missing("read_to_vec")
        nm = "reading %d samples" % n
        if plan[0] is not None:
            nm += ", %d bytes there, delivered as %s%s" % (plan[0], "+".join(map(str, plan[1])) or "nothing", "" if plan[2] is None else ", failure at read %d" % (plan[2] + 1))
        S = Source(n, *plan)

        def vec(I, st):
            return RefV([(TRUE, I.alloc(st, SeqV([(TRUE, leaf("old %d" % k, 0, 255), None) for k in range(n)], None, True)))])
        r = Run(ctx, "read_to_vec", ["self", vec], TRUE, i=i[0], hooks=S.hooks, max_iter=200 + 2 * n)
        if not S.used and n > 0:
            raise Giveup("no read operation found")
        r.no_panic(nm + ":panic", nm)
        d = r.I.force(r.ret)
        if not isinstance(d, EnumV):
            raise Giveup("result %r" % (d,))
        good = AND(r.g, EQ(d.d, ZERO))
        v = r.deref(1)
        its = [(g, r.I.need_term(x), s) for g, x, s in v.items]
        ctx.same_list(nm + ":samples", its, [(TRUE, S.byte(k), "byte %d of the input" % k) for k in range(n)], good, r.where, nm)
        ctx.same(nm + ":consumed", S.position(r.I, r.out), const(n), good, r.where, nm + ": bytes taken from the input")
        ctx.never(nm + ":end of input", AND(good, S.ended(n)), r.where, nm + ": success although the input ended early")
        ctx.never(nm + ":error", AND(good, S.failed(r.I, r.out)), r.where, nm + ": success although the input failed")
        ctx.never(nm + ":refused", AND(AND(r.g, EQ(d.d, ONE)), AND(NOT(S.failed(r.I, r.out)), NOT(S.ended(n)))), r.where, nm + ": fails although the input was fine")
        ctx.count("read sizes")
    for n in ctx.near(["read_to_vec"], (0, 1, 2, 3, 4, 8, 9, 15, 17, 33, 130, 257, 1025) if not ctx.thorough else list(range(0, 10)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097], 5000):
        ctx.ob("reading %d" % n, rd, n)
    main_rules(ctx, "input")


class Piecewise(Exception):
    pass


def deliveries(n):
    """ways to deliver n bytes: all of them for few, otherwise at once, one by one, and in pieces of typical sizes"""
    if n <= 8:
        return compositions(n)
    r = [[n], [1, n - 1], [n - 1, 1], [n // 2, n - n // 2]]
    if n <= 64:
        r.append([1] * n)
    for k in (7, 8, 64):
        if k < n:
            r.append([k] * (n // k) + ([n % k] if n % k else []))
    return r


def compositions(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in compositions(n - k)]


class Source:
    """stands for the input: bytes in order, delivered in pieces of any size, ending or failing anywhere"""

    def __init__(self, n, avail=None, pieces=None, err=None):
        self.n = n
        self.pieces, self.bad = pieces, err
        self.obj = ("io", "source")
        self.err = ("io", "failed")
        self.avail = leaf("bytes in the input", 0, n + 2) if avail is None else const(avail)
        self.calls = 0
        self.used = False

    def byte(self, k):
        return leaf("input byte %d" % k, 0, 255)

    def position(self, I, st):
        return st.mem.get(self.obj, ZERO)

    def failed(self, I, st):
        return st.mem.get(self.err, FALSE)

    def ended(self, n):
        return LT(self.avail, const(n))

    def at(self, pos, j):
        lo, hi = T.rng(pos)
        out = self.byte(int(hi) + j)
        for k in range(int(hi) - 1, int(lo) - 1, -1):
            out = ite(EQ(pos, const(k)), self.byte(k + j), out)
        return out

    def put(self, I, st, buf, pos, cnt, byte=None):
        """store the next cnt bytes at the front of the buffer"""
        for (g, p) in buf.alts:
            ln = I.len_of(st, p.obj, p.path) if p.win is None else p.win[1]
            off = ZERO if p.win is None else p.win[0]
            lo, hi = I.idx_range(ln, st.g)
            for j in range(int(hi)):
                c = AND(AND(g, GT(ln, const(j))), GT(cnt, const(j)))
                if c is FALSE:
                    continue
                q = RefV([(TRUE, Ptr(p.obj, p.path + (("i", add(off, const(j))),)))])
                old = I.deref_read(st, q)
                I.deref_write(st, q, I.merge_val(c, byte(j) if byte else self.at(pos, j), old))

    def blen(self, I, st, buf):
        out = None
        for (g, p) in buf.alts:
            ln = I.len_of(st, p.obj, p.path) if p.win is None else p.win[1]
            out = ln if out is None else ite(g, ln, out)
        return out

    def fail(self, st):
        self.calls += 1
        e = i2b(leaf("input error %d" % self.calls, 0, 1)) if self.pieces is None else TRUE if self.bad == self.calls - 1 else FALSE
        st.mem[self.err] = OR(st.mem.get(self.err, FALSE), AND(st.g, e))
        return e

    def read_exact(self, I, st, fi, args, dty):
        self.used = True
        buf = I.force(args[1])
        n = self.blen(I, st, buf)
        pos = st.mem.get(self.obj, ZERO)
        e = self.fail(st)
        eof = GT(add(pos, n), self.avail)
        bad = OR(e, eof)
        self.put(I, st, buf, pos, ite(bad, ZERO, n))
        if bad is not FALSE:
            # what a failed read leaves in the buffer is not specified
            self.put(I, st, buf, pos, ite(bad, n, ZERO), lambda j: leaf("left by failed read %d: byte %d" % (self.calls, j), 0, 255))
        st.mem[self.obj] = ite(bad, pos, add(pos, n))
        return [(EnumV(dty, b2i(bad), {0: (UNIT,), 1: (Opaque(("io error", self.calls)),)}), st)]

    def read(self, I, st, fi, args, dty):
        self.used = True
        buf = I.force(args[1])
        n = self.blen(I, st, buf)
        if self.pieces is None:
            raise Piecewise()
        pos = st.mem.get(self.obj, ZERO)
        e = self.fail(st)
        k = const(self.pieces[self.calls - 1]) if self.calls <= len(self.pieces) else n
        # at most what was asked for and what is there, nothing only at the end or for an empty buffer
        k = ite(GT(k, n), n, k)
        left = sub(self.avail, pos)
        k = ite(GT(k, left), left, k)
        k = ite(AND(EQ(k, ZERO), AND(GT(n, ZERO), GT(left, ZERO))), ONE, k)
        self.put(I, st, buf, pos, ite(e, ZERO, k))
        st.mem[self.obj] = ite(e, pos, add(pos, k))
        return [(EnumV(dty, b2i(e), {0: (k,), 1: (Opaque(("io error", self.calls)),)}), st)]

    @property
    def hooks(self):
        return {"ext:read_exact": self.read_exact, "ext:read": self.read}


# ------------------------------------------------------------------ the whole program
EOF_KIND = "UnexpectedEof"


class World(Vecs):
    """stands for everything outside the program: arguments, files, standard streams, exit status"""

    def __init__(self, ctx, args):
        Vecs.__init__(self)
        self.ctx, self.args = ctx, args
        self.log = ("io", "log")
        self.ev = []               # kind, details
        self.ends = []             # (guard, status term, log items, where)
        self.fixed = None          # outcome of every read, where it is not left open

    # every event is appended to the log of the path it happens on
    def note(self, I, st, kind, **kw):
        k = len(self.ev)
        self.ev.append(dict(kw, kind=kind, where=I.where()))
        old = st.mem.get(self.log)
        st.mem[self.log] = SeqV((list(old.items) if old else []) + [(st.g, const(k), None)], None, True)
        return self.ev[-1]

    def items(self, st):
        old = st.mem.get(self.log)
        return [(g, self.ev[x.c]) for g, x, _ in old.items] if old else []

    def count(self, st, *kinds):
        """how many events of these kinds lie before, as a term"""
        n = ZERO
        for g, e in self.items(st):
            if e["kind"] in kinds:
                n = add(n, b2i(g) if g is not TRUE else ONE)
        return n

    def by_position(self, st, n, name, hi):
        """an outcome that depends only on how many such events there were before"""
        lo, top = T.rng(n)
        out = None
        for k in range(int(top), int(lo) - 1, -1):
            c = EQ(n, const(k))
            if AND(st.g, c) is FALSE:
                continue
            l = leaf("%s %d" % (name, k), 0, hi) if self.fixed is None or name != "read result" else const(self.fixed(k))
            out = l if out is None else ite(c, l, out)
        return out

    def error(self, term):
        # an error is represented by its nature: 1 end of input, 2 anything else
        return term if term is not None else const(2)

    # ---- hooks
    def h_args(self, I, st, fi, args, dty):
        q = SeqV([(TRUE, StrV(s), None) for s in ["program"] + self.args], None, True)
        return [(IterV(RefV([(TRUE, I.alloc(st, q))]), ZERO, const(len(self.args) + 1), "val"), st)]

    FLAGS = ("read", "write", "append", "truncate", "create", "create_new")

    def option(self, name):
        """one of the switches of OpenOptions"""
        def h(I, st, fi, args, dty):
            if "OpenOptions" not in I.p.inst[fi]["n"]:
                return NotImplemented
            v = I.force(I.deref_read(st, args[0]))
            if not isinstance(v, Agg) or len(v.f) != len(self.FLAGS):
                raise Giveup("options of a file")
            f = list(v.f)
            f[self.FLAGS.index(name)] = args[1]
            I.deref_write(st, args[0], Agg(f))
            return [(args[0], st)]
        return h

    def create(self, I, st, fi, args, dty):
        f = self.option("create") if "OpenOptions" in I.p.inst[fi]["n"] else self.opened("open output")
        return f(I, st, fi, args, dty)

    def opened(self, kind):
        def h(I, st, fi, args, dty, kind=kind):
            keeps = False
            if "OpenOptions" in I.p.inst[fi]["n"]:
                v = I.force(I.deref_read(st, args[0]))
                args = args[1:]
                fl = {n: I.need_term(x) for n, x in zip(self.FLAGS, v.f)}
                if any(x not in (TRUE, FALSE) for x in fl.values()):
                    raise Giveup("options of a file")
                kind = "open output" if TRUE in (fl["write"], fl["append"]) else "open input"
                keeps = kind == "open output" and TRUE not in (fl["truncate"], fl["create_new"])
            s = strings.sval(I, st, args[0])
            if s is None:
                raise Giveup("path %r" % (args[0],))
            e = i2b(leaf(kind + " fails", 0, 1))
            self.note(I, st, kind, path=s.s, fail=e, keeps=keeps)
            return [(EnumV(dty, b2i(e), {0: (Opaque((kind, s.s)),), 1: (self.error(None),)}), st)]
        return h

    def same(self, I, st, fi, args, dty):
        return [(args[0], st)]

    def wrap(self, I, st, fi, args, dty):
        n = I.p.inst[fi]["n"]
        if "OpenOptions" in n:
            return [(Agg([FALSE] * len(self.FLAGS)), st)]
        if "BufReader" in n.split("<")[0] or "BufWriter" in n.split("<")[0] or "LineWriter" in n.split("<")[0]:
            return [(args[-1], st)]
        return NotImplemented

    def take(self, I, st, fi, args, dty):
        """a source cut off after so many bytes"""
        n = I.p.inst[fi]["n"]
        if "io::" not in n or "Read" not in n:
            return NotImplemented
        k = I.need_term(args[1])
        if not is_const(k):
            raise Giveup("limit of the input")
        self.note(I, st, "limit", bytes=k.c)
        return [(args[0], st)]

    def std(self, kind):
        def h(I, st, fi, args, dty):
            self.note(I, st, kind, path=kind)
            return [(Opaque((kind, kind)), st)]
        return h

    def h_read(self, I, st, fi, args, dty):
        v = I.deref_read(st, args[1])
        n = self.count(st, "read")
        res = self.by_position(st, n, "read result", 2)       # 0 fine, 1 end of input, 2 failure
        src = self.handle(I, st, args[0])
        self.note(I, st, "read", dest=self.plane(I, st, args[1]), length=self.length(I, v), pos=n, fail=EQ(res, const(2)), eof=EQ(res, ONE), src=src)
        bad = NE(res, ZERO)
        return [(EnumV(dty, b2i(bad), {0: (self.length(I, v),), 1: (self.error(res),)}), st)]

    def plane(self, I, st, v):
        """which buffer of the frame is filled: 0, 1 or 2, None where that cannot be told"""
        v = I.force(v)
        if not isinstance(v, RefV) or len(v.alts) != 1:
            return None
        q = v.alts[0][1]
        fr = [x for x in I.p.tys if x["k"] == "adt" and str(x.get("n")).split("::")[-1] == "Frame" and x.get("v")]
        if not q.path or q.path[-1][0] != "f" or not fr:
            return None
        fs = [f[0] for f in fr[0]["v"][0]["f"]]
        own = I.force(I.deref_read(st, RefV([(TRUE, Ptr(q.obj, q.path[:-1]))])))
        if not isinstance(own, Agg) or len(own.f) != len(fs):
            return None
        names = ["original_y", "original_u", "original_v"]
        return names.index(fs[q.path[-1][1]]) if fs[q.path[-1][1]] in names else None

    def handle(self, I, st, v, depth=0):
        """the file or standard stream a reader or writer refers to"""
        v = I.force(v)
        if depth > 6:
            return None
        if isinstance(v, Opaque):
            k = v.key
            while isinstance(k, tuple) and k and k[0] not in ("open input", "open output", "stdin", "stdout"):
                if k[0] == "phi":
                    return None
                nxt = [x for x in k if isinstance(x, tuple)]
                if not nxt:
                    return None
                k = nxt[0]
            return k[1] if isinstance(k, tuple) and len(k) > 1 else None
        if isinstance(v, RefV):
            return self.handle(I, st, I.deref_read(st, v), depth + 1)
        if isinstance(v, Agg):
            for f in v.f:
                r = self.handle(I, st, f, depth + 1)
                if r is not None:
                    return r
        return None

    def h_kind(self, I, st, fi, args, dty):
        e = I.force(args[0])
        if isinstance(e, RefV):
            e = I.deref_read(st, e)
        if not isinstance(e, TERM):
            raise Giveup("kind of %r" % (e,))
        t = I.p.tys[dty]
        names = [v["n"] for v in t["v"]]
        if EOF_KIND not in names:
            raise Giveup("error kinds")
        eof = names.index(EOF_KIND)
        other = leaf("kind of the failure", 0, len(names) - 1)
        other = ite(EQ(other, const(eof)), const((eof + 1) % len(names)), other)
        return [(EnumV(dty, ite(EQ(e, ONE), const(eof), other), {}), st)]

    def h_unit(self, I, st, fi, args, dty):
        v = I.force(args[1])
        if isinstance(v, RefV):
            v = I.deref_read(st, v)
        self.note(I, st, "unit", obu=v, reads=self.count(st, "read"))
        return [(UNIT, st)]

    def h_flush(self, I, st, fi, args, dty):
        n = self.count(st, "flush")
        e = i2b(self.by_position(st, n, "flush fails", 1))
        self.note(I, st, "flush", fail=e)
        return [(EnumV(dty, b2i(e), {0: (UNIT,), 1: (self.error(None),)}), st)]

    def out(self, kind):
        def h(I, st, fi, args, dty):
            self.note(I, st, kind)
            return [(UNIT, st)]
        return h

    def h_exit(self, I, st, fi, args, dty):
        self.ends.append((st.g, I.need_term(args[0]), self.items(st), I.where()))
        return []

    @property
    def hooks(self):
        return {"ext:args": self.h_args, "ext:open": self.opened("open input"), "ext:create": self.create, "ext:_print": self.out("stdout text"),
                "ext:_eprint": self.out("stderr text"), "ext:exit": self.h_exit, "ext:flush": self.h_flush, "ext:kind": self.h_kind,
                "read_to_vec": self.h_read, "encode_temporal_unit": self.h_unit, "ext:from_elem": self.from_elem, "ext:stdin": self.std("stdin"), "ext:stdout": self.std("stdout"),
                "ext:read": self.option("read"), "ext:write": self.option("write"), "ext:append": self.option("append"), "ext:truncate": self.option("truncate"), "ext:create_new": self.option("create_new"),
                "ext:options": self.wrap, "ext:take": self.take, "ext:lock": self.same, "ext:new": self.wrap, "ext:with_capacity": self.wrap}


def run_main(ctx, args, assume=TRUE, fixed=None):
    W = World(ctx, args)
    W.fixed = fixed
    i = ctx.p.fn("main")
    if i is None:
        i = next((k for k in ctx.p.find("main")), None)
    if i is None:
        raise Missing("main")
    r = Run(ctx, "main", [], assume, i=i, hooks=W.hooks, maxrec=30, max_iter=2000)
    if r.out is not None:
        W.ends.append((r.g, ZERO, W.items(r.out), r.where))
    return W, r


def walk(W, items, g):
    """run the events of one ending through a small monitor"""
    m = {"fail": FALSE, "told": FALSE, "dirty": FALSE, "said": FALSE, "touched": FALSE}
    for h, e in items:
        k = e["kind"]
        if "fail" in e:
            f = AND(h, e["fail"])
            m["fail"] = OR(m["fail"], f)
            m["told"] = AND(m["told"], NOT(f))
        if k == "stderr text":
            m["told"] = OR(m["told"], h)
        elif k == "stdout text":
            m["said"] = OR(m["said"], h)
        elif k == "unit":
            m["dirty"] = OR(m["dirty"], h)
        elif k == "flush":
            m["dirty"] = AND(m["dirty"], NOT(AND(h, NOT(e["fail"]))))
        elif k in ("open input", "open output"):
            m["touched"] = OR(m["touched"], h)
    return m


CLI = [("file to file", 0, 0), ("standard input to file", 1, 0), ("file to standard output", 0, 1), ("standard input to standard output", 1, 1)]


def main_rules(ctx, part):
    top = 2 if not ctx.thorough else 3
    w, h, K = num("video width", 99999), num("video height", 99999), num("frame limit", top)
    W_, H_, C = NUMS[w][0], NUMS[h][0], NUMS[K][0]
    src, dst = text("input path"), text("output path")
    valid = AND(AND(GE(W_, ONE), LT(W_, const(8192))), AND(GE(H_, ONE), LT(H_, const(8192))))

    def scenario(nm, sin, sout):
        a = ["-i", "stdin" if sin else src, "-o", "stdout" if sout else dst, "-s", w + "x" + h, "-fr", K]
        W, r = run_main(ctx, a)
        ctx.count("program paths (endings)", len(W.ends))
        ctx.count("events", len(W.ev))
        opens = TRUE
        if not sin:
            opens = AND(opens, EQ(leaf("open input fails", 0, 1), ZERO))
        if not sout:
            opens = AND(opens, EQ(leaf("open output fails", 0, 1), ZERO))
        res = [leaf("read result %d" % k, 0, 2) for k in range(3 * top)]
        fine = AND(valid, opens)
        sizes = plane_sizes(W_, H_)
        reads = []
        for k in range(3 * top):
            fine_k = AND(fine, GT(C, const(k // 3)))
            for j in range(k):
                fine_k = AND(fine_k, EQ(res[j], ZERO))
            reads.append((fine_k, sizes[k % 3], "plane %d of frame %d" % (k % 3, k // 3)))
        whole = AND(fine, GE(C, ONE))
        for j in range(3):
            whole = AND(whole, EQ(res[j], ZERO))
        done = FALSE
        for n, (g, code, items, where) in enumerate(W.ends):
            done = OR(done, g)
            m = walk(W, items, g)
            at = "%s, %s" % (nm, "normal end" if n == len(W.ends) - 1 and r.out is not None else "exit at " + where)
            if part == "input":
                its = [(hh, e["length"], e["where"]) for hh, e in items if e["kind"] == "read"]
                if not its and not any(e["kind"] == "read" for e in W.ev):
                    raise Giveup("no frame is read")
                ctx.same_list(at + ":planes", its, reads, g, where, at + ": samples read")
                for hh, e in items:
                    if e["kind"] == "limit" and e["bytes"] < 1 << 50:
                        ctx.never(at + ":limit", AND(g, hh), e["where"], "%s: the input is cut off after %d bytes" % (at, e["bytes"]))
                    if e["kind"] == "read" and e["dest"] is not None:
                        lo, hi = T.rng(e["pos"])
                        right = FALSE
                        for k in range(int(lo), int(hi) + 1):
                            if k % 3 == e["dest"]:
                                right = OR(right, EQ(e["pos"], const(k)))
                        ctx.never(at + ":buffer", AND(AND(g, hh), NOT(right)), e["where"], "%s: another plane of the input is read into buffer %d of the frame" % (at, e["dest"]))
                for hh, e in items:
                    if e["kind"] == "read" and e["src"] is not None and e["src"] != ("stdin" if sin else src):
                        ctx.never(at + ":source", AND(g, hh), where, "%s: reads from %s" % (at, show(e["src"])))
                continue
            bad = OR(m["fail"], NOT(valid))
            ctx.never(at + ":status of failure", AND(g, AND(bad, EQ(code, ZERO))), where, at + ": ends with success although something failed")
            ctx.never(at + ":status of success", AND(g, AND(NOT(bad), NE(code, ZERO))), where, at + ": ends with failure although nothing failed")
            ctx.never(at + ":message", AND(g, AND(bad, NOT(m["told"]))), where, at + ": no message after a failure")
            ctx.never(at + ":standard output", AND(g, m["said"]), where, at + ": text is written to standard output, where the stream goes")
            ctx.never(at + ":delivered", AND(g, AND(NOT(bad), m["dirty"])), where, at + ": ends successfully with output that was not written out")
            ctx.never(at + ":untouched", AND(g, AND(NOT(valid), m["touched"])), where, at + ": opens files although the configuration is invalid")
            okg = AND(g, NOT(bad))
            un = []
            for hh, e in items:
                if e["kind"] != "unit":
                    continue
                v = e["obu"]
                if not isinstance(v, EnumV):
                    raise Giveup("unit %r" % (v,))
                t = ctx.p.tys[v.ty]
                names = [x["n"] for x in t["v"]]
                k = names.index("OBU_SEQUENCE_HEADER")
                un.append((hh, ite(EQ(v.d, const(k)), ONE, ZERO), e["where"]))
                sh = v.pay[k][0]
                ft = ctx.p.tys[t["v"][k]["f"][0][1]]
                fs = [f[0] for f in ft["v"][0]["f"]]
                for f, x in (("frame_width", W_), ("frame_height", H_), ("max_frame_width", W_), ("max_frame_height", H_)):
                    un.append((hh, r.I.need_term(sh.f[fs.index(f)]), e["where"]))
            want = [(whole, x, y) for x, y in ((ONE, "a sequence header"), (W_, "the video width"), (H_, "the video height"), (W_, "the largest width"), (H_, "the largest height"))]
            ctx.same_list(at + ":units", un, want, okg, where, at + ": units written")
            for hh, e in items:
                if e["kind"] == "open output":
                    if e["path"] != dst or sout:
                        ctx.never(at + ":path", AND(g, hh), where, "%s: creates %s" % (at, show(e["path"])))
                    if e["keeps"]:
                        ctx.never(at + ":old contents", AND(g, hh), e["where"], "%s: what the output file held before stays in it" % at)
                if e["kind"] == "open input":
                    if e["path"] != src or sin:
                        ctx.never(at + ":path", AND(g, hh), where, "%s: opens %s" % (at, show(e["path"])))
        if part != "input":
            miss = NOT(done)
            if r.I.cuts:
                raise Giveup("loop bound")
            why = "; ".join("%s at %s" % (k, ww) for gg, k, ww in r.I.panics[:3])
            ctx.never(nm + ":ends", miss, r.where, "%s: neither returns nor exits (%s)" % (nm, why))
    if part != "input":
        ctx.rule("outcome", "every path from the command line to the end of the program is followed through a monitor: status, message, delivery, units and files as described")
    else:
        ctx.rule("planes", "the reads on every path are the planes of whole frames in order, up to the frame limit, the end of the input or a failure")
    for c in CLI:
        ctx.ob(c[0], scenario, *c)

    def long(limit, stop, how):
        """many frames: all of them there, or the input ends or fails in frame `stop`"""
        nm = "%s frames asked for, %s" % (limit, "all there" if how == 0 else "%s in frame %d" % (("", "end of the input", "failure")[how], stop))
        fixed = lambda k: how if k == 3 * stop + stop % 3 and how else 0
        W, r = run_main(ctx, ["-i", "stdin", "-o", "stdout", "-s", "48x32", "-fr", str(limit)], fixed=fixed)
        total = 3 * limit if how == 0 else 3 * stop + stop % 3 + 1
        sizes = (48 * 32, 24 * 16, 24 * 16)
        want = [(TRUE, const(sizes[k % 3]), "plane %d of frame %d" % (k % 3, k // 3)) for k in range(total)]
        for g, code, items, where in W.ends:
            if part == "input":
                ctx.same_list(nm + ":planes", [(hh, e["length"], e["where"]) for hh, e in items if e["kind"] == "read"], want, g, where, nm + ": samples read")
                continue
            m = walk(W, items, g)
            ctx.same(nm + ":status", ite(EQ(code, ZERO), ZERO, ONE), const(1 if how == 2 else 0), AND(g, NOT(m["fail"]) if how != 2 else TRUE), where, nm + ": exit status")
            ctx.never(nm + ":delivered", AND(g, AND(NOT(m["fail"]), m["dirty"])) if how != 2 else FALSE, where, nm + ": ends successfully with output that was not written out")
            ctx.same_list(nm + ":units", [(hh, ONE, e["where"]) for hh, e in items if e["kind"] == "unit"], [(TRUE, ONE, "the sequence header")] if total > 2 and (stop > 0 or not how) else [], g, where, nm + ": units written")
        ctx.count("long runs")
    def named(inp, outp):
        """file names are taken as they are"""
        nm = "input %r, output %r" % (inp[:20], outp[:20])
        W, r = run_main(ctx, ["-i", inp, "-o", outp, "-s", "48x32", "-fr", "1"], fixed=lambda k: 0)
        kind, path = ("open input", inp) if part == "input" else ("open output", outp)
        for g, code, items, where in W.ends:
            got = [(hh, ONE if e["path"] == path else ZERO, e["where"]) for hh, e in items if e["kind"] == kind]
            first = EQ(leaf("open input fails", 0, 1), ZERO)
            ctx.same_list(nm + ":name", got, [(TRUE, ONE, "the named file")], AND(g, first), where, "%s: files opened for %s (1: the named one)" % (nm, part))
        ctx.count("file names")
    for a, b in ((" in", "out "), ("-", "-"), ("Stdin", "Stdout"), ("stdin.yuv", "stdout.obu"), ("a" * 300, "b" * 300), ("/dev/null", "/dev/null"), ("x\t", "\ty"), ("~/a", "$HOME/b"), ("stdout", "stdin"), ("a.y4m", "b.ivf")):
        ctx.ob("names %r %r" % (a[:20], b[:20]), named, a, b)
    many = [n for n in ctx.near(["main"], (9, 40, 130, 300) if not ctx.thorough else (9, 40, 130, 257, 600), 700, ["parse", "encode_temporal_unit", "init_config", "validate_config"]) if n > 3]
    for n in many:
        ctx.ob("%d frames" % n, long, n, 0, 0)
    for n in many[:6]:
        for how in (1, 2):
            ctx.ob("input of %d frames" % n, long, 500, n, how)


def c22(ctx):
    main_rules(ctx, "outcome")

    def rejected(args):
        nm = "arguments " + " ".join(map(show, args))
        W, r = run_main(ctx, args)
        done = FALSE
        for g, code, items, where in W.ends:
            done = OR(done, g)
            m = walk(W, items, g)
            ctx.never(nm + ":status", AND(g, EQ(code, ZERO)), where, nm + ": ends with success")
            ctx.never(nm + ":message", AND(g, NOT(m["told"])), where, nm + ": no message")
            ctx.never(nm + ":standard output", AND(g, m["said"]), where, nm + ": error text on standard output")
            ctx.never(nm + ":untouched", AND(g, m["touched"]), where, nm + ": opens files although the command line is invalid")
        ctx.never(nm + ":ends", NOT(done), r.where, nm + ": neither returns nor exits")
        ctx.count("rejected command lines")
    P, Q, N, M = text("input path"), text("output path"), num("video width", 99999), num("video height", 99999)
    for a in (["-i"], ["x"], ["-i", P], ["-o", Q, "-s", N + "x" + M], ["-i", P, "-o", Q], ["-i", P, "-o", Q, "-s", N], ["-i", P, "-o", Q, "-s", "0x" + M], ["-i", P, "-o", Q, "-s", N + "x8192"],
              ["-i", P, "-o", Q, "-s", "16x16", "-r", "0"], ["-i", P, "-o", Q, "-s", "16x16", "-fr", "x"], ["-i", P, "-s", "16x16"], ["-i", P, "-o", Q, "-s", "16x16", "-r", N + "/0"], ["--nope", P]):
        ctx.ob("arguments " + " ".join(map(show, a)), rejected, a)

    def helped(args):
        nm = "arguments " + " ".join(map(show, args))
        W, r = run_main(ctx, args)
        done = FALSE
        for g, code, items, where in W.ends:
            done = OR(done, g)
            m = walk(W, items, g)
            ctx.never(nm + ":status", AND(g, NE(code, ZERO)), where, nm + ": ends with failure")
            ctx.never(nm + ":untouched", AND(g, m["touched"]), where, nm + ": opens files")
        ctx.never(nm + ":ends", NOT(done), r.where, nm + ": neither returns nor exits")
    for a in ([], ["-h"], ["--help"], ["-i", P, "--help"]):
        ctx.ob("arguments " + " ".join(map(show, a)), helped, a)


RULES = {"C20": c20, "C21": c21, "C22": c22}
