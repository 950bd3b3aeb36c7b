"""Entropy coder and bit-level descriptor rules (C01 - C06)."""
from .core import *

B32 = 1 << 32


def bit(x, k):
    return mod_const(shr_const(x, k), 1)


def blist(vals, what):
    return [(TRUE, v, "%s[%d]" % (what, i)) for i, v in enumerate(vals)]


def msb_first(x, n, what):
    return blist([bit(x, k) for k in range(n - 1, -1, -1)], what)


def leaves(prefix, n):
    return [leaf("%s%d" % (prefix, i), 0, 1) for i in range(n)]


def number(bits):
    v = ZERO
    for b in bits:
        v = add(mul(v, const(2)), b)
    return v


def consumed(run, n):
    v = run.deref(n)
    if isinstance(v, DqV):
        return v.head
    if isinstance(v, SeqV):
        return ZERO if run.nin is None else sub(const(run.nin), v.length())
    raise Giveup("queue")


# ------------------------------------------------------------------ C01
def enc_case(ctx, fn, label, args, want, assume=TRUE):
    def f():
        r = Run(ctx, fn, ["self", newvec] + args, assume)
        r.returns("%s:returns %s" % (fn, label), "%s(%s)" % (fn, label), assume)
        ctx.same_list("%s:wire %s" % (fn, label), r.bits(1), want, r.g, r.where, "%s(%s)" % (fn, label))
        ctx.count("encode cases")
    ctx.ob("%s %s" % (fn, label), f)


def dec_case(ctx, fn, label, bits, args, want, ncons, assume=TRUE, selfarg="self"):
    def f():
        r = Run(ctx, fn, [selfarg, bitq(bits)] + args, assume)
        r.nin = len(bits)
        r.returns("%s:returns %s" % (fn, label), "%s(%s)" % (fn, label), assume)
        ctx.same("%s:value %s" % (fn, label), r.I.need_term(r.ret), want, r.g, r.where, "%s(%s) value" % (fn, label))
        ctx.same("%s:consumed %s" % (fn, label), consumed(r, 1), ncons, r.g, r.where, "%s(%s) bits consumed" % (fn, label))
        ctx.count("decode cases")
    ctx.ob("%s %s" % (fn, label), f)


def c01(ctx):
    ctx.rule("wire", "the value graph of the emitted bit list equals the descriptor's definition, per size class")
    ctx.rule("decode", "the value graph of the decoded value and of the number of consumed bits equals the definition")
    x32 = leaf("bits", 0, B32 - 1)
    for n in range(0, 33):
        enc_case(ctx, "push_bits_with_size", "size=%d" % n, [x32, const(n)], msb_first(x32, n, "bit"))
    b = leaf("bit", 0, 255)
    enc_case(ctx, "push_bit", "", [b], [(TRUE, b, "bit")])

    def pb():
        src = [leaf("src%d" % i, 0, 255) for i in range(6)]
        r = Run(ctx, "push_bits", ["self", newvec, bitq(src)])
        ctx.same_list("push_bits:copy", r.bits(1), blist(src, "src"), r.g, r.where, "push_bits")
    ctx.ob("push_bits", pb)
    for k in range(0, 17):
        def al(k=k):
            r = Run(ctx, "push_bits_align", ["self", bitq([leaf("p%d" % i, 0, 1) for i in range(k)])])
            r.returns("push_bits_align:returns %d" % k, "push_bits_align", TRUE)
            ctx.same_list("push_bits_align:%d" % k, r.bits(1), blist([leaf("p%d" % i, 0, 1) for i in range(k)] + [ZERO] * (-k % 8), "bit"),
                          r.g, r.where, "push_bits_align after %d bits" % k)
        ctx.ob("align %d" % k, al)
    # uvlc: one class per number of leading zeros
    for z in range(0, 32):
        v = leaf("uv%d" % z, (1 << z) - 1, (1 << (z + 1)) - 2)
        want = blist([ZERO] * z + [ONE], "prefix") + msb_first(add(v, ONE), z, "suffix")
        enc_case(ctx, "encode_uvlc", "%d leading zeros" % z, [v], want)
        tail = leaves("t", z + 3)
        dec_case(ctx, "decode_uvlc", "%d leading zeros" % z, [ZERO] * z + [ONE] + tail, [],
                 add(number(tail[:z]), const((1 << z) - 1)), const(2 * z + 1))
    enc_case(ctx, "encode_uvlc", "largest", [const(B32 - 1)], blist([ZERO] * 32 + [ONE], "prefix"))
    dec_case(ctx, "decode_uvlc", "32 leading zeros", [ZERO] * 32 + [ONE] + leaves("t", 4), [], const(B32 - 1), const(33))
    # le(n)
    for n in range(1, 9):
        x = leaf("le%d" % n, 0, (1 << (8 * n)) - 1)
        want = []
        for i in range(n):
            want += msb_first(shr_const(x, 8 * i), 8, "byte%d" % i)
        enc_case(ctx, "encode_le", "n=%d" % n, [x, const(n)], want)
        bs = leaves("l", 8 * n + 3)
        v = ZERO
        for i in range(n):
            v = add(v, mul(number(bs[8 * i:8 * i + 8]), const(1 << (8 * i))))
        dec_case(ctx, "decode_le", "n=%d" % n, bs, [const(n)], v, const(8 * n))
    # leb128: one class per byte count
    for n in range(1, 9):
        x = leaf("leb%d" % n, 0 if n == 1 else 1 << (7 * (n - 1)), (1 << (7 * n)) - 1)
        want = []
        for i in range(n):
            want += [(TRUE, ONE if i < n - 1 else ZERO, "more%d" % i)] + msb_first(shr_const(x, 7 * i), 7, "group%d" % i)
        enc_case(ctx, "encode_leb128", "%d bytes" % n, [x], want)
        bs = leaves("g", 8 * 8)
        for i in range(n):
            bs[8 * i] = ONE if i < n - 1 else ZERO
        v = ZERO
        for i in range(n):
            v = add(v, mul(number(bs[8 * i + 1:8 * i + 8]), const(1 << (7 * i))))
        dec_case(ctx, "decode_leb128", "%d bytes" % n, bs, [], v, const(8 * n))
    # su(n)
    for n in range(1, 33):
        x = leaf("su%d" % n, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        want = [(TRUE, b2i(LT(x, ZERO)), "sign")] + msb_first(x, n - 1, "magnitude")
        enc_case(ctx, "encode_su", "n=%d" % n, [x, const(n)], want)
        bs = leaves("s", n + 2)
        v = sub(number([ZERO] + bs[1:n]), mul(bs[0], const(1 << (n - 1))))
        dec_case(ctx, "decode_su", "n=%d" % n, bs, [const(n)], v, const(n))
    # ns(n): one class per bit width, n symbolic inside the class
    for w in range(1, 33):
        lo, hi = 1 << (w - 1), (1 << w) - 1
        n = leaf("n%d" % w, lo, hi)
        x = leaf("ns%d" % w, 0, hi - 1 if hi > 0 else 0) if hi > 1 else ZERO
        m = sub(const(1 << w), n)
        ok = LT(x, n)
        short_ = LT(x, m)
        v = add(x, m)
        want = []
        for k in range(w - 2, -1, -1):
            want.append((TRUE, ite(short_, bit(x, k), bit(v, k + 1)), "ns bit %d" % k))
        want.append((NOT(short_), bit(v, 0), "extra_bit"))
        enc_case(ctx, "encode_ns", "w=%d" % w, [x, n], want, ok)
    top = 140 if ctx.thorough else 70
    for n in list(range(1, top)) + [(1 << k) + d for k in range(7, 32) for d in (-1, 0, 1, 5)]:
        w = n.bit_length()
        m = (1 << w) - n
        bs = leaves("e", w + 3)
        y = number(bs[:w - 1])
        sh = LT(y, const(m))
        val = ite(sh, y, add(sub(mul(y, const(2)), const(m)), bs[w - 1]))
        dec_case(ctx, "decode_ns", "n=%d" % n, bs, [const(n)], val, add(const(w - 1), b2i(NOT(sh))))
    # literals go bit by bit, most significant first, at probability one half
    for n in range(0, 65) if ctx.thorough else (0, 1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64):
        def lit(n=n):
            x = leaf("lit", 0, (1 << 64) - 1)
            ev_ = []
            r = Run(ctx, "encode_literal", ["self", newvec, x, const(n)], hooks={"encode_symbol": sym_hook("enc"), "decode_symbol": sym_hook("dec")},
                    default_usize=(0, (1 << 64) - 1))
            log = symlog(r)
            ctx.same_list("encode_literal:%d" % n, [(g, e[0], s) for g, e, s in log], msb_first(x, n, "bit"), r.g, r.where, "encode_literal(n=%d)" % n)
            for g, e, s in log:
                half(ctx, "encode_literal:cdf", e, AND(g, r.g), r.where)
            r2 = Run(ctx, "decode_literal", ["self", newvec, const(n)], hooks={"decode_symbol": dec_hook()})
            bs = [leaf("sym%d" % i, 0, 1) for i in range(n)]
            ctx.same("decode_literal:%d" % n, r2.I.need_term(r2.ret), number(bs), r2.g, r2.where, "decode_literal(n=%d)" % n)
            log = symlog(r2)
            for g, e, s in log:
                half(ctx, "decode_literal:cdf", e, AND(g, r2.g), r2.where)
        ctx.ob("literal %d" % n, lit)


def half(ctx, name, e, g, where):
    cdf = e[1]
    want = [const(((128 << 15) + 256 - 128) >> 8), const(1 << 15), ZERO]
    if len(cdf) != 3:
        ctx.violate(name, where, "literal bits are not coded with a two-symbol distribution")
        return
    for k in range(3):
        ctx.same("%s[%d]" % (name, k), cdf[k], want[k], g, where, "distribution entry %d of a literal bit" % k)


def cdf_vals(I, st, ref):
    ref = I.force(ref)
    if not isinstance(ref, RefV) or len(ref.alts) != 1:
        raise Giveup("distribution argument")
    p = ref.alts[0][1]
    v = I.deref_read(st, RefV([(TRUE, Ptr(p.obj, p.path))]))
    if isinstance(v, Agg):
        vals = list(v.f)
    elif isinstance(v, SeqV) and all(i[0] is TRUE for i in v.items):
        vals = [i[1] for i in v.items]
    else:
        raise Giveup("distribution value")
    if p.win is not None:
        vals = vals[p.win[0].c:p.win[0].c + p.win[1].c]
    return [I.need_term(x) for x in vals]


def log_event(I, st, name, val):
    k = ("log", name)
    old = st.mem.get(k) or SeqV((), None, True)
    st.mem[k] = SeqV(old.items + ((TRUE, val, tuple(I.site())),), None, False)


def sym_hook(kind):
    def h(I, st, fi, args, dty):
        if kind == "dec":
            return dec_hook()(I, st, fi, args, dty)
        vals = cdf_vals(I, st, args[3])
        log_event(I, st, "sym", Agg([I.need_term(args[1]), Agg(vals)]))
        return [(UNIT, st)]
    return h


def dec_hook():
    def h(I, st, fi, args, dty):
        vals = cdf_vals(I, st, args[2])
        k = ("log", "sym")
        old = st.mem.get(k)
        n = len(old.items) if old is not None else 0
        log_event(I, st, "sym", Agg([ZERO, Agg(vals)]))
        return [(leaf("sym%d" % n, 0, len(vals) - 2), st)]
    return h


def symlog(r):
    v = r.out.mem.get(("log", "sym"))
    if v is None:
        return []
    out = []
    for g, e, s in v.items:
        sv = r.I.force(e.f[0])
        out.append((g, (r.I.need_term(sv), [r.I.need_term(x) for x in r.I.force(e.f[1]).f]), s))
    return out


# ------------------------------------------------------------------ arithmetic coder reference
F = ["bool_value", "bool_range", "bool_max_bits", "bool_value_last_zero", "bool_value_zero_count", "bool_first", "bit_count"]


def split(R, c):
    """upper end of the interval part below cumulative probability c"""
    return shr_const(mul(shr_const(R, 8), sub(const(32768), c)), 7)


def ref_cdf_update(cdf, s, N):
    """AV1 8.3.? symbol adaptation, inverse-free form used by this code base: cdf[N-1]=32768, cdf[N]=counter"""
    cnt = cdf[N]
    out = list(cdf)
    msb = N.bit_length() - 1
    res = []
    for big in (0, 1):
        rate = 4 + big + msb
        diff = (((1 << 15) - (N << 5)) >> rate) << rate
        tmp = 32
        row = []
        for i in range(N - 1):
            if i == s:
                tmp += diff
            row.append(sub(cdf[i], shr_const(sub(cdf[i], const(tmp)), rate)))
            tmp += 32
        res.append(row)
    hot = GE(cnt, const(32))
    for i in range(N - 1):
        out[i] = ite(hot, res[1][i], res[0][i])
    out[N] = ite(hot, cnt, add(cnt, ONE))
    return out


def cdf_leaves(N, pre="c"):
    return [leaf("%s%d" % (pre, i), 1, 32767) for i in range(N - 1)] + [const(32768), leaf("cnt", 0, 32)]


def c03(ctx):
    """adaptation: encoder and decoder apply the same update for every symbol count, symbol and counter"""
    ctx.rule("adapt-enc", "encode_symbol leaves every distribution entry equal to the AV1 adaptation of its old value, and the counter saturating at 32")
    ctx.rule("adapt-dec", "decode_symbol leaves the same distribution for the symbol it returns")
    ctx.assumptions.append("the symbol's interval keeps at least half of the range (one renormalisation step), range 32768; the update code does not depend on either")
    for N in range(2, 17):
        for s in range(N):
            def enc(N=N, s=s):
                cdf = cdf_leaves(N)
                lo = cdf[s - 1] if s else ZERO
                w = sub(cdf[s], lo)
                assume = AND(GE(w, const(16384)), LT(w, const(32768)))
                r = Run(ctx, "encode_symbol", ["self", const(s), newvec, arr(cdf)], assume,
                        ranges={"self.bool_range": (32768, 32768), "self.bool_value": (0, 0), "self.bool_first": (1, 1),
                                "self.bool_value_zero_count": (0, 0), "self.bit_count": (0, 1 << 40)})
                check_cdf(ctx, "encode_symbol", r, 3, cdf, s, N, assume)
            ctx.ob("encode_symbol N=%d s=%d" % (N, s), enc)

            def dec(N=N, s=s):
                cdf = cdf_leaves(N)
                V = leaf("self.bool_value", 0, 32767)
                assume = GE(V, sub(const(32768), cdf[s])) if s < N - 1 else TRUE
                # symbol s: V below every earlier split, at or above its own
                for i in range(s):
                    assume = AND(assume, LT(V, sub(const(32768), cdf[i])))
                lo = cdf[s - 1] if s else ZERO
                w = sub(cdf[s], lo)
                assume = AND(assume, AND(GE(w, const(16384)), LT(w, const(32768))))
                r = Run(ctx, "decode_symbol", ["self", bitq(leaves("i", 4)), arr(cdf)], assume,
                        ranges={"self.bool_range": (32768, 32768), "self.bool_value": (0, 32767), "self.bool_max_bits": (0, 1 << 24)})
                check_cdf(ctx, "decode_symbol", r, 2, cdf, s, N, assume)
                ctx.same("decode_symbol:symbol N=%d s=%d" % (N, s), r.I.need_term(r.ret), const(s), r.g, r.where, "decoded symbol")
            ctx.ob("decode_symbol N=%d s=%d" % (N, s), dec)


def check_cdf(ctx, fn, r, argi, cdf, s, N, assume):
    r.returns("%s:returns N=%d s=%d" % (fn, N, s), "%s with %d symbols, symbol %d" % (fn, N, s), assume)
    got = r.deref(argi)
    want = ref_cdf_update(cdf, s, N)
    for i in range(N + 1):
        what = "%s: %s after coding symbol %d of %d" % (fn, "counter" if i == N else "distribution entry %d" % i, s, N)
        ctx.same("%s:adapt N=%d s=%d [%d]" % (fn, N, s, i), r.I.need_term(got.f[i]), want[i], r.g, r.where, what)
    ctx.count("(symbol count, symbol) pairs")


def ref_encode(V, R, lz, zc, first, s, cdf, k):
    """reference encoder step for exactly k renormalisation shifts; zc is a constant count"""
    left = split(R, cdf[s - 1]) if s else R
    right = split(R, cdf[s])
    v = sub(add(V, R), left)
    rng_ = sub(left, right)
    em = []
    carry = GE(v, const(65536))
    v = sub(v, mul(b2i(carry), const(65536)))
    if zc > 0:
        em.append((carry, ONE, "carry"))
        for _ in range(zc - 1):
            em.append((carry, ZERO, "carry run"))
        z = ite(carry, ZERO, const(zc))
        l = OR(carry, lz)
    else:
        z = b2i(carry)
        l = AND(NOT(carry), lz)
    return v, rng_, em, z, l


def ref_renorm(v, rng_, em, z, l, first, k, zmax):
    f = first
    for _ in range(k):
        b = EQ(mod_const(shr_const(v, 15), 1), ONE)
        act0 = AND(NOT(f), NOT(b))
        em.append((AND(act0, l), ZERO, "pending zero"))
        for i in range(zmax):
            em.append((AND(act0, GE(z, const(i + 1))), ONE, "pending one"))
        z2 = add(z, ONE)
        z = ite(f, z, ite(b, z2, ZERO))
        l = OR(act0, l) if f is not TRUE else l
        f = FALSE
        v = mod_const(mul(v, const(2)), 16)
        rng_ = mul(rng_, const(2))
        zmax += 1
    return v, rng_, em, z, l, f


def c02(ctx):
    """interval subdivision, renormalisation, carry"""
    ctx.rule("encoder step", "state and emitted bits after encode_symbol equal the range coder step (interval choice, carry into pending bits, renormalisation) for every coder state")
    ctx.rule("decoder step", "decode_symbol picks the symbol whose interval holds the value, with the encoder's interval bounds, and shifts in exactly the bits the encoder shifts out")
    kmax = 14 if ctx.thorough else 12
    ctx.assumptions.append("renormalisation shifts 0..%d, pending runs 0..3, 7, up to 300 and around every constant of the code; alphabets of 2 to 4, 8, 13 and 16 symbols (the step does not depend on the alphabet otherwise)" % kmax)
    ctx.rule("fixed intervals", "the same steps for enumerated ranges and tables, with the code value, pending state and input bits left open")
    for N, cdfs in FIXED:
        for cdf in cdfs:
            for s in range(N) if N <= 5 else (0, 1, N // 2, N - 2, N - 1):
                for R in (32768, 65535, 40000, 33023, 50001) + ((32769, 36864, 45057, 61440, 65280) if ctx.thorough else ()):
                    rg = fixed_width(R, cdf, s)
                    if rg <= 0:
                        continue
                    k = 16 - rg.bit_length()
                    for zc, first in ((0, 0), (2, 0), (0, 1)):
                        ctx.ob("encode interval N=%d s=%d R=%d" % (N, s, R), c02_enc, ctx, N, s, k, zc, first, [const(x) for x in cdf] + [leaf("cnt", 0, 32)], R)
                    ctx.ob("decode interval N=%d s=%d R=%d" % (N, s, R), c02_dec, ctx, N, s, k, [const(x) for x in cdf] + [leaf("cnt", 0, 32)], R)
    for N in (2, 3, 4, 8, 13, 16):
        for s in range(N) if N <= 4 else (0, 1, N // 2, N - 2, N - 1):
            ks = range(0, kmax + 1) if N == 2 else (0, 1, 2) if N <= 4 else (0, 1)
            for k in ks:
                for zc in ((0, 1, 2, 3, 7) if N == 2 and k <= (9 if ctx.thorough else 6) else (0, 1) if N <= 4 else (0,)):
                    for first in (0, 1):
                        if first and (zc or k > 4):
                            continue
                        ctx.ob("encode step N=%d s=%d k=%d zc=%d" % (N, s, k, zc), c02_enc, ctx, N, s, k, zc, first)
                ctx.ob("decode step N=%d s=%d k=%d" % (N, s, k), c02_dec, ctx, N, s, k)
    for zc in ctx.near(["encode_symbol"], (12, 40, 100, 256, 257, 300), 600):
        if zc > 7:
            for s in (0, 1):
                for k in (0, 1, 2):
                    ctx.ob("encode step N=2 s=%d k=%d zc=%d" % (s, k, zc), c02_enc, ctx, 2, s, k, zc, 0)
    ctx.rule("probability", "a bit of probability p/256 is coded with the two-symbol table ((p << 15) + 256 - p) >> 8, the same for all bits of a run up to adaptation, on both sides")
    ctx.ob("bit of a given probability", c02_bits, ctx)


def fixed_width(R, cdf, s):
    f = lambda c: ((R >> 8) * (32768 - c)) >> 7
    return (f(cdf[s - 1]) if s else R) - f(cdf[s])


FIXED = [(2, ([16384, 32768], [128, 32768], [32704, 32768], [20001, 32768])), (3, ([9000, 9100, 32768], [200, 32000, 32768])), (5, ([1000, 2000, 16000, 32500, 32768],)),
         (9, ([k * 3641 for k in range(1, 9)] + [32768],)), (16, ([k * 2048 for k in range(1, 16)] + [32768], [150 * k for k in range(1, 16)] + [32768]))]


def c02_bits(ctx):
    p = leaf("p", 1, 255)
    want = [shr_const(sub(add(mul(p, const(1 << 15)), const(256)), p), 8), const(1 << 15), ZERO]
    hooks = {"encode_symbol": sym_hook("enc"), "decode_symbol": dec_hook()}
    bits = leaves("b", 3)
    din = [leaf("sym%d" % i, 0, 1) for i in range(3)]
    for name, args, n, coded in (("encode_symbolp", ["self", bits[0], newvec, p], 1, bits), ("encode_symbols", ["self", bitq(bits), newvec, p], 3, bits),
                                 ("decode_symbolp", ["self", newvec, p], 1, None), ("decode_symbols", ["self", newvec, newvec, const(3), p], 3, None)):
        r = Run(ctx, name, args, TRUE, hooks=hooks)
        r.returns(name + ":returns", name, TRUE)
        log = symlog(r)
        if coded:
            ctx.same_list(name + ":bits", [(g, e[0], s) for g, e, s in log], [(TRUE, b, "bit") for b in bits[:n]], r.g, r.where, name + ": bits coded")
        elif n == 1:
            ctx.same(name + ":bit", r.I.need_term(r.ret), din[0], r.g, r.where, name + ": bit returned")
        else:
            ctx.same_list(name + ":bits", r.bits(2), [(TRUE, b, "bit") for b in din], r.g, r.where, name + ": bits returned")
        for g, e, s in log:
            if len(e[1]) != 3:
                ctx.violate(name + ":table", r.where, name + ": a bit is not coded with a two-symbol distribution")
                continue
            for k in range(3):
                ctx.same("%s:table[%d]" % (name, k), e[1][k], want[k], AND(g, r.g), r.where, "%s: distribution entry %d of a bit of given probability" % (name, k))
        ctx.count("bit coders")


def c02_enc(ctx, N, s, k, zc, first, cdf=None, R0=None):
    nm = "N=%d s=%d k=%d pending=%d first=%d" % (N, s, k, zc, first) + (" range=%d table=%s" % (R0, [x.c for x in cdf[:N]]) if R0 else "")
    cdf = cdf or cdf_leaves(N)
    V = leaf("self.bool_value", 0, 65535)
    R = const(R0) if R0 else leaf("self.bool_range", 32768, 65535)
    lz = i2b(leaf("self.bool_value_last_zero", 0, 1))
    fst = TRUE if first else FALSE
    v, rg, em, z, l = ref_encode(V, R, lz, zc, fst, s, cdf, k)
    carry = GE(sub(add(V, R), split(R, cdf[s - 1]) if s else R), const(65536))
    assume = AND(GE(rg, const(1 << (15 - k))), LT(rg, const(1 << (16 - k))))
    # a carry always meets a pending zero: before the first zero bit no carry can happen
    assume = AND(assume, OR(NOT(carry), lz))
    if first:
        assume = AND(assume, NOT(carry))
    if assume is FALSE:
        return
    r = Run(ctx, "encode_symbol", ["self", const(s), newvec, arr(cdf)], assume,
            ranges={"self.bool_range": (R0 or 32768, R0 or 65535), "self.bool_value": (0, 65535), "self.bool_first": (first, first),
                    "self.bool_value_zero_count": (zc, zc), "self.bit_count": (0, 1 << 40)})
    r.returns("encode_symbol:returns " + nm, "encode_symbol (%s)" % nm, assume)
    v, rg, em, z, l, f = ref_renorm(v, rg, em, z, l, fst, k, max(zc, 1))
    g = r.g
    ctx.same_list("encode_symbol:bits " + nm, r.bits(2), em, g, r.where, "bits emitted (%s)" % nm)
    for name, want in (("bool_range", rg), ("bool_value", v), ("bool_value_zero_count", z)):
        ctx.same("encode_symbol:%s %s" % (name, nm), r.field(0, name, F.index(name)), want, g, r.where, "%s after the step (%s)" % (name, nm))
    ctx.same("encode_symbol:last_zero " + nm, b2i(r.field(0, "bool_value_last_zero", 3)), b2i(l), g, r.where, "pending-zero flag after the step (%s)" % nm)
    ctx.same("encode_symbol:first " + nm, b2i(r.field(0, "bool_first", 5)), b2i(f), g, r.where, "first-bit flag after the step (%s)" % nm)
    ctx.count("encoder step cases")


def c02_dec(ctx, N, s, k, cdf=None, R0=None):
    nm = "N=%d s=%d k=%d" % (N, s, k) + (" range=%d table=%s" % (R0, [x.c for x in cdf[:N]]) if R0 else "")
    cdf = cdf or cdf_leaves(N)
    V = leaf("self.bool_value", 0, 65535)
    R = const(R0) if R0 else leaf("self.bool_range", 32768, 65535)
    cur = [split(R, c) for c in cdf[:N]]
    prev = cur[s - 1] if s else R
    assume = AND(GE(V, cur[s]), LT(V, prev))
    for i in range(s):
        assume = AND(assume, LT(V, cur[i]))
    rg = sub(prev, cur[s])
    assume = AND(assume, AND(GE(rg, const(1 << (15 - k))), LT(rg, const(1 << (16 - k)))))
    if assume is FALSE:
        return
    bs = leaves("i", k + 3)
    r = Run(ctx, "decode_symbol", ["self", bitq(bs), arr(cdf)], assume,
            ranges={"self.bool_range": (R0 or 32768, R0 or 65535), "self.bool_value": (0, 65535), "self.bool_max_bits": (-100, 1 << 24)})
    r.nin = len(bs)
    r.returns("decode_symbol:returns " + nm, "decode_symbol (%s)" % nm, assume)
    g = r.g
    ctx.same("decode_symbol:symbol " + nm, r.I.need_term(r.ret), const(s), g, r.where, "decoded symbol (%s)" % nm)
    ctx.same("decode_symbol:range " + nm, r.field(0, "bool_range", 1), mul(rg, const(1 << k)), g, r.where, "range after the step (%s)" % nm)
    want = sub(add(mul(sub(V, cur[s]), const(1 << k)), const((1 << k) - 1)), number(bs[:k]))
    ctx.same("decode_symbol:value " + nm, r.field(0, "bool_value", 0), want, g, r.where, "value after the step (%s)" % nm)
    ctx.same("decode_symbol:consumed " + nm, consumed(r, 1), const(k), g, r.where, "bits shifted in (%s)" % nm)
    ctx.count("decoder step cases")


# ------------------------------------------------------------------ C04
def c04(ctx):
    ctx.rule("init", "every state field the coder later reads is set by init, whatever the previous segment left")
    ctx.rule("count", "the bit counter advances by exactly the number of bits appended, on every path of a coding step")
    ctx.rule("flush", "exit appends the pending bits, the 16-bit value and zero padding up to a byte boundary")
    ctx.rule("consume", "the decoder's remaining-bit count falls by exactly the bits taken, and exit takes what remains")

    def init():
        r = Run(ctx, "init_encoder", ["self"])
        r.returns("init_encoder:returns", "init_encoder", TRUE)
        for name, want in (("bool_value", 0), ("bool_range", 32768), ("bool_value_zero_count", 0), ("bit_count", 0)):
            ctx.same("init_encoder:" + name, r.field(0, name, F.index(name)), const(want), r.g, r.where, "%s after init_encoder" % name)
        ctx.same("init_encoder:last_zero", b2i(r.field(0, "bool_value_last_zero", 3)), ZERO, r.g, r.where, "pending-zero flag after init_encoder")
        ctx.same("init_encoder:first", b2i(r.field(0, "bool_first", 5)), ONE, r.g, r.where, "first-bit flag after init_encoder")
    ctx.ob("init_encoder", init)

    def initd(sz):
        bs = leaves("i", min(8 * sz, 72))
        r = Run(ctx, "init_decoder", ["self", bitq(bs), const(sz)])
        r.nin = len(bs)
        r.returns("init_decoder:returns %d" % sz, "init_decoder", TRUE)
        ctx.same("init_decoder:range %d" % sz, r.field(0, "bool_range", 1), const(32768), r.g, r.where, "range after init_decoder")
        ctx.same("init_decoder:value %d" % sz, r.field(0, "bool_value", 0), sub(const(32767), number(bs[:15])), r.g, r.where, "value after init_decoder")
        ctx.same("init_decoder:max_bits %d" % sz, r.field(0, "bool_max_bits", 2), const(8 * sz - 15), r.g, r.where, "remaining bits after init_decoder")
        ctx.same("init_decoder:consumed %d" % sz, consumed(r, 1), const(15), r.g, r.where, "bits consumed by init_decoder")
    for sz in ctx.near(["init_decoder"], (2, 3, 5, 9, 31, 32, 257, 8191, 8192, 65537, 1 << 24), 1 << 26):
        if sz < 2:
            continue
        ctx.ob("init_decoder %d" % sz, initd, sz)

    kmax = 6 if ctx.thorough else 4
    for s in (0, 1):
        for k in range(0, kmax + 1):
            for zc in (0, 1, 2, 3) if k != 1 else ctx.near(["encode_symbol"], (0, 1, 2, 3, 40, 256, 300), 600):
                def cnt(s=s, k=k, zc=zc):
                    cdf = cdf_leaves(2)
                    V = leaf("self.bool_value", 0, 65535)
                    R = leaf("self.bool_range", 32768, 65535)
                    rg = sub(split(R, cdf[s - 1]) if s else R, split(R, cdf[s]))
                    assume = AND(GE(rg, const(1 << (15 - k))), LT(rg, const(1 << (16 - k))))
                    r = Run(ctx, "encode_symbol", ["self", const(s), newvec, arr(cdf)], assume,
                            ranges={"self.bool_range": (32768, 65535), "self.bool_value": (0, 65535),
                                    "self.bool_value_zero_count": (zc, zc), "self.bit_count": (0, 1 << 40)})
                    n = ZERO
                    for g, v, _ in r.bits(2):
                        n = add(n, b2i(g))
                    bc = leaf("self.bit_count", 0, 1 << 40)
                    ctx.same("encode_symbol:bit_count s=%d k=%d pending=%d" % (s, k, zc), sub(r.field(0, "bit_count", 6), bc), n, r.g,
                             r.where, "bits counted by encode_symbol against bits appended")
                ctx.ob("bit_count s=%d k=%d zc=%d" % (s, k, zc), cnt)

            def mb(s=s, k=k):
                cdf = cdf_leaves(2)
                V = leaf("self.bool_value", 0, 65535)
                R = leaf("self.bool_range", 32768, 65535)
                cur = split(R, cdf[0])
                assume = GE(V, cur) if s == 0 else LT(V, cur)
                assume = AND(assume, LT(V, R))
                rg = sub(R, cur) if s == 0 else cur
                assume = AND(assume, AND(GE(rg, const(1 << (15 - k))), LT(rg, const(1 << (16 - k)))))
                r = Run(ctx, "decode_symbol", ["self", bitq(leaves("i", k + 3)), arr(cdf)], assume,
                        ranges={"self.bool_range": (32768, 65535), "self.bool_value": (0, 65535), "self.bool_max_bits": (-100, 1 << 24)})
                r.nin = k + 3
                m = leaf("self.bool_max_bits", -100, 1 << 24)
                ctx.same("decode_symbol:max_bits s=%d k=%d" % (s, k), sub(m, r.field(0, "bool_max_bits", 2)), consumed(r, 1), r.g, r.where,
                         "remaining-bit count against bits taken by decode_symbol")
            ctx.ob("max_bits s=%d k=%d" % (s, k), mb)
    for lz in (0, 1):
        for zc in ctx.near(["exit_encoder"], (0, 1, 2, 3, 7, 40, 256, 257, 300), 600):
            for b8 in range(8) if zc < 10 else (0, 5):
                def fl(lz=lz, zc=zc, b8=b8):
                    V = leaf("self.bool_value", 0, 65535)
                    r = Run(ctx, "exit_encoder", ["self", newvec], ranges={"self.bool_value_last_zero": (lz, lz), "self.bool_value": (0, 65535),
                            "self.bool_value_zero_count": (zc, zc), "self.bit_count": (b8 + 64, b8 + 64)})
                    nm = "pending zero=%d ones=%d count%%8=%d" % (lz, zc, b8)
                    r.returns("exit_encoder:returns " + nm, "exit_encoder", TRUE)
                    em = [ZERO] * lz + [ONE] * zc + [bit(V, k) for k in range(15, -1, -1)]
                    em += [ZERO] * (-(b8 + len(em)) % 8)
                    ctx.same_list("exit_encoder:flush " + nm, r.bits(1), blist(em, "bit"), r.g, r.where, "exit_encoder (%s)" % nm)
                ctx.ob("exit_encoder %d %d %d" % (lz, zc, b8), fl)
    for m in ctx.near(["exit_decoder"], (0, 1, 7, 20, 100, 256, 300), 600):
        def ex(m=m):
            bs = leaves("i", m + 9)
            r = Run(ctx, "exit_decoder", ["self", bitq(bs)], ranges={"self.bool_max_bits": (m, m)})
            r.nin = m + 9
            r.returns("exit_decoder:returns %d" % m, "exit_decoder", TRUE)
            ctx.same("exit_decoder:consumed %d" % m, consumed(r, 1), const(m), r.g, r.where, "bits dropped by exit_decoder")
        ctx.ob("exit_decoder %d" % m, ex)


# ------------------------------------------------------------------ C05 truncated input
def c05(ctx):
    ctx.rule("truncation", "with fewer bits than the descriptor needs, no path of the decoder returns or loops: every path ends in a panic")

    def trunc(fn, label, bits, args, assume=TRUE, ranges=None):
        def f():
            r = Run(ctx, fn, ["self", bitq(bits)] + args, assume, max_iter=400, ranges=ranges or {})
            for g, w in r.I.diverges:
                ctx.violate("%s:endless" % fn, r.where, "%s(%s): loops forever when the input ends (%s)" % (fn, label, w))
            ctx.never("%s:truncated %s" % (fn, label), r.g, r.where, "%s(%s): returns a value although the input ended early" % (fn, label))
            ctx.count("truncation cases")
        ctx.ob("%s %s" % (fn, label), f)
    for z in (0, 1, 2, 5, 20, 31):
        # prefix cut
        trunc("decode_uvlc", "%d zeros then end" % z, [ZERO] * z, [])
        for t in {0, z // 2, z - 1}:
            if z and 0 <= t < z:
                trunc("decode_uvlc", "%d zeros, %d suffix bits" % (z, t), [ZERO] * z + [ONE] + leaves("t", t), [])
    for n in range(1, 9):
        for t in (0, 8 * n - 1, 8 * n - 8):
            trunc("decode_le", "n=%d, %d bits" % (n, t), leaves("l", t), [const(n)])
    for n in range(1, 9):
        for t in (0, 8 * n - 1, 8 * n - 8):
            bs = leaves("g", t)
            for i in range(0, t, 8):
                bs[i] = ONE
            trunc("decode_leb128", "byte %d, %d bits" % (n, t), bs, [])
    for n in (1, 2, 7, 16, 32):
        for t in {0, n - 1}:
            trunc("decode_su", "n=%d, %d bits" % (n, t), leaves("s", t), [const(n)])
    for n in (2, 3, 5, 6, 7, 9, 100):
        w = n.bit_length()
        if w > 1:
            trunc("decode_ns", "n=%d, %d bits" % (n, w - 2), leaves("e", w - 2), [const(n)])
        # extra bit missing: prefix value >= m
        m = (1 << w) - n
        if m < (1 << (w - 1)):
            v = (1 << (w - 1)) - 1
            trunc("decode_ns", "n=%d, extra bit missing" % n, [const((v >> i) & 1) for i in range(w - 2, -1, -1)], [const(n)])
    for t in (0, 1, 14):
        trunc("init_decoder", "%d bits" % t, leaves("i", t), [const(2)])
    for s in (0, 1):
        for k in (1, 2, 5):
            cdf = cdf_leaves(2)
            V = leaf("self.bool_value", 0, 65535)
            R = leaf("self.bool_range", 32768, 65535)
            cur = split(R, cdf[0])
            assume = AND(LT(V, R), GE(V, cur) if s == 0 else LT(V, cur))
            rg = sub(R, cur) if s == 0 else cur
            assume = AND(assume, AND(GE(rg, const(1 << (15 - k))), LT(rg, const(1 << (16 - k)))))
            trunc("decode_symbol", "symbol %d needs %d bits, %d there" % (s, k, k - 1), leaves("i", k - 1), [arr(cdf)], assume,
                  {"self.bool_range": (32768, 65535), "self.bool_value": (0, 65535), "self.bool_max_bits": (-100, 1 << 24)})


# ------------------------------------------------------------------ C06 msb
def c06(ctx):
    ctx.rule("floor log2", "for every bit length k the function returns k-1 on the whole interval [2^(k-1), 2^k - 1]")
    for fn, w in (("msb16", 16), ("msb32", 32), ("msb64", 64)):
        for k in range(w):
            def f(fn=fn, k=k, w=w):
                x = leaf("x_%s_%d" % (fn, k), 1 << k, (1 << (k + 1)) - 1)
                r = Run(ctx, fn, [x])
                r.returns("%s:returns %d" % (fn, k), "%s of a %d-bit value" % (fn, k + 1), TRUE)
                ctx.same("%s:%d" % (fn, k), r.I.need_term(r.ret), const(k), r.g, r.where, "%s of a %d-bit value" % (fn, k + 1))
                ctx.count("value classes")
            ctx.ob("%s %d" % (fn, k), f)

        def z(fn=fn):
            r = Run(ctx, fn, [ZERO])
            r.returns("%s:zero" % fn, "%s(0)" % fn, TRUE)
        ctx.ob("%s 0" % fn, z)


RULES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
