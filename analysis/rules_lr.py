"""Loop restoration units: which units belong to a superblock, and how their filters are coded."""
from .rules_mode import *
from .rules_tile import n_

R_NONE, R_WIENER, R_SGR, R_SWITCH = range(4)
W_MIN, W_MAX, W_K = (-5, -23, -17), (10, 8, 46), (1, 2, 3)
S_MIN, S_MAX = (-96, -32), (31, 95)
RADIUS0 = [2] * 10 + [0] * 4 + [2] * 2       # radius of the first filter per set
RADIUS1 = [1] * 10 + [1] * 4 + [0] * 2


def recentered(v, r, mx):
    """coded value of v in 0..mx-1 around r (numbers), the inverse of the decoder's map"""
    def fwd(x, c):
        return x if x > 2 * c else (x - c) * 2 if x >= c else (c - x) * 2 - 1
    return fwd(v, r) if 2 * r <= mx else fwd(mx - 1 - v, mx - 1 - r)


def subexp(U, v, lo, hi, k, r, what):
    """elements of v (term in lo..hi) relative to the number r"""
    mx = hi - lo + 1
    x = sub(v, const(lo))
    if is_const(x):
        c = const(recentered(x.c, r - lo, mx))
    else:
        c = ZERO
        for y in range(mx):
            c = ite(EQ(x, const(y)), const(recentered(y, r - lo, mx)), c)
    i = mk = 0
    g0 = U.g
    while True:
        b2 = k + i - 1 if i else k
        a = 1 << b2
        n = mx - mk
        if n <= 3 * a:
            w = n.bit_length()
            m = (1 << w) - n
            t = sub(c, const(mk))
            with U.when(LT(t, const(m))):
                U.lit(t, w - 1, what)
            with U.when(GE(t, const(m))):
                U.lit(add(t, const(m)), w, what)
            break
        with U.when(LT(c, const(mk + a))):
            U.lit(ZERO, 1, what + ", more flag")
            U.lit(sub(c, const(mk)), b2, what)
        U.g = AND(U.g, GE(c, const(mk + a)))
        U.lit(ONE, 1, what + ", more flag")
        i += 1
        mk += a
    U.g = g0


def units(size, unit):
    return max((size + (unit >> 1)) // unit, 1)


def lr_run(ctx, nm, fw, fh, up, r, c, size, types, usize, planes, sx, sy, denom, pins_, copy=0, symbolic=()):
    """fw, fh: frame size; up: upscaled width; types, usize: per plane"""
    i = method(ctx, "TileEncoder", "encode_lr")
    body = ctx.p.inst[i]["body"]
    names, ints = [], [const(r), const(c)]
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        last = str(e.get("n")).split("::")[-1]
        names.append("self" if k == 0 else ints.pop(0) if t["k"] == "int" else {"Frame": "frame", "Vec": newvec, "BlockSize": "bsize"}[last])
    big = size == 15
    sb = 32 if big else 16
    # the units of this superblock
    geo = []
    for p in range(planes):
        if types[p] == R_NONE or copy:
            continue
        ssx, ssy = (sx, sy) if p else (0, 0)
        u = usize[p]
        rows, cols = units((fh + ssy) >> ssy, u), units((up + ssx) >> ssx, u)
        num, den = ((4 >> ssx) * denom, u * 8) if denom != 8 else (4 >> ssx, u)
        r0, r1 = -(-r * (4 >> ssy) // u), min(rows, -(-(r + sb) * (4 >> ssy) // u))
        c0, c1 = -(-c * num // den), min(cols, -(-(c + sb) * num // den))
        geo.append((p, r0, r1, c0, c1, rows, cols))
    sr, sc = r // sb, c // sb
    rg = {"bsize.#": (size, size), "use_128x128_superblock": (int(big),) * 2, "num_planes": (planes, planes), "allow_intrabc": (copy, copy), "frame_width": (fw, fw), "frame_height": (fh, fh),
          "upscaled_width": (up, up), "subsampling_x": (sx, sx), "subsampling_y": (sy, sy), "superres_denom": (denom, denom), "use_superres": (int(denom != 8),) * 2,
          "lr_sgr_set": (0, 15), "restoration_type.#": (0, 2)}
    for p in range(3):
        rg["self.ectx.frame_restoration_type[%d].#" % p] = (types[p],) * 2
        rg["self.ectx.loop_restoration_size[%d]" % p] = (usize[p],) * 2
        for s in range(2):
            for j in range(3):
                rg["self.ectx.ref_lr_wiener[%d][%d][%d]" % (p, s, j)] = ((3, -7, 15)[j],) * 2
            rg["self.ectx.ref_sgr_xqd[%d][%d]" % (p, s)] = ((-32, 31)[s],) * 2
    vl = {"superblocks": (0, 0)}
    H, W = (fh + 4 * sb - 1) // (4 * sb), (fw + 4 * sb - 1) // (4 * sb)
    vl["frame.superblocks"] = (H, H)
    pre_ = "frame.superblocks[%d][%d].lr_units" % (sr, sc)
    for y in range(H):
        vl["frame.superblocks[%d]" % y] = (W, W)
        for x in range(W):
            vl["frame.superblocks[%d][%d].lr_units" % (y, x)] = (planes if (y, x) == (sr, sc) else 0,) * 2
    for p in range(planes):
        q = [g for g in geo if g[0] == p]
        nr, nc = (max(0, q[0][2] - q[0][1]), max(0, q[0][4] - q[0][3])) if q else (0, 0)
        vl["%s[%d]" % (pre_, p)] = (nr, nr)
        for y in range(nr):
            vl["%s[%d][%d]" % (pre_, p, y)] = (nc, nc)
            for x in range(nc):
                u = "%s[%d][%d][%d]" % (pre_, p, y, x)
                z = 5 * p + 3 * y + 7 * x
                rg[u + ".use_wiener"] = rg[u + ".use_sgrproj"] = (0, 1)
                rg[u + ".restoration_type.#"] = (0, 2)
                rg[u + ".lr_sgr_set"] = (z % 16,) * 2
                for s in range(2):
                    for j in range(3):
                        rg[u + ".lr_wiener[%d][%d]" % (s, j)] = (W_MIN[j] + (z + 3 * j + s) % (W_MAX[j] - W_MIN[j] + 1),) * 2
                    rg[u + ".lr_sgr_xqd[%d]" % s] = (S_MIN[s] + (11 * z + 5) % (S_MAX[s] - S_MIN[s] + 1),) * 2
    rg.update(pins_(pre_))
    fidx = names.index("frame")

    def frame(I, st):
        """the restoration records as the program makes them for this size, the rest open"""
        v, s, ty = new_frame(ctx, I, st, up, fh)
        st.mem, st.g = s.mem, s.g
        f = I.force(v)
        old = I.force(I.deref_read(st, I.force(I.lazy(body["locals"][fidx + 1], "frame"))))
        g = list(old.f)
        for n in ("lr_type", "lr_wiener", "lr_sgr_set", "lr_sgr_xqd"):
            k = field_index(ctx.p, ty, n)[0]
            g[k] = f.f[k]
        return RefV([(TRUE, I.alloc(st, Agg(g)))])
    args = list(names)
    args[fidx] = frame
    R = Run(ctx, "encode_lr", args, TRUE, i=i, ranges=rg, veclen=vl, hooks=unit_hooks(ctx))
    R.returns(nm + ":returns", nm, TRUE)
    if R.out is None:
        return
    st0 = State({}, TRUE)
    F = Nav(R.I, st0, R.I.lazy(body["locals"][fidx + 1], "frame"), body["locals"][fidx + 1])
    E = Nav(R.I, st0, R.args[0], body["locals"][1]).ectx
    U = Units(TRUE)
    refw = {(p, s, j): E.ref_lr_wiener[p][s][j].n for p in range(3) for s in range(2) for j in range(3)}
    refs = {(p, s): E.ref_sgr_xqd[p][s].n for p in range(3) for s in range(2)}
    rec = []

    def against(t):
        """a reference value by cases of the terms it can be"""
        return t
    for p, r0, r1, c0, c1, rows, cols in geo:
        for y in range(r0, r1):
            for x in range(c0, c1):
                u = F.superblocks[sr][sc].lr_units[p][y - r0][x - c0]
                what = "restoration unit %d, %d of plane %d" % (y, x, p)
                if types[p] == R_WIENER:
                    U.el("encode_use_wiener", n_(u.use_wiener.b))
                    wn, sg = u.use_wiener.b, FALSE
                elif types[p] == R_SGR:
                    U.el("encode_use_sgrproj", n_(u.use_sgrproj.b))
                    wn, sg = FALSE, u.use_sgrproj.b
                else:
                    U.el("encode_restoration_type", u.restoration_type.n)
                    wn, sg = EQ(u.restoration_type.n, ONE), EQ(u.restoration_type.n, const(2))
                rec.append((TRUE, "lr_type", (p, y, x), ite(wn, ONE, ite(sg, const(2), ZERO)), what))
                for s in range(2):
                    for j in range(3):
                        if p and j == 0:
                            rec.append((wn, "lr_wiener", (p, y, x, s, j), ZERO, what))
                            continue
                        v = u.lr_wiener[s][j].n
                        with U.when(wn):
                            cases_of(U, refw[p, s, j], lambda q: subexp(U, v, W_MIN[j], W_MAX[j], W_K[j], q, "%s, Wiener coefficient %d of pass %d" % (what, j, s)))
                        rec.append((wn, "lr_wiener", (p, y, x, s, j), v, what))
                        refw[p, s, j] = ite(wn, v, refw[p, s, j])
                with U.when(sg):
                    U.lit(u.lr_sgr_set.n, 4, what + ", set")
                rec.append((sg, "lr_sgr_set", (p, y, x), u.lr_sgr_set.n, what))
                zset = u.lr_sgr_set.n
                for s in range(2):
                    has = isin(zset, *[k for k in range(16) if (RADIUS0, RADIUS1)[s][k]])
                    v = u.lr_sgr_xqd[s].n
                    with U.when(AND(sg, has)):
                        cases_of(U, refs[p, s], lambda q: subexp(U, v, S_MIN[s], S_MAX[s], 4, q, "%s, weight %d" % (what, s)))
                    if s:
                        w = sub(const(128), refs[p, 0])
                        w = ite(LT(w, const(S_MIN[1])), const(S_MIN[1]), ite(GT(w, const(S_MAX[1])), const(S_MAX[1]), w))
                    else:
                        w = ZERO
                    v = ite(has, v, w)
                    rec.append((sg, "lr_sgr_xqd", (p, y, x, s), v, what))
                    refs[p, s] = ite(sg, v, refs[p, s])
    ctx.same_list(nm + ":elements", R.bits(names.index(newvec)), U.items, R.g, R.where, nm + ": syntax elements")
    FO = Nav(R.I, R.out, R.args[fidx], body["locals"][fidx + 1])
    EO = Nav(R.I, R.out, R.args[0], body["locals"][1]).ectx
    for g, f, path, v, what in rec:
        z = FO[f]
        for k in path:
            z = z[k]
        ctx.same("%s:%s" % (nm, f), z.n, v, AND(R.g, g), R.where, "%s: %s, %s recorded" % (nm, what, f[3:]))
    for (p, s, j), v in refw.items():
        ctx.same(nm + ":wiener reference", EO.ref_lr_wiener[p][s][j].n, v, R.g, R.where, "%s: Wiener coefficient the next one of plane %d is relative to" % (nm, p))
    for (p, s), v in refs.items():
        ctx.same(nm + ":weight reference", EO.ref_sgr_xqd[p][s].n, v, R.g, R.where, "%s: weight the next one of plane %d is relative to" % (nm, p))
    ctx.count("restoration units", sum((g[2] - g[1]) * (g[4] - g[3]) for g in geo))


def cases_of(U, t, f):
    """f(value) under each value the small term t can take"""
    vs = values(t)
    for q in vs:
        with U.when(EQ(t, const(q)) if len(vs) > 1 else TRUE):
            f(q)


def values(t):
    t = T._as_int(t)
    if is_const(t):
        return [t.c]
    lo, hi = T.rng(t)
    if hi - lo > 512:
        raise Giveup("range of a reference")
    return [q for q in range(lo, hi + 1) if EQ(t, const(q)) is not FALSE]


def none(pre):
    return {}


GEO = [  # frame width, height, upscaled width, row, column, superblock, types, unit sizes, planes, subsampling, denominator
    (64, 64, 64, 0, 0, 12, (3, 1, 2), (64, 64, 64), 3, 0, 0, 8),
    (64, 64, 64, 0, 0, 12, (1, 2, 3), (64, 32, 32), 3, 1, 1, 8),
    (200, 136, 200, 0, 0, 15, (2, 0, 1), (64, 32, 64), 3, 1, 1, 8),
    (200, 136, 200, 0, 32, 15, (3, 3, 0), (64, 64, 32), 3, 1, 0, 8),
    (200, 136, 200, 32, 0, 15, (1, 1, 1), (64, 64, 64), 3, 1, 1, 8),
    (176, 144, 176, 16, 32, 12, (3, 1, 2), (64, 32, 32), 3, 1, 1, 8),
    (176, 144, 176, 32, 32, 12, (3, 1, 2), (64, 32, 32), 3, 1, 1, 8),
    (176, 144, 176, 16, 16, 12, (2, 0, 0), (256, 128, 128), 1, 1, 1, 8),
    (320, 200, 640, 0, 16, 12, (1, 2, 0), (64, 64, 64), 3, 1, 1, 16),
    (284, 72, 320, 0, 16, 12, (3, 1, 1), (64, 32, 32), 3, 1, 1, 9),
    (284, 72, 320, 16, 64, 12, (3, 1, 1), (64, 32, 32), 3, 1, 1, 9),
    (33, 31, 33, 0, 0, 12, (1, 1, 1), (64, 32, 32), 3, 1, 1, 8),
]


def far(ctx):
    """superblocks far from the origin, and around every constant of the code, in wide and tall frames"""
    at = sorted(set([63] + ctx.near(["encode_lr"], (), 1022 if ctx.thorough else 300, ("encode_lr_unit",))))
    for k in at:
        if k < 6:
            continue
        n = 64 * k + 100
        yield (n, 64, n, 0, 16 * k, 12, (3, 1, 2), (64, 32, 64), 3, 1, 1, 8)
        yield (64, n, 64, 16 * k, 0, 12, (2, 3, 1), (64, 64, 32), 3, 1, 1, 8)
        if ctx.thorough or k == 63:
            yield (n, 64, n, 0, 16 * k + 16, 12, (1, 2, 0), (64, 32, 32), 3, 1, 1, 8)
            yield (n, 64, 2 * n, 0, 16 * k, 12, (1, 0, 0), (128, 64, 64), 3, 1, 1, 16)


def c26(ctx):
    ctx.rule("restoration units", "a superblock codes exactly the units that start in it, in order; each filter is coded as the decoder reads it, relative to the last filter of the plane, and recorded with its decoded values")
    for k, g in enumerate(GEO + list(far(ctx))):
        nm = "superblock of %d at %d, %d of %dx%d (%d upscaled), types %s, units %s, %d planes, subsampling %d%d" % (128 if g[5] == 15 else 64, g[3], g[4], g[0], g[1], g[2], g[6], g[7], g[8], g[9], g[10])
        n = sum(1 for t in g[6] if t)

        def pin(pre, g=g):
            return {}
        ctx.ob(nm, lr_run, ctx, nm, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], pin)
    ctx.ob("block copy", lr_run, ctx, "frame with block copy", 64, 64, 64, 0, 0, 12, (3, 1, 2), (64, 64, 64), 3, 0, 0, 8, none, copy=1)
    one = (64, 64, 64, 0, 0, 12)
    for p in (0, 1, 2):
        ty = lambda t: tuple(t if q == p else 0 for q in range(3))
        for s in (0, 1):
            for j in range(3):
                if p and not j:
                    continue
                refs = list(range(W_MIN[j], W_MAX[j] + 1))
                if not ctx.thorough and (p or s):
                    refs = refs[(p + s) % 5::5]
                for q in refs:
                    def pin(pre, q=q, s=s, j=j):
                        return {"self.ectx.ref_lr_wiener[%d][%d][%d]" % (p, s, j): (q, q), "%s[%d][0][0].use_wiener" % (pre, p): (1, 1),
                                "%s[%d][0][0].lr_wiener[%d][%d]" % (pre, p, s, j): (W_MIN[j], W_MAX[j])}
                    nm = "Wiener coefficient %d of pass %d, plane %d, after %d" % (j, s, p, q)
                    ctx.ob(nm, lr_run, ctx, nm, *one, ty(R_WIENER), (64, 64, 64), 3, 0, 0, 8, pin)
        for s in (0, 1):
            refs = list(range(S_MIN[s], S_MAX[s] + 1))
            if not ctx.thorough:
                refs = refs[::3] + refs[-1:] if p == 0 else refs[p::16]
            for q in refs:
                for z in (3, 12, 15) if ctx.thorough or q % 5 == 0 else (3,):
                    def pin(pre, q=q, s=s, z=z):
                        return {"self.ectx.ref_sgr_xqd[%d][%d]" % (p, s): (q, q), "%s[%d][0][0].use_sgrproj" % (pre, p): (1, 1), "%s[%d][0][0].lr_sgr_set" % (pre, p): (z, z),
                                "%s[%d][0][0].lr_sgr_xqd[%d]" % (pre, p, s): (S_MIN[s], S_MAX[s])}
                    nm = "weight %d of set %d, plane %d, after %d" % (s, z, p, q)
                    ctx.ob(nm, lr_run, ctx, nm, *one, ty(R_SGR), (64, 64, 64), 3, 0, 0, 8, pin)


RULES = {"C26": c26}
