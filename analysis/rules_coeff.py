"""Coefficient syntax elements and the transform type derivation."""
from .rules_syntax import *
import itertools

ADJ = [0, 1, 2, 3, 3, 5, 6, 7, 8, 9, 10, 3, 3, 13, 14, 15, 16, 9, 10]
M2T = [0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0]
CLASS = [0] * 10 + [2, 1, 2, 1, 2, 1]          # 0: both directions, 1: horizontal only, 2: vertical only
# transform types each set holds
INTRA_SETS = {0: [0], 1: TXI1, 2: TXI2}
INTER_SETS = {0: [0], 1: TXE1, 2: TXE2, 3: TXE3}
SIG = [[(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)], [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)], [(1, 0), (0, 1), (2, 0), (3, 0), (4, 0)]]
BR = [[(0, 1), (1, 0), (1, 1)], [(0, 1), (1, 0), (0, 2)], [(0, 1), (1, 0), (2, 0)]]


def tx_set(ts, inter, reduced):
    up, sq = TXSQUP[ts], TXSQ[ts]
    if up > 3:
        return 0
    if inter:
        return 3 if reduced or up == 3 else 2 if sq == 2 else 1
    return 0 if up == 3 else 2 if reduced or sq == 2 else 1


def in_set(k, inter, ty):
    return OR_ALL([EQ(ty, const(x)) for x in (INTER_SETS if inter else INTRA_SETS)[k]])


def tx_type(ts, plane, inter, reduced, lossless, stored, uv):
    """the transform type of a block, from the stored type at its (luma) place and the chroma mode"""
    if lossless or TXSQUP[ts] > 3:
        return ZERO
    ty = stored if plane == 0 or inter else tab(M2T, uv)
    return ite(in_set(tx_set(ts, inter, reduced), inter, ty), ty, ZERO)


def offset(ts, r, c):
    w, h = TW[ts], TH[ts]
    if w < h and r < 2:
        return 11
    if w > h and c < 2:
        return 16
    return 1 if r + c < 2 else 6 if r + c < 4 else 21


class Coeff:
    """a coefficient element: the tables are picked by quantizer class first, which is left out of the comparison"""

    def __init__(self, ctx, fn, names, ranges, veclen=None, fixed=None, alias=None):
        self.names = names
        s = Symbols()
        args = []
        for nm in names:
            args.append(newvec if nm == "out" else fixed[nm] if fixed and nm in fixed else nm)
        rg = {"mi_size.#": (0, 21), "tx_type.#": (0, 15), "level_context": (0, 255), "dc_context": (0, 2), "uv_mode.#": (0, 13), "tx_size_ctx": (0, 4), "ptype": (0, 1)}
        rg.update(ranges)
        vl = {"mis": (4, 4)}
        vl.update(veclen or {})
        self.r = Run(ctx, fn, args, TRUE, ranges=rg, veclen=vl, hooks={"encode_symbol": s.hook}, alias=alias)
        self.s = s
        self.a = Args(self.r, names)
        self.ctx = ctx

    def check(self, nm, sym, table, idx, guard=TRUE):
        ctx, r, s, names = self.ctx, self.r, self.s, self.names
        t = ctx.p.tys[r.prog.inst[r.i]["body"]["locals"][names.index("cdf") + 1]]
        tt = ctx.p.tys[t["e"]]
        fields = [f[0] for f in tt["v"][0]["f"]]
        cdf = r.I.force(r.args[names.index("cdf")]).alts[0][1].obj
        r.returns(nm + ":completes", nm, guard)
        got = []
        for g, y, ref, st, site, o in s.got:
            x = None
            for gg, p in ref.alts:
                if p.obj != cdf or not p.path or len(p.path) < 3:
                    raise Giveup("table %r" % (p,))
                t1 = table_id_term(fields[p.path[0][1]], [e[1] for e in p.path[2:]])
                x = t1 if x is None else ite(gg, t1, x)
                ty = tt["v"][0]["f"][p.path[0][1]][1]
                for _ in p.path[1:]:
                    ty = ctx.p.tys[ty]["e"]
                if p.win is not None and (p.win[0] is not ZERO or p.win[1] is not const(ctx.p.tys[ty]["n"])):
                    raise Giveup("part of a table")
            got.append((g, y, x, site))
        G = AND(guard, r.g)
        ctx.same_list(nm + ":symbol", [(g, y, t) for g, y, _, t in got], [(TRUE, sym, "the coded value")], G, r.where, nm + ", symbol")
        ctx.same_list(nm + ":table", [(g, x, t) for g, _, x, t in got], [(TRUE, table_id_term(table, idx), "its table and context")], G, r.where,
                      nm + ", table and context (table number in the upper digits, indices below)")
        ctx.never(nm + ":raw bits", OR_ALL([g for g, _, _ in r.bits(names.index("out"))]), r.where, nm + ": writes bits besides the symbol")
        ctx.count("coefficient elements")


PL = "frame mi_row mi_col uv_mode lossless is_inter reduced plane tx_size x4 y4"
FLAGS = [(l, i, rd) for l in (0, 1) for i in (0, 1) for rd in (0, 1)]


def place(plane, ssx, ssy):
    """concrete places: block at unit (2,2) of luma, transform block x4, y4 in units of the plane"""
    return (1, 1) if plane and ssx and ssy else (3, 1) if plane and ssy else (1, 3) if plane and ssx else (3, 2)


def setup(ts, plane, l, i, rd, ssx, ssy, mi=(2, 2)):
    x4, y4 = place(plane, ssx, ssy)
    rg = {"tx_size.#": (ts, ts), "lossless": (l, l), "is_inter": (i, i), "reduced": (rd, rd), "plane": (plane, plane),
          "frame.subsampling_x": (ssx, ssx), "frame.subsampling_y": (ssy, ssy), "x4": (x4, x4), "y4": (y4, y4)}
    if plane:
        lx, ly = max(mi[1], x4 << ssx), max(mi[0], y4 << ssy)
    else:
        lx, ly = x4, y4
    rg["frame.mis[%d][%d].#" % (ly, lx)] = (1, 1)
    return rg, {"mi_row": mi[0], "mi_col": mi[1], "x4": x4, "y4": y4, "plane": plane}, (ly, lx)


def stored_type(A, at):
    return A.frame.mis[at[0]][at[1]].pay().tx_type.n


def legal(ts, plane, i, rd, l, A, at):
    """a stored luma type is one of its set"""
    if plane or l or TXSQUP[ts] > 3:
        return TRUE
    return in_set(tx_set(ts, i, rd), i, stored_type(A, at))


def derivation(ctx):
    names = ["plane", "tx_size", "x4", "y4", "frame", "lossless", "is_inter", "reduced", "uv_mode", "mi_row", "mi_col"]
    for ts in range(19):
        for plane in (0, 1, 2):
            for l, i, rd in FLAGS:
                for ssx, ssy, mi in [(a, b, m) for m in ((2, 2), (3, 0), (0, 3)) for a, b in ((0, 0), (1, 1), (1, 0), (0, 1)) if m == (2, 2) or i and ts in (0, 1, 5)] if plane else ((0, 0, (2, 2)),):
                    nm = "transform type of plane %d, size %dx%d, %s%s%s, subsampling %d%d, block at %d,%d" % (
                        plane, TW[ts], TH[ts], "inter" if i else "intra", " reduced" if rd else "", " lossless" if l else "", ssx, ssy, mi[0], mi[1])

                    def f():
                        rg, fx, at = setup(ts, plane, l, i, rd, ssx, ssy, mi)
                        rg.update({"uv_mode.#": (0, 13), "tx_type.#": (0, 15)})
                        r = Run(ctx, "compute_tx_type", [fx.get(n_, n_) for n_ in names], TRUE, ranges=rg, veclen={"mis": (4, 4)})
                        A = Args(r, names)
                        r.returns(nm + ":completes", nm, TRUE)
                        got = Nav(r.I, r.out, r.ret, r.prog.inst[r.i]["body"]["locals"][0]).n
                        ctx.same(nm, got, tx_type(ts, plane, i, rd, l, stored_type(A, at), A.uv_mode.n), AND(r.g, legal(ts, plane, i, rd, l, A, at)), r.where, nm)
                        ctx.count("transform type cases")
                    ctx.ob(nm, f)
    for ts in range(19):
        for i in (0, 1):
            for rd in (0, 1):
                def f():
                    r = Run(ctx, "get_tx_set", ["ts", "inter", "reduced"], TRUE, ranges={"ts.#": (ts, ts), "inter": (i, i), "reduced": (rd, rd)})
                    ctx.same("set:%d:%d:%d" % (ts, i, rd), T._as_int(r.I.need_term(r.ret)), const(tx_set(ts, i, rd)), r.g, r.where, "transform set of size %dx%d" % (TW[ts], TH[ts]))
                ctx.ob("set:%d:%d:%d" % (ts, i, rd), f)
    for i in (0, 1):
        for k in (INTER_SETS if i else INTRA_SETS):
            def f():
                r = Run(ctx, "is_tx_type_in_set", ["set", "ty", "inter"], TRUE, ranges={"set": (k, k), "ty.#": (0, 15), "inter": (i, i)})
                A = Args(r, ["set", "ty", "inter"])
                v = r.I.need_term(r.ret)
                ctx.same("member:%d:%d" % (i, k), b2i(v if isbool(v) else i2b(v)), b2i(in_set(k, i, A.ty.n)), r.g, r.where, "membership in %s set %d" % ("inter" if i else "intra", k))
            ctx.ob("member:%d:%d" % (i, k), f)

    def f():
        r = Run(ctx, "get_tx_class", ["ty"], TRUE, ranges={"ty.#": (0, 15)})
        ctx.same("class", T._as_int(r.I.need_term(r.ret)), tab(CLASS, Args(r, ["ty"]).ty.n), r.g, r.where, "transform class")
    ctx.ob("class", f)


def eob(ctx):
    names = ["self", "out", "cdf", "v"] + PL.split() + ["ptype"]
    for size in (16, 32, 64, 128, 256, 512, 1024):
        for ts in range(19):
            area = min(TW[ts], 32) * min(TH[ts], 32)
            if area != size:
                continue
            for plane in (0, 1):
                for l, i, rd in FLAGS:
                    nm = "eob_pt_%d in plane %d, size %dx%d, %s%s%s" % (size, plane, TW[ts], TH[ts], "inter" if i else "intra", " reduced" if rd else "", " lossless" if l else "")

                    def f():
                        rg, fx, at = setup(ts, plane, l, i, rd, 1, 1)
                        rg["v"] = (0, {16: 4, 32: 5, 64: 6, 128: 7, 256: 8, 512: 9, 1024: 10}[size])
                        e = Coeff(ctx, "encode_eob_pt_%d" % size, names, rg, fixed=fx)
                        ty = tx_type(ts, plane, i, rd, l, stored_type(e.a, at), e.a.uv_mode.n)
                        e.check(nm, e.a.v.n, "eob_pt_%d" % size, [e.a.ptype.n, n(NE(tab(CLASS, ty), ZERO))], legal(ts, plane, i, rd, l, e.a, at))
                    ctx.ob(nm, f)

    def f():
        e = Coeff(ctx, "encode_eob_extra", ["self", "out", "cdf", "v", "tx_size_ctx", "ptype", "eob_pt"], {"v": (0, 1), "eob_pt": (3, 11)})
        e.check("eob_extra", e.a.v.n, "eob_extra", [e.a.tx_size_ctx.n, e.a.ptype.n, sub(e.a.eob_pt.n, const(3))])
    ctx.ob("eob_extra", f)


def spots(w, full):
    s = {0, 1, 2, 3, 4, 5, w // 2, w - 3, w - 2, w - 1} if full else {0, 1, 2, 4, w - 2, w - 1}
    return sorted(x for x in s if 0 <= x < w)


def places(ctx, fn, w, h):
    """corners, edges, and the positions around every constant of the code"""
    a = [(r, c) for r in spots(h, ctx.thorough) for c in spots(w, ctx.thorough)]
    near = sorted(set(ctx.near([fn], (), w * h - 1)) & set(range(w * h)))
    if not ctx.thorough:
        near = [k for k in near if k > 64]
    return list(dict.fromkeys(a + [divmod(k, w) for k in near]))


REP = {0: 0, 1: 11, 2: 10}


def classes(ts):
    """(transform class, a type of it) that blocks of this size can have"""
    return [(c, REP[c]) for c in ((0, 1, 2) if TXSQUP[ts] <= 2 else (0,))]


def pin(rg, sig, row, col, w, h, k):
    """all but two of the levels a context is made of are pinned, so that the sum stays small; which two varies with k"""
    nb = [(row + dr) * w + col + dc for dr, dc in sig if row + dr < h and col + dc < w]
    pairs = list(itertools.combinations(nb, 2)) or [tuple(nb)]
    free = pairs[k % len(pairs)]
    for j, q in enumerate(nb):
        if q not in free:
            rg["quant[%d]" % q] = ((j + k) % 4, (j + k) % 4)
    return len(pairs)


def level(v, top, neg):
    a = tabs(v) if neg else v
    return tmin(a, const(top))


def base(ctx):
    names = "self out cdf v tx_size tx_size_ctx ptype plane x4 y4 scan c frame lossless is_inter reduced uv_mode mi_row mi_col quant".split()
    for ts in range(19):
        w, h = TW[ADJ[ts]], TH[ADJ[ts]]
        for cl, ty in classes(ts):
            for _ in (0,):
                for row, col in places(ctx, "encode_coeff_base", w, h):
                    pos = row * w + col
                    nm = "coeff_base at row %d, column %d of %dx%d, class %d" % (row, col, TW[ts], TH[ts], cl)

                    def f(k):
                        rg, fx, at = setup(ts, 0, 0, 1, 0, 1, 1)
                        rg.update({"v": (0, 3), "scan[1]": (pos, pos), "tx_type.#": (ty, ty), "quant": (-32768, 32767), "scan": (0, w * h - 1)})
                        fx["c"] = 1
                        pin(rg, SIG[cl], row, col, w, h, k)
                        e = Coeff(ctx, "encode_coeff_base", names, rg, {"quant": (w * h, w * h), "scan": (3, 3)}, fx)
                        A = e.a
                        mag = ZERO
                        for dr, dc in SIG[cl]:
                            if row + dr < h and col + dc < w:
                                mag = add(mag, level(A.quant[(row + dr) * w + col + dc].n, 3, True))
                        c = tmin(T._as_int(shr_const(add(mag, ONE), 1)), const(4))
                        if cl == 0:
                            c = ZERO if pos == 0 else add(c, const(offset(ts, row, col)))
                        else:
                            c = add(c, const(26 + 5 * min(row if cl == 2 else col, 2)))
                        e.check(nm, A.v.n, "coeff_base", [A.tx_size_ctx.n, A.ptype.n, c])
                    for k in range(10) if ctx.thorough else (pos + ts,):
                        ctx.ob(nm, f, k)
        k = w * h
        for c in sorted({0, 1, k // 8, k // 8 + 1, k // 4, k // 4 + 1, k - 1}):
            for plane in (0, 1):
                nm = "coeff_base_eob at coefficient %d of %dx%d, plane %d" % (c, TW[ts], TH[ts], plane)

                def f():
                    rg, fx, at = setup(ts, plane, 0, 1, 0, 1, 1)
                    rg.update({"v": (0, 2), "scan": (0, k - 1), "quant": (-32768, 32767)})
                    fx["c"] = c
                    e = Coeff(ctx, "encode_coeff_base_eob", names, rg, {"quant": (k, k), "scan": (k, k)}, fx)
                    x = 0 if c == 0 else 1 if c <= k // 8 else 2 if c <= k // 4 else 3
                    e.check(nm, e.a.v.n, "coeff_base_eob", [e.a.tx_size_ctx.n, e.a.ptype.n, const(x)])
                ctx.ob(nm, f)


def br(ctx):
    names = "self out cdf v frame tx_size_ctx lossless is_inter reduced uv_mode pos ptype tx_size x4 y4 plane quant mi_row mi_col".split()
    for ts in range(19):
        w, h = TW[ADJ[ts]], TH[ADJ[ts]]
        for cl, ty in classes(ts):
            for _ in (0,):
                for row, col in places(ctx, "encode_coeff_br", w, h):
                    pos = row * w + col
                    nm = "coeff_br at row %d, column %d of %dx%d, class %d" % (row, col, TW[ts], TH[ts], cl)

                    def f(k):
                        rg, fx, at = setup(ts, 0, 0, 1, 0, 1, 1)
                        rg.update({"v": (0, 3), "tx_type.#": (ty, ty), "quant": (0, 32767)})
                        fx["pos"] = pos
                        pin(rg, BR[cl], row, col, w, h, k)
                        e = Coeff(ctx, "encode_coeff_br", names, rg, {"quant": (w * h, w * h)}, fx)
                        A = e.a
                        mag = ZERO
                        for dr, dc in BR[cl]:
                            if row + dr < h and col + dc < w:
                                mag = add(mag, level(A.quant[(row + dr) * w + col + dc].n, 15, False))
                        c = tmin(T._as_int(shr_const(add(mag, ONE), 1)), const(6))
                        if pos:
                            near = row < 2 and col < 2 if cl == 0 else col == 0 if cl == 1 else row == 0
                            c = add(c, const(7 if near else 14))
                        e.check(nm, A.v.n, "coeff_br", [tmin(A.tx_size_ctx.n, const(3)), A.ptype.n, c])
                    for k in range(3) if ctx.thorough else (pos + ts,):
                        ctx.ob(nm, f, k)


# block position and size of the frame in units, (rows, columns)
SQUARE_, WIDE, TALL = ((2, 2), (4, 4)), ((2, 6), (4, 8)), ((6, 2), (8, 4))


def edges(ctx, plane, w4, h4, ssx, ssy, inside, geo=SQUARE_):
    """neighbour records along an edge share their contexts, as within one neighbouring block; the second unit may lie outside the frame"""
    mi, (rows, cols) = geo
    x4, y4 = (mi[1] >> ssx, mi[0] >> ssy) if plane else (mi[1], mi[0])
    rg = {"plane": (plane, plane), "x4": (x4, x4), "y4": (y4, y4), "frame.subsampling_x": (ssx, ssx), "frame.subsampling_y": (ssy, ssy),
          "w4": (w4, w4), "h4": (h4, h4)}
    al = {}
    up, lf = mi[0] - 1, mi[1] - 1
    for c in range(8):
        rg["frame.mis[%d][%d].#" % (up, c)] = (1, 1)
        for k in range(3):
            for f in ("level_context", "dc_context"):
                if c != mi[1]:
                    al["frame.mis[%d][%d].0.%s[%d]" % (up, c, f, k)] = "frame.mis[%d][%d].0.%s[%d]" % (up, mi[1], f, k)
    for r_ in range(mi[0], 8):
        rg["frame.mis[%d][%d].#" % (r_, lf)] = (1, 1)
        for k in range(3):
            for f in ("level_context", "dc_context"):
                if r_ != mi[0]:
                    al["frame.mis[%d][%d].0.%s[%d]" % (r_, lf, f, k)] = "frame.mis[%d][%d].0.%s[%d]" % (mi[0], lf, f, k)
    # frame ending inside the block, or beyond
    e = 0 if inside else 2
    rg["frame.frame_width"] = (4 * (cols + e) - 7, 4 * (cols + e))
    rg["frame.frame_height"] = (4 * (rows + e) - 7, 4 * (rows + e))
    return rg, al, mi, x4, y4


def seen(k4, at, ss, plane, inside, units=4):
    """units of an edge of k4 units that lie inside the frame"""
    units = units if inside else units + 2
    if plane:
        units >>= ss
    return sum(1 for k in range(k4) if at + k < units)


def all_zero(ctx):
    names = "self out cdf v plane tx_size tx_size_ctx frame mi_size mi_row mi_col w4 h4 x4 y4".split()
    todo = []
    for ts in range(19):
        for plane in (0, 1, 2):
            for ssx, ssy in ((0, 0), (1, 1)) + (((1, 0),) if plane else ()):
                for w4, h4 in ((1, 1), (2, 1), (1, 2)) if ctx.thorough or ts in (0, 5, 9) else ((1, 1),):
                    todo.append((ts, plane, ssx, ssy, w4, h4, SQUARE_))
    for plane in (0, 1, 2):
        for geo in (WIDE, TALL):
            for ssx, ssy in ((0, 0), (1, 1), (1, 0)):
                for w4, h4 in ((1, 1), (2, 2)):
                    todo.append((0, plane, ssx, ssy, w4, h4, geo))
    for ts, plane, ssx, ssy, w4, h4, geo in todo:
        nm = "all_zero of a %dx%d transform in plane %d, edges %dx%d, subsampling %d%d%s" % (TW[ts], TH[ts], plane, w4, h4, ssx, ssy, "" if geo is SQUARE_ else " at unit %d,%d" % geo[0])

        def f():
            rg, al, mi, x4, y4 = edges(ctx, plane, w4, h4, ssx, ssy, True, geo)
            rg.update({"tx_size.#": (ts, ts), "v": (0, 1)})
            fx = {"mi_row": mi[0], "mi_col": mi[1], "x4": x4, "y4": y4, "plane": plane, "w4": w4, "h4": h4}
            nn = ["bs" if x == "mi_size" else x for x in names]
            rg["bs.#"] = (0, 21)
            if plane:
                rg["level_context"] = (0, 3)
            e = Coeff(ctx, "encode_all_zero", nn, rg, {"mis": (8, 8)}, fx, al)
            A = e.a
            u, l = A.frame.mis[mi[0] - 1][mi[1]].pay(), A.frame.mis[mi[0]][mi[1] - 1].pay()
            sx, sy = (ssx, ssy) if plane else (0, 0)
            ok = OR_ALL([EQ(A.bs.n, const(k)) for k in range(22) if subsampled(k, sx, sy) is not None])
            sub_ = [subsampled(k, sx, sy) or 0 for k in range(22)]
            bw, bh = tab([BW[x] for x in sub_], A.bs.n), tab([BH[x] for x in sub_], A.bs.n)
            area = tab([BW[x] * BH[x] for x in sub_], A.bs.n)
            if plane == 0:
                top, left = u.level_context[0].n, l.level_context[0].n
                mx, mn = ite(LT(top, left), left, top), tmin(top, left)
                c = cases((AND(EQ(bw, const(TW[ts])), EQ(bh, const(TH[ts]))), 0), (AND(EQ(top, ZERO), EQ(left, ZERO)), 1),
                          (OR(EQ(top, ZERO), EQ(left, ZERO)), add(const(2), n(GT(mx, const(3))))), (LE(mx, const(3)), 4), (LE(mn, const(3)), 5), 6)
            else:
                f1 = lambda m: OR(NE(m.level_context[plane].n, ZERO), NE(m.dc_context[plane].n, ZERO))
                c = tsum(const(7), f1(u), f1(l), times(3, GT(area, const(TW[ts] * TH[ts]))))
            e.check(nm, A.v.n, "txb_skip", [A.tx_size_ctx.n, c], ok)
        ctx.ob(nm, f)


def dc_sign(ctx):
    names = "self out cdf v ptype frame plane mi_row mi_col w4 h4 x4 y4".split()
    for plane in (0, 1, 2):
        for ssx, ssy in ((0, 0), (1, 1), (1, 0), (0, 1)):
            for w4, h4 in ((1, 1), (2, 1), (1, 2), (2, 2), (4, 2), (3, 4)):
                for inside, geo in ((True, SQUARE_), (False, SQUARE_), (True, WIDE), (True, TALL)):
                    nm = "dc_sign in plane %d, edges %dx%d, subsampling %d%d%s, unit %d,%d" % (plane, w4, h4, ssx, ssy, ", frame ending in the block" if inside else "", geo[0][0], geo[0][1])

                    def f():
                        rg, al, mi, x4, y4 = edges(ctx, plane, w4, h4, ssx, ssy, inside, geo)
                        rg["v"] = (0, 1)
                        fx = {"mi_row": mi[0], "mi_col": mi[1], "x4": x4, "y4": y4, "plane": plane, "w4": w4, "h4": h4}
                        e = Coeff(ctx, "encode_dc_sign", names, rg, {"mis": (8, 8)}, fx, al)
                        A = e.a
                        u, l = A.frame.mis[mi[0] - 1][mi[1]].pay(), A.frame.mis[mi[0]][mi[1] - 1].pay()
                        sg = lambda m: sub(n(EQ(m.dc_context[plane].n, const(2))), n(EQ(m.dc_context[plane].n, ONE)))
                        s = add(mul(const(seen(w4, x4, ssx, plane, inside, geo[1][1])), sg(u)), mul(const(seen(h4, y4, ssy, plane, inside, geo[1][0])), sg(l)))
                        e.check(nm, A.v.n, "dc_sign", [A.ptype.n, cases((LT(s, ZERO), 1), (GT(s, ZERO), 2), 0)])
                    ctx.ob(nm, f)


def C12(ctx):
    ctx.rule("coefficient element", "each coefficient element hands exactly one symbol, its value, to the symbol coder with its table and the context the format defines for the transform block")
    derivation(ctx)
    eob(ctx)
    base(ctx)
    br(ctx)
    all_zero(ctx)
    dc_sign(ctx)


RULES = {"C12": C12}
