"""Motion vectors: prediction by mode, and the coded difference."""
from .rules_mode import *
from .rules_tile import n_

CLASSES = 11


def component(U, v, comp, mvctx, fint, hp):
    """the elements of a nonzero difference v; the magnitude less one is split into class, integer bits, quarter and eighth"""
    neg = LT(v, ZERO)
    o = sub(ite(neg, sub(ZERO, v), v), ONE)
    U.el("encode_mv_sign", n_(neg), mvctx, const(comp))
    for k in range(CLASSES):
        lo, hi = (0, 16) if k == 0 else (1 << (k + 3), 1 << (k + 4))
        with U.when(AND(GE(o, const(lo)), LT(o, const(hi)))):
            U.el("encode_mv_class", const(k), mvctx, const(comp))
            fr, e = mod_const(shr_const(o, 1), 2), mod_const(o, 1)
            if k == 0:
                bit = mod_const(shr_const(o, 3), 1)
                U.el("encode_mv_class0_bit", bit, mvctx, const(comp))
                with U.when(NOT(fint)):
                    U.el("encode_mv_class0_fr", fr, bit, mvctx, const(comp))
                with U.when(hp):
                    U.el("encode_mv_class0_hp", e, mvctx, const(comp))
            else:
                for j in range(k):
                    U.el("encode_mv_bit", mod_const(shr_const(o, j + 3), 1), const(j), mvctx, const(comp))
                with U.when(NOT(fint)):
                    U.el("encode_mv_fr", fr, mvctx, const(comp))
                with U.when(hp):
                    U.el("encode_mv_hp", e, mvctx, const(comp))


MODES = {NEARESTMV: [NEARESTMV], NEARMV: [NEARMV], GLOBALMV: [GLOBALMV], NEWMV: [NEWMV], NEAREST_NEARESTMV: [NEARESTMV, NEARESTMV], NEAR_NEARMV: [NEARMV, NEARMV],
         NEAREST_NEWMV: [NEARESTMV, NEWMV], NEW_NEARESTMV: [NEWMV, NEARESTMV], NEAR_NEWMV: [NEARMV, NEWMV], NEW_NEARMV: [NEWMV, NEARMV], GLOBAL_GLOBALMV: [GLOBALMV, GLOBALMV], NEW_NEWMV: [NEWMV, NEWMV]}
MNAME = {v: k for k, v in list(globals().items()) if k.endswith("MV") and isinstance(v, int)}


def vectors(ctx, nm, mode, copy, pinned, split=None):
    i = method(ctx, "TileEncoder", "assign_mv")
    body = ctx.p.inst[i]["body"]
    comp = len(MODES[mode]) > 1
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else (TRUE if comp else FALSE) if t["k"] == "bool" else {"Frame": "frame", "Vec": newvec, "PartitionTree": "tree"}[str(e.get("n")).split("::")[-1]])
    lim = 1 << 13
    rg = {"self.y_mode": (mode, mode), "use_intrabc": (int(copy), int(copy)), "x": (-lim + 1, lim - 1), "y": (-lim + 1, lim - 1), "num_mv_found": (0, 8), "ref_mv_idx": (0, 2), "mi_row": (0, 1 << 14),
          "mi_row_start": (0, 1 << 14), "force_integer_mv": (0, 1)}
    rg.update(pinned)
    I0 = Interp(ctx.p, ranges=rg)
    st0 = State({}, TRUE)
    lz = lambda x: Nav(I0, st0, I0.lazy(body["locals"][names.index(x) + 1], x), body["locals"][names.index(x) + 1])
    S, F, P = lz("self"), lz("frame"), lz("tree")
    pre = GE(S.mi_row.n, S.mi_row_start.n)
    U = Units(TRUE)
    fint, hp = NE(F.force_integer_mv.n, ZERO), F.allow_high_precision_mv.b
    zero = lambda m: AND(EQ(m[0], ZERO), EQ(m[1], ZERO))
    xy = lambda m: (m.x.n, m.y.n)
    sel = lambda c, a, b: tuple(ite(c, p, q) for p, q in zip(a, b))
    final, preds = [], []
    for k, m in enumerate(MODES[mode]):
        if copy:
            m = NEWMV
            pred = xy(S.ref_stack_mv[0][0])
            pred = sel(zero(pred), xy(S.ref_stack_mv[1][0]), pred)
            sb = ite(S.ectx.use_128x128_superblock.b, const(128), const(64))
            first = LT(sub(S.mi_row.n, shr_const(sb, 2)), S.mi_row_start.n)
            pred = sel(zero(pred), sel(first, (mul(add(sb, const(256)), const(-8)), ZERO), (ZERO, mul(sb, const(-8)))), pred)
        elif m == GLOBALMV:
            pred = xy(S.global_mvs[k])
        else:
            pos = ZERO if m == NEARESTMV else S.ref_mv_idx.n
            if m == NEWMV:
                pos = ite(LE(S.num_mv_found.n, ONE), ZERO, pos)
            pred = tuple(at(pos, [xy(S.ref_stack_mv[j][k])[c] for j in range(3)]) for c in (0, 1))
        preds.append(pred)
        if m == NEWMV:
            d = tuple(sub(a, b) for a, b in zip(xy(P.mvs[k]), pred))
            if split:
                pre = AND(pre, split(k, d, pred, S, P))
            hz, vz = EQ(d[0], ZERO), EQ(d[1], ZERO)
            ctxn = const(1) if copy else ZERO
            U.el("encode_mv_joint", ite(vz, ite(hz, ZERO, ONE), ite(hz, const(2), const(3))), ctxn)
            with U.when(NOT(vz)):
                component(U, d[1], 0, ctxn, fint, hp)
            with U.when(NOT(hz)):
                component(U, d[0], 1, ctxn, fint, hp)
            final.append(xy(P.mvs[k]))
        else:
            final.append(pred)
    R = Run(ctx, "assign_mv", names, pre, i=i, ranges=rg, hooks=unit_hooks(ctx))
    R.returns(nm + ":returns", nm, pre)
    if R.out is None:
        return
    ctx.same_list(nm + ":elements", R.bits(names.index(newvec)), U.items, R.g, R.where, nm + ": syntax elements")
    PO = Nav(R.I, R.out, R.args[names.index("tree")], body["locals"][names.index("tree") + 1])
    SO = Nav(R.I, R.out, R.args[0], body["locals"][1])
    for k in range(len(final)):
        for c, n in enumerate(("horizontal", "vertical")):
            ctx.same(nm + ":vector", xy(PO.mvs[k])[c], final[k][c], R.g, R.where, "%s: %s component of vector %d recorded" % (nm, n, k))
            ctx.same(nm + ":prediction", xy(SO.pred_mv[k])[c], preds[k][c], R.g, R.where, "%s: %s component of prediction %d" % (nm, n, k))
    ctx.same(nm + ":mode", PO.compound_mode.n, P.compound_mode.n, R.g, R.where, nm + ": mode of the block")
    ctx.count("vectors", len(final))


def near(c, free):
    """one component free, the other one of few"""
    def f(k, d, pred, S, P):
        return AND(EQ(d[1 - c], const(free)), TRUE)
    return f


def c25(ctx):
    ctx.rule("motion vectors", "each vector's prediction follows from the block's mode; a new vector is coded as joint, sign, class and bits from which the decoder recovers exactly the difference to it")
    ob = lambda nm, *a, **k: ctx.ob(nm, vectors, ctx, nm, *a, **k)
    pin = {"self.ref_stack_mv[%d][%d].%s" % (j, k, c): (v, v) for j, k, c, v in
           [(j, k, c, 3 * j + 5 * k + (c == "y") + 1) for j in range(8) for k in range(2) for c in "xy"]}
    for m in MODES:
        new = [k for k, x in enumerate(MODES[m]) if x == NEWMV]
        # which prediction: the vectors are close to it
        sm = {"tree.mvs[%d].%s" % (k, c): (0, 12) for k in (0, 1) for c in "xy"}
        ob("%s, prediction" % MNAME[m], m, False, dict(pin, **sm) if new else {})
        # the difference: every value of one component, some of the other
        for k in new:
            for c in (0, 1):
                for other in (0, -9):
                    p = {"self.ref_stack_mv[%d][%d].%s" % (j, q, x): (7, 7) for j in range(8) for q in (0, 1) for x in "xy"}
                    for q in (0, 1):
                        for x in (0, 1):
                            p["tree.mvs[%d].%s" % (q, "xy"[x])] = (-(1 << 14) + 7, (1 << 14) + 7) if (q, x) == (k, c) else (7 + other, 7 + other)
                    ob("%s, %s difference of vector %d%s" % (MNAME[m], ("horizontal", "vertical")[c], k, ", other nonzero" if other else ""), m, False, p)
    for big in (0, 1):
        n = 32 if big else 16
        for start in (0, 64):
            for lo, hi in ((start, start + n - 1), (start + n, 1 << 14)):
                for z in ((0, 0, 0, 0), (0, 0, 0, 3), (0, 0, -4, 0), (0, 2, 0, 0), (5, 0, 7, 7)):
                    ob("block copy, %d superblocks, rows %d to %d of a tile from %d, list %s" % (128 if big else 64, lo, hi, start, z), NEWMV, True,
                       {"tree.mvs[0].x": (-3000, -3000), "tree.mvs[0].y": (-500, -500), "use_128x128_superblock": (big, big), "mi_row": (lo, hi), "mi_row_start": (start, start),
                        "self.ref_stack_mv[0][0].x": (z[0],) * 2, "self.ref_stack_mv[0][0].y": (z[1],) * 2, "self.ref_stack_mv[1][0].x": (z[2],) * 2, "self.ref_stack_mv[1][0].y": (z[3],) * 2})
    ob("block copy", NEWMV, True, {"tree.mvs[0].x": (-4000, 4000), "tree.mvs[0].y": (-8, -8)} | {"self.ref_stack_mv[%d][0].%s" % (j, c): (8, 8) for j in (0, 1) for c in "xy"})


# ---------------------------------------------------------------- list of predictions
NEWS = [m for m in MODES if NEWMV in MODES[m]]
ROOM = 8                                                        # MAX_REF_MV_STACK_SIZE
WIDE8 = [z for z in range(22) if min(BW[z], BH[z]) >= 8]


def lowered(v, fint, hp):
    """a component at the precision of the frame"""
    neg = LT(v, ZERO)
    a = shl(T._as_int(shr_const(add(ite(neg, sub(ZERO, v), v), const(3)), 3)), 3)
    whole = ite(GT(v, ZERO), a, sub(ZERO, a))
    odd = EQ(mod_const(v, 1), ONE)
    even = ite(odd, ite(GT(v, ZERO), sub(v, ONE), add(v, ONE)), v)
    return ite(hp, v, ite(fint, whole, even))


def shl(v, k):
    return mul(v, const(1 << k))


def candidate(ctx, nm, comp, n, refs, cand, pinned):
    """a neighbour with references cand meets a block with references refs and a list of n vectors"""
    i = method(ctx, "TileEncoder", "add_ref_mv_candidate")
    body = ctx.p.inst[i]["body"]
    # the place of the neighbour plays no part; the weight comes last
    ints = ["mv_row", "mv_col", "weight"][-sum(ctx.p.tys[body["locals"][k + 1]]["k"] == "int" for k in range(body["argc"])):]
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else (TRUE if comp else FALSE) if t["k"] == "bool" else ints.pop(0) if t["k"] == "int" else
                     {"Frame": "frame", "ModeInfo": "mi", "PartitionTree": "tree"}[str(e.get("n")).split("::")[-1]])
    lim = 1 << 14
    rg = {"x": (-lim, lim), "y": (-lim, lim), "force_integer_mv": (0, 1), "num_mv_found": (n, n), "new_mv_count": (0, 100), "weight": (0, 1000), "self.weight_stack": (0, 10000),
          "mv_row": (0, 100), "mv_col": (0, 100), "gm_type": (0, 3), "mi_size.#": (0, 21)}
    for k in range(2):
        rg["tree.ref_frame[%d].#" % k] = (refs[k] + 1,) * 2
        rg["mi.ref_frame[%d].#" % k] = (cand[k] + 1,) * 2
    rg.update(pinned)
    I0 = Interp(ctx.p, ranges=rg)
    st0 = State({}, TRUE)
    lz = lambda x: Nav(I0, st0, I0.lazy(body["locals"][names.index(x) + 1], x), body["locals"][names.index(x) + 1])
    S, F, M = lz("self"), lz("frame"), lz("mi")
    w = lz("weight").n
    pre = OR(NOT(F.allow_high_precision_mv.b), EQ(F.force_integer_mv.n, ZERO))
    R = Run(ctx, "add_ref_mv_candidate", names, pre, i=i, ranges=rg)
    R.returns(nm + ":returns", nm, pre)
    if R.out is None:
        return
    fint, hp = NE(F.force_integer_mv.n, ZERO), F.allow_high_precision_mv.b
    xy = lambda m: (m.x.n, m.y.n)
    mode, inter = M.y_mode.n, M.is_inter.b
    glob = isin(mode, GLOBALMV, GLOBAL_GLOBALMV)
    big = isin(M.mi_size.n, *WIDE8)
    width = 2 if comp else 1
    # the list as rows of (x, y) per vector, weight; used: guard that the row is in use
    rows = [[xy(S.ref_stack_mv[j][k]) for k in range(width)] + [S.weight_stack[j].n] for j in range(n)]
    used = [TRUE] * n
    count, new, found = const(n), S.new_mv_count.n, S.found_match.b
    for q in ((0,) if comp else (0, 1)):
        match = cand == refs if comp else cand[q] == refs[0]
        if not match:
            continue
        vs = []
        for k in range(width):
            own, g = xy(M.mvs[k if comp else q]), xy(S.global_mvs[k])
            use = AND(AND(glob, big) if not comp else EQ(mode, const(GLOBAL_GLOBALMV)), GT(S.ectx.gm_type[refs[k]].n, ONE))
            vs.append(tuple(lowered(ite(use, b, a), fint, hp) for a, b in zip(own, g)))
        new = add(new, b2i(AND(inter, isin(mode, *NEWS))))
        found = OR(found, inter)
        open_ = inter
        for j in range(len(rows)):
            same = AND(open_, used[j])
            for k in range(width):
                same = AND(same, AND(EQ(rows[j][k][0], vs[k][0]), EQ(rows[j][k][1], vs[k][1])))
            rows[j] = rows[j][:-1] + [add(rows[j][-1], ite(same, w, ZERO))]
            open_ = AND(open_, NOT(same))
        for j in range(ROOM):
            put = AND(open_, EQ(count, const(j)))
            if put is FALSE:
                continue
            row = vs + [w]
            if j < len(rows):
                rows[j] = [tuple(ite(put, a, b) for a, b in zip(x, y)) for x, y in zip(row[:-1], rows[j][:-1])] + [ite(put, w, rows[j][-1])]
                used[j] = OR(used[j], put)
            else:
                rows.append(row)
                used.append(put)
        count = ite(AND(open_, LT(count, const(ROOM))), add(count, ONE), count)
    SO = Nav(R.I, R.out, R.args[0], body["locals"][1])
    g = R.g
    ctx.same(nm + ":count", SO.num_mv_found.n, count, g, R.where, nm + ": vectors in the list")
    ctx.same(nm + ":new", SO.new_mv_count.n, new, g, R.where, nm + ": neighbours with a new vector")
    ctx.same(nm + ":match", n_(SO.found_match.b), n_(found), g, R.where, nm + ": whether a neighbour matched")
    for j in range(len(rows)):
        for k in range(width):
            for c, what in enumerate(("horizontal", "vertical")):
                ctx.same("%s:vector %d" % (nm, j), xy(SO.ref_stack_mv[j][k])[c], rows[j][k][c], AND(g, used[j]), R.where, "%s: %s component of entry %d" % (nm, what, j))
        ctx.same("%s:weight %d" % (nm, j), SO.weight_stack[j].n, rows[j][-1], AND(g, used[j]), R.where, "%s: weight of entry %d" % (nm, j))
    ctx.count("neighbour cases")


def c35(ctx):
    ctx.rule("candidates", "a neighbour with the block's references adds its vector, or the global one, at the frame's precision: to the weight of the equal entry, else as a new entry while there is room")
    ob = lambda nm, *a: ctx.ob(nm, candidate, ctx, nm, *a)
    exact = {"allow_high_precision_mv": (1, 1), "force_integer_mv": (0, 0), "mi.is_inter": (1, 1), "mi.y_mode.#": (NEWMV, NEWMV)}
    for n in range(9):
        # everything about the neighbour open with a short list, exact vectors with a long one
        for what, pin in (("", {}), (", full precision", exact)):
            if (not pin and n > 1) or (pin and n < 2):
                continue
            for r in (1, 4, 7) if not ctx.thorough else range(1, 8):
                for cand in ((r, -1), (r, r % 7 + 1), (r % 7 + 1, r), (r, 0), (r % 7 + 1, -1), (0, -1)):
                    ob("neighbour %s, block %d, list of %d%s" % (cand, r, n, what), False, n, (r, -1), cand, pin)
            for r in ((1, 5), (2, 7), (1, 2)):
                p = dict(pin)
                if n > 3:
                    # of each pair of vectors one component is open, the others agree
                    free = (r[0] % 2, "xy"[n % 2])
                    for m in (0, 1):
                        for x in "xy":
                            if (m, x) != free:
                                p.update({"self.ref_stack_mv[%d][%d].%s" % (q, m, x): (3 + m, 3 + m) for q in range(8)})
                                p["mi.mvs[%d].%s" % (m, x)] = (3 + m, 3 + m)
                for cand in (r, (r[0], -1), (r[1], r[0]), (r[0], r[1] % 7 + 1), (r[0] % 7 + 1, r[1])):
                    ob("neighbour %s, block %s, list of %d%s" % (cand, r, n, what), True, n, r, cand, p)
        if n > 1:
            # the precision with a long list: one component of it open
            for j in {0, n - 1}:
                for hp, fi in ((0, 0), (0, 1), (1, 0)):
                    for comp in (False, True):
                        for k in range(1 + comp):
                            for c in "xy":
                                pin = {"self.ref_stack_mv[%d][%d].%s" % (q, m, x): (8 * q + m, 8 * q + m) for q in range(8) for m in (0, 1) for x in "xy"}
                                pin.update({"mi.mvs[%d].%s" % (m, x): (8 * j + m, 8 * j + m) for m in (0, 1) for x in "xy"})
                                pin.update({"self.ref_stack_mv[%d][%d].%s" % (j, k, c): (-(1 << 14), 1 << 14), "mi.mvs[%d].%s" % (k, c): (-(1 << 14), 1 << 14)})
                                pin.update({"allow_high_precision_mv": (hp, hp), "force_integer_mv": (fi, fi), "mi.y_mode.#": (NEARMV, NEARMV) if not comp else (NEAR_NEARMV, NEAR_NEARMV)})
                                ob("component %s of vector %d against entry %d of %d, precision %d%d" % (c, k, j, n, hp, fi), comp, n, (3, 6) if comp else (3, -1), (3, 6) if comp else (3, -1), pin)


# ---------------------------------------------------------------- global vectors
def round_signed(v, n):
    r = lambda x: T._as_int(shr_const(add(x, const(1 << (n - 1))), n))
    return ite(LT(v, ZERO), sub(ZERO, r(sub(ZERO, v))), r(v))


def global_vectors(ctx, nm, size, row, col, refs, pinned):
    i = method(ctx, "TileEncoder", "find_mv_stack")
    body = ctx.p.inst[i]["body"]
    comp = refs[1] > 0
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else (TRUE if comp else FALSE) if t["k"] == "bool" else {"Frame": "frame", "PartitionTree": "tree"}[str(e.get("n")).split("::")[-1]])
    rows, cols = row + 40, col + 40
    # the tile is empty, so that no neighbour plays a part
    rg = {"mi_row": (row, row), "mi_col": (col, col), "tree.bsize.#": (size, size), "frame_height": (rows * 4, rows * 4), "frame_width": (cols * 4, cols * 4), "mi_row_start": (0, 0),
          "mi_row_end": (0, 0), "mi_col_start": (0, 0), "mi_col_end": (0, 0), "mis.#": (1, 1), "mi_size.#": (size, size), "force_integer_mv": (0, 1), "gm_type": (0, 3)}
    for k in range(2):
        rg["tree.ref_frame[%d].#" % k] = (refs[k] + 1,) * 2
    for k in range(8):
        for j in range(6):
            rg["self.ectx.gm_params[%d][%d]" % (k, j)] = (-(1 << 22), 1 << 22) if j < 2 else (65536 - 8192, 65536 + 8192) if j in (2, 5) else (-8192, 8192)
    rg.update(pinned)
    vl = {"frame.mis": (rows, rows)}
    vl.update({"frame.mis[%d]" % k: (cols, cols) for k in range(max(0, row - 2), rows)})
    I0 = Interp(ctx.p, ranges=rg, veclen=vl)
    st0 = State({}, TRUE)
    lz = lambda x: Nav(I0, st0, I0.lazy(body["locals"][names.index(x) + 1], x), body["locals"][names.index(x) + 1])
    S, F = lz("self"), lz("frame")
    fint, hp = NE(F.force_integer_mv.n, ZERO), F.allow_high_precision_mv.b
    pre = OR(NOT(hp), NOT(fint))
    R = Run(ctx, "find_mv_stack", names, pre, i=i, ranges=rg, veclen=vl)
    R.returns(nm + ":returns", nm, pre)
    if R.out is None:
        return
    SO = Nav(R.I, R.out, R.args[0], body["locals"][1])
    for k in range(1 + comp):
        v = (ZERO, ZERO)
        if refs[k] > 0:
            g = [S.ectx.gm_params[refs[k]][j].n for j in range(6)]
            ty = S.ectx.gm_type[refs[k]].n
            x, y = const(4 * col + BW[size] // 2 - 1), const(4 * row + BH[size] // 2 - 1)
            one = const(1 << 16)
            xc = add(add(mul(sub(g[2], one), x), mul(g[3], y)), g[0])
            yc = add(add(mul(g[4], x), mul(sub(g[5], one), y)), g[1])
            warp = tuple(ite(hp, round_signed(c, 13), mul(round_signed(c, 14), const(2))) for c in (xc, yc))
            # of a translation the first parameter is the vertical shift
            shift = (shr_const(g[1], 13), shr_const(g[0], 13))
            v = tuple(ite(EQ(ty, ZERO), ZERO, ite(EQ(ty, ONE), T._as_int(a), b)) for a, b in zip(shift, warp))
        for c, what in enumerate(("horizontal", "vertical")):
            ctx.same("%s:%s" % (nm, what), (SO.global_mvs[k].x.n, SO.global_mvs[k].y.n)[c], lowered(v[c], fint, hp), R.g, R.where, "%s: %s component of global vector %d" % (nm, what, k))
        ctx.count("global vectors")


def c36(ctx):
    ctx.rule("global vectors", "zero without global motion, the shift of a translation, the motion of the block's centre under a warp; at the precision of the frame")
    ob = lambda nm, *a: ctx.ob(nm, global_vectors, ctx, nm, *a)
    for ty in range(4):
        for prec, (hp, fi) in (("eighths", (1, 0)), ("quarters", (0, 0)), ("integers", (0, 1))):
            for size, row, col, refs in [(3, 4, 6, (1, -1)), (0, 33, 17, (7, -1)), (15, 32, 64, (4, -1)), (16, 1, 300, (2, 5)), (21, 300, 2, (3, 7)), (12, 16, 0, (0, -1)), (9, 8, 8, (6, 0)), (3, 0, 0, (1, -1)),
                                         (6, 16380, 8, (5, -1)), (6, 12, 16380, (6, -1))] + [(z, 32 + 2 * (z % 5), 64 - 2 * (z % 3), (1 + z % 7, -1)) for z in range(22)]:
                ob("%s at %d, %d, block of %dx%d, references %s, in %s" % (("no motion", "translation", "rotation and zoom", "affine motion")[ty], row, col, BW[size], BH[size], refs, prec),
                   size, row, col, refs, {"gm_type": (ty, ty), "allow_high_precision_mv": (hp, hp), "force_integer_mv": (fi, fi)})


# ---------------------------------------------------------------- nearest neighbours
def scans(ctx, nm, size, row, col, tile, frame_, comp, nsize, unit, absent=(), motion=0):
    """tile: first and last+1 row and column; frame_: rows, columns; nsize(r, c): size of the block there; unit: places not coded yet"""
    i = method(ctx, "TileEncoder", "find_mv_stack")
    add_ = method(ctx, "TileEncoder", "add_ref_mv_candidate")
    body = ctx.p.inst[i]["body"]
    me = body["locals"][1]
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else (TRUE if comp else FALSE) if t["k"] == "bool" else {"Frame": "frame", "PartitionTree": "tree"}[str(e.get("n")).split("::")[-1]])
    seen = []
    rows, cols = frame_
    # the record alone tells the place where it is not passed on
    ab = ctx.p.inst[add_]["body"]
    placed = sum(ctx.p.tys[ab["locals"][k + 1]]["k"] == "int" for k in range(ab["argc"])) == 3
    nm += ", with earlier frames" if motion else ""

    def hook(I, st, fi, args, dty):
        tys = I.p.inst[fi]["body"]["locals"]
        num = [T._as_int(I.need_term(args[j])) for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "int"]
        flag = [I.need_term(args[j]) for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "bool"]
        k = [j for j in range(len(args)) if str(I.p.tys[I.p.tys[tys[j + 1]].get("e", tys[j + 1])].get("n")).endswith("::ModeInfo")][0]
        mi = Nav(I, st, args[k], tys[k + 1])
        place = add(mul(num[0], const(1 << 24)), mul(num[1], const(1 << 12))) if placed else ZERO
        seen.append((st.g, add(place, add(mul(num[-1], const(2)), n_(flag[0]))), "neighbour"))
        seen.append((st.g, mi.segment_id.n, "neighbour's record"))
        n = len(seen) // 2
        # each neighbour may match; the list grows with each up to its room
        S = Nav(I, st, args[0], me)
        old = S.num_mv_found.n
        m = leaf("match %d" % n, 0, 1)
        j, fty = field_index(I.p, me, "found_match")
        I.deref_write(st, args[0], OR(S.found_match.b, EQ(m, ONE)), (("f", j),))
        j, fty = field_index(I.p, me, "num_mv_found")
        I.deref_write(st, args[0], const(min(n, ROOM)), (("f", j),))
        return [(UNIT, st)]
    rg = {"mi_row": (row, row), "mi_col": (col, col), "tree.bsize.#": (size, size), "frame_height": (rows * 4, rows * 4), "frame_width": (cols * 4, cols * 4), "mi_row_start": (tile[0],) * 2,
          "mi_row_end": (tile[1],) * 2, "mi_col_start": (tile[2],) * 2, "mi_col_end": (tile[3],) * 2, "force_integer_mv": (0, 0), "gm_type": (0, 0), "weight_stack": (0, 10000),
          "x": (-(1 << 15), -(1 << 15)), "segment_id": (0, 7), "tree.ref_frame[0].#": (2, 2), "tree.ref_frame[1].#": (6 if comp else 0,) * 2, "mis.#": (1, 1), "use_ref_frame_mvs": (motion, motion)}
    for r in range(max(0, row - 1), min(rows, row + 33)):
        for c in range(max(0, col - 1), min(cols, col + 33)):
            rg["frame.mis[%d][%d].0.mi_size.#" % (r, c)] = (nsize(r, c),) * 2
            rg["frame.mis[%d][%d].0.ref_frame[0].#" % (r, c)] = (2, 2)
    for r, c in unit:
        rg["frame.mis[%d][%d].#" % (r, c)] = (0, 0)
    for r, c in absent:
        rg["frame.mis[%d][%d].0.ref_frame[0].#" % (r, c)] = (0, 0)
    vl = {"frame.mis": (rows, rows)}
    vl.update({"frame.mis[%d]" % k: (cols, cols) for k in range(rows)})
    if motion:
        # no vector of earlier frames passes here
        vl["self.ectx.motion_field_mvs"] = (8, 8)
        vl["self.ectx.motion_field_mvs[1]"] = vl["self.ectx.motion_field_mvs[5]"] = (rows // 2 + 1,) * 2
    else:
        vl["self.ectx.motion_field_mvs"] = (0, 0)
    for k in range(rows // 2 + 1 if motion else 0):
        for f in (1, 5):
            vl["self.ectx.motion_field_mvs[%d][%d]" % (f, k)] = (cols // 2 + 1,) * 2
    I0 = Interp(ctx.p, ranges=rg, veclen=vl)
    st0 = State({}, TRUE)
    lz = lambda x: Nav(I0, st0, I0.lazy(body["locals"][names.index(x) + 1], x), body["locals"][names.index(x) + 1])
    S, F = lz("self"), lz("frame")
    R = Run(ctx, "find_mv_stack", names, TRUE, i=i, ranges=rg, veclen=vl, hooks={ctx.p.inst[add_]["n"]: hook})
    R.returns(nm + ":returns", nm, TRUE)
    if R.out is None:
        return
    inside = lambda r, c: tile[0] <= r < tile[1] and tile[2] <= c < tile[3]
    bw, bh = BW[size] // 4, BH[size] // 4
    want, above, left = [], [], []

    def use(r, c, w, which):
        want.append((TRUE, const((((r << 24) + (c << 12)) if placed else 0) + 2 * w + int(comp)), "the neighbour at %d, %d with weight %d" % (r, c, w)))
        want.append((TRUE, F.mis[r][c].pay().segment_id.n, "its record"))
        which.append(EQ(leaf("match %d" % (len(want) // 2), 0, 1), ONE))
    for n, end, dim, at_, which in ((bw, min(bw, cols - col, 16), BW, lambda k: (row - 1, col + k), above), (bh, min(bh, rows - row, 16), BH, lambda k: (row + k, col - 1), left)):
        k = 0
        while k < end:
            r, c = at_(k)
            if not inside(r, c):
                break
            l = max(min(n, dim[nsize(r, c)] // 4), 4 if n >= 16 else 1)
            use(r, c, 2 * l, which)
            k += l
    r, c = row - 1, col + bw
    if max(bw, bh) <= 16 and inside(r, c) and (r, c) not in unit and (r, c) not in absent:
        use(r, c, 4, above)
    ctx.same_list(nm + ":neighbours", seen, want, R.g, R.where, "%s: neighbours in order (row * 2^24 + column * 2^12 + 2 * weight + compound)" % nm)
    SO = Nav(R.I, R.out, R.args[0], me)
    ctx.same(nm + ":matches", SO.close_matches.n, add(n_(_or(above)), n_(_or(left))), R.g, R.where, nm + ": sides with a match")
    ctx.same(nm + ":zero", SO.zero_mv_context.n, const(int(motion and inside(row | 1, col | 1))), R.g, R.where, nm + ": context of the zero vector flag")
    n = min(len(want) // 2, ROOM)
    for j in range(ROOM):
        ctx.same(nm + ":weights", SO.weight_stack[j].n, add(S.weight_stack[j].n, const(640 if j < n else 0)), R.g, R.where, "%s: weight of entry %d after the nearest neighbours" % (nm, j))
    ctx.count("blocks")
    ctx.count("neighbours", len(want) // 2)


def _or(l):
    r = FALSE
    for x in l:
        r = OR(r, x)
    return r


def c37(ctx):
    ctx.rule("nearest neighbours", "the row above, then the column left, then the block above right: each block of them once, with twice the shared length as weight, only inside the tile; entries found there rank above later ones")
    full = (0, 64, 0, 64)
    pats = {"4x4": lambda r, c: 0, "8x8": lambda r, c: 3, "64x64": lambda r, c: 12, "128x128": lambda r, c: 15, "mixed": lambda r, c: (3, 6, 3, 0, 16, 17, 9, 12)[(r + c) // 2 % 8], "thin": lambda r, c: 16 + (r + c) % 2}
    sizes = (0, 1, 2, 3, 5, 9, 12, 13, 14, 15, 16, 17, 18, 20, 21) if not ctx.thorough else range(22)
    for z in sizes:
        for pn, pat in pats.items():
            for comp in (False, True) if z > 2 and pn in ("mixed", "8x8") else (False,):
                ctx.ob("scan", scans, ctx, "block of %dx%d among %s blocks%s" % (BW[z], BH[z], pn, ", compound" if comp else ""), z, 32, 32, full, (64, 64), comp, pat, (), (), int(pn == "8x8"))
    for z in (3, 9, 12, 15, 16):
        w, h = BW[z] // 4, BH[z] // 4
        for what, row, col, tile, fr, unit in (
                ("first row of the frame", 0, 16, full, (64, 64), ()), ("first column of the frame", 16, 0, full, (64, 64), ()), ("first block", 0, 0, full, (64, 64), ()),
                ("first row of a tile", 32, 32, (32, 64, 0, 64), (64, 64), ()), ("first column of a tile", 32, 32, (0, 64, 32, 64), (64, 64), ()),
                ("last column of a tile", 32, 32, (0, 64, 0, 32 + w), (64, 64), ()), ("right edge of the frame", 32, 32, (0, 64, 0, 32 + max(1, w // 2)), (64, 32 + max(1, w // 2)), ()),
                ("bottom edge of the frame", 32, 32, (0, 32 + max(1, h // 2), 0, 64), (32 + max(1, h // 2), 64), ()), ("above right not coded", 32, 32, full, (64, 64), ((31, 32 + w),))):
            for pn in ("8x8", "mixed"):
                ctx.ob("scan", scans, ctx, "block of %dx%d, %s, among %s blocks" % (BW[z], BH[z], what, pn), z, row, col, tile, fr, False, pats[pn], unit, (), int(pn == "8x8"))
    for z in (3, 12):
        for row, col in ((16352, 32), (32, 16352)):
            ctx.ob("scan", scans, ctx, "block of %dx%d at %d, %d" % (BW[z], BH[z], row, col), z, row, col, (row - 8, row + 32, col - 8, col + 32), (row + 32, col + 32), False, pats["8x8"], (), (), 0)


# ---------------------------------------------------------------- motion of earlier frames
GONE = -(1 << 15)


def earlier(ctx, nm, size, row, col, tile, frame_, refs, prec, base, field):
    """base: vectors already in the list, found left of the block; field(k, n, y, x): ranges of the projected vector of reference k at sample n (place y, x in units of 8 samples), None: none passes"""
    i = method(ctx, "TileEncoder", "find_mv_stack")
    add_ = method(ctx, "TileEncoder", "add_ref_mv_candidate")
    body = ctx.p.inst[i]["body"]
    me = body["locals"][1]
    comp = refs[1] > 0
    width = 2 if comp else 1
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else (TRUE if comp else FALSE) if t["k"] == "bool" else {"Frame": "frame", "PartitionTree": "tree"}[str(e.get("n")).split("::")[-1]])
    rows, cols = frame_

    def hook(I, st, fi, args, dty):
        j, fty = field_index(I.p, me, "num_mv_found")
        I.deref_write(st, args[0], const(len(base)), (("f", j),))
        return [(UNIT, st)]
    hp, fi = prec
    rg = {"mi_row": (row, row), "mi_col": (col, col), "tree.bsize.#": (size, size), "frame_height": (rows * 4, rows * 4), "frame_width": (cols * 4, cols * 4), "mi_row_start": (tile[0],) * 2,
          "mi_row_end": (tile[1],) * 2, "mi_col_start": (tile[2],) * 2, "mi_col_end": (tile[3],) * 2, "force_integer_mv": (fi, fi), "allow_high_precision_mv": (hp, hp), "gm_type": (1, 1),
          "weight_stack": (0, 1000), "mis.#": (1, 1), "mi_size.#": (size, size), "use_ref_frame_mvs": (1, 1), "segment_id": (0, 7), "mis.0.ref_frame[0].#": (2, 2)}
    for k in range(2):
        rg["tree.ref_frame[%d].#" % k] = (refs[k] + 1,) * 2
    gl = {}
    for k in range(8):
        gl[k] = (11 - 7 * k, 5 * k - 3)
        for j in range(6):
            rg["self.ectx.gm_params[%d][%d]" % (k, j)] = (gl[k][1 - j] << 13,) * 2 if j < 2 else (0, 0)
    for j, e in enumerate(base):
        for k in range(width):
            for c in (0, 1):
                rg["self.ref_stack_mv[%d][%d].%s" % (j, k, "xy"[c])] = (e[k][c],) * 2
    vl = {"frame.mis": (rows, rows), "self.ectx.motion_field_mvs": (8, 8)}
    vl.update({"frame.mis[%d]" % k: (cols, cols) for k in range(rows)})
    h8, w8 = (rows + 1) // 2, (cols + 1) // 2
    for k in range(8):
        vl["self.ectx.motion_field_mvs[%d]" % k] = (h8, h8)
        for y in range(h8):
            vl["self.ectx.motion_field_mvs[%d][%d]" % (k, y)] = (w8, w8)
    bw, bh = BW[size] // 4, BH[size] // 4
    inside = lambda r, c: tile[0] <= r < tile[1] and tile[2] <= c < tile[3]
    at_ = [(d, e) for d in range(0, min(bh, 16), 4 if bh >= 16 else 2) for e in range(0, min(bw, 16), 4 if bw >= 16 else 2)]
    samples = [(d, e, ((row + d) | 1) >> 1, ((col + e) | 1) >> 1) for d, e in at_ if inside((row + d) | 1, (col + e) | 1)]
    # wherever else a vector passes it is one that would show
    rg["x"] = rg["y"] = (777, 777)
    values = {}
    for n, (d, e, y, x) in enumerate(samples):
        for k in range(width):
            v = field(k, n, y, x)
            values[n, k] = v
            for c in (0, 1):
                rg["self.ectx.motion_field_mvs[%d][%d][%d].%s" % (refs[k], y, x, "xy"[c])] = v[c] if v else (GONE, GONE)
    I0 = Interp(ctx.p, ranges=rg, veclen=vl)
    st0 = State({}, TRUE)
    lz = lambda x: Nav(I0, st0, I0.lazy(body["locals"][names.index(x) + 1], x), body["locals"][names.index(x) + 1])
    S = lz("self")
    R = Run(ctx, "find_mv_stack", names, TRUE, i=i, ranges=rg, veclen=vl, hooks={ctx.p.inst[add_]["n"]: hook})
    R.returns(nm + ":returns", nm, TRUE)
    if R.out is None:
        return
    fint, hpb = (TRUE if fi else FALSE), (TRUE if hp else FALSE)
    low = lambda v: lowered(v, fint, hpb)
    xy = lambda m: (m.x.n, m.y.n)
    g = [tuple(low(const(gl[refs[k]][c])) for c in (0, 1)) for k in range(width)]
    out = [[tuple(const(v) for v in e[k]) for k in range(width)] + [add(S.weight_stack[j].n, const(640))] for j, e in enumerate(base)]
    used, count, zero = [TRUE] * len(base), const(len(base)), ZERO
    for n, (d, e, y, x) in enumerate(samples):
        if (d, e) == (0, 0):
            zero = ONE
        if any(values[n, k] is None for k in range(width)):
            continue
        vs = [tuple(low(c) for c in xy(S.ectx.motion_field_mvs[refs[k]][y][x])) for k in range(width)]
        if (d, e) == (0, 0):
            far = FALSE
            for k in range(width):
                for c in (0, 1):
                    q = sub(vs[k][c], g[k][c])
                    far = OR(far, OR(GE(q, const(16)), LE(q, const(-16))))
            zero = n_(far)
        open_ = TRUE
        for j in range(len(out)):
            same = AND(open_, used[j])
            for k in range(width):
                same = AND(same, AND(EQ(out[j][k][0], vs[k][0]), EQ(out[j][k][1], vs[k][1])))
            out[j] = out[j][:-1] + [add(out[j][-1], ite(same, const(2), ZERO))]
            open_ = AND(open_, NOT(same))
        for j in range(ROOM):
            put = AND(open_, EQ(count, const(j)))
            if put is FALSE:
                continue
            if j < len(out):
                out[j] = [tuple(ite(put, a, b) for a, b in zip(p, q)) for p, q in zip(vs, out[j][:-1])] + [ite(put, const(2), out[j][-1])]
                used[j] = OR(used[j], put)
            else:
                out.append(vs + [const(2)])
                used.append(put)
        count = ite(AND(open_, LT(count, const(ROOM))), add(count, ONE), count)
    SO = Nav(R.I, R.out, R.args[0], me)
    ctx.same(nm + ":count", SO.num_mv_found.n, count, R.g, R.where, nm + ": vectors in the list")
    ctx.same(nm + ":zero", SO.zero_mv_context.n, zero, R.g, R.where, nm + ": context of the zero vector flag")
    for j in range(len(out)):
        for k in range(width):
            for c, what in enumerate(("horizontal", "vertical")):
                ctx.same("%s:vector %d" % (nm, j), xy(SO.ref_stack_mv[j][k])[c], out[j][k][c], AND(R.g, used[j]), R.where, "%s: %s component of entry %d" % (nm, what, j))
        ctx.same("%s:weight %d" % (nm, j), SO.weight_stack[j].n, out[j][-1], AND(R.g, used[j]), R.where, "%s: weight of entry %d" % (nm, j))
    ctx.count("blocks")
    ctx.count("samples", len(samples))


def c38(ctx):
    ctx.rule("motion of earlier frames", "the vector passing each sampled place of the block inside the tile, at the frame's precision, adds 2 to the equal entry or becomes an entry of weight 2 while there is room; the first decides the zero vector context")
    ob = lambda nm, *a: ctx.ob(nm, earlier, ctx, nm, *a)
    pt = lambda v: ((v[0], v[0]), (v[1], v[1]))
    PREC = (("eighths", (1, 0)), ("quarters", (0, 0)), ("integers", (0, 1)))
    none = []
    # which places: each with a vector of its own, some twice, some without
    diff = lambda k, n, y, x: None if n % 5 == 3 else pt((16 * (n % 11) + 8 * k, 24 * y - 8 * x + 40 * k))
    for z in (0, 1, 3, 4, 6, 9, 12, 13, 14, 15, 16, 17, 20, 21) if not ctx.thorough else range(22):
        h, w = BH[z] // 4, BW[z] // 4
        for what, row, col, cut in (("", 32, 32, 0), (", odd place", 33, 35, 0), (", cut right", 32, 32, 1), (", cut below", 32, 32, 2)):
            if row % 2 and max(h, w) > 1 or cut == 1 and w < 4 or cut == 2 and h < 4:
                continue
            tile = (row, row + h // 2 if cut == 2 else 72, col, col + w // 2 if cut == 1 else 72)
            for refs in ((2, -1), (7, 0), (1, 6)) if min(h, w) > 1 else ((2, -1),):
                ob("block of %dx%d%s, references %s" % (BW[z], BH[z], what, refs), z, row, col, tile, (72, 72), refs, (1, 0), none, diff)
    for row, col in ((16352, 32), (32, 16352)):
        ob("block of 16x16 at %d, %d" % (row, col), 6, row, col, (row, row + 32, col, col + 32), (row + 32, col + 32), (2, -1), (1, 0), none, diff)
    # one vector open against lists of every length
    for refs in ((3, -1), (2, 5)):
        width = 2 if refs[1] > 0 else 1
        for n in range(9):
            base = [tuple((8 * j + 64 * k, 8 * j + 16 * k) for k in range(2)) for j in range(n)]
            for pn, prec in PREC:
                for k in range(width):
                    for c in (0, 1):
                        for j in {0, n // 2, max(0, n - 1)} if n else (0,):
                            b = (8 * j, 8 * j), (8 * j + 64, 8 * j + 16)

                            def f(q, s, y, x):
                                if s != 0:
                                    return None
                                r = [(v, v) for v in b[q]]
                                if q == k:
                                    r[c] = (-4000, 4000)
                                return tuple(r)
                            # the left column of the block is in the tile when something was found there
                            ob("component %s of vector %d near entry %d of %d, references %s, in %s" % ("xy"[c], k, j, n, refs, pn), 3, 32, 32, (32, 72, 31 if n else 32, 72), (72, 72), refs, prec, base, f)
        # two open vectors after each other
        for s in (1, 2):
            for c in (0, 1):
                f = lambda q, m, y, x, s=s, c=c: (((-100, 100), (8, 8)) if c == 0 else ((8, 8), (-100, 100))) if m in (0, s) and q == width - 1 else pt((8, 8)) if m in (0, s) else None
                ob("samples 0 and %d, component %s, references %s" % (s, "xy"[c], refs), 6, 32, 32, (32, 72, 32, 72), (72, 72), refs, (1, 0), none, f)
        # one of two vectors does not pass
        for k in range(width):
            for first in (0, 1):
                f = lambda q, m, y, x, k=k, first=first: None if q == k and m == first else pt((16 * m, 40 * q))
                ob("vector %d does not pass at sample %d, references %s" % (k, first, refs), 6, 32, 32, (32, 72, 32, 72), (72, 72), refs, (1, 0), none, f)


RULES = {"C25": c25, "C35": c35, "C36": c36, "C37": c37, "C38": c38}
