"""Block mode information: the sequence of syntax elements of a block, and what is recorded for later blocks."""
from .rules_tile import *
from .rules_tile import n_

LAST, LAST2, LAST3, GOLDEN, BWD, ALT2, ALT = range(1, 8)
SEG_REF, SEG_SKIP, SEG_GLOBAL = 5, 6, 7
NEARESTMV, NEARMV, GLOBALMV, NEWMV, NEAREST_NEARESTMV, NEAR_NEARMV, NEAREST_NEWMV, NEW_NEARESTMV, NEAR_NEWMV, NEW_NEARMV, GLOBAL_GLOBALMV, NEW_NEWMV = range(14, 26)


def deinterleave(d, ref, mx):
    """the segment id a decoder derives from the coded value"""
    if not ref:
        return d
    if ref >= mx - 1:
        return mx - d - 1
    lim = 2 * ref if 2 * ref < mx else 2 * (mx - ref - 1)
    if d <= lim:
        return ref + (d + 1) // 2 if d & 1 else ref - d // 2
    return d if 2 * ref < mx else mx - (d + 1)


def interleave(v, ref, mx):
    """coded value of segment id v (terms), as the inverse of the decoder's map; mx is a number"""
    out = ZERO
    for r in range(mx):
        inv = {deinterleave(d, r, mx): d for d in range(mx)}
        t = ZERO
        for k in range(mx):
            t = ite(EQ(v, const(k)), const(inv[k]), t)
        out = ite(EQ(ref, const(r)), t, out)
    return out


def isin(x, *ks):
    r = FALSE
    for k in ks:
        r = OR(r, EQ(x, const(k)))
    return r


def at(k, xs, d=ZERO):
    """xs[k] for a symbolic k"""
    out = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        out = ite(EQ(k, const(j)), xs[j], out)
    return out


def atb(k, xs):
    r = FALSE
    for j, x in enumerate(xs):
        r = OR(r, AND(EQ(k, const(j)), x))
    return r


def msb(x, mx):
    """position of the top bit of x in 1..mx"""
    out = ZERO
    k = 1
    while (1 << k) <= mx:
        out = ite(GE(x, const(1 << k)), const(k), out)
        k += 1
    return out


def delta(U, name, d, small, mx, *more):
    a = ite(LT(d, ZERO), sub(ZERO, d), d)
    U.el(name, ite(LT(a, const(small)), a, const(small)), *more)
    with U.when(GE(a, const(small))):
        # the remainder is coded with as many bits as it has
        for rem in range(1, 16):
            if (1 << rem) + 1 > mx:
                break
            with U.when(AND(GE(a, const((1 << rem) + 1)), LE(a, const((2 << rem))))):
                U.lit(const(rem - 1), 3, "size of the delta")
                U.lit(sub(a, const((1 << rem) + 1)), rem, "delta")
    with U.when(NE(a, ZERO)):
        U.lit(n_(LT(d, ZERO)), 1, "sign of the delta")


def mode_run(ctx, nm, size, row, col, rows, cols, pins, assume=None, post=()):
    """one case: block of a size at a position of a frame of rows x cols units; pins: ranges of leaves"""
    i = method(ctx, "TileEncoder", "encode_mode_info")
    body = ctx.p.inst[i]["body"]
    names = []
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        names.append("self" if k == 0 else {"Frame": "frame", "Vec": newvec, "PartitionTree": "tree", "Superblock": "sb"}[str(e.get("n")).split("::")[-1]])
    FOUND = ("num_mv_found", "ref_mv_context", "new_mv_context", "zero_mv_context")
    calls = {"stack": [], "assign": []}
    me = body["locals"][1]

    def stack(I, st, fi, args, dty):
        comp = [I.need_term(v) for v, t in zip(args, I.p.inst[fi]["body"]["locals"][1:]) if I.p.tys[t]["k"] == "bool"]
        t, ty = args_of(I, fi, args, "PartitionTree")[0]
        tn = Nav(I, st, t, ty)
        calls["stack"].append((st.g, comp[0], tn.ref_frame[0].n, tn.ref_frame[1].n))
        for f in FOUND:
            k, fty = field_index(I.p, me, f)
            I.deref_write(st, args[0], I.force(I.lazy(fty, "stack." + f)), (("f", k),))
        return [(UNIT, st)]

    def assign(I, st, fi, args, dty):
        comp = [I.need_term(v) for v, t in zip(args, I.p.inst[fi]["body"]["locals"][1:]) if I.p.tys[t]["k"] == "bool"]
        out = args_of(I, fi, args, "Vec")[0][0]
        S = Nav(I, st, args[0], me)
        models.push(I, st, out, const(kind("motion vectors")), tuple(I.site()))
        models.push(I, st, out, n_(comp[0]), tuple(I.site()))
        models.push(I, st, out, S.y_mode.n, tuple(I.site()))
        models.push(I, st, out, S.ref_mv_idx.n, tuple(I.site()))
        return [(UNIT, st)]
    hooks = dict(unit_hooks(ctx))
    hooks[ctx.p.inst[method(ctx, "TileEncoder", "find_mv_stack")]["n"]] = stack
    hooks[ctx.p.inst[method(ctx, "TileEncoder", "assign_mv")]["n"]] = assign
    nr, nc = 32 * ((rows + 31) // 32), 32 * ((cols + 31) // 32)
    rg = {"mi_row": (row, row), "mi_col": (col, col), "tree.bsize.#": (size, size), "frame_is_intra": (1, 1), "frame_height": (rows * 4, rows * 4), "frame_width": (cols * 4, cols * 4),
          "mis.#": (1, 1), "mi_size": (size, size), "cdef_idx": (-1, 7), "tree.cdef_idx": (0, 7), "cdef_bits": (0, 3), "q_index": (1, 255), "current_q_index": (1, 255), "delta_lf": (-63, 63),
          "delta_q_res": (0, 3), "delta_lf_res": (0, 3), "segment_id": (0, 7), "last_active_seg_id": (0, 7), "num_planes": (1, 3), "num_mv_found": (0, 8), "new_mv_context": (0, 5),
          "ref_mv_context": (0, 5), "zero_mv_context": (0, 1), "drl_mode": (0, 1), "tree.ref_frame[0].#": (2, 8), "tree.ref_frame[1].#": (1, 8), "tree.compound_mode.#": (18, 25)}
    # SEG_LVL_REF_FRAME holds a reference frame number
    for k in range(8):
        rg["frame.segmentation_params.feature_value[%d][5].0" % k] = (0, 7)
    rg.update(pins)
    vl = {"frame.mis": (rows, rows), "frame.cdef_idx": (nr, nr)}
    vl.update({"frame.mis[%d]" % k: (cols, cols) for k in range(rows)})
    vl.update({"frame.cdef_idx[%d]" % k: (nc, nc) for k in range(nr)})
    I0 = Interp(ctx.p, ranges=rg, veclen=vl)
    st0 = State({}, TRUE)
    lz = lambda nmx: Nav(I0, st0, I0.lazy(body["locals"][names.index(nmx) + 1], nmx), body["locals"][names.index(nmx) + 1])
    S, F, P = lz("self"), lz("frame"), lz("tree")
    E = S.ectx
    pre = assume(S, F, P) if assume else TRUE
    R = Run(ctx, "encode_mode_info", names, pre, i=i, ranges=rg, veclen=vl, hooks=hooks)
    R.returns(nm + ":returns", nm, pre)
    out = names.index(newvec)
    # ---- what a decoder reads
    U = Units(TRUE)
    SP = F.segmentation_params
    on = SP.segmentation_enabled.b
    feat = lambda s, f: AND(on, atb(s, [SP.feature_value[k][f].some for k in range(8)]))
    au, al = S.avail_u.b, S.avail_l.b
    seg_at = lambda y, x: F.mis[y][x].pay().segment_id.n
    pu = ite(au, seg_at(row - 1, col), const(-1)) if row else const(-1)
    pl = ite(al, seg_at(row, col - 1), const(-1)) if col else const(-1)
    pul = ite(AND(au, al), seg_at(row - 1, col - 1), const(-1)) if row and col else const(-1)
    pred = ite(EQ(pu, const(-1)), ite(EQ(pl, const(-1)), ZERO, pl), ite(EQ(pl, const(-1)), pu, ite(EQ(pul, pu), pu, pl)))
    las = E.last_active_seg_id.n
    coded = at(las, [interleave(P.segment_id.n, pred, k + 1) for k in range(8)]) if not is_const(las) else interleave(P.segment_id.n, pred, las.c + 1)
    first = E.seg_id_pre_skip.b
    seg_el = lambda: U.el("encode_segment_id", coded, pu, pl, pul)
    with U.when(AND(first, on)):
        seg_el()
    sid0 = ite(on, P.segment_id.n, ZERO)
    forced = AND(first, feat(sid0, SEG_SKIP))
    with U.when(NOT(forced)):
        U.el("encode_skip", n_(P.skip.b), const(row), const(col))
    skip = OR(forced, P.skip.b)
    with U.when(AND(AND(NOT(first), on), NOT(skip))):
        seg_el()
    sid = ite(on, ite(AND(NOT(first), skip), pred, P.segment_id.n), ZERO)
    # CDEF index, once per 64x64 area
    r0, c0 = row & ~15, col & ~15
    cd = AND(AND(NOT(OR(skip, E.coded_lossless.b)), AND(E.enable_cdef.b, NOT(F.allow_intrabc.b))), EQ(F.cdef_idx[r0][c0].n, const(-1)))
    with U.when(cd):
        U.lit(P.cdef_idx.n, F.cdef_params.cdef_bits.n, "CDEF index", 3)
    # deltas
    big = E.use_128x128_superblock.b
    whole = big if size == 15 else NOT(big) if size == 12 else FALSE
    dl = AND(E.read_deltas.b, NOT(AND(whole, skip)))
    qr = F.delta_q_params.delta_q_res.n
    lr = F.delta_lf_params.delta_lf_res.n
    if not (is_const(qr) and is_const(lr)):
        raise Giveup("resolution of the deltas not fixed")
    dq = shr_const(sub(P.q_index.n, E.current_q_index.n), qr.c)
    clip = lambda lo, hi, x: ite(LT(x, const(lo)), const(lo), ite(GT(x, const(hi)), const(hi), x))
    with U.when(dl):
        delta(U, "encode_delta_q_abs", dq, 3, 254)
    newq = ite(AND(dl, NE(dq, ZERO)), clip(1, 255, add(E.current_q_index.n, mul(dq, const(1 << qr.c)))), E.current_q_index.n)
    multi = F.delta_lf_params.delta_lf_multi.b
    newlf = []
    for k in range(4):
        g = AND(dl, F.delta_lf_params.delta_lf_present.b)
        if k:
            g = AND(g, multi)
        if k >= 2:
            g = AND(g, GT(E.num_planes.n, ONE))
        d = shr_const(sub(P.delta_lf[k].n, E.delta_lf[k].n), lr.c)
        with U.when(g):
            delta(U, "encode_delta_lf_abs", d, 3, 126, n_(multi), const(k))
        newlf.append(ite(AND(g, NE(d, ZERO)), clip(-63, 63, add(E.delta_lf[k].n, mul(d, const(1 << lr.c)))), E.delta_lf[k].n))
    # inter or intra
    fref, fglob, fskip = feat(sid, SEG_REF), feat(sid, SEG_GLOBAL), feat(sid, SEG_SKIP)
    refval = at(sid, [SP.feature_value[k][SEG_REF].pay().n for k in range(8)])
    with U.when(AND(NOT(fref), NOT(fglob))):
        U.el("encode_is_inter", n_(P.is_inter.b), const(row), const(col))
    inter = OR(AND(fref, NE(refval, ZERO)), AND(NOT(fref), OR(fglob, P.is_inter.b)))
    pos = (const(row), const(col))
    a, b = P.ref_frame[0].n, P.ref_frame[1].n
    free = AND(inter, NOT(OR(fref, OR(fskip, fglob))))
    canc = F.reference_select.b if min(BW[size], BH[size]) >= 8 else FALSE
    cm = EQ(P.comp_mode.n, ONE)
    comp = AND(canc, cm)
    uni = EQ(P.comp_ref_type.n, ZERO)
    with U.when(free):
        with U.when(canc):
            U.el("encode_comp_mode", n_(cm), *pos)
        with U.when(comp):
            U.el("encode_comp_ref_type", n_(NOT(uni)), *pos)
            with U.when(uni):
                bw = EQ(a, const(BWD))
                U.el("encode_uni_comp_ref", n_(bw), *pos)
                with U.when(NOT(bw)):
                    far = isin(b, LAST3, GOLDEN)
                    U.el("encode_uni_comp_ref_p1", n_(far), *pos)
                    with U.when(far):
                        U.el("encode_uni_comp_ref_p2", n_(EQ(b, const(GOLDEN))), *pos)
            with U.when(NOT(uni)):
                far = isin(a, LAST3, GOLDEN)
                U.el("encode_comp_ref", n_(far), *pos)
                with U.when(NOT(far)):
                    U.el("encode_comp_ref_p1", n_(EQ(a, const(LAST2))), *pos)
                with U.when(far):
                    U.el("encode_comp_ref_p2", n_(EQ(a, const(GOLDEN))), *pos)
                al_ = EQ(b, const(ALT))
                U.el("encode_comp_bwdref", n_(al_), *pos)
                with U.when(NOT(al_)):
                    U.el("encode_comp_bwdref_p1", n_(EQ(b, const(ALT2))), *pos)
        with U.when(NOT(comp)):
            back = isin(a, BWD, ALT2, ALT)
            U.el("encode_single_ref_p1", n_(back), *pos)
            with U.when(back):
                U.el("encode_single_ref_p2", n_(EQ(a, const(ALT))), *pos)
                with U.when(NE(a, const(ALT))):
                    U.el("encode_single_ref_p6", n_(EQ(a, const(ALT2))), *pos)
            with U.when(NOT(back)):
                far = isin(a, LAST3, GOLDEN)
                U.el("encode_single_ref_p3", n_(far), *pos)
                with U.when(far):
                    U.el("encode_single_ref_p5", n_(EQ(a, const(GOLDEN))), *pos)
                with U.when(NOT(far)):
                    U.el("encode_single_ref_p4", n_(EQ(a, const(LAST2))), *pos)
    isc = AND(free, comp)
    K = lambda f: R.I.need_term(R.I.force(R.I.lazy(field_index(ctx.p, me, f)[1], "stack." + f)))
    num = K("num_mv_found")
    forcedmode = OR(fskip, fglob)
    with U.when(AND(inter, NOT(forcedmode))):
        with U.when(isc):
            U.el("encode_compound_mode", sub(P.compound_mode.n, const(NEAREST_NEARESTMV)), K("ref_mv_context"), K("new_mv_context"))
        with U.when(NOT(isc)):
            U.el("encode_new_mv", n_(P.new_mv.b), K("new_mv_context"))
            with U.when(P.new_mv.b):
                U.el("encode_zero_mv", n_(P.zero_mv.b), K("zero_mv_context"))
                with U.when(P.zero_mv.b):
                    U.el("encode_ref_mv", n_(P.ref_mv.b), K("ref_mv_context"))
    single = ite(NOT(P.new_mv.b), const(NEWMV), ite(NOT(P.zero_mv.b), const(GLOBALMV), ite(P.ref_mv.b, const(NEARMV), const(NEARESTMV))))
    ym = ite(forcedmode, const(GLOBALMV), ite(isc, P.compound_mode.n, single))
    idx = ZERO
    for cond, lo in ((isin(ym, NEWMV, NEW_NEWMV), 0), (isin(ym, NEARMV, NEAR_NEARMV, NEAR_NEWMV, NEW_NEARMV), 1)):
        x = const(lo)
        go = AND(inter, cond)
        for k in (lo, lo + 1):
            g = AND(go, GT(num, const(k + 1)))
            with U.when(g):
                U.el("encode_drl_mode", P.drl_mode[k].n, const(k))
            nz = NE(P.drl_mode[k].n, ZERO)
            x = ite(g, ite(nz, const(k + 1), const(k)), x)
            go = AND(go, NOT(AND(g, NOT(nz))))
        idx = ite(cond, x, idx)
    with U.when(inter):
        U.el("motion vectors", n_(isc), ym, idx)
    ctx.same_list(nm + ":elements", R.bits(out), U.items, R.g, R.where, nm + ": syntax elements")
    # ---- what later blocks rely on
    if R.out is None:
        return
    SO, FO, PO = [Nav(R.I, R.out, R.args[names.index(x)], body["locals"][names.index(x) + 1]) for x in ("self", "frame", "tree")]
    EO = SO.ectx
    chk = lambda k, got, want, what: ctx.same(nm + ":" + k, got, want, R.g, R.where, "%s: %s" % (nm, what))
    chk("skip", n_(PO.skip.b), n_(skip), "skip flag recorded")
    chk("segment", PO.segment_id.n, sid, "segment recorded")
    chk("lossless", n_(SO.lossless.b), n_(atb(sid, [E.lossless_array[k].b for k in range(8)])), "lossless flag of the segment")
    chk("quantizer", EO.current_q_index.n, newq, "quantizer index the next delta is relative to")
    for k in range(4):
        chk("loop filter", EO.delta_lf[k].n, newlf[k], "loop filter delta %d the next delta is relative to" % k)
    chk("deltas", n_(EO.read_deltas.b), ZERO, "further blocks of the superblock carry deltas")
    for y in range(0, nr, 16):
        for x in range(0, nc, 16):
            mine = r0 <= y < r0 + BH[size] // 4 and c0 <= x < c0 + BW[size] // 4
            old = F.cdef_idx[y][x].n
            if (y, x) == (r0, c0) or mine:
                chk("cdef", FO.cdef_idx[y][x].n, ite(cd, P.cdef_idx.n, old), "CDEF index recorded for the area at %d, %d" % (y, x))
            else:
                chk("cdef", FO.cdef_idx[y][x].n, old, "CDEF index of the area at %d, %d, which the block does not touch" % (y, x))
    chk("inter", n_(PO.is_inter.b), n_(inter), "inter flag recorded")
    wa = ite(fref, refval, ite(OR(fskip, fglob), ONE, a))
    for k, (g_, w) in enumerate(((inter, wa), (inter, ite(isc, b, const(-1))))):
        ctx.same(nm + ":reference", PO.ref_frame[k].n, w, AND(R.g, inter), R.where, "%s: reference frame %d recorded" % (nm, k))
    tot = FALSE
    for g, c, x, y in calls["stack"]:
        tot = OR(tot, g)
        ctx.same(nm + ":list", n_(c), n_(isc), g, R.where, nm + ": whether the prediction list is for two references")
        ctx.same(nm + ":list", x, wa, g, R.where, nm + ": first reference when the prediction list is made")
        ctx.same(nm + ":list", y, ite(isc, b, const(-1)), g, R.where, nm + ": second reference when the prediction list is made")
    ctx.never(nm + ":list", AND(AND(R.g, inter), NOT(tot)), R.where, nm + ": no prediction list is made")
    ctx.count("blocks")


def valid_refs(S, F, P):
    """reference pairs that the format has"""
    a, b = P.ref_frame[0].n, P.ref_frame[1].n
    uni = OR(AND(EQ(a, ONE), isin(b, LAST2, LAST3, GOLDEN)), AND(EQ(a, const(BWD)), EQ(b, const(ALT))))
    bi = AND(isin(a, LAST, LAST2, LAST3, GOLDEN), isin(b, BWD, ALT2, ALT))
    cm = EQ(P.comp_mode.n, ONE)
    return ite(cm, ite(EQ(P.comp_ref_type.n, ZERO), uni, bi), TRUE)


OFF = {"segmentation_enabled": (0, 0), "read_deltas": (0, 0), "delta_q_res": (0, 0), "delta_lf_res": (0, 0), "seg_id_pre_skip": (0, 0)}


def pins(*ds, **kw):
    out = {}
    for d in ds:
        out.update(d)
    out.update({k: v if isinstance(v, tuple) else (v, v) for k, v in kw.items()})
    return out


NOCDEF = {"enable_cdef": (0, 0)}
INTRA = {"tree.is_inter": (0, 0)}
NOFEAT = {"frame.segmentation_params.feature_value[%d][%d].#" % (k, f): (0, 0) for k in range(8) for f in range(8)}


def far(ctx):
    """blocks far from the origin and around the constants of the code, in frames with few rows or columns"""
    at = [1100, 16380] if ctx.thorough else [1100]
    at += [k for k in ctx.near(["encode_mode_info"], (), 2100 if ctx.thorough else 1100, ("encode_intra_frame_mode_info", "find_mv_stack", "assign_mv")) if k > (60 if ctx.thorough else 300)]
    for k in sorted({k // 16 * 16 for k in at}):
        yield 3, 4, k + 4, 16, k + 12
        yield 3, k + 4, 4, k + 12, 16
        if ctx.thorough:
            k = k // 32 * 32
            yield 15, 0, k, 16, k + 32
            yield 15, k, 0, k + 32, 16


def c24(ctx):
    ctx.rule("mode information", "the elements coded for a block are those a decoder reads for it, in order, with its values, and everything later elements depend on is what the decoder then has")
    ob = lambda nm, *a, **k: ctx.ob(nm, mode_run, ctx, nm, *a, **k)
    # references and modes
    for z in (0, 1, 3, 12, 16, 19) if not ctx.thorough else range(22):
        ob("inter block of %dx%d" % (BW[z], BH[z]), z, 4, 6, 36, 40, pins(OFF, NOCDEF), valid_refs)
    # segments
    for last in range(8):
        for pre in (0, 1):
            for u in (0, 1):
                for l in (0, 1):
                    ob("segment id, %d segments, %s skip%s%s" % (last + 1, "before" if pre else "after", ", above" if u else "", ", left" if l else ""), 3, 4, 6, 8, 10,
                       pins(OFF, NOCDEF, INTRA, NOFEAT, segmentation_enabled=1, seg_id_pre_skip=pre, last_active_seg_id=last, segment_id=(0, last), avail_u=u, avail_l=l))
    for pre in (0, 1):
        for k in (0, 3, 7):
            nf = dict(NOFEAT)
            for f in (5, 6, 7):
                del nf["frame.segmentation_params.feature_value[%d][%d].#" % (k, f)]
            ob("features of segment %d, %s skip" % (k, "before" if pre else "after"), 3, 4, 6, 8, 10, pins(OFF, NOCDEF, nf, segmentation_enabled=(0, 1), seg_id_pre_skip=pre, last_active_seg_id=7, avail_u=0, avail_l=0), valid_refs)
    # CDEF
    for z, y, x, rows, cols in ((3, 4, 4, 36, 36), (12, 0, 0, 16, 16), (15, 0, 0, 64, 64), (15, 32, 32, 66, 72), (13, 0, 16, 32, 32), (14, 32, 0, 66, 66), (9, 24, 40, 50, 70), (0, 33, 17, 36, 36), (15, 0, 32, 20, 40)) + tuple(far(ctx)):
        ob("CDEF index of a %dx%d block at %d, %d of %d x %d" % (BW[z], BH[z], y, x, rows, cols), z, y, x, rows, cols, pins(OFF, INTRA))
    # deltas
    for z in (3, 12, 15):
        for q in range(4):
            ob("quantizer delta of a %dx%d block, resolution %d" % (BW[z], BH[z], q), z, 0, 0, 32, 32, pins(OFF, NOCDEF, INTRA, read_deltas=1, delta_q_res=q, delta_lf_present=0))
            ob("loop filter delta of a %dx%d block, resolution %d" % (BW[z], BH[z], q), z, 0, 0, 32, 32,
               pins(OFF, NOCDEF, INTRA, read_deltas=1, delta_q_res=0, delta_lf_res=q, **{"tree.q_index": 7, "self.ectx.current_q_index": 7}))
        ob("deltas of a %dx%d block" % (BW[z], BH[z]), z, 0, 0, 32, 32, pins(OFF, NOCDEF, INTRA, read_deltas=(0, 1), delta_q_res=0, delta_lf_res=0, **{"tree.q_index": 7, "tree.delta_lf": 5}))


RULES = {"C24": c24}
