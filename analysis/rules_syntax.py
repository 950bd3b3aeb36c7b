"""Block level syntax elements: each is one symbol, coded with the table and context the format defines."""
from .core import *
from .wire import *

BW = [4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64]
BH = [4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16]
TW = [4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64]
TH = [4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16]
INTRA_CTX = [0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0]
SIZE_GROUP = [0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 0, 0, 1, 1, 2, 2]
LOG = {4: 2, 8: 3, 16: 4, 32: 5, 64: 6, 128: 7}
TXSQ = [LOG[min(a, b)] - 2 for a, b in zip(TW, TH)]
TXSQUP = [LOG[max(a, b)] - 2 for a, b in zip(TW, TH)]
B128, B64 = 15, 12
NONE, INTRA, LAST, LAST2, LAST3, GOLD, BWD, ALT2, ALT = range(-1, 8)
FWD, BCK = (LAST, LAST2, LAST3, GOLD), (BWD, ALT2, ALT)


def tab(t, i):
    """constant table at a symbolic index"""
    i = T._as_int(i)
    if is_const(i):
        return const(t[i.c]) if 0 <= i.c < len(t) else ZERO
    out = const(t[0])
    for k in range(1, len(t)):
        if t[k] != t[k - 1]:
            out = ite(GE(i, const(k)), const(t[k]), out)
    return out


def n(c):
    return b2i(c) if isbool(c) else T._as_int(c)


def tsum(*xs):
    out = ZERO
    for x in xs:
        out = add(out, n(x))
    return out


def times(k, x):
    return mul(const(k), n(x))


def cases(*cs):
    """first matching case; the last entry is the default"""
    out = n(cs[-1]) if not isinstance(cs[-1], int) else const(cs[-1])
    for c, v in reversed(cs[:-1]):
        out = ite(c, const(v) if isinstance(v, int) else n(v), out)
    return out


def tmin(a, b):
    a, b = T._as_int(a), T._as_int(b)
    return ite(LT(a, b), a, b)


def tabs(a):
    return ite(LT(a, ZERO), sub(ZERO, a), a)


class Nb:
    """a neighbouring mode info record"""

    def __init__(self, avail, nav):
        self.avail, self.m = avail, nav

    def when(self, c, v, d=0):
        """v of the neighbour if it is available, else d"""
        if self.avail is FALSE:
            return const(d)
        return ite(AND(self.avail, c), v if not isinstance(v, int) else const(v), const(d))

    def flag(self, f):
        if self.avail is FALSE:
            return FALSE
        return AND(self.avail, f(self.m))

    def num(self, f, d=0):
        if self.avail is FALSE:
            return const(d)
        v = f(self.m)
        return ite(self.avail, n(v), const(d))


class Args:
    def __init__(self, r, names):
        self._r, self._n = r, names
        self._tys = r.prog.inst[r.i]["body"]["locals"]
        self._st = State({}, TRUE)

    def __getattr__(self, name):
        k = self._n.index(name)
        return Nav(self._r.I, self._st, self._r.args[k], self._tys[k + 1])

    def mi(self, r, c):
        if r < 0 or c < 0:
            return Nb(FALSE, None)
        o = self.frame.mis[r][c]
        return Nb(o.some, o.pay())

    @property
    def up(self):
        return self.mi(self.pos[0] - 1, self.pos[1])

    @property
    def lf(self):
        return self.mi(self.pos[0], self.pos[1] - 1)


def table_term(I, st, ref, cdf, names):
    """identity of the table a reference denotes"""
    out = None
    for g, p in ref.alts:
        if p.obj != cdf:
            raise Giveup("table %r" % (p,))
        path = p.path
        if not path or path[0][0] != "f":
            raise Giveup("table path %r" % (path,))
        t = table_id_term(names[path[0][1]], [e[1] for e in path[1:]])
        if p.win is not None:
            full = I.len_of(st, p.obj, p.path)
            d = add(mul(const(64), p.win[0]), sub(full, p.win[1]))
            t = add(t, mul(const(1 << 34), d))
        out = t if out is None else ite(g, t, out)
    return out


FIELD_ID = {}


def table_id_term(field, idx):
    f = FIELD_ID.setdefault(field, len(FIELD_ID) + 1)
    t = const(f << 40)
    for k, i in enumerate(idx):
        i = T._as_int(i) if not isinstance(i, int) else const(i)
        t = add(t, mul(const(1 << (6 * (4 - k))), i))
    return t


class Symbols:
    """records what is handed to the symbol coder"""

    def __init__(self):
        self.got = []
        self.cdf = None

    def hook(self, I, st, fi, args, dty):
        ref = I.force(args[3])
        if not isinstance(ref, RefV):
            raise Giveup("table argument %r" % (ref,))
        self.got.append((st.g, T._as_int(I.need_term(args[1])), ref, st.fork(st.g), tuple(I.site()), args[2]))
        return [(UNIT, st)]


def run_element(ctx, fn, names, pos=None, ranges=None, assume=None, veclen=None, fixed=None):
    s = Symbols()
    i = ctx.fn(fn)
    body = ctx.p.inst[i]["body"]
    args = []
    for k, nm in enumerate(names):
        if nm == "out":
            args.append(newvec)
        elif fixed and nm in fixed:
            args.append(fixed[nm])
        elif pos is not None and nm in ("mi_row", "mi_col"):
            args.append(pos[0] if nm == "mi_row" else pos[1])
        else:
            args.append(nm)
    rg = {"mi_size.#": (0, 21), "tx_size.#": (0, 18), "interp_filter.#": (0, 3), "seg_id_predicted": (0, 1), "skip_mode": (0, 1),
          "comp_group_idx": (0, 1), "compound_idx": (0, 1), "palette_size": (0, 8), "tx_type.#": (0, 15), "bsize.#": (0, 21),
          "y_mode.#": (0, 12), "segment_id": (0, 7)}
    rg.update(ranges or {})
    vl = {"mis": (4, 4)}
    vl.update(veclen or {})
    r = Run(ctx, fn, args, assume or TRUE, ranges=rg, veclen=vl, hooks={"encode_symbol": s.hook})
    a = Args(r, names)
    a.pos = pos
    return r, s, a


def check_element(ctx, nm, r, s, a, names, table, want_sym, want_tab, guard=TRUE):
    """exactly one symbol, the right one, with the right table; nothing else written"""
    t = ctx.p.tys[[x for x in r.prog.inst[r.i]["body"]["locals"]][names.index("cdf") + 1]]
    t = ctx.p.tys[t["e"]]
    fields = [f[0] for f in t["v"][0]["f"]]
    cdf = r.I.force(r.args[names.index("cdf")]).alts[0][1].obj
    out = r.args[names.index("out")].alts[0][1].obj
    r.returns(nm + ":completes", nm, guard)
    got = []
    for g, sym, ref, st, site, o in s.got:
        got.append((g, sym, table_term(r.I, st, ref, cdf, fields), site))
        for gg, p in r.I.force(o).alts:
            if p.obj != out:
                ctx.violate(nm + ":output", r.where, "%s: the symbol goes to another output than the caller's" % nm)
    G = AND(guard, r.g)
    a1 = ctx.same_list(nm + ":symbol", [(g, y, site) for g, y, _, site in got], [(TRUE, want_sym, "the coded value")], G, r.where, nm + ", symbol")
    a2 = ctx.same_list(nm + ":table", [(g, x, site) for g, _, x, site in got], [(TRUE, want_tab, "its table and context")], G, r.where,
                       nm + ", table and context (table number in the upper digits, indices below)")
    b = r.bits(names.index("out"))
    ctx.never(nm + ":raw bits", OR_ALL([g for g, _, _ in b]), r.where, nm + ": writes bits besides the symbol")
    ctx.count("syntax elements")
    return a1 and a2


def OR_ALL(xs):
    o = FALSE
    for x in xs:
        o = OR(o, x)
    return o


POSITIONS = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 3)]
E = []       # (function, argument names, table field, symbol(A), indices(A), options)


def el(fn, args, sym, table, idx=None, **kw):
    E.append((fn, ["self", "out", "cdf"] + args.split(), sym, table, idx or (lambda A: []), kw))


# ---------------------------------------------------------------- simple elements
el("encode_intra_frame_y_mode", "v above left", lambda A: A.v.n, "intra_frame_y_mode",
   lambda A: [tab(INTRA_CTX, A.above.n), tab(INTRA_CTX, A.left.n)], ranges={"v.#": (0, 12), "above.#": (0, 12), "left.#": (0, 12)})
el("encode_y_mode", "v mi_size", lambda A: A.v.n, "y_mode", lambda A: [tab(SIZE_GROUP, A.mi_size.n)], ranges={"v.#": (0, 12)})


def uv_table(A):
    w, h = tab(BW, A.mi_size.n), tab(BH, A.mi_size.n)
    ok4 = FALSE
    for k in range(22):
        # the chroma block is 4x4 when both halves round to 4 (for 4xN chroma stays 4 wide)
        for sx in (0, 1):
            for sy in (0, 1):
                if max(BW[k] >> sx, 4) == 4 and max(BH[k] >> sy, 4) == 4 and valid_sub(k, sx, sy):
                    ok4 = OR(ok4, AND(EQ(A.mi_size.n, const(k)), AND(EQ(n(A.ssx.b), const(sx)), EQ(n(A.ssy.b), const(sy)))))
    allowed = OR(AND(A.lossless.b, ok4), AND(NOT(A.lossless.b), AND(LE(w, const(32)), LE(h, const(32)))))
    return [("uv_mode_cfl_allowed", [A.y_mode.n], allowed), ("uv_mode_cfl_not_allowed", [A.y_mode.n], TRUE)]


def subsampled(k, sx, sy):
    """the block size of the subsampled plane, None where the format has no such block"""
    if sx == 0 and sy == 1 and BW[k] > BH[k]:
        return None
    if sx == 1 and sy == 0 and BH[k] > BW[k]:
        return None
    w, h = max(BW[k] >> sx, 4), max(BH[k] >> sy, 4)
    for j in range(22):
        if (BW[j], BH[j]) == (w, h):
            return j
    return None


def valid_sub(k, sx, sy):
    return subsampled(k, sx, sy) is not None


el("encode_uv_mode", "v y_mode mi_size lossless ssx ssy", lambda A: A.v.n, uv_table, ranges={"v.#": (0, 13)})
for nm in ("y", "uv"):
    el("encode_angle_delta_" + nm, "mode v", lambda A: A.v.n, "angle_delta", lambda A: [sub(A.mode.n, ONE)], ranges={"mode.#": (1, 8), "v": (0, 6)})


def part_tables(A):
    ctx = tsum(times(2, A.left.b), A.above.b)
    return [("partition_w%d" % w, [ctx], EQ(tab(BW, A.bsize.n), const(w))) for w in (8, 16, 32, 64)] + [("partition_w128", [ctx], TRUE)]


SQUARE = (3, 6, 9, 12, 15)
for b in SQUARE:
    el("encode_partition", "bsize above left v", lambda A: A.v.n, part_tables, ranges={"bsize.#": (b, b), "v.#": (0, 3 if b == 3 else 7 if b == 15 else 9)}, tag=" of size %d" % BW[b])

for e, t, rng in (("new_mv", "new_mv", 5), ("zero_mv", "zero_mv", 1), ("ref_mv", "ref_mv", 5)):
    el("encode_" + e, "v ctx", lambda A: A.v.n, t, lambda A: [A.ctx.n], ranges={"v": (0, 1), "ctx": (0, rng)})
el("encode_use_filter_intra", "v bs", lambda A: A.v.n, "filter_intra", lambda A: [A.bs.n], ranges={"v": (0, 1), "bs": (0, 21)})
el("encode_filter_intra_mode", "v", lambda A: A.v.n, "filter_intra_mode", ranges={"v": (0, 4)})
el("encode_motion_mode", "v mi_size", lambda A: A.v.n, "motion_mode", lambda A: [A.mi_size.n], ranges={"v": (0, 2)})
el("encode_mv_joint", "v ctx", lambda A: A.v.n, "mv_joint", lambda A: [A.ctx.n], ranges={"ctx": (0, 1)})
el("encode_mv_sign", "v ctx comp", lambda A: A.v.n, "mv_sign", lambda A: [A.ctx.n, A.comp.n], ranges={"ctx": (0, 1), "comp": (0, 1), "v.#": (0, 1), "v": (0, 1)})
for e, hi in (("mv_class", 10), ("mv_class0_bit", 1), ("mv_class0_hp", 1), ("mv_fr", 3), ("mv_hp", 1)):
    el("encode_" + e, "v ctx comp", lambda A: A.v.n, e, lambda A: [A.ctx.n, A.comp.n], ranges={"ctx": (0, 1), "comp": (0, 1), "v": (0, hi)})
el("encode_mv_class0_fr", "v bit ctx comp", lambda A: A.v.n, "mv_class0_fr", lambda A: [A.ctx.n, A.comp.n, A.bit.n],
   ranges={"ctx": (0, 1), "comp": (0, 1), "v": (0, 3), "bit": (0, 1)})
el("encode_mv_bit", "v i ctx comp", lambda A: A.v.n, "mv_bit", lambda A: [A.ctx.n, A.comp.n, A.i.n], ranges={"ctx": (0, 1), "comp": (0, 1), "v": (0, 1), "i": (0, 9)})
el("encode_has_palette_uv", "v size_y", lambda A: A.v.n, "palette_uv_mode", lambda A: [n(GT(A.size_y.n, ZERO))], ranges={"v": (0, 1), "size_y": (0, 8)})
el("encode_palette_size_y_minus_2", "v bctx", lambda A: A.v.n, "palette_y_size", lambda A: [A.bctx.n], ranges={"v": (0, 6), "bctx": (0, 6)})
el("encode_palette_size_uv_minus_2", "v bctx", lambda A: A.v.n, "palette_uv_size", lambda A: [A.bctx.n], ranges={"v": (0, 6), "bctx": (0, 6)})
COLOR = {2: 0, 5: 4, 6: 3, 7: 2, 8: 1}
for pl in ("y", "uv"):
    for h, c in COLOR.items():
        el("encode_palette_color_idx_" + pl, "v hash size", lambda A: A.v.n,
           (lambda c, pl: lambda A: [("palette_size_%d_%s_color" % (k, pl), [const(c)], EQ(A.size.n, const(k))) for k in range(2, 9)])(c, pl),
           ranges={"v": (0, 7), "hash": (h, h), "size": (2, 8)}, tag=" at hash %d" % h)
el("encode_delta_q_abs", "v", lambda A: A.v.n, "delta_q", ranges={"v": (0, 3)})
el("encode_delta_lf_abs", "v multi i", lambda A: A.v.n, lambda A: [("delta_lf", [], EQ(A.multi.n, ZERO)), ("delta_lf_multi", [A.i.n], TRUE)],
   ranges={"v": (0, 3), "multi": (0, 1), "i": (0, 3)})
el("encode_compound_type", "v mi_size", lambda A: A.v.n, "compound_type", lambda A: [A.mi_size.n], ranges={"v": (0, 1)})
el("encode_interintra", "v mi_size", lambda A: A.v.n, "inter_intra", lambda A: [tab(SIZE_GROUP, A.mi_size.n)], ranges={"v": (0, 1)})
el("encode_interintra_mode", "v mi_size", lambda A: A.v.n, "inter_intra_mode", lambda A: [tab(SIZE_GROUP, A.mi_size.n)], ranges={"v": (0, 3)})
el("encode_wedge_index", "v mi_size", lambda A: A.v.n, "wedge_index", lambda A: [A.mi_size.n], ranges={"v": (0, 15)})
el("encode_wedge_interintra", "v mi_size", lambda A: A.v.n, "wedge_inter_intra", lambda A: [A.mi_size.n], ranges={"v": (0, 1)})
el("encode_use_obmc", "v mi_size", lambda A: A.v.n, "use_obmc", lambda A: [A.mi_size.n], ranges={"v": (0, 1)})
el("encode_cfl_alpha_signs", "v", lambda A: A.v.n, "cfl_sign", ranges={"v": (0, 7)})
# signs s: U = (s+1)/3, V = (s+1)%3; the U context is (U-1)*3+V, the V context (V-1)*3+U
for s_ in range(8):
    u, v_ = (s_ + 1) // 3, (s_ + 1) % 3
    if u:
        el("encode_cfl_alpha_u", "v signs", lambda A: A.v.n, "cfl_alpha", (lambda c: lambda A: [const(c)])((u - 1) * 3 + v_), ranges={"v": (0, 15), "signs": (s_, s_)}, tag=" for signs %d" % s_)
    if v_:
        el("encode_cfl_alpha_v", "v signs", lambda A: A.v.n, "cfl_alpha", (lambda c: lambda A: [const(c)])((v_ - 1) * 3 + u), ranges={"v": (0, 15), "signs": (s_, s_)}, tag=" for signs %d" % s_)
for e, hi in (("use_wiener", 1), ("use_sgrproj", 1), ("restoration_type", 2)):
    el("encode_" + e, "v", lambda A: A.v.n, e, ranges={"v": (0, hi)})

CMAP = [[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]]
for rm in range(6):
    for nmv in range(6):
        el("encode_compound_mode", "v rm nm", lambda A: A.v.n, "compound_mode", (lambda c: lambda A: [const(c)])(CMAP[rm >> 1][min(nmv, 4)]),
           ranges={"v": (0, 7), "rm": (rm, rm), "nm": (nmv, nmv)}, tag=" in motion context %d/%d" % (rm, nmv))


def seg_ctx(A):
    u, l, ul = A.u.n, A.l.n, A.ul.n
    return [cases((LT(ul, ZERO), 0), (AND(EQ(ul, u), EQ(ul, l)), 2), (OR(OR(EQ(ul, u), EQ(ul, l)), EQ(u, l)), 1), 0)]


el("encode_segment_id", "v u l ul", lambda A: A.v.n, "segment_id", seg_ctx, ranges={"v": (0, 7), "u": (-1, 7), "l": (-1, 7), "ul": (-1, 7)},
   pre=lambda A: OR(LT(A.ul.n, ZERO), AND(GE(A.u.n, ZERO), GE(A.l.n, ZERO))))

# ---------------------------------------------------------------- transform size and type
TXI1 = [9, 0, 10, 11, 3, 1, 2]
TXI2 = [9, 0, 3, 1, 2]
TXE1 = [9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 4, 5, 3, 6, 7, 8]
TXE2 = [9, 10, 11, 0, 1, 2, 4, 5, 3, 6, 7, 8]
TXE3 = [9, 0]
F2I = [0, 1, 2, 6, 0]
for st_, (lst, t) in {1: (TXI1, "intra_tx_type_set1"), 2: (TXI2, "intra_tx_type_set2")}.items():
    for k, ty in enumerate(lst):
        el("encode_intra_tx_type", "v set tx_size ufi fim y_mode", (lambda k: lambda A: const(k))(k), t,
           lambda A: [tab(TXSQ, A.tx_size.n), ite(A.ufi.b, tab(F2I, A.fim.n), A.y_mode.n)],
           ranges={"v.#": (ty, ty), "set": (st_, st_), "fim": (0, 4)}, pre=lambda A: LE(tab(TXSQUP, A.tx_size.n), const(2)), tag=" %d of set %d" % (ty, st_))
for st_, (lst, t) in {1: (TXE1, "inter_tx_type_set1"), 2: (TXE2, "inter_tx_type_set2"), 3: (TXE3, "inter_tx_type_set3")}.items():
    for k, ty in enumerate(lst):
        el("encode_inter_tx_type", "v tx_size set", (lambda k: lambda A: const(k))(k), t, lambda A: [tab(TXSQ, A.tx_size.n)],
           ranges={"v.#": (ty, ty), "set": (st_, st_)}, pre=lambda A: LE(tab(TXSQUP, A.tx_size.n), const(3)), tag=" %d of set %d" % (ty, st_))


def tx_depth_tables(A):
    mw, mh = tab(TW, A.tx.n), tab(TH, A.tx.n)
    aw = A.up.num(lambda m: ite(m.is_inter.b, tab(BW, m.mi_size.n), tab(TW, m.tx_size.n)))
    lh = A.lf.num(lambda m: ite(m.is_inter.b, tab(BH, m.mi_size.n), tab(TH, m.tx_size.n)))
    c = tsum(GE(aw, mw), GE(lh, mh))
    return [("tx_64x64", [c], EQ(A.depth.n, const(4))), ("tx_32x32", [c], EQ(A.depth.n, const(3))), ("tx_16x16", [c], EQ(A.depth.n, const(2))), ("tx_8x8", [c], TRUE)]


el("encode_tx_depth", "mi_row mi_col tx depth frame v", lambda A: A.v.n, tx_depth_tables, neigh=True, ranges={"tx.#": (0, 18), "depth": (1, 4), "v": (0, 2)})


# ---------------------------------------------------------------- contexts from the neighbours
def check_backward(r):
    return GE(r, const(BWD))


def count(A, *fs):
    tot = ZERO
    for nb in (A.up, A.lf):
        for k in (0, 1):
            for f in fs:
                tot = add(tot, n(nb.flag(lambda m: EQ(m.ref_frame[k].n, const(f)))))
    return tot


def cmp_ctx(a, b):
    return lambda A: cases((LT(count(A, *a), count(A, *b)), 0), (EQ(count(A, *a), count(A, *b)), 1), 2)


for fn, t, k, a, b in (("comp_ref", "comp_ref", 0, (LAST, LAST2), (LAST3, GOLD)), ("comp_ref_p1", "comp_ref", 1, (LAST,), (LAST2,)),
                       ("comp_ref_p2", "comp_ref", 2, (LAST3,), (GOLD,)), ("comp_bwdref", "comp_bwd_ref", 0, (BWD, ALT2), (ALT,)),
                       ("comp_bwdref_p1", "comp_bwd_ref", 1, (BWD,), (ALT2,)), ("single_ref_p1", "single_ref", 0, FWD, BCK),
                       ("single_ref_p2", "single_ref", 1, (BWD, ALT2), (ALT,)), ("single_ref_p3", "single_ref", 2, (LAST, LAST2), (LAST3, GOLD)),
                       ("single_ref_p4", "single_ref", 3, (LAST,), (LAST2,)), ("single_ref_p5", "single_ref", 4, (LAST3,), (GOLD,)),
                       ("single_ref_p6", "single_ref", 5, (BWD,), (ALT2,)), ("uni_comp_ref", "uni_comp_ref", 0, FWD, BCK),
                       ("uni_comp_ref_p1", "uni_comp_ref", 1, (LAST2,), (LAST3, GOLD)), ("uni_comp_ref_p2", "uni_comp_ref", 2, (LAST3,), (GOLD,))):
    el("encode_" + fn, "v frame mi_row mi_col", lambda A: A.v.n, t, (lambda c, k: lambda A: [c(A), const(k)])(cmp_ctx(a, b), k), neigh=True, ranges={"v": (0, 1)})

el("encode_skip", "v frame mi_row mi_col", lambda A: A.v.n, "skip", lambda A: [tsum(*[x.flag(lambda m: m.skip.b) for x in (A.up, A.lf)])], neigh=True, ranges={"v": (0, 1)})
el("encode_skip_mode", "v frame mi_row mi_col", lambda A: A.v.n, "skip_mode", lambda A: [tsum(*[x.num(lambda m: m.skip_mode.n) for x in (A.up, A.lf)])], neigh=True, ranges={"v": (0, 1)})
el("encode_seg_id_predicted", "v mi_row mi_col frame", lambda A: A.v.n, "segment_id_predicted",
   lambda A: [tsum(*[x.num(lambda m: m.seg_id_predicted.n) for x in (A.up, A.lf)])], neigh=True, ranges={"v": (0, 1)})
el("encode_has_palette_y", "v frame mi_row mi_col bctx", lambda A: A.v.n, "palette_y_mode",
   lambda A: [A.bctx.n, tsum(*[x.flag(lambda m: GT(m.palette_size[0].n, ZERO)) for x in (A.up, A.lf)])], neigh=True, ranges={"v": (0, 1), "bctx": (0, 6)})


def is_inter_ctx(A):
    u, l = A.up, A.lf
    ui, li = u.flag(lambda m: m.intra.b), l.flag(lambda m: m.intra.b)
    both, one = AND(u.avail, l.avail), OR(u.avail, l.avail)
    return [cases((both, cases((AND(ui, li), 3), b2i(OR(ui, li)))), (one, times(2, OR(ui, li))), 0)]


el("encode_is_inter", "v mi_row mi_col frame", lambda A: n(A.v.b), "is_inter", is_inter_ctx, neigh=True)


def comp_mode_ctx(A):
    u, l = A.up, A.lf
    us, ls = u.flag(lambda m: m.single.b), l.flag(lambda m: m.single.b)
    ub, lb = u.flag(lambda m: check_backward(m.ref_frame[0].n)), l.flag(lambda m: check_backward(m.ref_frame[0].n))
    ui, li = u.flag(lambda m: m.intra.b), l.flag(lambda m: m.intra.b)
    both = cases((AND(us, ls), b2i(OR(AND(ub, NOT(lb)), AND(lb, NOT(ub))))), (us, add(const(2), n(OR(ub, ui)))), (ls, add(const(2), n(OR(lb, li)))), 4)
    return [cases((AND(u.avail, l.avail), both), (u.avail, cases((us, n(ub)), 3)), (l.avail, cases((ls, n(lb)), 3)), 1)]


el("encode_comp_mode", "v frame mi_row mi_col", lambda A: A.v.n, "comp_mode", comp_mode_ctx, neigh=True, ranges={"v": (0, 1)})


def samedir(a, b):
    return AND(AND(GT(a, ZERO), GT(b, ZERO)), EQ(n(GE(a, const(BWD))), n(GE(b, const(BWD)))))


def comp_ref_type_ctx(A):
    u, l = A.up, A.lf
    r = lambda x, k: x.num(lambda m: m.ref_frame[k].n)
    uc = u.flag(lambda m: AND(NOT(m.intra.b), NOT(m.single.b)))
    lc = l.flag(lambda m: AND(NOT(m.intra.b), NOT(m.single.b)))
    uu = AND(uc, u.flag(lambda m: samedir(m.ref_frame[0].n, m.ref_frame[1].n)))
    lu = AND(lc, l.flag(lambda m: samedir(m.ref_frame[0].n, m.ref_frame[1].n)))
    inter2 = AND(u.flag(lambda m: NOT(m.intra.b)), l.flag(lambda m: NOT(m.intra.b)))
    sd = n(samedir(r(u, 0), r(l, 0)))
    ub, lb = EQ(r(u, 0), const(BWD)), EQ(r(l, 0), const(BWD))
    eq = OR(AND(ub, lb), AND(NOT(ub), NOT(lb)))
    first = cases((AND(NOT(uc), NOT(lc)), add(ONE, times(2, sd))),
                  (NOT(uc), cases((NOT(lu), 1), add(const(3), sd))),
                  (NOT(lc), cases((NOT(uu), 1), add(const(3), sd))),
                  (AND(NOT(uu), NOT(lu)), 0), (OR(NOT(uu), NOT(lu)), 2), add(const(3), n(eq)))
    second = cases((uc, add(ONE, times(2, uu))), (lc, add(ONE, times(2, lu))), 2)
    third = cases((uc, times(4, uu)), (lc, times(4, lu)), 2)
    return [cases((inter2, first), (AND(u.avail, l.avail), second), third)]


el("encode_comp_ref_type", "v frame mi_row mi_col", lambda A: A.v.n, "comp_ref_type", comp_ref_type_ctx, neigh=True, ranges={"v": (0, 1)})


def group_idx(A):
    s = ZERO
    for x in (A.up, A.lf):
        s = add(s, x.num(lambda m: cases((NOT(m.single.b), m.comp_group_idx.n), (EQ(m.ref_frame[0].n, const(ALT)), 3), 0)))
    return [tmin(s, const(5))]


el("encode_comp_group_idx", "v frame mi_row mi_col", lambda A: A.v.n, "comp_group_idx", group_idx, neigh=True, ranges={"v": (0, 1)})


def compound_idx(bits, enable, r0, r1):
    def f(A):
        def dist(k):
            if not enable:
                return ZERO
            d = sub(A.hints[k].n, A.hint.n)
            h = 1 << (bits - 1)
            # distance modulo 2^bits, taken to the nearest signed value
            if bits > 4:
                return tabs(sub(mod_const(d, bits - 1), mul(const(h), mod_const(shr_const(d, bits - 1), 1))))
            m = ite(LT(d, const(-h)), add(d, const(2 * h)), ite(GE(d, const(h)), sub(d, const(2 * h)), d))
            return tabs(m)
        s = cases((EQ(dist(r0), dist(r1)), 3), 0)
        for x in (A.up, A.lf):
            s = add(s, x.num(lambda m: cases((NOT(m.single.b), m.compound_idx.n), (EQ(m.ref_frame[0].n, const(ALT)), 1), 0)))
        return [s]
    return f


def filt(dir_):
    def f(A):
        cur = A.mi(*A.pos).m
        c = times(4, add(const((dir_ & 1) * 2), n(GT(cur.ref_frame[1].n, ZERO))))

        def ty(x):
            return x.num(lambda m: cases((OR(EQ(m.ref_frame[0].n, cur.ref_frame[0].n), EQ(m.ref_frame[1].n, cur.ref_frame[0].n)), m.interp_filter[dir_].n), 3), 3)
        l, u = ty(A.lf), ty(A.up)
        return [add(c, cases((EQ(l, u), l), (EQ(l, const(3)), u), (EQ(u, const(3)), l), 3))]
    return f


for d_ in (0, 1):
    el("encode_interp_filter", "v frame mi_row mi_col dir", lambda A: A.v.n, "interp_filter", filt(d_), neigh=True, ranges={"v.#": (0, 2), "dir": (d_, d_)},
       cur=True, tag=" in direction %d" % d_)


def elements(ctx):
    for fn, names, sym, table, idx, kw in E:
        poss = POSITIONS if kw.get("neigh") else [None]
        for pos in poss:
            nm = fn[7:] + kw.get("tag", "") + (" at unit %d,%d" % pos if pos else "")

            def f():
                one_element(ctx, nm, fn, names, sym, table, idx, kw, pos)
            ctx.ob(nm, f)


def one_element(ctx, nm, fn, names, sym, table, idx, kw, pos):
    rg = dict(kw.get("ranges") or {})
    if kw.get("cur"):
        rg["frame.mis[%d][%d].#" % pos] = (1, 1)
    r, s, a = run_element(ctx, fn, names, pos, rg, veclen=kw.get("veclen"))
    g = kw["pre"](a) if "pre" in kw else TRUE
    if callable(table):
        want = None
        for t, ix, c in reversed(table(a)):
            x = table_id_term(t, ix)
            want = x if want is None else ite(c, x, want)
    else:
        want = table_id_term(table, idx(a))
    check_element(ctx, nm, r, s, a, names, table, sym(a), want, g)


def compound_idx_elements(ctx):
    names = ["self", "out", "cdf", "v", "hints", "hint", "refs", "frame", "mi_row", "mi_col", "enable", "bits"]
    pairs = [(LAST, ALT), (LAST2, GOLD), (BWD, ALT2)] if not ctx.thorough else [(a, b) for a in range(1, 8) for b in range(1, 8)]
    for pos in POSITIONS:
        for bits in ((1, 3, 7) if not ctx.thorough else range(1, 9)):
            for en in (0, 1):
                for a, b in pairs:
                    nm = "compound_idx of references %d,%d with %s order hints of %d bits at unit %d,%d" % (a, b, "used" if en else "unused", bits, pos[0], pos[1])

                    def f():
                        top = (1 << bits) - 1
                        r, s, A = run_element(ctx, "encode_compound_idx", names, pos,
                                              {"v": (0, 1), "hints": (0, top), "hint": (0, top), "enable": (en, en), "bits": (bits, bits),
                                               "refs[0].#": (a + 1, a + 1), "refs[1].#": (b + 1, b + 1)}, veclen={"hints": (8, 8)})
                        check_element(ctx, nm, r, s, A, names, None, A.v.n, table_id_term("compound_idx", compound_idx(bits, en, a, b)(A)))
                    ctx.ob(nm, f)


def drl(ctx):
    names = ["self", "out", "cdf", "v", "idx", "stack"]
    for k in range(4):
        def f():
            r, s, A = run_element(ctx, "encode_drl_mode", names, None, {"v": (0, 1), "idx": (k, k), "stack": (0, 2)}, veclen={"stack": (4, 4)})
            check_element(ctx, "drl_mode %d" % k, r, s, A, names, None, A.v.n, table_id_term("drl_mode", [A.stack[k].n]))
        ctx.ob("drl_mode %d" % k, f)


def txfm_split(ctx):
    names = ["self", "out", "cdf", "row", "col", "mi_row", "mi_col", "frame", "tx_size", "mi_size", "v"]
    MSIZE = [4, 8, 16, 32, 64]
    blocks = range(22)
    spots = [(0, 0, 0, 0), (0, 2, 0, 2), (2, 0, 2, 0), (1, 1, 1, 1), (2, 3, 2, 1), (3, 1, 2, 1), (2, 2, 1, 1)]
    for bs in blocks:
        big = min(64, max(BW[bs], BH[bs]))
        mx = MSIZE.index(big)
        if mx == 0:
            continue
        for (row, col, mr, mc) in (spots if ctx.thorough else [spots[0], spots[1], spots[2], spots[3], spots[6]] if bs in (3, 9, 17) else [spots[3], spots[6]]):
            nm = "txfm_split in a %dx%d block at unit %d,%d of block %d,%d" % (BW[bs], BH[bs], row, col, mr, mc)

            def f():
                fixed = {"row": row, "col": col}
                rg = {"v": (0, 1), "mi_size": (0, 21), "tx_size.#": (1, 18), "arg_mi_size.#": (bs, bs), "arg_tx.#": (1, 18)}
                nn = ["arg_mi_size" if x == "mi_size" else "arg_tx" if x == "tx_size" else x for x in names]
                rg["tx_size.#"] = (0, 18)
                if row != mr:
                    rg["frame.mis[%d][%d].#" % (row - 1, col)] = (1, 1)
                if col != mc:
                    rg["frame.mis[%d][%d].#" % (row, col - 1)] = (1, 1)
                r, s, A = run_element(ctx, "encode_txfm_split", nn, (mr, mc), rg, fixed=fixed)
                A.pos = (row, col)
                tx = A.arg_tx.n
                fit = AND(LE(tab(TW, tx), const(BW[bs])), LE(tab(TH, tx), const(BH[bs])))
                up = lambda m: tab(TW, m.tx_size.n)
                lf = lambda m: tab(TH, m.tx_size.n)
                if row == mr:
                    aw = A.up.num(lambda m: ite(AND(m.skip.b, m.is_inter.b), tab(BW, m.mi_size.n), up(m)), 64)
                else:
                    aw = up(A.up.m)
                if col == mc:
                    lh = A.lf.num(lambda m: ite(AND(m.skip.b, m.is_inter.b), tab(BH, m.mi_size.n), lf(m)), 64)
                else:
                    lh = lf(A.lf.m)
                c = tsum(times(3, NE(tab(TXSQUP, tx), const(mx))), const((4 - mx) * 6), LT(aw, tab(TW, tx)), LT(lh, tab(TH, tx)))
                check_element(ctx, nm, r, s, A, nn, None, A.v.n, table_id_term("txfm_split", [c]), fit)
            ctx.ob(nm, f)


# ---------------------------------------------------------------- forced splits at the frame edge
def forced(ctx):
    names = ["self", "out", "cdf", "bsize", "above", "left", "v"]
    parts = {"encode_split_or_horz": ((2, 3, 4, 6, 7), 9), "encode_split_or_vert": ((1, 3, 4, 5, 6), 8)}
    for fn, (ps, p4) in parts.items():
        for b in SQUARE[1:]:
            for up in (0, 1):
                for lf in (0, 1):
                    nm = "%s of a %d block with neighbours %d,%d" % (fn[7:], BW[b], up, lf)

                    def f():
                        nn = 8 if b == B128 else 10
                        field = "partition_w%d" % BW[b]
                        k = lf * 2 + up
                        r, s, A = run_element(ctx, fn, names, None, {"bsize.#": (b, b), "above": (up, up), "left": (lf, lf), "v": (0, 1), field: (0, 32768)})
                        G = r.g
                        tabl = getattr(A.cdf, field)[k]
                        val = lambda j: tabl[j].n
                        # table entries rise
                        pre = TRUE
                        psum = ZERO
                        for p in list(ps) + ([p4] if b != B128 else []):
                            psum = add(psum, sub(val(p), val(p - 1)))
                        want = [sub(const(32768), psum), const(32768), ZERO]
                        r.returns(nm + ":completes", nm, TRUE)
                        got = []
                        for g, sym, ref, st, site, o in s.got:
                            vs = r.I.force(r.I.deref_read(st, ref))
                            if not isinstance(vs, Agg):
                                raise Giveup("table %r" % (vs,))
                            got.append((g, sym, [T._as_int(r.I.need_term(x)) for x in vs.f], site))
                        ctx.same_list(nm + ":symbol", [(g, y, t) for g, y, _, t in got], [(TRUE, A.v.n, "the coded value")], G, r.where, nm + ", symbol")
                        for g, _, vs, t in got:
                            if len(vs) != 3:
                                ctx.violate(nm + ":table", r.where, nm + ": the table is not that of a two-valued symbol")
                                break
                            for j in range(3):
                                ctx.same("%s:entry %d" % (nm, j), vs[j], want[j], g, r.where, "%s, entry %d of the derived table" % (nm, j))
                        ctx.never(nm + ":raw bits", OR_ALL([g for g, _, _ in r.bits(1)]), r.where, nm + ": writes bits besides the symbol")
                        ctx.count("syntax elements")
                    ctx.ob(nm, f)


def C11(ctx):
    ctx.rule("element", "each block-level element function hands exactly one symbol, its value, to the symbol coder with the table and context index the format defines")
    elements(ctx)
    compound_idx_elements(ctx)
    drl(ctx)
    txfm_split(ctx)
    forced(ctx)


RULES = {"C11": C11}
