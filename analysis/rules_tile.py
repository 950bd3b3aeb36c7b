"""Tile level: superblock walk, partitioning, block mode information, loop restoration units and motion vectors.

The functions that code one syntax element (checked by C11/C12) are taken as units here: a call appends its kind and
arguments to the output it is given, so the output of a tile level function is the sequence of its syntax elements."""
import re
from .core import *
from .wire import *
from .rules_syntax import BW, BH, tab

KIND = {}
SQ = {4: 0, 8: 3, 16: 6, 32: 9, 64: 12, 128: 15}
SUB = {}
NONE_, HORZ, VERT, SPLIT, HORZ_A, HORZ_B, VERT_A, VERT_B, HORZ_4, VERT_4 = range(10)


def bsize(w, h):
    return [k for k in range(22) if (BW[k], BH[k]) == (w, h)][0]


def kind(name):
    return KIND.setdefault(name, (1 << 50) + len(KIND))


def method(ctx, owner, name):
    pat = re.compile(r"(^|::)%s(::<[^>]*>)?::%s$" % (owner, name))
    c = [i for i, x in enumerate(ctx.p.inst) if x["local"] and pat.search(x["n"])]
    if not c:
        raise Missing("%s::%s" % (owner, name))
    return c[0]


def scalar(I, st, v, ty):
    """a number, flag or field-less enum as a term; None for anything else"""
    t = I.p.tys[ty]
    if t["k"] in ("int", "bool", "char") or t["k"] == "adt" and t["ak"] == "enum" and t["v"] and not any(x["f"] for x in t["v"]):
        return Nav(I, st, v, ty).n
    return None


def unit(name, first=2):
    """record a call as one unit: kind, then its scalar arguments"""
    def h(I, st, fi, args, dty):
        tys = I.p.inst[fi]["body"]["locals"]
        site = tuple(I.site())
        models.push(I, st, args[1], const(kind(name)), site)
        for k in range(first, len(args)):
            x = scalar(I, st, args[k], tys[k + 1])
            if x is not None:
                models.push(I, st, args[1], x, site)
        return [(UNIT, st)]
    return h


def push_if(I, st, ref, cond, val, site):
    old = I.deref_read(st, ref)
    old = old.norm() if isinstance(old, DqV) else old
    if not isinstance(old, SeqV) or old.len_ is not None:
        raise Giveup("push onto %r" % (old,))
    I.deref_write(st, ref, SeqV(old.items + ((cond, val, site),), None, False))


def literal(I, st, fi, args, dty):
    """a literal is as many equiprobable bits, however it is split"""
    site = tuple(I.site())
    x, n = T._as_int(I.need_term(args[2])), T._as_int(I.need_term(args[3]))
    if is_const(n):
        for k in range(n.c - 1, -1, -1):
            models.push(I, st, args[1], const(kind("bit")), site)
            models.push(I, st, args[1], mod_const(shr_const(x, k), 1), site)
        return [(UNIT, st)]
    hi = T.rng(n)[1]
    if hi > 16:
        raise Giveup("width of a literal")
    for k in range(hi - 1, -1, -1):
        c = GT(n, const(k))
        push_if(I, st, args[1], c, const(kind("bit")), site)
        push_if(I, st, args[1], c, mod_const(shr_const(x, k), 1), site)
    return [(UNIT, st)]


def raw_symbol(I, st, fi, args, dty):
    raise Giveup("a symbol is coded outside the syntax element functions")


def unit_hooks(ctx):
    out = {}
    for i, x in enumerate(ctx.p.inst):
        m = re.search(r"(^|::)BoolCoder::(encode_\w+)$", x["n"])
        if m and x["local"]:
            n = m.group(2)
            if n in ("encode_symbol", "encode_symbolp", "encode_bool"):
                out[x["n"]] = raw_symbol
            elif n == "encode_literal":
                out[x["n"]] = literal
            else:
                out[x["n"]] = unit(n)
    if not out:
        raise Missing("syntax element functions")
    return out


class Units(Wire):
    """expected units"""

    def el(self, name, *xs):
        g = self.cur()
        if g is FALSE:
            return
        self.items.append((g, const(kind(name)), name))
        for n, x in enumerate(xs):
            x = const(x) if isinstance(x, int) else b2i(x) if isbool(x) else T._as_int(x)
            self.items.append((g, x, "%s, argument %d" % (name, n + 1)))


    def lit(self, x, n, what="literal", mx=8):
        x, n = T._as_int(x), const(n) if isinstance(n, int) else T._as_int(n)
        for k in range((n.c if is_const(n) else mx) - 1, -1, -1):
            with self.when(GT(n, const(k))):
                g = self.cur()
                if g is not FALSE:
                    self.items.append((g, const(kind("bit")), what + ", one more bit"))
                    self.items.append((g, mod_const(shr_const(x, k), 1), what + ", bit %d" % k))


def field_index(p, ty, name):
    t = p.tys[ty]
    while t["k"] in ("ref", "ptr") or t["k"] == "adt" and t["n"] in ("alloc::rc::Rc", "alloc::rcs::rc::Rc", "core::cell::RefCell"):
        ty = t["e"] if t["k"] in ("ref", "ptr") else t["args"][0]
        t = p.tys[ty]
    for i, f in enumerate(t["v"][0]["f"]):
        if f[0] == name:
            return i, f[1]
    raise Missing("field " + name)


def with_fields(I, v, ty, **kw):
    """a structure with some fields replaced"""
    v = I.force(v)
    f = list(v.f)
    for k, x in kw.items():
        f[field_index(I.p, ty, k)[0]] = x
    return Agg(f)


def vec(*xs):
    return SeqV([(TRUE, const(x) if isinstance(x, int) else x, None) for x in xs], None, True)


def new_frame(ctx, I, st, w, h):
    """the frame record the program makes for this size"""
    i = ctx.fn("Frame::new")
    body = ctx.p.inst[i]["body"]

    def elem(I, st, fi, args, dty):
        t = I.p.tys[dty]
        e = I.p.tys[t["args"][0]]
        if e["k"] == "int" and e["b"] == 16:
            return [(Opaque("samples"), st)]
        return NotImplemented
    I.bigvec = 20000
    old = I.hooks
    I.hooks = {"ext:from_elem": elem}
    r, s = I.call_fn(st, i, [I.lazy(body["locals"][1], "frame_type"), const(w), const(h)])
    I.hooks = old
    if s is None:
        raise Giveup("no frame of this size")
    return r, s, body["locals"][0]


# ---------------------------------------------------------------- superblock walk
TILES = [  # frame size, tile boundaries in 4x4 units (rows, columns), superblock 128
    (64, 64, (0, 16), (0, 16), 0),
    (176, 144, (0, 36), (0, 44), 0),
    (176, 144, (0, 36), (0, 44), 1),
    (200, 136, (0, 34), (0, 32, 50), 1),
    (200, 264, (0, 16, 48, 66), (0, 32, 50), 0),
    (130, 258, (0, 32, 66), (0, 16, 32, 34), 0),
    (8, 8, (0, 2), (0, 2), 1),
]
TILES_T = [(72, 520, (0, 32, 64, 96, 130), (0, 18), 1), (516, 68, (0, 18), (0, 16, 64, 96, 130), 0), (392, 392, (0, 64, 98), (0, 32, 98), 1), (264, 72, (0, 18), (0, 16, 32, 48, 66), 0)]


def far_tiles(ctx):
    """tiles far from the origin and around every constant of the code, as (configuration, tile): rows and columns one superblock long"""
    out = [((4608, 32, (0, 8), (0, 1120, 1152), 0), 0), ((32, 4608, (0, 1120, 1152), (0, 8), 0), 0), ((65536, 8, (0, 2), (0, 15360, 16384), 1), 1),
           ((8, 65536, (0, 15360, 16384), (0, 2), 1), 1)]
    at = [k for k in ctx.near(["encode_tile"], (), 16384, ("encode_lr", "encode_partition", "init_encoder", "exit_encoder")) if k > 1120 or (ctx.thorough and k > 64)]
    for k in sorted({k // 16 for k in at}):
        a = max(0, k - 1) * 16
        b = min(16384, a + 64)
        for big in (0, 1) if ctx.thorough else (0,):
            if a % (32 if big else 16) == 0:
                out += [((4 * b, 8, (0, 2), (0, a, b), big), 1), ((8, 4 * b, (0, a, b), (0, 2), big), 1)]
    return out


def walk(ctx, cfg, tile):
    w, h, rows, cols, big = cfg
    nm = "tile %d of a %dx%d frame with %dx%d tiles, %d superblocks" % (tile, w, h, len(cols) - 1, len(rows) - 1, 128 if big else 64)
    seen = []
    i = method(ctx, "TileEncoder", "encode_tile")
    names = {ctx.p.inst[method(ctx, "TileEncoder", n)]["n"]: n for n in ("encode_lr", "encode_partition")}
    coder = {ctx.p.inst[method(ctx, "BoolCoder", n)]["n"]: n for n in ("init_encoder", "exit_encoder")}

    def hook(n):
        def f(I, st, fi, args, dty):
            if n in ("init_encoder", "exit_encoder"):
                seen.append((n, None, None, None, None, None, None, st.g))
                if n == "exit_encoder":
                    models.push(I, st, args[1], const(kind(n)), tuple(I.site()))
                return [(UNIT, st)]
            tys = I.p.inst[fi]["body"]["locals"]
            if n == "encode_partition":
                k = [j for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "ref" and "PartitionTree" in str(I.p.tys[I.p.tys[tys[j + 1]]["e"]].get("n"))]
                size = Nav(I, st, args[k[0]], tys[k[0] + 1]).bsize.n
                rc = [T._as_int(I.need_term(args[j])) for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "int"]
            else:
                size = Nav(I, st, args[5], tys[6]).n
                rc = [T._as_int(I.need_term(args[j])) for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "int"]
            S = Nav(I, st, args[0], tys[1])
            fr = [j for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "ref" and str(I.p.tys[I.p.tys[tys[j + 1]]["e"]].get("n")).endswith("::Frame")][0]
            seen.append((n, rc[0], rc[1], size, S, S.ectx, Nav(I, st.fork(st.g), args[fr], tys[fr + 1]), st.g))
            return [(UNIT, st)]
        return f

    def frame(I, st):
        v, s, ty = new_frame(ctx, I, st, w, h)
        st.mem, st.g = s.mem, s.g
        qi, qty = field_index(ctx.p, ty, "quantization_params")
        di, dty = field_index(ctx.p, ty, "delta_q_params")
        v = with_fields(I, v, ty, tile_col_starts=vec(*cols[:-1]), tile_row_starts=vec(*rows[:-1]), quantization_params=I.lazy(qty, "frame.quantization_params"),
                        delta_q_params=I.lazy(dty, "frame.delta_q_params"))
        return RefV([(TRUE, I.alloc(st, v))])
    rg = {"tile_num": (tile, tile), "use_128x128_superblock": (big, big), "num_planes": (1, 3), "base_q_idx": (0, 255)}
    vl = {"mi_row_starts": (len(rows), len(rows)), "mi_col_starts": (len(cols), len(cols))}
    rg.update({"self.ectx.mi_row_starts[%d]" % k: (x, x) for k, x in enumerate(rows)})
    rg.update({"self.ectx.mi_col_starts[%d]" % k: (x, x) for k, x in enumerate(cols)})
    r = Run(ctx, "encode_tile", ["self", frame, const(tile), newvec], TRUE, i=i, ranges=rg, veclen=vl,
            hooks=dict(unit_hooks(ctx), **{k: hook(v) for k, v in dict(names, **coder).items()}))
    r.returns(nm + ":returns", nm, TRUE)
    ctx.same_list(nm + ":coder", [(s[7], const(kind(s[0])), s[0]) for k, s in enumerate(seen) if s[1] is None or k in (0, len(seen) - 1)], [(TRUE, const(kind("init_encoder")), "the coder is started before anything is coded"),
                  (TRUE, const(kind("exit_encoder")), "the coder is finished after everything is coded")], TRUE, r.where, nm + ": start and end of the arithmetic coder")
    ctx.same_list(nm + ":output", r.bits(3), [(TRUE, const(kind("exit_encoder")), "the end of the arithmetic coded data")], r.g, r.where, nm + ": data outside the superblocks")
    seen = [s for s in seen if s[1] is not None]
    tr, tc = divmod(tile, len(cols) - 1)
    step = 32 if big else 16
    want = [(y, x) for y in range(rows[tr], rows[tr + 1], step) for x in range(cols[tc], cols[tc + 1], step)]
    a = [(s[7], add(add(mul(s[1], const(1 << 20)), mul(s[2], const(1 << 8))), add(s[3], const(64 if s[0] == "encode_lr" else 0))), "%s at %s" % (s[0][7:], (s[1], s[2]))) for s in seen]
    b = [(TRUE, const((y << 20) + (x << 8) + SQ[128 if big else 64] + k), "the %s of the superblock at row %d, column %d" % ("restoration units" if k else "blocks", y, x))
         for y, x in want for k in (64, 0)]
    ctx.same_list(nm + ":order", a, b, TRUE, r.where, "%s, superblocks in raster order (row, column, size)" % nm)
    first = True
    for n, y, x, size, S, E, F, g in seen:
        if not (is_const(y) and is_const(x)) or n != "encode_partition":
            continue
        ctx.same(nm + ":deltas", E.read_deltas.n, F.delta_q_params.delta_q_present.n, g, r.where, "%s: whether the superblock carries deltas" % nm)
        for yy in range(y.c, min(y.c + step, rows[-1]), 16):
            for xx in range(x.c, min(x.c + step, cols[-1]), 16):
                ctx.same("%s:cdef" % nm, F.cdef_idx[yy][xx].n, const(-1), g, r.where, "%s: CDEF index of the area at %d, %d before its first block" % (nm, yy, xx))
        ctx.same(nm + ":bounds", add(mul(S.mi_row_start.n, const(1 << 20)), S.mi_row_end.n), const((rows[tr] << 20) + rows[tr + 1]), g, r.where, nm + ": tile rows")
        ctx.same(nm + ":bounds", add(mul(S.mi_col_start.n, const(1 << 20)), S.mi_col_end.n), const((cols[tc] << 20) + cols[tc + 1]), g, r.where, nm + ": tile columns")
        if first:
            first = False
            ctx.same(nm + ":quantizer", E.current_q_index.n, F.quantization_params.base_q_idx.n, g, r.where, nm + ": quantizer at the start of the tile")
            for k in range(4):
                ctx.same(nm + ":delta_lf", E.delta_lf[k].n, ZERO, g, r.where, nm + ": loop filter delta at the start of the tile")
            for p in range(3):
                gp = AND(g, GT(E.num_planes.n, const(p)))
                for k in range(2):
                    ctx.same(nm + ":sgr", E.ref_sgr_xqd[p][k].n, const((-32, 31)[k]), gp, r.where, nm + ": self guided filter reference at the start of the tile")
                    for c in range(3):
                        ctx.same(nm + ":wiener", E.ref_lr_wiener[p][k][c].n, const((3, -7, 15)[c]), gp, r.where, nm + ": Wiener filter reference at the start of the tile")
    ctx.count("superblocks", len(want))


# ---------------------------------------------------------------- partitions
def subsize(p, s):
    """size of the blocks of partition p of a square block of s samples"""
    return {NONE_: (s, s), HORZ: (s, s // 2), VERT: (s // 2, s), SPLIT: (s // 2, s // 2), HORZ_A: (s, s // 2), HORZ_B: (s, s // 2), VERT_A: (s // 2, s), VERT_B: (s // 2, s),
            HORZ_4: (s, s // 4), VERT_4: (s // 4, s)}[p]


def allowed(s):
    if s == 4:
        return [NONE_]
    if s == 8:
        return [NONE_, HORZ, VERT, SPLIT]
    return [p for p in range(10) if s < 128 or p < HORZ_4]


def layout_of(p, s, r, c, rows, cols):
    """blocks of the partition in coding order: (is a further partitioned block, row, column, size)"""
    h, q = s // 8, s // 16
    sub = bsize(*subsize(p, s))
    sp = bsize(s // 2, s // 2) if s > 4 else None
    b = lambda y, x, z: ("block", y, x, z)
    if p == NONE_:
        return [b(r, c, sub)]
    if p == HORZ:
        return [b(r, c, sub)] + ([b(r + h, c, sub)] if r + h < rows else [])
    if p == VERT:
        return [b(r, c, sub)] + ([b(r, c + h, sub)] if c + h < cols else [])
    if p == SPLIT:
        return [("split", y, x, sp) for y in (r, r + h) for x in (c, c + h)]
    if p == HORZ_A:
        return [b(r, c, sp), b(r, c + h, sp), b(r + h, c, sub)]
    if p == HORZ_B:
        return [b(r, c, sub), b(r + h, c, sp), b(r + h, c + h, sp)]
    if p == VERT_A:
        return [b(r, c, sp), b(r + h, c, sp), b(r, c + h, sub)]
    if p == VERT_B:
        return [b(r, c, sub), b(r, c + h, sp), b(r + h, c + h, sp)]
    if p == HORZ_4:
        return [b(r + q * k, c, sub) for k in range(4) if k < 3 or r + q * 3 < rows]
    return [b(r, c + q * k, sub) for k in range(4) if k < 3 or c + q * 3 < cols]


PNAME = ["NONE", "HORZ", "VERT", "SPLIT", "HORZ_A", "HORZ_B", "VERT_A", "VERT_B", "HORZ_4", "VERT_4"]


def args_of(I, fi, args, typ):
    tys = I.p.inst[fi]["body"]["locals"]
    out = []
    for k in range(len(args)):
        t = I.p.tys[tys[k + 1]]
        e = I.p.tys[t["e"]] if t["k"] == "ref" else t
        if typ == "int" and t["k"] == "int" or str(e.get("n")).split("::")[-1] == typ:
            out.append((args[k], tys[k + 1]))
    if not out:
        raise Giveup("arguments of " + I.p.inst[fi]["n"])
    return out


def konst(t):
    t = T._as_int(t)
    if not is_const(t):
        raise Giveup("value is not the same for every input: %r" % (t,))
    return t.c


def partition(ctx, s, r, c, rows, cols, top, lft):
    nm = "%dx%d block at %d, %d of a frame of %d x %d units%s%s" % (s, s, r, c, rows, cols, ", top of its tile" if top else "", ", left edge of its tile" if lft else "")
    i = method(ctx, "TileEncoder", "encode_partition")
    body = ctx.p.inst[i]["body"]
    log = []
    cnt = [0]
    rec = {}
    hooks = unit_hooks(ctx)
    cname = lambda n: ctx.p.inst[method(ctx, "BoolCoder", n)]["n"]
    bci, bcty = field_index(ctx.p, body["locals"][1], "coder")
    cdi, cdty = field_index(ctx.p, body["locals"][1], "cdf")
    mark = field_index(ctx.p, bcty, "bit_count")[0]

    def step(I, st, coder, cdf, what, out):
        """one unit is coded: log it with the state it finds, and leave a new state"""
        if st.g is not TRUE:
            raise Giveup("a block is coded for some inputs only")
        old = I.force(I.deref_read(st, coder).f[mark])
        oldc = I.force(I.deref_read(st, cdf).f[0])
        v = I.deref_read(st, out)
        v = v.norm() if isinstance(v, DqV) else v
        empty = isinstance(v, SeqV) and not v.items
        cnt[0] += 1
        I.deref_write(st, coder, const(cnt[0]), (("f", mark),))
        I.deref_write(st, cdf, const(cnt[0]), (("f", 0),))
        log.append((empty, what, (konst(old), oldc.c if isinstance(oldc, TERM) and is_const(oldc) else 0), cnt[0]))

    def sym(n, h):
        def f(I, st, fi, args, dty):
            tys = I.p.inst[fi]["body"]["locals"]
            a = [scalar(I, st, args[k], tys[k + 1]) for k in range(3, len(args))]
            step(I, st, args[0], args[2], (n,) + tuple(a), args[1])
            models.push(I, st, args[1], const(kind("v%d" % cnt[0])))
            return [(UNIT, st)]
        return f

    def blk(n):
        def f(I, st, fi, args, dty):
            rc = [konst(I.need_term(v)) for v, _ in args_of(I, fi, args, "int")]
            t, ty = args_of(I, fi, args, "PartitionTree")[0]
            size = konst(Nav(I, st, t, ty).bsize.n)
            out = args_of(I, fi, args, "Vec")[0][0]
            me = args[0]
            coder = I.deref_read(st, me, (("f", bci),))
            ptr = I.force(me).alts[0][1]
            cdf = RefV([(TRUE, Ptr(ptr.obj, ptr.path + (("f", cdi),)))])
            rec[cnt[0] + 1] = [(p_.obj, p_.path) for g_, p_ in I.force(t).alts if AND(st.g, g_) is not FALSE]
            step(I, st, coder, cdf, (n, rc[0], rc[1], size), out)
            I.deref_write(st, t, const(cnt[0]), (("f", field_index(I.p, ty, "q_index")[0]),))
            models.push(I, st, out, const(kind("v%d" % cnt[0])))
            return [(UNIT, st)]
        return f
    for n in ("encode_partition", "encode_split_or_horz", "encode_split_or_vert"):
        hooks[cname(n)] = sym(n, hooks[cname(n)])
    hooks[ctx.p.inst[i]["n"]] = blk("split")
    hooks[ctx.p.inst[method(ctx, "TileEncoder", "encode_block")]["n"]] = blk("block")
    rg = {"frame_height": (rows * 4, rows * 4), "frame_width": (cols * 4, cols * 4), "mis.#": (1, 1), "mi_size.#": (0, 21), "bit_count": (0, 0),
          "self.mi_row_start": (r if top else 0,) * 2, "self.mi_col_start": (c if lft else 0,) * 2, "self.mi_row_end": (rows, rows), "self.mi_col_end": (cols, cols),
          "tree.bsize.#": (SQ[s], SQ[s]), "use_128x128_superblock": (1, 1), "tree.part_type.#": (0, 0)}
    vl = {"frame.mis": (rows, rows), "tree.partitions": (0, 0)}
    vl.update({"frame.mis[%d]" % k: (cols, cols) for k in range(rows)})
    names = []
    ints = [r, c]
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        last = str(e.get("n")).split("::")[-1]
        names.append("self" if k == 0 else const(ints.pop(0)) if t["k"] == "int" else {"Frame": "frame", "Vec": newvec, "PartitionTree": "tree", "Superblock": "sb"}[last])
    R = Run(ctx, "encode_partition", names, TRUE, i=i, ranges=rg, veclen=vl, hooks=hooks, alias={})
    R.returns(nm + ":returns", nm, TRUE)
    if R.out is None:
        return
    inside = r < rows and c < cols
    if not inside:
        if log or R.bits(names.index(newvec)):
            ctx.violate(nm + ":outside", R.where, "%s: lies outside the frame, but something is coded for it" % nm)
        else:
            ctx.passed(nm + ":outside")
        return
    h = s // 8
    hr, hc = r + h < rows, c + h < cols
    cands = []
    for e in log:
        if e[0]:
            cands.append([])
        if not cands:
            raise Giveup("the first block is not coded to an empty list")
        cands[-1].append(e)
    # the contexts: neighbours smaller than this block
    st0 = State({}, TRUE)
    F = Nav(R.I, st0, R.I.lazy(body["locals"][[k for k, x in enumerate(names) if x == "frame"][0] + 1], "frame"), body["locals"][[k for k, x in enumerate(names) if x == "frame"][0] + 1])
    ab = LT(tab(BW, F.mis[r - 1][c].pay().mi_size.n), const(s)) if r > 0 and not top else FALSE
    lf = LT(tab(BH, F.mis[r][c - 1].pay().mi_size.n), const(s)) if c > 0 and not lft else FALSE
    out = [konst(x) for _, x, _ in R.bits(names.index(newvec))]
    chosen = None
    for ev_ in cands:
        ws = [e[1] for e in ev_]
        syms = [w for w in ws if w[0] not in ("block", "split")]
        blocks = [w for w in ws if w[0] in ("block", "split")]
        if s > 4 and (hr or hc):
            if len(syms) != 1 or ws[0] is not syms[0]:
                ctx.violate(nm + ":symbol", R.where, "%s: %d partition symbols for one partition" % (nm, len(syms)))
                return
            w = syms[0]
            v = konst(w[4])
            fn = "encode_partition" if hr and hc else "encode_split_or_horz" if hc else "encode_split_or_vert"
            if w[0] != fn:
                ctx.violate(nm + ":element", R.where, "%s: the partition is coded with %s, the decoder reads %s" % (nm, w[0], fn))
                return
            p = v if fn == "encode_partition" else SPLIT if v else HORZ if hc else VERT
            ctx.same(nm + ":size in the context", w[1], const(SQ[s]), TRUE, R.where, "%s: block size of the partition's table" % nm)
            ctx.same(nm + ":above context", w[2], n_(ab), TRUE, R.where, "%s: above context of the partition" % nm)
            ctx.same(nm + ":left context", w[3], n_(lf), TRUE, R.where, "%s: left context of the partition" % nm)
        else:
            if syms:
                ctx.violate(nm + ":symbol", R.where, "%s: a partition symbol is coded where the decoder reads none" % nm)
                return
            p = NONE_ if s == 4 else SPLIT
        if p not in allowed(s):
            ctx.violate(nm + ":allowed", R.where, "%s: partition %s is tried, which this size does not have" % (nm, PNAME[p] if p < 10 else p))
            return
        want = layout_of(p, s, r, c, rows, cols)
        if blocks != want:
            ctx.violate(nm + ":blocks of " + PNAME[p], R.where, "%s: partition %s codes %s, the decoder reads %s (kind, row, column, size)" % (nm, PNAME[p], blocks, want))
            return
        ctx.passed(nm + ":blocks of " + PNAME[p])
        prev = (0, 0)
        for e in ev_:
            if e[2] != prev:
                ctx.violate(nm + ":state", R.where, "%s: partition %s: %s is coded from the coder state and tables left by something else" % (nm, PNAME[p], e[1]))
                return
            prev = (e[3], e[3])
        ctx.passed(nm + ":state of " + PNAME[p])
        used = [rec[e[3]][0] for e in ev_ if e[1][0] in ("block", "split") and len(rec[e[3]]) == 1]
        used = [u for u in used if u[1] and u[1][-1][0] == "i"]
        if len(set(used)) < len(used):
            ctx.violate(nm + ":records of " + PNAME[p], R.where, "%s: partition %s: two of its blocks are coded from the same record" % (nm, PNAME[p]))
            return
        if out == [kind("v%d" % e[3]) for e in ev_]:
            chosen = (p, ev_)
        ctx.count("partitions")
    if chosen is None:
        ctx.violate(nm + ":output", R.where, "%s: what is output is none of the partitions tried" % nm)
        return
    p, ev_ = chosen
    S = Nav(R.I, R.out, R.args[0], body["locals"][1])
    cv = I_const(R.I, R.I.deref_read(R.out, R.I.deref_read(R.out, R.args[0], (("f", bci),))).f[mark])
    dv = I_const(R.I, R.I.force(R.I.deref_read(R.out, R.args[0], (("f", cdi),))).f[0])
    if (cv, dv) != (ev_[-1][3],) * 2:
        ctx.violate(nm + ":final state", R.where, "%s: coder state and tables after the block are not those of the partition that is output" % nm)
        return
    ctx.passed(nm + ":final state")
    k = [k for k, x in enumerate(names) if x == "tree"][0]
    tree = Nav(R.I, R.out, R.args[k], body["locals"][k + 1])
    ctx.same(nm + ":recorded partition", tree.part_type.n, const(p), TRUE, R.where, nm + ": partition recorded")
    if p != NONE_:
        want = [w[3] for w in layout_of(p, s, r, c, rows, cols)]
        v = tree.partitions
        L = konst(v.length)
        got = [konst(v[j].bsize.n) for j in range(L)]
        if got != want:
            ctx.violate(nm + ":recorded blocks", R.where, "%s: block sizes recorded %s, coded %s" % (nm, got, want))
        else:
            ctx.passed(nm + ":recorded blocks")
        own = [konst(v[j].q_index.n) for j in range(L)]
        made = [e[3] for e in ev_ if e[1][0] in ("block", "split")]
    else:
        own, made = [konst(tree.q_index.n)], [e[3] for e in ev_ if e[1][0] in ("block", "split")]
    if own != made:
        ctx.violate(nm + ":records", R.where, "%s: partition %s: the blocks are not coded each from its own record (records hold what blocks %s left, expected %s)" % (nm, PNAME[p], own, made))
    else:
        ctx.passed(nm + ":records")


def n_(c):
    return b2i(c) if isbool(c) else T._as_int(c)


def I_const(I, v):
    v = I.force(v)
    return v.c if isinstance(v, TERM) and is_const(v) else None


def cases(ctx):
    for s in (4, 8, 16, 32, 64, 128):
        n, h = s // 4, max(s // 8, 1)
        rest = sorted({n, h, n - 2, h + 2} & set(range(2, n + 1, 2))) if s > 8 else [2] if s == 8 else [1]
        for a in rest:
            for b in rest:
                yield s, n, n, n + a + (n + a) % 2, n + b + (n + b) % 2, False, False
        for top in (False, True):
            for lft in (False, True):
                yield s, n, n, 2 * n + n % 2, 2 * n + n % 2, top, lft
        yield s, 0, 0, n + n % 2, n + n % 2, True, True
        yield s, n, n, n + n % 2, 2 * n + n % 2, False, False
        yield s, n, n, 2 * n + n % 2, n + n % 2, False, False


def block_flags(ctx, size):
    nm = "block of %dx%d" % (BW[size], BH[size])
    i = method(ctx, "TileEncoder", "encode_block")
    body = ctx.p.inst[i]["body"]
    seen = []

    def hook(I, st, fi, args, dty):
        seen.append((st.g, Nav(I, st.fork(st.g), args[0], I.p.inst[fi]["body"]["locals"][1])))
        return [(UNIT, st)]
    names = []
    ints = ["r", "c"]
    for k in range(body["argc"]):
        t = ctx.p.tys[body["locals"][k + 1]]
        e = ctx.p.tys[t["e"]] if t["k"] == "ref" else t
        last = str(e.get("n")).split("::")[-1]
        names.append("self" if k == 0 else ints.pop(0) if t["k"] == "int" else {"Frame": "frame", "Vec": newvec, "PartitionTree": "tree", "Superblock": "sb"}[last])
    big = (0, 1 << 14)
    rg = {"tree.bsize.#": (size, size), "r": big, "c": big, "mi_row_start": big, "mi_row_end": big, "mi_col_start": big, "mi_col_end": big, "num_planes": (1, 3)}
    hooks = dict(unit_hooks(ctx))
    hooks[ctx.p.inst[method(ctx, "TileEncoder", "encode_mode_info")]["n"]] = hook
    R = Run(ctx, "encode_block", names, TRUE, i=i, ranges=rg, hooks=hooks)
    R.returns(nm + ":returns", nm, TRUE)
    pre = Nav(R.I, State({}, TRUE), R.args[0], body["locals"][1])
    k = names.index("frame")
    F = Nav(R.I, State({}, TRUE), R.args[k], body["locals"][k + 1])
    r, c = T._as_int(R.I.need_term(R.args[names.index("r")])), T._as_int(R.I.need_term(R.args[names.index("c")]))
    inside = lambda y, x: AND(AND(GE(x, pre.mi_col_start.n), LT(x, pre.mi_col_end.n)), AND(GE(y, pre.mi_row_start.n), LT(y, pre.mi_row_end.n)))
    odd = lambda x: EQ(mod_const(x, 1), ONE)
    thin_h, thin_w = BH[size] == 4, BW[size] == 4
    sx, sy = F.subsampling_x.b, F.subsampling_y.b
    ch = GT(pre.ectx.num_planes.n, ONE)
    if thin_h:
        ch = AND(ch, OR(NOT(sy), odd(r)))
    if thin_w:
        ch = AND(ch, OR(NOT(sx), odd(c)))
    u, l = inside(sub(r, ONE), c), inside(r, sub(c, ONE))
    uc = AND(ch, ite(sy, inside(sub(r, const(2)), c), u) if thin_h else u)
    lc = AND(ch, ite(sx, inside(r, sub(c, const(2))), l) if thin_w else l)
    tot = FALSE
    for g, S in seen:
        tot = OR(tot, g)
        for f, w in (("mi_row", r), ("mi_col", c), ("mi_size", const(size)), ("has_chroma", n_(ch)), ("avail_u", n_(u)), ("avail_l", n_(l)), ("avail_u_chroma", n_(uc)), ("avail_l_chroma", n_(lc))):
            ctx.same("%s:%s" % (nm, f), S[f].n, w, g, R.where, "%s: %s when its mode information is coded" % (nm, f))
    ctx.never(nm + ":coded", AND(R.g, NOT(tot)), R.where, nm + ": its mode information is not coded")


def c23(ctx):
    ctx.rule("superblock walk", "each tile codes exactly its superblocks in raster order, each preceded by its restoration units, from reset deltas and filter references")
    ctx.rule("partitions", "every partition that is tried is one the size has, starts from the state before the block, is announced as the decoder reads it, and its blocks are the "
             "decoder's blocks in order; what is output, recorded and left as state belongs to one of them")
    for cfg in TILES + (TILES_T if ctx.thorough else []):
        for t in range((len(cfg[2]) - 1) * (len(cfg[3]) - 1)):
            ctx.ob("walk %s %d" % (cfg, t), walk, ctx, cfg, t)
    for cfg, t in far_tiles(ctx):
        ctx.ob("walk %s %d" % (cfg, t), walk, ctx, cfg, t)
    ctx.rule("blocks", "position, size, chroma and the availability of neighbours at every block follow from the tile bounds and the subsampling")
    for z in range(22):
        ctx.ob("block size %d" % z, block_flags, ctx, z)
    for k in cases(ctx):
        ctx.ob("partition %s" % (k,), partition, ctx, *k)


RULES = {"C23": c23}
