"""Tile groups: which tiles a group announces, how each tile's data is delimited, and what follows the last tile."""
from .core import *
from .wire import *
from . import models
from .rules_header import Payload, obu_fixed
from .rules_tile import method

SIZES = (2, 1, 3, 5, 2, 4)                                      # bytes of the tiles, in order of coding


def log2(n):
    return max(0, (n - 1).bit_length())


def group(ctx, cols, rows, flag, start, end, tsb, sizes=SIZES):
    n = cols * rows
    nm = "%s of a frame with %dx%d tiles, %d byte tile sizes" % ("tiles %d to %d" % (start, end) if flag and n > 1 else "all tiles", cols, rows, tsb)
    enc = method(ctx, "TileEncoder", "encode_tile")
    tile = []
    data = []

    def hook(I, st, fi, args, dty):
        tys = I.p.inst[fi]["body"]["locals"]
        k = len(tile)
        bits = [leaf("tile data %d.%d" % (k, j), 0, 1) for j in range(8 * sizes[k % len(sizes)])]
        S = Nav(I, st, args[0], tys[1])
        num = [T._as_int(I.need_term(args[j])) for j in range(len(args)) if I.p.tys[tys[j + 1]]["k"] == "int"]
        tile.append((st.g, S.ectx.tile_num.n, "tile coded"))
        if num:
            tile.append((st.g, num[0], "tile coded"))
        else:
            tile.append(tile[-1])
        for b in bits:
            models.push(I, st, args[-1], b)
        return [(UNIT, st)]
    rg = {"obu.#": obu_fixed("OBU_TILE_GROUP")(ctx.p), "tg_start": (start, start), "tg_end": (end, end), "tile_size_bytes": (tsb, tsb)}
    vl = {"tile_col_starts": (cols, cols), "tile_row_starts": (rows, rows), "tile_groups": (flag, flag)}
    r = Run(ctx, "encode_obu_payload", ["self", "obu", newvec], TRUE, ranges=rg, veclen=vl, hooks={ctx.p.inst[enc]["n"]: hook})
    r.returns(nm + ":returns", nm, TRUE)
    W = Wire()
    a, z = 0, n - 1
    if n > 1:
        W.f(1, const(1 if flag else 0), "tile_start_and_end_present_flag")
        if flag:
            a, z = start, end
            W.f(log2(cols) + log2(rows), const(a), "tg_start")
            W.f(log2(cols) + log2(rows), const(z), "tg_end")
    while len(W.items) % 8:
        W.f(1, ZERO, "alignment")
    want = []
    for j, t in enumerate(range(a, z + 1)):
        size = sizes[2 * j % len(sizes)]
        want += [(TRUE, const(t), "tile %d" % t)] * 2
        if t != z:
            for k in range(tsb):
                W.f(8, const(((size - 1) >> (8 * k)) & 255), "byte %d of the size of tile %d" % (k, t))
        for k in range(8 * size):
            W.items.append((TRUE, leaf("tile data %d.%d" % (2 * j, k), 0, 1), "bit %d of tile %d" % (k, t)))
    ctx.same_list(nm + ":tiles", tile, want, TRUE, r.where, "%s: tiles coded, in order" % nm)
    ctx.same_list(nm, r.bits(2), W.items, r.g, r.where, nm)
    body = ctx.p.inst[r.i]["body"]
    E = Nav(r.I, r.out, r.args[0], body["locals"][1]).ectx
    before = Nav(r.I, State({}, TRUE), r.I.lazy(body["locals"][1], "self"), body["locals"][1]).ectx
    ctx.same(nm + ":state", E.seen_frame_header.n, ZERO if z == n - 1 else before.seen_frame_header.n, r.g, r.where,
             "%s: whether a frame header is still open after the group" % nm)
    ctx.count("tile groups")
    ctx.count("tiles", z - a + 1)


def c27(ctx):
    ctx.rule("tile group", "presence flag, first and last tile in as many bits as the tile counts need, alignment, then every tile of the group in order with its size before all but the last; "
             "the frame is over after its last tile")
    cases = [(1, 1, 0, 0, 0, 1), (1, 1, 1, 0, 0, 4), (2, 1, 0, 0, 0, 1), (1, 2, 1, 1, 1, 2), (2, 2, 1, 0, 1, 4), (2, 2, 1, 2, 3, 3), (3, 2, 0, 5, 5, 2), (3, 2, 1, 1, 4, 1), (3, 2, 1, 2, 5, 1),
             (4, 3, 1, 3, 3, 4), (5, 4, 1, 17, 19, 2), (1, 5, 1, 0, 4, 3)]
    if ctx.thorough:
        cases += [(c, r, f, s, e, b) for c in (1, 2, 3, 4) for r in (1, 2, 3) for f in (0, 1) for s in range(c * r) for e in range(s, c * r) for b in (1, 2, 3, 4) if f or (s, e) == (0, 0)]
    for c in dict.fromkeys(cases):
        ctx.ob("group %s" % (c,), group, ctx, *c)
    many = (1, 1, 2)
    for c in ((8, 8, 0, 0, 0, 1), (16, 9, 1, 30, 140, 2), (64, 64, 1, 4094, 4095, 4), (64, 64, 1, 0, 2, 1), (33, 64, 1, 2110, 2111, 1), (64, 17, 1, 1023, 1025, 3)):
        ctx.ob("many tiles %s" % (c,), group, ctx, *c, many)
    enc = ctx.p.inst[method(ctx, "TileEncoder", "encode_tile")]["n"]
    far = [k for k in ctx.near(["encode_obu_payload"], (), 4095, (enc,)) if k > 140]
    while far:
        z = 1
        while z < len(far) and far[z] - far[0] < 12:
            z += 1
        ctx.ob("tiles from %d" % far[0], group, ctx, 64, 64, 1, far[0], far[z - 1], 1, many)
        far = far[z:]
    for b in (2, 3):
        ctx.ob("large tiles", group, ctx, 2, 1, 0, 0, 0, b, (300, 1, 258))


RULES = {"C27": c27}
