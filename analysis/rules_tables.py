"""Constant tables, geometry and wire codes: compile-time values compared with the format's definition."""
import json, math, os
from .core import *
from .tables import table, fields, plain
from .terms import Giveup

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")
RULES = {}


def ref(name):
    return json.load(open(os.path.join(REF, name)))


def untuple(v):
    return [untuple(x) for x in v] if isinstance(v, (list, tuple)) else int(v) if isinstance(v, bool) else v


def where(p, name):
    for k, n in p.named.items():
        if k.split("::")[-1] == name:
            return "constant %s%s" % (k, " (%s)" % n["at"] if n.get("at") else "")
    for k in p.statics:
        if k.split("::")[-1] == name:
            return "static " + k
    return "constant " + name


def first_diff(a, b, path=()):
    """(path, got, want) of the first place where two nested lists differ"""
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, path + (i,))
            if d:
                return d
        if len(a) != len(b):
            return path, "%d entries" % len(a), "%d" % len(b)
        return None
    return None if a == b else (path, a, b)


def rows(v, path=()):
    if isinstance(v, list) and v and not isinstance(v[0], list):
        yield path, v
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from rows(x, path + (i,))


def ntab(ctx):
    """all constants and statics by last name"""
    r = {}
    for k in list(ctx.p.named) + list(ctx.p.statics):
        r.setdefault(k.split("::")[-1], []).append(k)
    return r


class Tabs:
    def __init__(self, ctx):
        self.ctx, self.cache = ctx, {}

    def get(self, name, want=None):
        if name not in self.cache:
            v = table(self.ctx.p, name)
            self.cache[name] = None if v is None else untuple(v)
        v = self.cache[name]
        if v is None and want is not None:
            # moved under another name?
            for n in ntab(self.ctx):
                try:
                    w = table(self.ctx.p, n)
                except Exception:
                    continue
                if w is not None and untuple(w) == want:
                    return w
        if v is None:
            raise Missing("constant " + name)
        return v

    def equals(self, name, want, norm=None):
        def f():
            v = self.get(name, want)
            v = norm(v) if norm else v
            d = first_diff(v, want)
            self.ctx.count("table entries", sum(len(r) for _, r in rows(v)) if isinstance(v, list) else 1)
            if d is None:
                self.ctx.passed(name)
            else:
                self.ctx.violate("table:" + name, where(self.ctx.p, name), "%s%s is %s, the format defines %s" % (
                    name, "".join("[%d]" % i for i in d[0]), d[1], d[2]))
        self.ctx.ob(name, f)

    def each(self, name, law, text, key=None):
        """every row of the table obeys the law"""
        def f():
            n = 0
            for path, r in rows(self.get(name)):
                n += 1
                if not law(r):
                    self.ctx.violate("law:%s:%s" % (name, key or text), where(self.ctx.p, name), "row %s%s = %s: %s" % (
                        name, "".join("[%d]" % i for i in path), r, text))
                    return
            self.ctx.count("rows", n)
            self.ctx.passed("%s: %s" % (name, text), n)
        self.ctx.ob(name + ":" + text, f)


# ------------------------------------------------------------------ C07
def c07(ctx):
    ctx.rule("valid", "every row of the initial tables is strictly increasing from above 0, ends at 32768 and has a zero adaptation count")
    ctx.rule("default", "every entry equals the format's default (reference copy in analysis/ref/cdf.json)")
    want = ref("cdf.json")

    def base():
        F = fields(ctx.p, "default_cdf")
        if F is None:
            raise Missing("default_cdf")
        return F
    F = ctx.ob("default_cdf", base)
    if F is None:
        return
    w = where(ctx.p, "default_cdf")
    for k, v in sorted(F.items()):
        v = untuple(v)
        n = 0
        for path, r in rows(v):
            n += 1
            nm = "%s%s" % (k, "".join("[%d]" % i for i in path))
            if len(r) < 3:
                ctx.undec(nm, "row of %d" % len(r))
            elif r[-2] != 32768:
                ctx.violate("cdf:%s" % k, w, "%s ends at %s, not 32768" % (nm, r[-2]))
            elif r[-1] != 0:
                ctx.violate("cdf:%s" % k, w, "%s starts with adaptation count %s" % (nm, r[-1]))
            elif r[0] <= 0 or any(a >= b for a, b in zip(r[:-2], r[1:-1])):
                ctx.violate("cdf:%s" % k, w, "%s is not strictly increasing: a symbol has no probability: %s" % (nm, r))
            else:
                ctx.passed(nm)
            ctx.count("distributions")
        if k in want:
            d = first_diff(v, want[k])
            if d:
                ctx.violate("cdf:%s" % k, w, "%s%s starts as %s, the format's default is %s" % (k, "".join("[%d]" % i for i in d[0]), d[1], d[2]))
            else:
                ctx.passed(k)
                ctx.count("tables")
        else:
            ctx.undec(k, "no reference")
    for k in want:
        if k not in F:
            ctx.undec(k, "not found: field " + k)


RULES["C07"] = c07


# ------------------------------------------------------------------ C08
MASKS = ["obmc_mask_1", "obmc_mask_2", "obmc_mask_4", "obmc_mask_8", "obmc_mask_16", "obmc_mask_32"]
WEDGE = ["wedge_master_oblique_even", "wedge_master_oblique_odd", "wedge_master_vertical"]
PLAINREF = ["dc_q_lookup", "ac_q_lookup", "qunatizer_matrix", "qm_offset", "subpel_filters", "warped_filters", "upscale_filter", "ii_weights_1d",
            "sgr_params", "cdef_direction", "cdef_pri_taps", "cdef_sec_taps", "cdef_uv_dir", "quant_dist_lookup", "quant_dist_weight",
            "wiener_taps_k", "wiener_taps_max", "wiener_taps_mid", "wiener_taps_min", "sgrproj_xqd_max", "sgrproj_xqd_mid", "sgrproj_xqd_min",
            "sgrproj_taps_max", "sgrproj_taps_min", "transform_row_shift"] + MASKS + WEDGE


def mono(r):
    return all(a <= b for a, b in zip(r, r[1:]))


def c08(ctx):
    ctx.rule("law", "laws that follow from the definition: filters have unit gain and mirrored phases, step sizes never shrink, masks are monotone, "
                    "reciprocal and cosine tables are the rounded functions")
    ctx.rule("value", "every entry equals the format's (reference copy in analysis/ref/tables.json)")
    R = ref("tables.json")
    t = Tabs(ctx)
    for n in PLAINREF:
        t.equals(n, R[n])
    t.equals("div_lut", [((1 << 22) + (256 + i) // 2) // (256 + i) for i in range(257)])
    t.equals("cos128_lookup", [int(round(4096 * math.cos(math.pi * i / 128))) for i in range(65)])
    for n in ("subpel_filters", "warped_filters", "upscale_filter"):
        t.each(n, lambda r: sum(r) == 128, "the taps sum to 128")
    for n in ("dc_q_lookup", "ac_q_lookup"):
        t.each(n, lambda r: len(r) == 256 and mono(r) and r[0] >= 4, "256 step sizes that never shrink as the index grows")
    for n in MASKS + WEDGE:
        t.each(n, lambda r: mono(r) and r[-1] == 64 and min(r) >= 0, "weights rise to 64")
    t.each("ii_weights_1d", lambda r: mono(r[::-1]) and max(r) <= 64 and min(r) > 0, "weights fall with distance")
    t.each("qunatizer_matrix", lambda r: len(r) == 3344 and min(r) >= 1 and max(r) <= 255, "weights are bytes and none is zero")

    def mirror(n, group):
        v = t.get(n)
        for i, f in enumerate(v if group else [v]):
            for q in range(1, len(f)):
                if f[q] != f[len(f) - q][::-1]:
                    ctx.violate("law:%s:mirror" % n, where(ctx.p, n), "%s: phases %d and %d of filter %d are not mirror images" % (n, q, len(f) - q, i))
                    return
                ctx.passed("%s[%d][%d] mirrors" % (n, i, q))
    ctx.ob("subpel mirror", mirror, "subpel_filters", True)
    ctx.ob("upscale mirror", mirror, "upscale_filter", False)

    def order():
        for a, b in ((0, 1), (1, 2)):
            for n in ("dc_q_lookup", "ac_q_lookup"):
                v = t.get(n)
                for i in range(256):
                    if not v[a][i] <= v[b][i]:
                        ctx.violate("law:%s:depth" % n, where(ctx.p, n), "step size %d falls with the bit depth" % i)
                        return
        ctx.passed("step sizes grow with bit depth")
    ctx.ob("depth", order)


RULES["C08"] = c08


# ------------------------------------------------------------------ C09
def c09(ctx):
    ctx.rule("geometry", "size tables are computed here from the block and transform names (WxH) and compared entry by entry")
    BW = [4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64]
    BH = [4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16]
    TW = [4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64]
    TH = [4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16]
    lg = lambda x: x.bit_length() - 1
    t = Tabs(ctx)
    inv, N = 22, 22
    blk = {(w, h): i for i, (w, h) in enumerate(zip(BW, BH))}
    tx = {(w, h): i for i, (w, h) in enumerate(zip(TW, TH))}
    t.equals("block_width", BW)
    t.equals("block_height", BH)
    t.equals("mi_width_log2", [lg(w // 4) for w in BW])
    t.equals("mi_height_log2", [lg(h // 4) for h in BH])
    t.equals("num_4x4_blocks_wide", [w // 4 for w in BW])
    t.equals("num_4x4_blocks_high", [h // 4 for h in BH])
    t.equals("size_group", [min(3, lg(min(w, h) // 4)) for w, h in zip(BW, BH)])
    t.equals("tx_width", TW)
    t.equals("tx_height", TH)
    t.equals("tx_width_log2", [lg(w) for w in TW])
    t.equals("tx_height_log2", [lg(h) for h in TH])
    t.equals("tx_size_sqr", [lg(min(w, h)) - 2 for w, h in zip(TW, TH)] + [19])
    t.equals("tx_size_sqr_up", [lg(max(w, h)) - 2 for w, h in zip(TW, TH)] + [19])
    t.equals("adjusted_tx_size", [tx[min(w, 32), min(h, 32)] for w, h in zip(TW, TH)])

    def depth(w, h):
        w, h, d = min(w, 64), min(h, 64), 0
        while w > 4 or h > 4:      # a square splits in four, a rectangle across its longer side
            w, h, d = (w // 2 if w >= h else w), (h // 2 if h >= w else h), d + 1
        return d
    t.equals("max_tx_depth", [depth(w, h) for w, h in zip(BW, BH)])
    R = ref("tables.json")

    def sub(i, sx, sy):
        """halved sides, at least 4; halving only the shorter side of a rectangle gives no block shape"""
        w, h = BW[i], BH[i]
        if sx and not sy and w < h or sy and not sx and h < w:
            return inv
        return blk[max(4, w >> sx), max(4, h >> sy)]
    want = [[[sub(i, 0, 0), sub(i, 0, 1)], [sub(i, 1, 0), sub(i, 1, 1)]] for i in range(N)]
    t.equals("subsampled_size", want)
    P = []
    for kind in range(10):
        row = []
        for w, h in zip(BW, BH):
            s = None
            if w == h:
                s = {0: (w, h), 1: (w, h // 2), 2: (w // 2, h), 3: (w // 2, h // 2), 4: (w, h // 2), 5: (w, h // 2), 6: (w // 2, h), 7: (w // 2, h),
                     8: (w, h // 4), 9: (w // 4, h)}[kind]
                if kind in (8, 9) and w == 128 or kind and w == 4:
                    s = None
            row.append(blk.get(s, inv) if s else inv)
        P.append(row)
    t.equals("partition_subsize", P)

    from .rules_coeff import offset, SIG, BR, M2T, INTRA_SETS, INTER_SETS
    off = []
    for k in range(len(TW)):
        a = [[0] * 5 for _ in range(5)]
        for r in range(5):
            for c in range(5):
                if r < min(TH[k], 32) and c < min(TW[k], 32):
                    a[r][c] = 0 if r == c == 0 else offset(k, r, c)
        off.append(a)
    t.equals("coeff_base_ctx_offset", off)
    t.equals("coeff_base_pos_ctx_offset", [26, 31, 36])
    t.equals("sig_ref_diff_offset", [sorted(list(x) for x in r) for r in SIG], norm=lambda v: [sorted(r) for r in v])
    t.equals("mag_ref_offset_with_tx_class", [sorted(list(x) for x in r) for r in BR], norm=lambda v: [sorted(r) for r in v])
    t.equals("mode_to_txfm", (M2T + [0] * 17)[:17])
    for nm, S in (("tx_type_in_set_intra", INTRA_SETS), ("tx_type_in_set_inter", INTER_SETS)):
        t.equals(nm, [[int(x in S[k]) for x in range(16)] for k in sorted(S)])
    for nm in ("tx_type_inter_inv_set1", "tx_type_inter_inv_set12", "tx_type_inter_inv_set3", "tx_type_intra_inv_set1", "tx_type_intra_inv_set2",
               "tx_mode_to_biggest_tx_size", "filter_intra_mode_to_intra_dir", "intra_mode_context", "palette_color_context", "cfl_alpha_signs",
               "compound_mode_ctx_map", "remap_lr_type", "segmentation_feature_bits", "segmentation_feature_max", "segmentation_feature_signed"):
        t.equals(nm, R[nm])


RULES["C09"] = c09


# ------------------------------------------------------------------ C10
def c10(ctx):
    ctx.rule("codes", "each enumeration's variants have the code the format assigns them (reference in analysis/ref/codes.json)")
    ctx.rule("scalars", "each named limit and bit width has the format's value (reference in analysis/ref/scalars.json)")
    C, S = ref("codes.json"), ref("scalars.json")
    have = {}
    for ty in ctx.p.tys:
        if ty.get("k") == "adt" and ty.get("ak") == "enum" and ty["n"].startswith("av1enc"):
            have.setdefault(ty["n"].split("::")[-1], []).append(ty)
    for e, vs in sorted(C.items()):
        ts = have.get(e)
        if not ts or len(ts) != 1:
            ctx.undec(e, "not found: enum " + e)
            continue
        t = ts[0]
        got = {v["n"]: v["d"] for v in t["v"]}
        # an enumeration carrying data has no codes of its own: what is written for it is decided with its unit
        if any(v.get("f") for v in t["v"]):
            continue
        for n, d in vs.items():
            if n not in got:
                ctx.undec("%s::%s" % (e, n), "not found")
            elif got[n] != d:
                ctx.violate("code:%s" % e, "enum " + t["n"], "%s::%s has code %s, the format assigns %s" % (e, n, got[n], d))
            else:
                ctx.passed("%s::%s" % (e, n))
                ctx.count("codes")
    tb = Tabs(ctx)
    for n, v in sorted(S.items()):
        def f(n=n, v=v):
            g = tb.get(n)
            if isinstance(g, list):
                raise Giveup("not a number")
            if int(g) != v:
                ctx.violate("const:" + n, where(ctx.p, n), "%s is %s, the format defines %s" % (n, g, v))
            else:
                ctx.passed(n)
                ctx.count("limits")
        ctx.ob(n, f)


RULES["C10"] = c10
