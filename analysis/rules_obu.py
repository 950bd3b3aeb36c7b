"""Unit framing, metadata payloads, and the byte writer."""
from .core import *
from .wire import *
from . import models
from .rules_header import Payload, obu_fixed

KINDS = {"OBU_SEQUENCE_HEADER": 1, "OBU_TEMPORAL_DELIMITER": 2, "OBU_FRAME_HEADER": 3, "OBU_REDUNDANT_FRAME_HEADER": 7, "OBU_TILE_GROUP": 4,
         "OBU_METADATA": 5, "OBU_FRAME": 6, "OBU_PADDING": 15}


def pushes(bits, k):
    """stands for a function that appends the given bits to its k-th argument"""
    def h(I, st, fi, args, dty):
        for b in bits:
            models.push(I, st, args[k], b)
        return [(UNIT, st)]
    return h


class Sink:
    """stands for the output stream: records the bytes it was given, may fail or accept only part"""

    def __init__(self):
        self.ref = None
        self.n = 0
        self.errs = []

    def start(self, I, st):
        self.ref = RefV([(TRUE, I.alloc(st, SeqV((), None, True)))])

    def slice(self, I, st, buf):
        v = I.deref_read(st, buf)
        if isinstance(v, Agg):
            return [(TRUE, x) for x in v.f]
        if isinstance(v, SeqV):
            return [(g, x) for g, x, _ in v.items]
        raise Giveup("output buffer %r" % (v,))

    def result(self, I, dty, ok, err):
        return EnumV(dty, b2i(err), {0: (ok,), 1: (Opaque("io error"),)})

    def write_all(self, I, st, fi, args, dty):
        if self.ref is None:
            return NotImplemented
        self.n += 1
        e = i2b(leaf("output error %d" % self.n, 0, 1))
        self.errs.append(e)
        for g, x in self.slice(I, st, args[1]):
            s = AND(g, NOT(e))
            self.put(I, st, s, I.need_term(x))
        return [(self.result(I, dty, UNIT, e), st)]

    def write(self, I, st, fi, args, dty):
        if self.ref is None:
            return NotImplemented
        self.n += 1
        e = i2b(leaf("output error %d" % self.n, 0, 1))
        self.errs.append(e)
        xs = self.slice(I, st, args[1])
        k = leaf("accepted bytes %d" % self.n, 0, len(xs))
        for j, (g, x) in enumerate(xs):
            self.put(I, st, AND(AND(g, NOT(e)), GT(k, const(j))), I.need_term(x))
        return [(self.result(I, dty, k, e), st)]

    def put(self, I, st, g, x):
        p = self.ref.alts[0][1]
        old = I.force(I.root(st, p.obj))
        st.mem[p.obj] = SeqV(list(old.items) + [(AND(st.g, g), x, tuple(I.site()))], None, True)

    def items(self, r):
        v = r.I.deref_read(r.out, self.ref)
        return [(g, r.I.need_term(x), s) for g, x, s in v.items]

    @property
    def hooks(self):
        return {"ext:write_all": self.write_all, "ext:write": self.write}


# ------------------------------------------------------------------ framing
def header_bits(t):
    return [0] + [(t >> k) & 1 for k in (3, 2, 1, 0)] + [0, 0, 0]


def leb(n):
    out = []
    while True:
        b, n = n & 127, n >> 7
        out.append(b | (128 if n else 0))
        if not n:
            return out


def unit_header(ctx):
    for k, t in sorted(KINDS.items()):
        def f(k=k, t=t):
            r = Run(ctx, "encode_obu_header", ["self", "obu", newvec], ranges={"obu.#": obu_fixed(k)(ctx.p)})
            r.returns("unit header %s:returns" % k, "unit header", TRUE)
            want = [(TRUE, const(b), "header bit %d" % i) for i, b in enumerate(header_bits(t))]
            ctx.same_list("unit header %s" % k, r.bits(2), want, r.g, r.where, "unit header of type %d" % t)
        ctx.ob("unit header " + k, f)


def unit_frame(ctx):
    lens = list(range(0, 18)) + ([23, 24, 40, 63, 64, 65, 1000] if ctx.thorough else [24, 65])
    lens = ctx.near(["encode_obu"], lens, 9000, ["encode_obu_payload"])
    for k, t in sorted(KINDS.items()):
        for n in lens:
            def f(k=k, t=t, n=n):
                bits = [leaf("payload bit %d" % i, 0, 1) for i in range(n)]
                r = Run(ctx, "encode_obu", ["self", "obu", newvec], ranges={"obu.#": obu_fixed(k)(ctx.p)}, hooks={"encode_obu_payload": pushes(bits, 2)})
                want = [(TRUE, const(b), "header bit %d" % i) for i, b in enumerate(header_bits(t))]
                want += [(TRUE, b, "payload bit %d" % i) for i, b in enumerate(bits)]
                if n and k not in ("OBU_TILE_GROUP", "OBU_FRAME"):
                    want.append((TRUE, ONE, "trailing one bit"))
                while len(want) % 8:
                    want.append((TRUE, ZERO, "trailing zero bit"))
                nm = "unit %s with %d payload bits" % (k, n)
                r.returns(nm + ":returns", nm, TRUE)
                ctx.same_list(nm, r.bits(2), want, r.g, r.where, nm)
                ctx.count("unit shapes")
            ctx.ob("unit %s %d" % (k, n), f)


def temporal_unit(ctx):
    sizes = [0, 1, 2, 5, 124, 125, 126, 127, 128, 129, 130] + ([253, 254, 255, 256, 300, 2000] if ctx.thorough else [257])
    sizes = ctx.near(["encode_temporal_unit"], sizes, 1000, ["encode_obu", "encode_obu_payload"])
    for n in sizes:
        def f(n=n):
            bits = [leaf("unit bit %d" % i, 0, 1) for i in range(8 * n)]
            s = Sink()
            h = dict(s.hooks)
            h["encode_obu"] = pushes(bits, 2)

            class R(Run):
                pass
            r = Run(ctx, "encode_temporal_unit", [lambda I, st: (s.start(I, st), I.lazy(ctx.p.inst[ctx.fn("encode_temporal_unit")]["body"]["locals"][1], "self"))[1], "obu"],
                    ranges={"self.writer.index": (0, 0), "self.writer.buf": (0, 0)}, hooks=h, max_iter=20000)
            inner = leb(n) + [None] * n
            frame = leb(len(inner)) + inner
            out = leb(len(frame)) + frame
            want, j = [], 0
            for x in out:
                if x is None:
                    v = ZERO
                    for b in bits[8 * j:8 * j + 8]:
                        v = add(mul(const(2), v), b)
                    want.append((TRUE, v, "unit byte %d" % j))
                    j += 1
                else:
                    want.append((TRUE, const(x), "size byte"))
            ok = r.g
            for e in s.errs:
                ok = AND(ok, NOT(e))
            nm = "temporal unit of %d bytes" % n
            ctx.same_list(nm, s.items(r), want, ok, r.where, nm)
            ctx.count("temporal unit sizes")
        ctx.ob("temporal unit %d" % n, f)


def weighed(mark, w):
    """a vector that holds the mark counts it as w elements"""
    def h(I, st, fi, args, dty):
        try:
            v = I.deref_read(st, args[0])
        except Giveup:
            return NotImplemented
        if isinstance(v, SeqV) and v.len_ is None and any(x is mark for _, x, _s in v.items) and all(g is TRUE for g, _, _s in v.items):
            n = sum(w if x is mark else 1 for _, x, _s in v.items)
            return [(EQ(const(n), ZERO) if I.p.tys[dty]["k"] == "bool" else const(n), st)]
        return NotImplemented
    return {"ext:len": h, "ext:is_empty": h}


def large(ctx):
    """long units: the unit is one element of the bit vectors that counts as many; used when the code treats it as such for a short unit"""
    def tu(n):
        mark = leaf("the unit", 0, 1)
        got = []

        def bits(I, st, fi, args, dty):
            v = I.deref_read(st, args[1])
            if not isinstance(v, SeqV) or v.len_ is not None:
                raise Giveup("what is written is not a bit vector")
            got.extend((AND(st.g, g), I.need_term(x), s) for g, x, s in v.items)
            return [(UNIT, st)]

        def bit(I, st, fi, args, dty):
            got.append((st.g, I.need_term(args[1]), tuple(I.site())))
            return [(UNIT, st)]
        h = weighed(mark, 8 * n)
        h.update({"encode_obu": pushes([mark], 2), "write_bits": bits, "write_bit": bit})
        r = Run(ctx, "encode_temporal_unit", ["self", "obu"], hooks=h)
        f = leb(n)
        u = leb(len(f) + n) + f
        want = [(TRUE, const(b >> k & 1), "size") for b in leb(len(u) + n) + u for k in range(7, -1, -1)] + [(TRUE, mark, "the unit")]
        return r, got, want, "temporal unit of %d bytes" % n

    def ob(k):
        def f(w):
            mark = leaf("the payload", 0, 1)
            h = weighed(mark, w)
            h["encode_obu_payload"] = pushes([mark], 2)
            r = Run(ctx, "encode_obu", ["self", "obu", newvec], ranges={"obu.#": obu_fixed(k)(ctx.p)}, hooks=h)
            want = [(TRUE, const(b), "header bit %d" % i) for i, b in enumerate(header_bits(KINDS[k]))] + [(TRUE, mark, "the payload")]
            t = [] if k in ("OBU_TILE_GROUP", "OBU_FRAME") else [(TRUE, ONE, "trailing one bit")]
            want += t + [(TRUE, ZERO, "trailing zero bit")] * (-(w + len(t)) % 8)
            return r, r.bits(2), want, "unit %s with %d payload bits" % (k, w)
        return f

    def usable(f, n):
        try:
            r, got, want, nm = f(n)
            return r.out is not None and len(got) == len(want) and all(g is TRUE and (x is y or EQ(x, y) is TRUE) for (g, x, _), (_g, y, _s) in zip(got, want))
        except Exception:
            return False

    def check(f, n):
        r, got, want, nm = f(n)
        r.returns(nm + ":returns", nm, TRUE)
        ctx.same_list(nm, got, want, r.g, r.where, nm)
        ctx.count("long units")
    big = [x + d for x in (1 << 14, 1 << 16, 1 << 21, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 1 << 35, 1 << 42) for d in range(-6, 2)]
    if usable(tu, 5):
        for n in ctx.near(["encode_temporal_unit"], big, 1 << 48, ["encode_obu", "encode_obu_payload"]):
            if n > 300:
                ctx.ob("temporal unit of %d bytes" % n, check, tu, n)
    for k in sorted(KINDS):
        if usable(ob(k), 5):
            for n in ctx.near(["encode_obu"], [x for x in big if ctx.thorough or x % 4 == 0 or x > 1 << 30], 1 << 48, ["encode_obu_payload"]):
                if n > 300:
                    ctx.ob("unit %s with %d payload bits" % (k, n), check, ob(k), n)


def c17(ctx):
    ctx.rule("unit header", "first byte: forbidden bit 0, type of the unit, no extension, no size field, reserved bit 0")
    ctx.rule("unit", "header, payload, for non-empty payloads other than tile data a one bit, zero bits up to the next byte")
    ctx.rule("temporal unit", "temporal unit size, frame unit size, unit size (LEB128, each counting the bytes that follow it), unit")
    unit_header(ctx)
    unit_frame(ctx)
    temporal_unit(ctx)
    large(ctx)


# ------------------------------------------------------------------ metadata, delimiter, padding
def metadata(ctx, variant, layout, ranges=None, veclen=None, assume=None):
    def f():
        idx = None
        for t in ctx.p.tys:
            if t["k"] == "adt" and t["n"].endswith("::MetaData"):
                idx = [v["n"] for v in t["v"]].index(variant)
        rg = {"obu.OBU_METADATA.0.#": (idx, idx)}
        rg.update(ranges or {})

        class M:
            def __init__(self, r):
                self.o = r.arg()

            def __getattr__(self, k):
                return self.o.pay(variant, k)
        r = Payload(ctx, "OBU_METADATA", rg, veclen, (lambda s: assume(M(s))) if assume else (lambda s: TRUE))
        nm = "metadata " + variant
        r.returns(nm + ":returns", nm, r.assume)
        W = Wire()
        layout(W, M(r))
        ctx.same_list(nm, r.bits(2), W.items, r.g, r.where, nm)
        ctx.count("syntax element bits", len(W.items))
    ctx.ob("metadata " + variant, f)


def c18(ctx):
    ctx.rule("metadata", "type code and fields of each metadata kind in order, with their widths")

    def cll(W, m):
        W.tok("leb128", ONE, "metadata_type")
        W.f(16, m.max_cll.n, "max_cll")
        W.f(16, m.max_fall.n, "max_fall")
    metadata(ctx, "METADATA_TYPE_HDR_CLL", cll)

    def mdcv(W, m):
        W.tok("leb128", const(2), "metadata_type")
        for i in range(3):
            W.f(16, m.primary_chromaticity_x[i].n, "primary_chromaticity_x[%d]" % i)
            W.f(16, m.primary_chromaticity_y[i].n, "primary_chromaticity_y[%d]" % i)
        W.f(16, m.white_point_chromaticity_x.n, "white_point_chromaticity_x")
        W.f(16, m.white_point_chromaticity_y.n, "white_point_chromaticity_y")
        W.f(32, m.luminance_max.n, "luminance_max")
        W.f(32, m.luminance_min.n, "luminance_min")
    metadata(ctx, "METADATA_TYPE_HDR_MDCV", mdcv)

    def t35(W, m):
        W.tok("leb128", const(4), "metadata_type")
        W.f(8, m.country_code.n, "itu_t_t35_country_code")
        with W.when(EQ(m.country_code.n, const(255))):
            W.f(8, ZERO, "itu_t_t35_country_code_extension_byte")
        for i in range(m.payload_bytes.maxlen()):
            with W.when(GT(m.payload_bytes.length, const(i))):
                W.f(8, m.payload_bytes[i].n, "itu_t_t35_payload_byte[%d]" % i)
    metadata(ctx, "METADATA_TYPE_ITUT_T35", t35, {"country_code": (0, 255), "payload_bytes": (0, 255)}, {"payload_bytes": 5})

    def scal(W, m):
        W.tok("leb128", const(3), "metadata_type")
        W.f(8, m.mode_idc.n, "scalability_mode_idc")
        s = m.structure.pay()
        dim, des, tg = s.spatial_layer_dimensions, s.spatial_layer_descriptions, s.temporal_groups
        with W.when(EQ(m.mode_idc.n, const(14))):
            n = ite(GT(dim.length, des.length), dim.length, des.length)
            W.f(2, sub(n, ONE), "spatial_layers_cnt_minus_1")
            W.flag(GT(dim.length, ZERO), "spatial_layer_dimensions_present_flag")
            W.flag(GT(des.length, ZERO), "spatial_layer_description_present_flag")
            W.flag(GT(tg.length, ZERO), "temporal_group_description_present_flag")
            W.f(3, ZERO, "scalability_structure_reserved_3bits")
            for i in range(dim.maxlen()):
                with W.when(GT(dim.length, const(i))):
                    W.f(16, dim[i].max_width.n, "spatial_layer_max_width[%d]" % i)
                    W.f(16, dim[i].max_height.n, "spatial_layer_max_height[%d]" % i)
            for i in range(des.maxlen()):
                with W.when(GT(des.length, const(i))):
                    W.f(8, des[i].ref_id.n, "spatial_layer_ref_id[%d]" % i)
            with W.when(GT(tg.length, ZERO)):
                W.f(8, tg.length, "temporal_group_size")
            for i in range(tg.maxlen()):
                with W.when(GT(tg.length, const(i))):
                    t = tg[i]
                    W.f(3, t.temporal_id.n, "temporal_group_temporal_id[%d]" % i)
                    W.f(1, t.temporal_switching_up_point_flag.n, "temporal_switching_up_point_flag[%d]" % i)
                    W.f(1, t.spatial_switching_up_point_flag.n, "spatial_switching_up_point_flag[%d]" % i)
                    W.f(3, t.ref_pic_diffs.length, "temporal_group_ref_cnt[%d]" % i)
                    for j in range(t.ref_pic_diffs.maxlen()):
                        with W.when(GT(t.ref_pic_diffs.length, const(j))):
                            W.f(8, t.ref_pic_diffs[j].n, "temporal_group_ref_pic_diff[%d][%d]" % (i, j))
    metadata(ctx, "METADATA_TYPE_SCALABILITY", scal, {"temporal_id": (0, 7), "temporal_switching_up_point_flag": (0, 1), "spatial_switching_up_point_flag": (0, 1)},
             {"spatial_layer_dimensions": 4, "spatial_layer_descriptions": 4, "temporal_groups": 2, "ref_pic_diffs": 3},
             assume=lambda m: OR(NE(m.mode_idc.n, const(14)), AND(m.structure.some, OR(GT(m.structure.pay().spatial_layer_dimensions.length, ZERO),
                                                                                       GT(m.structure.pay().spatial_layer_descriptions.length, ZERO)))))

    def tc(W, m):
        W.tok("leb128", const(5), "metadata_type")
        s, mi, h = m.seconds, m.minutes, m.hours
        full = AND(s.some, AND(mi.some, h.some))
        W.f(5, m.counting_type.n, "counting_type")
        W.flag(full, "full_timestamp_flag")
        W.flag(m.discontinuity_flag.b, "discontinuity_flag")
        W.flag(m.cnt_dropped_flag.b, "cnt_dropped_flag")
        W.f(9, m.n_frames.n, "n_frames")
        with W.when(full):
            W.f(6, s.pay().n, "seconds_value")
            W.f(6, mi.pay().n, "minutes_value")
            W.f(5, h.pay().n, "hours_value")
        with W.when(NOT(full)):
            W.flag(s.some, "seconds_flag")
            with W.when(s.some):
                W.f(6, s.pay().n, "seconds_value")
                W.flag(mi.some, "minutes_flag")
                with W.when(mi.some):
                    W.f(6, mi.pay().n, "minutes_value")
                    W.flag(h.some, "hours_flag")
        W.f(5, m.time_offset_length.n, "time_offset_length")
        W.fsym(m.time_offset_length.n, m.time_offset_value.n, "time_offset_value", 31)
    metadata(ctx, "METADATA_TYPE_TIMECODE", tc, {"time_offset_length": (0, 31)})

    def pad():
        for n in (0, 1, 2, 7, 40, 257) if not ctx.thorough else ctx.near(["encode_obu_payload"], (0, 1, 2, 7, 40, 257, 1025), 1100, ["encode_tile"]):
            r = Payload(ctx, "OBU_PADDING", {"obu.OBU_PADDING.0": (n, n)})
            ctx.same_list("padding of %d bytes" % n, r.bits(2), [(TRUE, ZERO, "padding bit")] * (8 * n), r.g, r.where, "padding of %d bytes" % n)
            r.returns("padding of %d bytes:returns" % n, "padding", TRUE)

    def long_pad(n, test=False):
        """padding counted instead of kept"""
        seen = [0, 0]

        def many(I, st, fi, args, dty):
            v, w = I.need_term(args[2]), I.need_term(args[3])
            if st.g is not TRUE or not (is_const(v) and is_const(w)) or v.c:
                raise Giveup("padding bits")
            seen[0] += w.c
            return [(UNIT, st)]
        r = Payload(ctx, "OBU_PADDING", {"obu.OBU_PADDING.0": (n, n)}, hooks={"push_bits_with_size": many}, max_iter=n + 100)
        if test:
            return r.out is not None and seen[0] == 8 * n and not r.bits(2)
        nm = "padding of %d bytes" % n
        r.returns(nm + ":returns", "padding", TRUE)
        ctx.same(nm + ":length", const(seen[0] + len(r.bits(2))), const(8 * n), r.g, r.where, "number of padding bits, asked for %d bytes" % n)

    def long_pads():
        try:
            ok = long_pad(5, True)
        except Exception:
            ok = False
        if ok:
            for n in (4096, 65537) if not ctx.thorough else (4096, 65535, 65536, 65537, 200000):
                long_pad(n)
    ctx.ob("long padding", long_pads)
    ctx.rule("padding", "as many zero bytes as asked for")
    ctx.ob("padding", pad)

    def delim():
        r = Payload(ctx, "OBU_TEMPORAL_DELIMITER", {})
        ctx.same_list("temporal delimiter", r.bits(2), [], r.g, r.where, "temporal delimiter payload")
        ctx.same("temporal delimiter:state", r.post()[1].seen_frame_header.n, ZERO, r.g, r.where, "a new temporal unit has seen no frame header")
    ctx.rule("temporal delimiter", "empty, and forgets the frame header of the previous temporal unit")
    ctx.ob("temporal delimiter", delim)


# ------------------------------------------------------------------ byte writer
def c19(ctx):
    ctx.rule("bit packing", "bits become bytes first bit highest; what is left of a byte is kept; an output error is never swallowed")

    def one(i, n, how):
        s = Sink()
        name = "write_bit" if how == "bit" else "write_bits" if how == "bits" else "byte_align"
        fi = ctx.fn(name)
        body = ctx.p.inst[fi]["body"]
        held = [leaf("held bit %d" % k, 0, 1) for k in range(i)]
        bits = [leaf("bit %d" % k, 0, 1) for k in range(n)]
        val = ZERO
        for b in held:
            val = add(mul(const(2), val), b)

        def me(I, st):
            s.start(I, st)
            ty = ctx.p.tys[body["locals"][1]]["e"]
            v = I.expand(ty, "self")
            fs = [f[0] for f in ctx.p.tys[ty]["v"][0]["f"]]
            f = list(v.f)
            f[fs.index("buf")], f[fs.index("index")] = val, const(i)
            return RefV([(TRUE, I.alloc(st, Agg(f)))])
        args = [me]
        if how == "bit":
            args.append(lambda I, st: bits[0])
        elif how == "bits":
            args.append(bitq(bits))
        else:
            bits = [ZERO] * ((8 - i) % 8)
        r = Run(ctx, name, args, i=fi, hooks=s.hooks)
        seq = held + bits
        want = []
        for k in range(0, len(seq) - len(seq) % 8, 8):
            v = ZERO
            for b in seq[k:k + 8]:
                v = add(mul(const(2), v), b)
            want.append((TRUE, v, "byte %d" % (k // 8)))
        nm = "%s with %d held and %d new bits" % (name, i, len(bits))
        ok = r.g
        anyerr = FALSE
        for e in s.errs:
            ok = AND(ok, NOT(e))
            anyerr = OR(anyerr, e)
        ctx.same_list(nm, s.items(r), want, ok, r.where, nm)
        ctx.never(nm + ":error", AND(r.g, anyerr), r.where, nm + ": returns normally although the output failed")
        r.returns(nm + ":returns", nm, NOT(anyerr))
        rest = seq[len(seq) - len(seq) % 8:]
        v = ZERO
        for b in rest:
            v = add(mul(const(2), v), b)
        ctx.same(nm + ":held", r.field(0, "buf"), v, ok, r.where, nm + ": bits kept")
        ctx.same(nm + ":count", r.field(0, "index"), const(len(rest)), ok, r.where, nm + ": number of bits kept")
        ctx.count("writer cases")

    def passed(n):
        """what the writer itself reports as taken of n bytes is what its output took"""
        fi = [k for k, x in enumerate(ctx.p.inst) if x.get("body") and x["d"].rsplit("::", 1)[-1] == "write" and "BinaryWriter" in x["n"] and " as " in x["n"]]
        if len(fi) != 1:
            raise Missing("write of BinaryWriter")
        s = Sink()
        bs = [leaf("byte %d" % k, 0, 255) for k in range(n)]

        def kind(I, st, f, args, dty):
            names = [v["n"] for v in I.p.tys[dty].get("v", [])]
            if not names:
                raise Giveup("error kinds")
            return [(EnumV(dty, leaf("kind of the failure", 0, len(names) - 1), {}), st)]

        def me(I, st):
            s.start(I, st)
            return RefV([(TRUE, I.alloc(st, I.expand(ctx.p.tys[ctx.p.inst[fi[0]]["body"]["locals"][1]]["e"], "self")))])
        r = Run(ctx, "write", [me, bitq(bs)], i=fi[0], hooks=dict(s.hooks, **{"ext:kind": kind}))
        d = r.I.force(r.ret)
        if not isinstance(d, EnumV) or len(s.errs) != 1:
            raise Giveup("result %r" % (d,))
        ok = EQ(d.d, ZERO)
        nm = "writing %d bytes" % n
        got = ZERO
        for g, x, w in s.items(r):
            got = add(got, b2i(g) if g is not TRUE else ONE)
        for e in s.errs:
            ctx.never(nm + ":error", AND(AND(r.g, e), ok), r.where, nm + ": reports success although the output failed")
            ctx.never(nm + ":refused", AND(AND(r.g, NOT(e)), NOT(ok)), r.where, nm + ": reports failure although the output took bytes")
        ctx.same(nm + ":taken", r.I.need_term(d.pay[0][0]), got, AND(r.g, ok), r.where, nm + ": number of bytes reported as taken")
        ctx.count("writer cases")
    for n in (1, 2, 3):
        ctx.ob("writing %d bytes" % n, passed, n)
    for i in range(8):
        ctx.ob("write_bit %d" % i, one, i, 1, "bit")
        ctx.ob("byte_align %d" % i, one, i, 0, "align")
        for n in ctx.near(["write_bits"], list(range(0, 18)) + [33, 64, 65, 257] if not ctx.thorough else list(range(0, 70)) + [128, 129, 257, 1025, 2049], 9000):
            ctx.ob("write_bits %d %d" % (i, n), one, i, n, "bits")


RULES = {"C17": c17, "C18": c18, "C19": c19}
