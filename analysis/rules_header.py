"""Bitstream header layout rules: sequence header, OBU header, frame header, metadata, tile group."""
from .core import *
from .wire import *

VAR = {"seq": 0, "td": 1, "fh": 2, "red": 3, "tg": 4, "meta": 5, "frame": 6, "pad": 7}


def obu_fixed(name):
    """range that fixes the kind of unit"""
    def f(prog):
        for t in prog.tys:
            if t["k"] == "adt" and t["n"].endswith("::OBU") or t["k"] == "adt" and t["n"] == "OBU":
                for i, v in enumerate(t["v"]):
                    if v["n"] == name:
                        return (i, i)
        raise Missing("unit kind " + name)
    return f


class Payload(Run):
    """encode_obu_payload on a symbolic encoder and unit"""

    def __init__(self, ctx, kind, ranges, veclen=None, assume=lambda s: TRUE, hooks=None, alias=None, **kw):
        rg = dict(ranges)
        rg["obu.#"] = obu_fixed(kind)(ctx.p)
        self.ranges0 = rg
        i = ctx.fn("encode_obu_payload")
        pre = Interp(ctx.p, ranges=rg, veclen=veclen, alias=alias)
        body = ctx.p.inst[i]["body"]
        st = State({}, TRUE)
        self.S = Nav(pre, st, pre.lazy(body["locals"][1], "self"), body["locals"][1])
        self.O = Nav(pre, st, pre.lazy(body["locals"][2], "obu"), body["locals"][2])
        self.E = self.S["ectx"]
        self.kind = kind
        g = assume(self)
        Run.__init__(self, ctx, "encode_obu_payload", ["self", "obu", newvec], g, i=i, ranges=rg, veclen=veclen, alias=alias, hooks=dict(HOOKS, **(hooks or {})), **kw)

    def arg(self, k=0):
        return self.O.pay(self.kind, k)

    def post(self):
        body = self.prog.inst[self.i]["body"]
        s = Nav(self.I, self.out, self.args[0], body["locals"][1])
        o = Nav(self.I, self.out, self.args[1], body["locals"][2])
        return s, s["ectx"], o


def seq_ranges():
    return {"profile": (0, 2), "order_hint_bits": (1, 8), "delta_frame_id_length": (2, 17), "additional_frame_id_length": (1, 8),
            "frame_width": (1, 65536), "frame_height": (1, 65536), "max_frame_width": (1, 65536), "max_frame_height": (1, 65536),
            "idc": (0, 4095), "seq_level_idx": (0, 31), "num_ticks_per_picture": (1, (1 << 32) - 1), "encoder_decoder_buffer_delay_length": (1, 32),
            "buffer_removal_delay_length": (1, 32), "frame_presentation_delay_length": (1, 32), "bitrate_scale": (0, 15), "buffer_size_scale": (0, 15),
            "bitrate": (1, (1 << 32) - 1), "buffer_size": (1, (1 << 32) - 1), "seq_force_screen_content_tools": (0, 1), "seq_force_integer_mv": (0, 1)}


def bits_for(x):
    """number of bits that hold x-1, at least 1 (x <= 65536)"""
    n = ONE
    for k in range(1, 17):
        n = add(n, b2i(GT(sub(x, ONE), const((1 << k) - 1))))
    return n


def seq_ref(W, S, E, h):
    W.f(3, h.profile.n, "seq_profile")
    W.flag(h.still_picture.b, "still_picture")
    red = E.reduced_still_picture_header.b
    W.flag(red, "reduced_still_picture_header")
    ops = h.operating_points
    with W.when(NOT(red)):
        W.f(5, sub(ops.length, ONE), "operating_points_cnt_minus_1")
        for i in range(ops.maxlen()):
            with W.when(GT(ops.length, const(i))):
                op = ops[i]
                W.f(12, op.idc.n, "operating_point_idc[%d]" % i)
                W.f(5, op.seq_level_idx.n, "seq_level_idx[%d]" % i)
                with W.when(GT(op.seq_level_idx.n, const(7))):
                    W.flag(op.seq_tier.pay().b, "seq_tier[%d]" % i)
    nw, nh = bits_for(h.max_frame_width.n), bits_for(h.max_frame_height.n)
    W.f(4, sub(nw, ONE), "frame_width_bits_minus_1")
    W.f(4, sub(nh, ONE), "frame_height_bits_minus_1")
    W.fsym(nw, sub(h.max_frame_width.n, ONE), "max_frame_width_minus_1", 16)
    W.fsym(nh, sub(h.max_frame_height.n, ONE), "max_frame_height_minus_1", 16)
    fid = h.frame_id
    with W.when(NOT(red)):
        W.flag(fid.some, "frame_id_numbers_present_flag")
        with W.when(fid.some):
            W.f(4, sub(fid.pay().delta_frame_id_length.n, const(2)), "delta_frame_id_length_minus_2")
            W.f(3, sub(fid.pay().additional_frame_id_length.n, ONE), "additional_frame_id_length_minus_1")
    W.flag(E.use_128x128_superblock.b, "use_128x128_superblock")
    W.flag(h.enable_filter_intra.b, "enable_filter_intra")
    W.flag(h.enable_intra_edge_filter.b, "enable_intra_edge_filter")
    with W.when(NOT(red)):
        W.flag(h.enable_interintra_compound.b, "enable_interintra_compound")
        W.flag(h.enable_masked_compound.b, "enable_masked_compound")
        W.flag(E.enable_warped_motion.b, "enable_warped_motion")
        W.flag(h.enable_dual_filter.b, "enable_dual_filter")
        oh = E.enable_order_hint.b
        W.flag(oh, "enable_order_hint")
        with W.when(oh):
            W.flag(h.enable_jnt_comp.b, "enable_jnt_comp")
            W.flag(E.enable_ref_frame_mvs.b, "enable_ref_frame_mvs")
        ch = h.seq_choose_screen_content_tools.b
        W.flag(ch, "seq_choose_screen_content_tools")
        fs = E.seq_force_screen_content_tools.n
        with W.when(NOT(ch)):
            W.f(1, fs, "seq_force_screen_content_tools")
        with W.when(OR(ch, GT(fs, ZERO))):
            ci = h.seq_choose_integer_mv.b
            W.flag(ci, "seq_choose_integer_mv")
            with W.when(NOT(ci)):
                W.f(1, E.seq_force_integer_mv.n, "seq_force_integer_mv")
        with W.when(oh):
            W.f(3, sub(S.order_hint_bits.n, ONE), "order_hint_bits_minus_1")
    W.flag(E.enable_superres.b, "enable_superres")
    W.flag(E.enable_cdef.b, "enable_cdef")
    W.flag(E.enable_restoration.b, "enable_restoration")
    # color config
    c = E.color_config
    prof = h.profile.n
    p1, p2 = EQ(prof, ONE), EQ(prof, const(2))
    hb = c.high_bitdepth.b
    W.flag(hb, "high_bitdepth")
    tb = AND(p2, hb)
    with W.when(tb):
        W.flag(c.twelve_bit.b, "twelve_bit")
    mono = AND(NOT(p1), c.mono_chrome.b)
    with W.when(NOT(p1)):
        W.flag(c.mono_chrome.b, "mono_chrome")
    cd = c.color_description
    W.flag(cd.some, "color_description_present_flag")
    with W.when(cd.some):
        W.f(8, cd.pay().color_primaries.n, "color_primaries")
        W.f(8, cd.pay().transfer_characteristics.n, "transfer_characteristics")
        W.f(8, cd.pay().matrix_coefficients.n, "matrix_coefficients")
    x = cd.pay()
    srgb = AND(cd.some, AND(EQ(x.color_primaries.n, ONE), AND(EQ(x.transfer_characteristics.n, const(13)), EQ(x.matrix_coefficients.n, ZERO))))
    with W.when(OR(mono, NOT(srgb))):
        W.flag(c.color_range.b, "color_range")
    twelve = AND(tb, c.twelve_bit.b)
    sx = ite(twelve, b2i(c.subsampling_x.b), b2i(NOT(p1)))
    sx = i2b(sx)
    sy = OR(AND(twelve, AND(c.subsampling_x.b, c.subsampling_y.b)), EQ(prof, ZERO))
    with W.when(AND(NOT(mono), NOT(srgb))):
        with W.when(twelve):
            W.flag(c.subsampling_x.b, "subsampling_x")
            with W.when(c.subsampling_x.b):
                W.flag(c.subsampling_y.b, "subsampling_y")
        with W.when(AND(sx, sy)):
            W.f(2, c.chroma_sample_position.n, "chroma_sample_position")
    with W.when(NOT(mono)):
        W.flag(c.separate_uv_delta_q.b, "separate_uv_delta_q")
    ti = E.timing_info
    with W.when(NOT(red)):
        W.flag(ti.some, "timing_info_present_flag")
    dm = h.decoder_model_info
    dmi = AND(AND(NOT(red), ti.some), dm.some)
    with W.when(AND(NOT(red), ti.some)):
        t = ti.pay()
        W.f(32, t.num_units_in_display_tick.n, "num_units_in_display_tick")
        W.f(32, t.time_scale.n, "time_scale")
        W.flag(t.equal_picture_interval.b, "equal_picture_interval")
        with W.when(t.equal_picture_interval.b):
            W.tok("uvlc", sub(t.num_ticks_per_picture.n, ONE), "num_ticks_per_picture_minus_1")
        W.flag(dm.some, "decoder_model_info_present_flag")
        with W.when(dm.some):
            d = dm.pay()
            W.f(4, d.bitrate_scale.n, "bitrate_scale")
            W.f(4, d.buffer_size_scale.n, "buffer_size_scale")
            W.f(5, sub(d.encoder_decoder_buffer_delay_length.n, ONE), "encoder_decoder_buffer_delay_length_minus_1")
            W.f(32, d.num_units_in_decoding_tick.n, "num_units_in_decoding_tick")
            W.f(5, sub(d.buffer_removal_delay_length.n, ONE), "buffer_removal_delay_length_minus_1")
            W.f(5, sub(d.frame_presentation_delay_length.n, ONE), "frame_presentation_delay_length_minus_1")
    od = E.operating_points_decoder_model
    any_ = GT(od.length, ZERO)
    W.flag(any_, "operating_points_decoder_model_present_flag")
    with W.when(any_):
        W.f(5, sub(od.length, ONE), "operating_points_decoder_model_cnt_minus_1")
    for i in range(od.maxlen()):
        with W.when(GT(od.length, const(i))):
            op = od[i]
            W.f(12, op.idc.n, "decoder model operating_point_idc[%d]" % i)
            W.flag(op.initial_display_delay.some, "initial_display_delay_present[%d]" % i)
            with W.when(op.initial_display_delay.some):
                W.f(4, sub(op.initial_display_delay.pay().n, ONE), "initial_display_delay_minus_1[%d]" % i)
            with W.when(dmi):
                o = op.operating_parameters_info
                W.flag(o.some, "decoder_model_present_for_this_op[%d]" % i)
                with W.when(o.some):
                    q = o.pay()
                    n = dm.pay().encoder_decoder_buffer_delay_length.n
                    W.tok("uvlc", sub(q.bitrate.n, ONE), "bitrate_minus_1[%d]" % i)
                    W.tok("uvlc", sub(q.buffer_size.n, ONE), "buffer_size_minus_1[%d]" % i)
                    W.flag(q.cbr_flag.b, "cbr_flag[%d]" % i)
                    W.fsym(n, q.decoder_buffer_delay.n, "decoder_buffer_delay[%d]" % i, 32)
                    W.fsym(n, q.encoder_buffer_delay.n, "encoder_buffer_delay[%d]" % i, 32)
                    W.flag(q.low_delay_mode_flag.b, "low_delay_mode_flag[%d]" % i)
    W.flag(E.film_grain_params.some, "film_grain_params_present")


def seq_post(S, E, h):
    """what is in force after the header: name -> (lookup in the state afterwards, value)"""
    red = E.reduced_still_picture_header.b
    c = E.color_config
    prof = h.profile.n
    p0, p1, p2 = EQ(prof, ZERO), EQ(prof, ONE), EQ(prof, const(2))
    hb = c.high_bitdepth.b
    twelve = AND(p2, AND(hb, c.twelve_bit.b))
    mono = AND(NOT(p1), c.mono_chrome.b)
    cd = c.color_description
    x = cd.pay()
    srgb = AND(NOT(mono), AND(cd.some, AND(EQ(x.color_primaries.n, ONE), AND(EQ(x.transfer_characteristics.n, const(13)), EQ(x.matrix_coefficients.n, ZERO)))))
    oh = AND(NOT(red), E.enable_order_hint.b)
    cs = OR(red, h.seq_choose_screen_content_tools.b)
    sct = ite(cs, const(2), E.seq_force_screen_content_tools.n)
    imv = ite(OR(red, OR(EQ(sct, ZERO), h.seq_choose_integer_mv.b)), const(2), E.seq_force_integer_mv.n)
    ohb = ite(oh, S.order_hint_bits.n, ZERO)
    sx = ite(mono, ONE, ite(srgb, ZERO, ite(p0, ONE, ite(p1, ZERO, ite(twelve, b2i(c.subsampling_x.b), ONE)))))
    sy = ite(mono, ONE, ite(srgb, ZERO, ite(p0, ONE, ite(p1, ZERO, b2i(AND(twelve, AND(c.subsampling_x.b, c.subsampling_y.b)))))))
    np_ = ite(mono, ONE, const(3))
    fid = h.frame_id
    w = {
        "bit depth": (lambda S, E, h: S.bit_depth.n, ite(twelve, const(12), ite(hb, const(10), const(8))), TRUE),
        "plane count": (lambda S, E, h: S.num_planes.n, np_, TRUE),
        "plane count (shared)": (lambda S, E, h: E.num_planes.n, np_, TRUE),
        "monochrome": (lambda S, E, h: E.color_config.mono_chrome.b, mono, TRUE),
        "horizontal chroma subsampling": (lambda S, E, h: E.color_config.subsampling_x.n, sx, TRUE),
        "vertical chroma subsampling": (lambda S, E, h: E.color_config.subsampling_y.n, sy, TRUE),
        "colour range": (lambda S, E, h: E.color_config.color_range.n, ite(srgb, ONE, b2i(c.color_range.b)), TRUE),
        "separate chroma quantizer deltas": (lambda S, E, h: E.color_config.separate_uv_delta_q.n, b2i(AND(NOT(mono), c.separate_uv_delta_q.b)), TRUE),
        "screen content tools": (lambda S, E, h: E.seq_force_screen_content_tools.n, sct, TRUE),
        "integer motion vectors": (lambda S, E, h: E.seq_force_integer_mv.n, imv, TRUE),
        "order hints": (lambda S, E, h: E.enable_order_hint.n, b2i(oh), TRUE),
        "order hint bits": (lambda S, E, h: S.order_hint_bits.n, ohb, TRUE),
        "order hint bits (shared)": (lambda S, E, h: E.order_hint_bits.n, ohb, TRUE),
        "reference frame motion vectors": (lambda S, E, h: E.enable_ref_frame_mvs.n, b2i(AND(oh, E.enable_ref_frame_mvs.b)), TRUE),
        "warped motion": (lambda S, E, h: E.enable_warped_motion.n, b2i(AND(NOT(red), E.enable_warped_motion.b)), TRUE),
        "inter-intra compound": (lambda S, E, h: h.enable_interintra_compound.n, b2i(AND(NOT(red), h.enable_interintra_compound.b)), TRUE),
        "masked compound": (lambda S, E, h: h.enable_masked_compound.n, b2i(AND(NOT(red), h.enable_masked_compound.b)), TRUE),
        "dual filter": (lambda S, E, h: h.enable_dual_filter.n, b2i(AND(NOT(red), h.enable_dual_filter.b)), TRUE),
        "joint compound": (lambda S, E, h: h.enable_jnt_comp.n, b2i(AND(oh, h.enable_jnt_comp.b)), TRUE),
        "frame width field": (lambda S, E, h: E.frame_width_bits.n, bits_for(h.max_frame_width.n), TRUE),
        "frame height field": (lambda S, E, h: E.frame_height_bits.n, bits_for(h.max_frame_height.n), TRUE),
        "frame numbers": (lambda S, E, h: E.frame_id_numbers_present_flag.b, fid.some, TRUE),
        "frame number delta length": (lambda S, E, h: E.delta_frame_id_length.n, fid.pay().delta_frame_id_length.n, fid.some),
        "frame number additional length": (lambda S, E, h: E.additional_frame_id_length.n, fid.pay().additional_frame_id_length.n, fid.some),
        "timing information": (lambda S, E, h: E.timing_info.some, AND(NOT(red), E.timing_info.some), TRUE),
        "decoder model": (lambda S, E, h: h.decoder_model_info.some, AND(NOT(red), AND(E.timing_info.some, h.decoder_model_info.some)), TRUE),
        "superres": (lambda S, E, h: E.enable_superres.b, E.enable_superres.b, TRUE),
        "cdef": (lambda S, E, h: E.enable_cdef.b, E.enable_cdef.b, TRUE),
        "restoration": (lambda S, E, h: E.enable_restoration.b, E.enable_restoration.b, TRUE),
        "superblock size": (lambda S, E, h: E.use_128x128_superblock.b, E.use_128x128_superblock.b, TRUE),
        "reduced header": (lambda S, E, h: E.reduced_still_picture_header.b, red, TRUE),
        "film grain": (lambda S, E, h: E.film_grain_params.some, E.film_grain_params.some, TRUE),
    }
    return w


def c13(ctx):
    ctx.rule("sequence header", "for every configuration the payload bits are the syntax elements in order, with their widths and presence conditions")
    ctx.rule("settings", "after the header every setting that frame headers read has the value a decoder derives from it")
    ctx.rule("announced again", "coding the same sequence a second time, from the state the first left behind, yields the same bits")
    def assume(s):
        h = s.arg()
        g = TRUE
        for i in range(h.operating_points.maxlen()):
            op = h.operating_points[i]
            g = AND(g, ite(GT(op.seq_level_idx.n, const(7)), op.seq_tier.some, NOT(op.seq_tier.some)))
        g = AND(g, OR(NOT(s.E.reduced_still_picture_header.b), NOT(h.frame_id.some)))
        g = AND(g, GT(h.operating_points.length, ZERO))
        for i in range(s.E.operating_points_decoder_model.maxlen()):
            d = s.E.operating_points_decoder_model[i].initial_display_delay
            g = AND(g, OR(NOT(d.some), AND(GE(d.pay().n, ONE), LE(d.pay().n, const(16)))))
        return g

    def f():
        for n in ((2, 4) if ctx.thorough else (2,)):
            r = Payload(ctx, "OBU_SEQUENCE_HEADER", seq_ranges(), {"operating_points": n, "operating_points_decoder_model": n}, assume)
            r.returns("sequence header:returns", "sequence header", r.assume)
            W = Wire()
            seq_ref(W, r.S, r.E, r.arg())
            ctx.same_list("sequence header:layout", r.bits(2), W.items, r.g, r.where, "sequence header")
            ctx.count("syntax element bits", len(W.items))
        return r
    r = ctx.ob("sequence header", f)
    if r is None:
        return
    want = seq_post(r.S, r.E, r.arg())
    S, E, O = r.post()
    h = O.pay("OBU_SEQUENCE_HEADER")
    for k, (get, v, g) in sorted(want.items()):
        nm = "sequence header:settings:" + k
        ctx.ob(nm, lambda nm=nm, k=k, get=get, v=v, g=g: ctx.same(nm, get(S, E, h), v, AND(r.g, g), r.where, "after the sequence header: " + k))

    def again():
        one = r.bits(2)
        r.I.panics[:] = []
        st = r.out
        v2 = newvec(r.I, st)
        ret, out = r.I.call_fn(st, r.i, [r.args[0], r.args[1], v2])
        if out is None:
            raise Giveup("second run does not return")
        v = r.I.deref_read(out, v2)
        v = v.norm() if isinstance(v, DqV) else v
        two = [(g, r.I.need_term(x), s) for g, x, s in v.items]
        ctx.same_list("sequence header:announced again", two, [(g, x, "the first announcement's bit") for g, x, s in one], r.g, r.where, "sequence header coded again")
    # the first run's state is consumed from here on
    ctx.ob("sequence header:announced again", again)


RULES = {"C13": c13}
