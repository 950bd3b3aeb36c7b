"""Frame header layout and the state it announces, written from the AV1 syntax (uncompressed_header)."""
from .core import *
from .wire import *
from .rules_header import Payload

KEY, INTER, INTRA_ONLY, SWITCH = 0, 1, 2, 3
NREF, RPF = 8, 7
FEATURE_BITS = [8, 6, 6, 6, 6, 3, 0, 0]
FEATURE_SIGNED = [1, 1, 1, 1, 1, 0, 0, 0]
FEATURE_MAX = [255, 63, 63, 63, 63, 7, 0, 0]
IDENTITY, TRANSLATION, ROTZOOM, AFFINE = 0, 1, 2, 3


def clip3(lo, hi, x):
    return ite(LT(x, const(lo)), const(lo), ite(GT(x, const(hi)), const(hi), x))


def imin(a, b):
    return ite(LT(a, b), a, b)


def imax(a, b):
    return ite(GT(a, b), a, b)


def sel(xs, i):
    """xs[i] for a symbolic i"""
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = ite(EQ(i, const(k)), xs[k], r)
    return r


def ceil_log2(n):
    r = ZERO
    for k in range(0, 6):
        r = ite(GT(n, const(1 << k)), const(k + 1), r)
    return r


def tile_limits(w, h, sh):
    """superblock counts and log2 limits of the tile grid; sh: log2 of the superblock size in 4-sample units"""
    mic, mir = 2 * ((w + 7) >> 3), 2 * ((h + 7) >> 3)
    sbc, sbr = (mic + (1 << sh) - 1) >> sh, (mir + (1 << sh) - 1) >> sh
    tl = lambda b, t: next(k for k in range(40) if (b << k) >= t)
    minc = tl(4096 >> (sh + 2), sbc)
    maxc, maxr = tl(1, min(sbc, 64)), tl(1, min(sbr, 64))
    mint = max(minc, tl((4096 * 2304) >> (2 * (sh + 2)), sbr * sbc))
    return mic, mir, sbc, sbr, minc, maxc, maxr, mint


def look(F, E, name):
    """field of the frame or of the encoder context, with indices"""
    x = None
    for part in name.split("."):
        m = part.replace("]", "").split("[")
        if m[0] == "E":
            x = E
            continue
        if m[0] == "Some":
            x = x.pay()
            continue
        x = (x if x is not None else F if F.has(m[0]) else E)[m[0]]
        for i in m[1:]:
            x = x[int(i)]
    return x


class FH:
    """reference model of one frame header"""

    def __init__(self, r, W, dims=None, gm=True):
        self.r, self.W = r, W
        self.S, self.E, self.F = r.S, r.E, r.arg()
        self.post = {}
        self.conds = []
        self.run()

    # ---- pieces
    def rel(self, a, b):
        """get_relative_dist for the order hint width"""
        n = self.E.order_hint_bits.n
        out = ZERO
        for k in range(1, 9):
            m = 1 << (k - 1)
            d = sub(a, b)
            d = sub(mod_const(d, k - 1), mul(const(m), mod_const(shr_const(d, k - 1), 1)))
            out = ite(EQ(n, const(k)), d, out)
        return out

    def superres(self):
        W, E, F = self.W, self.E, self.F
        with W.when(E.enable_superres.b):
            W.flag(F.use_superres.b, "use_superres")
        use = AND(E.enable_superres.b, F.use_superres.b)
        with W.when(use):
            W.f(3, sub(E.superres_denom.n, const(9)), "coded_denom")
        den = ite(use, E.superres_denom.n, const(8))
        up = F.frame_width.n
        self.set("use_superres", b2i(use))
        self.set("superres_denom", den)
        self.set("upscaled_width", up)
        self.set("frame_width", div(add(mul(up, const(8)), div(den, const(2))), den))

    def frame_size(self):
        W, E, F = self.W, self.E, self.F
        with W.when(self.override):
            W.fsym(E.frame_width_bits.n, sub(F.frame_width.n, ONE), "frame_width_minus_1", 16)
            W.fsym(E.frame_height_bits.n, sub(F.frame_height.n, ONE), "frame_height_minus_1", 16)
        self.superres()

    def render_size(self):
        W, E, F = self.W, self.E, self.F
        d = OR(NE(F.frame_width.n, F.render_width.n), NE(F.frame_height.n, F.render_height.n))
        W.flag(d, "render_and_frame_size_different")
        with W.when(d):
            W.f(16, sub(F.render_width.n, ONE), "render_width_minus_1")
            W.f(16, sub(F.render_height.n, ONE), "render_height_minus_1")

    def set(self, name, v):
        """value under the current guard"""
        old = self.post.get(name)
        g = self.W.cur()
        if old is None:
            self.post[name] = v if g is TRUE else ite(g, v, self.init(name))
        else:
            self.post[name] = ite(g, v, old)

    def init(self, name):
        return look(self.F, self.E, name).n

    def get(self, name):
        return self.post[name]

    def run(self):
        W, S, E, F = self.W, self.S, self.E, self.F
        W.g = NOT(E.seen_frame_header.b)
        red = E.reduced_still_picture_header.b
        ids = E.frame_id_numbers_present_flag.b
        idlen = add(add(E.additional_frame_id_length.n, E.delta_frame_id_length.n), const(0))
        ft = F.frame_type.n
        nred = NOT(red)
        dm = F.decoder_model_info
        equal = AND(E.timing_info.some, E.timing_info.pay().equal_picture_interval.b)
        timed = AND(dm.some, NOT(equal))
        show_existing = AND(nred, E.show_existing_frame.b)
        with W.when(nred):
            W.flag(E.show_existing_frame.b, "show_existing_frame")
            with W.when(E.show_existing_frame.b):
                W.f(3, E.frame_to_show_map_idx.n, "frame_to_show_map_idx")
                with W.when(timed):
                    W.fsym(dm.pay().frame_presentation_delay_length.n, F.temporal_point_info.pay().tu_presentation_delay.n, "tu_presentation_delay", 32)
                with W.when(ids):
                    W.fsym(idlen, F.display_frame_id.pay().n, "display_frame_id", 16)
                W.stop()
            W.f(2, ft, "frame_type")
            W.flag(E.show_frame.b, "show_frame")
            with W.when(AND(E.show_frame.b, timed)):
                W.fsym(dm.pay().frame_presentation_delay_length.n, F.temporal_point_info.pay().tu_presentation_delay.n, "tu_presentation_delay", 32)
            with W.when(NOT(E.show_frame.b)):
                W.flag(E.showable_frame.b, "showable_frame")
        show = OR(red, E.show_frame.b)
        showable = AND(AND(nred, NOT(E.show_frame.b)), E.showable_frame.b)
        ft = ite(red, const(KEY), ft)
        key = EQ(ft, const(KEY))
        inter = EQ(ft, const(INTER))
        switch = EQ(ft, const(SWITCH))
        intra = OR(key, EQ(ft, const(INTRA_ONLY)))
        shown_key = AND(key, show)
        with W.when(AND(nred, NOT(OR(switch, shown_key)))):
            W.flag(F.error_resilient_mode.b, "error_resilient_mode")
        er = OR(AND(nred, OR(switch, shown_key)), F.error_resilient_mode.b)
        self.set("frame_type", ft)
        self.set("frame_is_intra", b2i(intra))
        self.set("show_frame", b2i(show))
        self.set("showable_frame", b2i(showable))
        self.set("error_resilient_mode", b2i(er))
        with W.when(shown_key):
            for i in range(NREF):
                self.set("E.ref_order_hint[%d]" % i, ZERO)
            for i in range(RPF):
                self.set("order_hints[%d]" % (i + 1), ZERO)
        W.flag(E.disable_cdf_update.b, "disable_cdf_update")
        ssct = E.seq_force_screen_content_tools.n
        with W.when(EQ(ssct, const(2))):
            W.f(1, F.allow_screen_content_tools.n, "allow_screen_content_tools")
        sct = ite(EQ(ssct, const(2)), F.allow_screen_content_tools.n, ssct)
        smv = E.seq_force_integer_mv.n
        with W.when(AND(GT(sct, ZERO), EQ(smv, const(2)))):
            W.f(1, F.force_integer_mv.n, "force_integer_mv")
        fim = ite(GT(sct, ZERO), ite(EQ(smv, const(2)), F.force_integer_mv.n, smv), ZERO)
        fim = ite(intra, ONE, fim)
        self.set("allow_screen_content_tools", sct)
        self.set("force_integer_mv", fim)
        with W.when(ids):
            W.fsym(idlen, E.current_frame_id.n, "current_frame_id", 16)
        with W.when(AND(NOT(switch), nred)):
            W.flag(E.frame_size_override_flag.b, "frame_size_override_flag")
        self.override = OR(switch, AND(nred, E.frame_size_override_flag.b))
        self.set("frame_size_override_flag", b2i(self.override))
        W.fsym(S.order_hint_bits.n, F.order_hint.n, "order_hint", 8)
        with W.when(NOT(OR(intra, er))):
            W.f(3, F.primary_ref_frame.n, "primary_ref_frame")
        prf = ite(OR(intra, er), const(7), F.primary_ref_frame.n)
        self.set("primary_ref_frame", prf)
        with W.when(dm.some):
            d = dm.pay()
            W.flag(d.buffer_removal_delay_present.b, "buffer_removal_time_present_flag")
            with W.when(d.buffer_removal_delay_present.b):
                ops = E.operating_points_decoder_model
                for i in range(ops.maxlen()):
                    idc = ops[i].idc.n
                    t = sel([mod_const(shr_const(idc, k), 1) for k in range(8)], E.temporal_id.n)
                    s = sel([mod_const(shr_const(idc, k + 8), 1) for k in range(4)], E.spatial_id.n)
                    with W.when(AND(GT(ops.length, const(i)), OR(EQ(idc, ZERO), AND(i2b(t), i2b(s))))):
                        W.fsym(d.buffer_removal_delay_length.n, d.buffer_removal_delay.n, "buffer_removal_time[%d]" % i, 32)
        all_ = OR(switch, shown_key)
        with W.when(NOT(all_)):
            W.f(8, E.refresh_frame_flags.n, "refresh_frame_flags")
        rff = ite(all_, const(255), E.refresh_frame_flags.n)
        self.set("refresh_frame_flags", rff)
        with W.when(AND(AND(OR(NOT(intra), NE(rff, const(255))), er), E.enable_order_hint.b)):
            for i in range(NREF):
                W.fsym(S.order_hint_bits.n, F.ref_order_hint[i].n, "ref_order_hint[%d]" % i, 8)
        # intra block copy is never enabled by this encoder
        intrabc = FALSE
        with W.when(intra):
            self.frame_size()
            self.render_size()
            with W.when(AND(GT(sct, ZERO), EQ(self.get("upscaled_width"), self.get("frame_width")))):
                W.flag(intrabc, "allow_intrabc")
        with W.when(NOT(intra)):
            sh = AND(E.enable_order_hint.b, F.frame_refs_short_signaling.b)
            with W.when(E.enable_order_hint.b):
                W.flag(F.frame_refs_short_signaling.b, "frame_refs_short_signaling")
                with W.when(sh):
                    W.f(3, F.last_frame_idx.n, "last_frame_idx")
                    W.f(3, F.gold_frame_idx.n, "gold_frame_idx")
            for i in range(RPF):
                with W.when(NOT(sh)):
                    W.f(3, F.ref_frame_idx[i].n, "ref_frame_idx[%d]" % i)
                with W.when(ids):
                    W.fsym(E.delta_frame_id_length.n, sub(F.delta_frame_id[i].n, ONE), "delta_frame_id_minus_1[%d]" % i, 17)
            with W.when(AND(self.override, NOT(er))):
                W.flag(TRUE, "found_ref")
                self.superres()
            with W.when(NOT(AND(self.override, NOT(er)))):
                self.frame_size()
                self.render_size()
            with W.when(NOT(GT(fim, ZERO))):
                W.flag(FALSE, "allow_high_precision_mv")
            W.flag(F.is_filter_switchable.b, "is_filter_switchable")
            with W.when(NOT(F.is_filter_switchable.b)):
                W.f(2, F.interp_filter.n, "interpolation_filter")
            W.flag(F.is_motion_mode_switchable.b, "is_motion_mode_switchable")
            with W.when(NOT(OR(er, NOT(E.enable_ref_frame_mvs.b)))):
                W.flag(FALSE, "use_ref_frame_mvs")
        with W.when(NOT(intra)):
            for i in range(RPF):
                h = sel([ite(shown_key, ZERO, E.ref_order_hint[k].n) for k in range(NREF)], F.ref_frame_idx[i].n)
                self.set("order_hints[%d]" % (i + 1), h)
                bias = AND(E.enable_order_hint.b, GT(self.rel(h, F.order_hint.n), ZERO))
                self.set("ref_frame_sign_bias[%d]" % (i + 1), b2i(bias))
        noupd = OR(red, E.disable_cdf_update.b)
        with W.when(NOT(noupd)):
            W.flag(E.disable_frame_end_update_cdf.b, "disable_frame_end_update_cdf")
        self.set("disable_frame_end_update_cdf", b2i(OR(noupd, E.disable_frame_end_update_cdf.b)))
        self.tile_info()
        # quantization
        q = F.quantization_params
        W.f(8, q.base_q_idx.n, "base_q_idx")

        def dq(x, what):
            W.flag(NE(x, ZERO), what + " coded")
            with W.when(NE(x, ZERO)):
                W.su(7, x, what)
        dq(E.delta_q_y_dc.n, "DeltaQYDc")
        planes = GT(E.num_planes.n, ONE)
        sepq = E.color_config.separate_uv_delta_q.b
        diff = AND(sepq, q.diff_uv_delta.b)
        with W.when(planes):
            with W.when(sepq):
                W.flag(q.diff_uv_delta.b, "diff_uv_delta")
            dq(E.delta_q_u_dc.n, "DeltaQUDc")
            dq(E.delta_q_u_ac.n, "DeltaQUAc")
            with W.when(diff):
                dq(E.delta_q_v_dc.n, "DeltaQVDc")
                dq(E.delta_q_v_ac.n, "DeltaQVAc")
        qd = {"delta_q_y_dc": E.delta_q_y_dc.n}
        for c in ("dc", "ac"):
            u = ite(planes, E["delta_q_u_" + c].n, ZERO)
            qd["delta_q_u_" + c] = u
            qd["delta_q_v_" + c] = ite(planes, ite(diff, E["delta_q_v_" + c].n, u), ZERO)
        for k in qd:
            self.set(k, qd[k])
        W.flag(q.using_qmatrix.b, "using_qmatrix")
        with W.when(q.using_qmatrix.b):
            W.f(4, q.qm_y.n, "qm_y")
            W.f(4, q.qm_u.n, "qm_u")
            with W.when(sepq):
                W.f(4, q.qm_v.n, "qm_v")
        qmv = ite(sepq, q.qm_v.n, q.qm_u.n)
        # segmentation
        s = F.segmentation_params
        en = s.segmentation_enabled.b
        W.flag(en, "segmentation_enabled")
        none = EQ(prf, const(7))
        upd = OR(none, s.segmentation_update_data.b)
        with W.when(en):
            with W.when(NOT(none)):
                W.flag(s.segmentation_update_map.b, "segmentation_update_map")
                with W.when(s.segmentation_update_map.b):
                    W.flag(s.segmentation_temporal_update.b, "segmentation_temporal_update")
                W.flag(s.segmentation_update_data.b, "segmentation_update_data")
            with W.when(upd):
                for i in range(8):
                    for j in range(8):
                        v = s.feature_value[i][j]
                        W.flag(v.some, "feature_enabled[%d][%d]" % (i, j))
                        with W.when(v.some):
                            if FEATURE_SIGNED[j]:
                                W.su(1 + FEATURE_BITS[j], v.pay().n, "feature_value[%d][%d]" % (i, j))
                            else:
                                W.f(FEATURE_BITS[j], v.pay().n, "feature_value[%d][%d]" % (i, j))
        last, pre = ZERO, FALSE
        for i in range(8):
            for j in range(8):
                a = AND(en, s.feature_value[i][j].some)
                last = ite(a, const(i), last)
                if j >= 5:
                    pre = OR(pre, a)
        self.set("last_active_seg_id", last)
        self.set("seg_id_pre_skip", b2i(pre))
        # delta q / delta lf
        dqp = F.delta_q_params
        has = GT(q.base_q_idx.n, ZERO)
        with W.when(has):
            W.flag(dqp.delta_q_present.b, "delta_q_present")
        has = AND(has, dqp.delta_q_present.b)
        with W.when(has):
            W.f(2, dqp.delta_q_res.n, "delta_q_res")
            lf = F.delta_lf_params
            W.flag(lf.delta_lf_present.b, "delta_lf_present")
            with W.when(lf.delta_lf_present.b):
                W.f(2, lf.delta_lf_res.n, "delta_lf_res")
                W.flag(lf.delta_lf_multi.b, "delta_lf_multi")
        # lossless
        coded = TRUE
        for i in range(8):
            v = s.feature_value[i][0]
            x = v.pay().n
            x = ite(upd, clip3(-255, 255, x), x)
            qi = ite(AND(en, v.some), clip3(0, 255, add(q.base_q_idx.n, x)), q.base_q_idx.n)
            ll = EQ(qi, ZERO)
            for k in ("delta_q_y_dc", "delta_q_u_ac", "delta_q_u_dc", "delta_q_v_ac", "delta_q_v_dc"):
                ll = AND(ll, EQ(qd[k], ZERO))
            self.set("lossless_array[%d]" % i, b2i(ll))
            coded = AND(coded, ll)
            for k, m in enumerate((q.qm_y.n, q.qm_u.n, qmv)):
                with W.when(q.using_qmatrix.b):
                    self.set("seg_q_m_level[%d][%d]" % (k, i), ite(ll, const(15), m))
        all_ll = AND(coded, EQ(self.get("frame_width"), self.get("upscaled_width")))
        self.set("coded_lossless", b2i(coded))
        self.set("all_lossless", b2i(all_ll))
        # loop filter
        p = F.loop_filter_params
        with W.when(NOT(coded)):
            lv = [p.loop_filter_level[i].n for i in range(4)]
            W.f(6, lv[0], "loop_filter_level[0]")
            W.f(6, lv[1], "loop_filter_level[1]")
            with W.when(AND(planes, OR(GT(lv[0], ZERO), GT(lv[1], ZERO)))):
                W.f(6, lv[2], "loop_filter_level[2]")
                W.f(6, lv[3], "loop_filter_level[3]")
            W.f(3, p.loop_filter_sharpness.n, "loop_filter_sharpness")
            W.flag(p.loop_filter_delta_enabled.b, "loop_filter_delta_enabled")
            with W.when(p.loop_filter_delta_enabled.b):
                W.flag(p.loop_filter_delta_update.b, "loop_filter_delta_update")
                with W.when(p.loop_filter_delta_update.b):
                    for i in range(8):
                        W.flag(p.update_ref_delta[i].b, "update_ref_delta[%d]" % i)
                        with W.when(p.update_ref_delta[i].b):
                            W.su(7, p.loop_filter_ref_deltas[i].n, "loop_filter_ref_deltas[%d]" % i)
                    for i in range(2):
                        W.flag(p.update_mode_delta[i].b, "update_mode_delta[%d]" % i)
                        with W.when(p.update_mode_delta[i].b):
                            W.su(7, p.loop_filter_mode_deltas[i].n, "loop_filter_mode_deltas[%d]" % i)
        with W.when(coded):
            for i in range(2):
                self.set("loop_filter_params.loop_filter_level[%d]" % i, ZERO)
                self.set("loop_filter_params.loop_filter_mode_deltas[%d]" % i, ZERO)
            for i, x in enumerate((1, 0, 0, 0, -1, 0, -1, -1)):
                self.set("loop_filter_params.loop_filter_ref_deltas[%d]" % i, const(x))
        # cdef
        c = F.cdef_params
        with W.when(AND(NOT(coded), E.enable_cdef.b)):
            W.f(2, sub(c.cdef_damping.n, const(3)), "cdef_damping_minus_3")
            W.f(2, c.cdef_bits.n, "cdef_bits")
            for i in range(c.cdef_y_pri_strength.maxlen()):
                lim = [0, 2, 4, 8]
                on = FALSE
                for k in range(4):
                    if i < (1 << k):
                        on = OR(on, EQ(c.cdef_bits.n, const(k)))
                with W.when(on):
                    W.f(4, c.cdef_y_pri_strength[i].n, "cdef_y_pri_strength[%d]" % i)
                    W.f(2, c.cdef_y_sec_strength[i].n, "cdef_y_sec_strength[%d]" % i)
                    with W.when(planes):
                        W.f(4, c.cdef_uv_pri_strength[i].n, "cdef_uv_pri_strength[%d]" % i)
                        W.f(2, c.cdef_uv_sec_strength[i].n, "cdef_uv_sec_strength[%d]" % i)
        con = AND(NOT(coded), E.enable_cdef.b)
        self.set("cdef_params.cdef_bits", ite(con, c.cdef_bits.n, ZERO))
        self.set("cdef_params.cdef_damping", ite(con, c.cdef_damping.n, const(3)))
        for nm in ("y_pri", "y_sec", "uv_pri", "uv_sec"):
            k = "cdef_%s_strength" % nm
            self.conds.append(("cdef_params.%s[0]" % k, AND(W.cur(), NOT(con)), ZERO))
            for i in range(c[k].maxlen()):
                on = AND(con, LE(const(i + 1), sel([const(1), const(2), const(4), const(8)], c.cdef_bits.n)))
                if nm[0] == "u":
                    on = AND(on, planes)
                x = c[k][i].n
                self.conds.append(("cdef_params.%s[%d]" % (k, i), AND(W.cur(), on), ite(EQ(x, const(3)), const(4), x) if nm.endswith("sec") else x))
        # loop restoration
        l = F.lr_params
        lr = AND(NOT(all_ll), E.enable_restoration.b)
        uses = AND(lr, NE(l.lr_type.n, ZERO))
        with W.when(NOT(lr)):
            for i in range(3):
                self.set("frame_restoration_type[%d]" % i, ZERO)
        with W.when(lr):
            for i in range(3):
                with W.when(GT(E.num_planes.n, const(i))):
                    W.f(2, l.lr_type.n, "lr_type[%d]" % i)
                self.set("frame_restoration_type[%d]" % i, sel([const(k) for k in (0, 3, 1, 2)], l.lr_type.n)
                         if i == 0 else ite(GT(E.num_planes.n, const(i)), sel([const(k) for k in (0, 3, 1, 2)], l.lr_type.n), E.frame_restoration_type[i].n))
        chroma = AND(uses, planes)
        cc = E.color_config
        uv = AND(AND(cc.subsampling_x.b, cc.subsampling_y.b), chroma)
        with W.when(uses):
            sh = l.lr_unit_shift.n
            with W.when(E.use_128x128_superblock.b):
                W.f(1, sub(sh, ONE), "lr_unit_shift")
            with W.when(NOT(E.use_128x128_superblock.b)):
                W.flag(GT(sh, ZERO), "lr_unit_shift")
                with W.when(GT(sh, ZERO)):
                    W.f(1, sub(sh, ONE), "lr_unit_extra_shift")
            with W.when(uv):
                W.f(1, l.lr_uv_shift.n, "lr_uv_shift")
            luma = sel([const(64), const(128), const(256)], sh)
            self.set("loop_restoration_size[0]", luma)
            ch = ite(AND(uv, EQ(l.lr_uv_shift.n, ONE)), shr_const(luma, 1), luma)
            self.set("loop_restoration_size[1]", ch)
            self.set("loop_restoration_size[2]", ch)
        self.set("uses_lr", b2i(uses))
        with W.when(lr):
            self.set("uses_chroma_lr", b2i(chroma))
        with W.when(NOT(coded)):
            W.flag(F.tx_mode_select.b, "tx_mode_select")
        self.set("tx_mode", ite(coded, ZERO, ite(F.tx_mode_select.b, const(2), ONE)))
        with W.when(NOT(intra)):
            W.flag(F.reference_select.b, "reference_select")
        refsel = AND(NOT(intra), F.reference_select.b)
        self.set("reference_select", b2i(refsel))
        allowed = self.skip_mode(AND(refsel, E.enable_order_hint.b), shown_key)
        with W.when(allowed):
            W.flag(F.skip_mode_present.b, "skip_mode_present")
        self.set("skip_mode_allowed", b2i(allowed))
        self.set("skip_mode_present", b2i(AND(allowed, F.skip_mode_present.b)))
        wm = NOT(OR(OR(intra, er), NOT(E.enable_warped_motion.b)))
        with W.when(wm):
            W.flag(F.allow_warped_motion.b, "allow_warped_motion")
        self.set("allow_warped_motion", b2i(AND(wm, F.allow_warped_motion.b)))
        W.flag(F.reduced_tx_set.b, "reduced_tx_set")
        for rf in range(1, 8):
            self.set("gm_type[%d]" % rf, const(IDENTITY))
            for k in range(6):
                self.set("gm_params[%d][%d]" % (rf, k), const(65536 if k % 3 == 2 else 0))
        with W.when(NOT(intra)):
            self.global_motion()
        self.film_grain(show, showable, inter)

    # ---- tile info for a concrete frame size
    def tile_info(self):
        W, E, F = self.W, self.E, self.F
        uni = F.tile_info.uniform_tile_spacing_flag.b
        W.flag(uni, "uniform_tile_spacing_flag")
        nc, nr = F.tile_col_starts.length, F.tile_row_starts.length

        log2 = ceil_log2
        cl, rl = log2(nc), log2(nr)
        dims = self.r.dims
        if dims:
            w, h = dims
            for sb128 in (FALSE, TRUE):
                with W.when(AND(uni, E.use_128x128_superblock.b if sb128 is TRUE else NOT(E.use_128x128_superblock.b))):
                    sh = 5 if sb128 is TRUE else 4
                    mic, mir, sbc, sbr, minc, maxc, maxr, mint = tile_limits(w, h, sh)
                    for k in range(minc, 7):
                        with W.when(GT(cl, const(k))):
                            W.flag(TRUE, "increment_tile_cols_log2")
                    with W.when(LT(cl, const(maxc))):
                        W.flag(FALSE, "increment_tile_cols_log2 (stop)")
                    minr = imax(sub(const(mint), cl), ZERO)
                    for k in range(0, 7):
                        with W.when(AND(GT(rl, const(k)), LE(minr, const(k)))):
                            W.flag(TRUE, "increment_tile_rows_log2")
                    with W.when(LT(rl, const(maxr))):
                        W.flag(FALSE, "increment_tile_rows_log2 (stop)")
                    self.starts = getattr(self, "starts", [])
                    for c in range(0, 7):
                        ws = (sbc + (1 << c) - 1) >> c
                        self.starts.append(("mi_col_starts", AND(W.cur(), EQ(cl, const(c))), [x << sh for x in range(0, sbc, ws)] + [mic]))
                        ws = (sbr + (1 << c) - 1) >> c
                        self.starts.append(("mi_row_starts", AND(W.cur(), EQ(rl, const(c))), [x << sh for x in range(0, sbr, ws)] + [mir]))
        with W.when(OR(GT(cl, ZERO), GT(rl, ZERO))):
            W.fsym(add(cl, rl), E.context_update_tile_id.n, "context_update_tile_id", 12)
            W.f(2, sub(E.tile_size_bytes.n, ONE), "tile_size_bytes_minus_1")
        self.set("context_update_tile_id", ite(OR(GT(cl, ZERO), GT(rl, ZERO)), E.context_update_tile_id.n, ZERO))

    def skip_mode(self, maybe, shown_key):
        E, F = self.E, self.F
        if maybe is FALSE:
            return FALSE
        hint = [sel([ite(shown_key, ZERO, E.ref_order_hint[k].n) for k in range(NREF)], F.ref_frame_idx[i].n) for i in range(RPF)]
        cur = F.order_hint.n
        fi, bi, fh, bh = const(-1), const(-1), ZERO, ZERO
        for i in range(RPF):
            d = self.rel(hint[i], cur)
            f = AND(LT(d, ZERO), OR(LT(fi, ZERO), GT(self.rel(hint[i], fh), ZERO)))
            b = AND(GT(d, ZERO), OR(LT(bi, ZERO), LT(self.rel(hint[i], bh), ZERO)))
            fi, fh = ite(f, const(i), fi), ite(f, hint[i], fh)
            bi, bh = ite(b, const(i), bi), ite(b, hint[i], bh)
        si, sh = const(-1), ZERO
        for i in range(RPF):
            c = AND(LT(self.rel(hint[i], fh), ZERO), OR(LT(si, ZERO), GT(self.rel(hint[i], sh), ZERO)))
            si, sh = ite(c, const(i), si), ite(c, hint[i], sh)
        two = ite(GE(bi, ZERO), bi, si)
        ok = AND(AND(maybe, GE(fi, ZERO)), GE(two, ZERO))
        with self.W.when(ok):
            self.set("skip_mode_frame[0]", add(ONE, imin(fi, two)))
            self.set("skip_mode_frame[1]", add(ONE, imax(fi, two)))
        return ok

    def global_motion(self):
        W, E, F = self.W, self.E, self.F
        g = F.global_motion_params
        for rf in range(1, 8):
            isg, rot, tr = g.is_global[rf].b, g.is_rot_zoom[rf].b, g.is_translation[rf].b
            W.flag(isg, "is_global[%d]" % rf)
            with W.when(isg):
                W.flag(rot, "is_rot_zoom[%d]" % rf)
                with W.when(NOT(rot)):
                    W.flag(tr, "is_translation[%d]" % rf)
                with W.when(OR(rot, NOT(tr))):
                    self.gm_param(rf, 2, False)
                    self.gm_param(rf, 3, False)
                    with W.when(NOT(rot)):
                        self.gm_param(rf, 4, False)
                        self.gm_param(rf, 5, False)
                with W.when(AND(NOT(rot), tr)):
                    self.gm_param(rf, 0, True)
                    self.gm_param(rf, 1, True)
                with W.when(OR(rot, NOT(tr))):
                    self.gm_param(rf, 0, False)
                    self.gm_param(rf, 1, False)
            self.set("gm_type[%d]" % rf, ite(isg, ite(rot, const(ROTZOOM), ite(tr, const(TRANSLATION), const(AFFINE))), const(IDENTITY)))

    def gm_param(self, rf, idx, trans_only):
        """the model coded is always the identity, relative to the previous parameters"""
        W, E = self.W, self.E
        ab, pb = 12, 15
        if idx < 2:
            ab, pb = (8, 2) if trans_only else (12, 6)     # allow_high_precision_mv is never set
        pd = 16 - pb
        sub_ = (1 << pb) if idx % 3 == 2 else 0
        mx = 1 << ab
        r = sub(shr_const(E.prev_gm_params[rf][idx].n, pd), const(sub_))
        n = 2 * mx + 1
        v, ref = const(mx), add(r, const(mx))
        mirrored = GT(mul(const(2), ref), const(n))
        v2 = ite(mirrored, sub(const(n - 1), v), v)
        r2 = ite(mirrored, sub(const(n - 1), ref), ref)
        x = ite(GT(v2, mul(const(2), r2)), v2, ite(GE(v2, r2), mul(const(2), sub(v2, r2)), sub(mul(const(2), sub(r2, v2)), ONE)))
        i, mk, k = 0, 0, 3
        live = TRUE
        what = "gm_params[%d][%d]" % (rf, idx)
        while True:
            b2 = k + i - 1 if i else k
            a = 1 << b2
            if n <= mk + 3 * a:
                with W.when(live):
                    W.tok("ns", sub(x, const(mk)), what + " subexp_final_bits", const(n - mk))
                return
            more = GE(x, const(mk + a))
            with W.when(live):
                W.flag(more, what + " subexp_more_bits")
                with W.when(NOT(more)):
                    W.f(b2, sub(x, const(mk)), what + " subexp_bits")
            live = AND(live, more)
            i += 1
            mk += a

    def film_grain(self, show, showable, inter):
        W, E, F = self.W, self.E, self.F
        o = E.film_grain_params
        if o.some is FALSE:
            return
        p = o.pay()
        cc = E.color_config
        NUM = ("apply_grain", "update_grain", "film_grain_params_ref_idx", "num_y_points", "chroma_scaling_from_luma", "num_cb_points", "num_cr_points", "grain_scaling",
               "ar_coeff_lag", "ar_coeff_shift", "grain_scale_shift", "cb_mult", "cb_luma_mult", "cb_offset", "cr_mult", "cr_luma_mult", "cr_offset", "overlap_flag",
               "clip_to_restricted_range")
        with W.when(AND(o.some, NOT(AND(OR(show, showable), p.apply_grain.b)))):
            for k in NUM + ("grain_seed",):
                self.set("film_grain_params.Some." + k, ZERO)
        with W.when(AND(AND(o.some, OR(show, showable)), AND(p.apply_grain.b, AND(inter, NOT(p.update_grain.b))))):
            for k in NUM:
                self.set("film_grain_params.Some." + k, sel([E.ref_film_grain_params[i][k].n for i in range(NREF)], p.film_grain_params_ref_idx.n))
        with W.when(AND(AND(o.some, OR(show, showable)), AND(p.apply_grain.b, NOT(AND(inter, NOT(p.update_grain.b)))))):
            self.set("film_grain_params.Some.update_grain", ONE)
            mono = cc.mono_chrome.b
            nc = OR(OR(mono, p.chroma_scaling_from_luma.b), AND(AND(cc.subsampling_x.b, cc.subsampling_y.b), EQ(p.num_y_points.n, ZERO)))
            self.set("film_grain_params.Some.chroma_scaling_from_luma", b2i(AND(NOT(mono), p.chroma_scaling_from_luma.b)))
            for k in ("num_cb_points", "num_cr_points"):
                self.set("film_grain_params.Some." + k, ite(nc, ZERO, p[k].n))
        with W.when(AND(o.some, OR(show, showable))):
            W.flag(p.apply_grain.b, "apply_grain")
            with W.when(p.apply_grain.b):
                W.f(16, p.grain_seed.n, "grain_seed")
                with W.when(inter):
                    W.flag(p.update_grain.b, "update_grain")
                upd = OR(NOT(inter), p.update_grain.b)
                with W.when(NOT(upd)):
                    W.f(3, p.film_grain_params_ref_idx.n, "film_grain_params_ref_idx")
                with W.when(upd):
                    def points(num, val, sc, what):
                        W.f(4, p[num].n, num)
                        for i in range(p[val].maxlen()):
                            with W.when(GT(p[num].n, const(i))):
                                W.f(8, p[val][i].n, "%s_value[%d]" % (what, i))
                                W.f(8, p[sc][i].n, "%s_scaling[%d]" % (what, i))
                    points("num_y_points", "point_y_value", "point_y_scaling", "point_y")
                    mono = cc.mono_chrome.b
                    with W.when(NOT(mono)):
                        W.flag(p.chroma_scaling_from_luma.b, "chroma_scaling_from_luma")
                    csl = AND(NOT(mono), p.chroma_scaling_from_luma.b)
                    nochroma = OR(OR(mono, csl), AND(AND(cc.subsampling_x.b, cc.subsampling_y.b), EQ(p.num_y_points.n, ZERO)))
                    with W.when(NOT(nochroma)):
                        points("num_cb_points", "point_cb_value", "point_cb_scaling", "point_cb")
                        points("num_cr_points", "point_cr_value", "point_cr_scaling", "point_cr")
                    ncb = ite(nochroma, ZERO, p.num_cb_points.n)
                    ncr = ite(nochroma, ZERO, p.num_cr_points.n)
                    W.f(2, sub(p.grain_scaling.n, const(8)), "grain_scaling_minus_8")
                    W.f(2, p.ar_coeff_lag.n, "ar_coeff_lag")
                    luma = sel([const(2 * k * (k + 1)) for k in range(4)], p.ar_coeff_lag.n)
                    chroma = add(luma, b2i(GT(p.num_y_points.n, ZERO)))
                    with W.when(GT(p.num_y_points.n, ZERO)):
                        for i in range(p.ar_coeffs_y.maxlen()):
                            with W.when(GT(luma, const(i))):
                                W.f(8, add(p.ar_coeffs_y[i].n, const(128)), "ar_coeffs_y_plus_128[%d]" % i)
                    for c, n in (("ar_coeffs_cb", ncb), ("ar_coeffs_cr", ncr)):
                        with W.when(OR(csl, GT(n, ZERO))):
                            for i in range(p[c].maxlen()):
                                with W.when(GT(chroma, const(i))):
                                    W.f(8, add(p[c][i].n, const(128)), "%s_plus_128[%d]" % (c, i))
                    W.f(2, sub(p.ar_coeff_shift.n, const(6)), "ar_coeff_shift_minus_6")
                    W.f(2, p.grain_scale_shift.n, "grain_scale_shift")
                    for c, n in (("cb", ncb), ("cr", ncr)):
                        with W.when(GT(n, ZERO)):
                            W.f(8, p[c + "_mult"].n, c + "_mult")
                            W.f(8, p[c + "_luma_mult"].n, c + "_luma_mult")
                            W.f(9, p[c + "_offset"].n, c + "_offset")
                    W.flag(p.overlap_flag.b, "overlap_flag")
                    W.flag(p.clip_to_restricted_range.b, "clip_to_restricted_range")


# ------------------------------------------------------------------ configurations
OFF = (0, 0)
BASE = {
    "seen_frame_header": OFF, "frame_width": (1, 65536), "frame_height": (1, 65536), "render_width": (1, 65536), "render_height": (1, 65536),
    "frame_width_bits": (1, 16), "frame_height_bits": (1, 16), "frame_to_show_map_idx": (0, 7), "num_planes": (1, 3), "superres_denom": (9, 16),
    "delta_frame_id": (1, 1 << 17), "delta_frame_id_length": (2, 17), "additional_frame_id_length": (1, 8), "current_frame_id": (0, 65535),
    "ref_frame_id": (0, 65535), "frame_presentation_delay_length": (1, 32), "buffer_removal_delay_length": (1, 32), "temporal_id": (0, 7), "spatial_id": (0, 3),
    "seq_force_screen_content_tools": (0, 2), "seq_force_integer_mv": (0, 2), "allow_screen_content_tools": (0, 1), "force_integer_mv": (0, 1),
    "ref_frame_idx": (0, 7), "last_frame_idx": (0, 7), "gold_frame_idx": (0, 7), "ref_order_hint": (0, 255), "primary_ref_frame": (0, 7),
    "interp_filter": (0, 3), "tile_size_bytes": (1, 4), "delta_q_y_dc": (-64, 63), "delta_q_u_dc": (-64, 63), "delta_q_u_ac": (-64, 63),
    "delta_q_v_dc": (-64, 63), "delta_q_v_ac": (-64, 63), "qm_y": (0, 15), "qm_u": (0, 15), "qm_v": (0, 15), "loop_filter_level": (0, 63),
    "loop_filter_sharpness": (0, 7), "loop_filter_ref_deltas": (-64, 63), "loop_filter_mode_deltas": (0, 63), "cdef_damping": (3, 6), "cdef_bits": (0, 3),
    "cdef_y_sec_strength": (0, 3), "cdef_uv_sec_strength": (0, 3), "cdef_y_pri_strength": (0, 15), "cdef_uv_pri_strength": (0, 15),
    "lr_type": (0, 3), "lr_unit_shift": (0, 2), "lr_unit_extra_shift": (0, 1), "lr_uv_shift": (0, 1), "delta_q_res": (0, 3), "delta_lf_res": (0, 3),
    "context_update_tile_id": (0, 4095), "current_q_index": (0, 255),
}
BASE["order_hint_bits"] = (0, 8)
for _i in range(8):
    for _j in range(8):
        _b = FEATURE_BITS[_j]
        BASE["obu.OBU_FRAME_HEADER.0.segmentation_params.feature_value[%d][%d].0" % (_i, _j)] = (-(1 << _b), (1 << _b) - 1) if FEATURE_SIGNED[_j] else (0, FEATURE_MAX[_j])
VEC = {"tile_col_starts": (1, 1), "tile_row_starts": (1, 1), "operating_points_decoder_model": 2}
ONE_SIZE = {"frame_width": (352, 352), "frame_height": (288, 288), "render_width": (352, 352), "render_height": (288, 288)}
# sections switched off
NO_IDS = {"frame_id_numbers_present_flag": OFF}
NO_QUANT = {"delta_q_y_dc": OFF, "delta_q_u_dc": OFF, "delta_q_u_ac": OFF, "delta_q_v_dc": OFF, "delta_q_v_ac": OFF, "using_qmatrix": OFF}
NO_SEG = {"segmentation_enabled": OFF}
NO_LF = {"loop_filter_delta_enabled": OFF, "loop_filter_level": OFF}
NO_CDEF = {"enable_cdef": OFF}
NO_LR = {"enable_restoration": OFF}
NO_GM = {"is_global": OFF}
NO_FG = {"film_grain_params.#": OFF}
NO_TILE = {"uniform_tile_spacing_flag": OFF}
NO_SKIP = {"reference_select": OFF}
NO_DM = {"decoder_model_info.#": OFF}


class FrameRun(Payload):
    def __init__(self, ctx, *over, vec=None, dims=None, assume=None, **kw):
        rg = dict(BASE)
        for o in over:
            rg.update(o)
        v = dict(VEC)
        v.update(vec or {})
        self.dims = dims

        def a(s):
            E, F = s.E, s.arg()
            g = TRUE
            ids = E.frame_id_numbers_present_flag.b
            se = AND(E.show_existing_frame.b, NOT(E.reduced_still_picture_header.b))
            g = AND(g, OR(NOT(AND(se, ids)), F.display_frame_id.some))
            g = AND(g, OR(NOT(F.decoder_model_info.some), F.temporal_point_info.some))
            n = s.S.order_hint_bits.n
            g = AND(g, ite(E.enable_order_hint.b, GE(n, ONE), EQ(n, ZERO)))
            if assume:
                g = AND(g, assume(s))
            return g
        Payload.__init__(self, ctx, "OBU_FRAME_HEADER", rg, v, a, alias={"self.ectx.order_hint_bits": "self.order_hint_bits"}, **kw)


def idlen(d, a):
    """frame ids present, with these lengths"""
    return {"frame_id_numbers_present_flag": (1, 1), "delta_frame_id_length": (d, d), "additional_frame_id_length": (a, a), "delta_frame_id": (1, 1 << d),
            "current_frame_id": (0, (1 << (a + d)) - 1), "ref_frame_id": (0, (1 << (a + d)) - 1)}


def layout(ctx, name, r):
    r.returns(name + ":returns", name, r.assume)
    W = Wire()
    m = FH(r, W)
    ctx.same_list(name + ":layout", r.bits(2), W.items, r.g, r.where, name)
    ctx.count("syntax element bits", len(W.items))
    return m


def state(ctx, name, r):
    """the settings in force after the header"""
    W = Wire()
    m = FH(r, W)
    S, E, O = r.post()
    F = O.pay("OBU_FRAME_HEADER")
    g = AND(r.g, NOT(r.E.seen_frame_header.b))
    live = AND(g, NOT(AND(NOT(r.E.reduced_still_picture_header.b), r.E.show_existing_frame.b)))
    for k, want in sorted(m.post.items()):
        def one(k=k, want=want):
            ctx.same("%s:%s" % (name, k), look(F, E, k).n, want, live, r.where, "%s: %s after the header" % (name, k))
        ctx.ob("%s:%s" % (name, k), one)
    def shown():
        # showing an existing frame: it is of the stored type, a key frame refreshes every slot, and the next header is a full one
        se = AND(g, AND(NOT(r.E.reduced_still_picture_header.b), r.E.show_existing_frame.b))
        ctx.same(name + ":seen_frame_header", E.seen_frame_header.n, ite(se, ZERO, ONE), g, r.where, "%s: whether the next frame header repeats this one" % name)
        ctx.same(name + ":show_existing_frame", E.show_existing_frame.n, ite(r.E.reduced_still_picture_header.b, ZERO, r.E.show_existing_frame.n), g, r.where,
                 "%s: whether an existing frame is shown" % name)
        if se is FALSE:
            return
        idx = r.E.frame_to_show_map_idx.n
        ty = r.E.ref_frame_type[7].n
        for i in range(7):
            ty = ite(EQ(idx, const(i)), r.E.ref_frame_type[i].n, ty)
        ctx.same(name + ":shown frame type", F.frame_type.n, ty, se, r.where, "%s: type of the frame shown" % name)
        ctx.same(name + ":shown frame refresh", E.refresh_frame_flags.n, ite(EQ(ty, ZERO), const(255), ZERO), se, r.where, "%s: slots refreshed by the frame shown" % name)
    ctx.ob(name + ":existing frame", shown)
    for k, gg, want in m.conds:
        gg = AND(live, gg)
        if gg is not FALSE:
            def one(k=k, gg=gg, want=want):
                ctx.same("%s:%s" % (name, k), look(F, E, k).n, want, gg, r.where, "%s: %s after the header" % (name, k))
            ctx.ob("%s:%s" % (name, k), one)
    for k, gg, vals in getattr(m, "starts", []):
        gg = AND(live, gg)
        if gg is not FALSE:
            def one(k=k, gg=gg, vals=vals):
                v = E[k].v
                v = v.norm() if isinstance(v, DqV) else v
                ctx.same_list("%s:%s" % (name, k), [(q, r.I.need_term(x), s) for q, x, s in v.items], [(TRUE, const(x), "tile start %d" % n) for n, x in enumerate(vals)],
                              gg, r.where, "%s: %s" % (name, k))
            ctx.ob("%s:%s" % (name, k), one)
    return m


CDEF8 = {"cdef_y_pri_strength": (8, 8), "cdef_y_sec_strength": (8, 8), "cdef_uv_pri_strength": (8, 8), "cdef_uv_sec_strength": (8, 8)}
FGV = ("point_y_value", "point_y_scaling", "point_cb_value", "point_cb_scaling", "point_cr_value", "point_cr_scaling")
FGR = {"num_y_points": (0, 3), "num_cb_points": (0, 3), "num_cr_points": (0, 3), "grain_scaling": (8, 11), "ar_coeff_lag": (0, 3), "ar_coeff_shift": (6, 9),
       "grain_scale_shift": (0, 3), "film_grain_params_ref_idx": (0, 7), "film_grain_params.#": (1, 1), "cb_mult": (0, 255), "cb_luma_mult": (0, 255), "cb_offset": (0, 511),
       "cr_mult": (0, 255), "cr_luma_mult": (0, 255), "cr_offset": (0, 511), "ar_coeffs_y": (-128, 127), "ar_coeffs_cb": (-128, 127), "ar_coeffs_cr": (-128, 127)}
GMR = {"prev_gm_params": (-4096 * 2 + 65536, 4096 * 2 + 65536)}
GMR.update({"self.ectx.prev_gm_params[%d][%d]" % (i, j): (-8192, 8191) for i in range(8) for j in (0, 1, 3, 4)})
FEW = (NO_IDS, NO_DM, NO_QUANT, NO_SEG, NO_LF, NO_CDEF, NO_LR, ONE_SIZE)
SIZES = [(352, 288), (64, 64), (8, 8), (1920, 1080), (4160, 2176), (200, 8200)]
SIZES_T = [(1, 1), (65, 129), (4096, 2304), (4097, 2305), (8192, 4352), (128, 65536)]


def general_runs(ctx):
    off = (NO_QUANT, NO_SEG, NO_LF, NO_CDEF, NO_LR, NO_GM, NO_FG, NO_TILE, NO_SKIP)
    yield "frame header", lambda: FrameRun(ctx, *(off + (NO_IDS,)))
    ids = [(2, 1), (14, 2), (9, 4)]
    if ctx.thorough:
        ids = [(d, a) for d in range(2, 16) for a in range(1, 9) if a + d <= 16]
    for d, a in ids:
        yield "frame header, frame ids %d+%d" % (d, a), lambda d=d, a=a: FrameRun(ctx, *(off + (idlen(d, a), NO_DM)))


def skip_runs(ctx):
    pats = [(0, 1, 2, 2, 2, 2, 2), (2, 2, 2, 2, 0, 1, 2)]
    if ctx.thorough:
        pats += [(7, 5, 5, 5, 5, 5, 6), (0, 0, 0, 1, 1, 2, 2), (3, 4, 4, 4, 3, 3, 5)]
    for k in ((1, 3, 7) if not ctx.thorough else range(1, 9)):
        for pat in pats:
            pin = {"ref_frame_idx[%d]" % i: (x, x) for i, x in enumerate(pat)}
            pin.update({"order_hint_bits": (k, k), "ref_order_hint": (0, (1 << k) - 1), "order_hint": (0, (1 << k) - 1), "use_superres": OFF, "enable_order_hint": (1, 1)})
            yield "skip mode, %d order hint bits, references %s" % (k, pat), lambda pin=pin: FrameRun(ctx, *(FEW + (NO_TILE, NO_GM, NO_FG, pin)))


# frames with many superblocks and tiles: size, tile columns and rows (uniform spacing)
MANY = [(4096, 64, 64, 1), (64, 4096, 1, 64), (65536, 64, 64, 1), (128, 65536, 1, 64), (2624, 200, 33, 2), (8190, 4300, 16, 34), (16384, 2200, 4, 5)]


def many_sizes(ctx):
    """frames whose superblock counts and tile counts lie around the constants of the code: (size, tile counts, superblocks of 128)"""
    out = [m + (b,) for m in MANY for b in (0, 1)]
    for k in ctx.near(["encode_obu_payload"], (), 1024, ("encode_tile", "push_bits_with_size")):
        for b in (0, 1) if ctx.thorough else (0,):
            n = 64 * k << b
            if 400 < n <= 65536:
                l = tile_limits(n, 64, 4 + b)
                out += [(n, 64, 1 << c, 1, b) for c in ((l[4], l[5]) if ctx.thorough else (l[5],))]
                l = tile_limits(64, n, 4 + b)
                out += [(64, n, 1, 1 << c, b) for c in ((l[7], l[6]) if ctx.thorough else (l[6],))]
    return list(dict.fromkeys(out))


def tile_runs(ctx):
    for w, h, nc, nr, b in [(w, h, 0, 0, None) for w, h in SIZES] + [(w, h, 0, 0, b) for w, h in SIZES_T for b in (0, 1) if ctx.thorough] + many_sizes(ctx):
        if nc:
            l = tile_limits(w, h, 4 + b)
            cl, rl = (nc - 1).bit_length(), (nr - 1).bit_length()
            if not (l[4] <= cl <= l[5] and max(0, l[7] - cl) <= rl <= l[6]):
                continue

        def ok(s, w=w, h=h, nc=nc):
            F, E = s.arg(), s.E
            if nc:
                return TRUE
            cl, rl = ceil_log2(F.tile_col_starts.length), ceil_log2(F.tile_row_starts.length)
            g = TRUE
            for sb, sh in ((E.use_128x128_superblock.b, 5), (NOT(E.use_128x128_superblock.b), 4)):
                _, _, _, _, minc, maxc, maxr, mint = tile_limits(w, h, sh)
                x = AND(AND(GE(cl, const(minc)), LE(cl, const(maxc))), AND(GE(rl, imax(sub(const(mint), cl), ZERO)), LE(rl, const(maxr))))
                g = AND(g, OR(NOT(sb), x))
            return g
        lim = [tile_limits(w, h, sh) for sh in (4, 5)]
        mc, mr = min(1 << max(l[5] for l in lim), 6), min(1 << max(l[6] for l in lim), 5)
        size = {"frame_width": (w, w), "frame_height": (h, h), "render_width": (w, w), "render_height": (h, h), "uniform_tile_spacing_flag": (1, 1), "use_superres": OFF}
        nm, lens = "tile info, %dx%d" % (w, h), {"tile_col_starts": (1, mc), "tile_row_starts": (1, mr)}
        if b is not None:
            size["use_128x128_superblock"] = (b, b)
            nm += ", superblocks of %d" % (64 << b)
        if nc:
            nm, lens = nm + ", %dx%d tiles" % (nc, nr), {"tile_col_starts": (nc, nc), "tile_row_starts": (nr, nr)}
            # the frame type and the rest are covered by the smaller frames
            size.update({"reduced_still_picture_header": (0, 0), "frame_type.#": (0, 0), "show_existing_frame": OFF})
        yield nm, lambda ok=ok, w=w, h=h, lens=lens, size=size: FrameRun(
            ctx, *(FEW + (NO_GM, NO_FG, NO_SKIP, size)), dims=(w, h), vec=lens, assume=ok)


def tool_runs(ctx):
    com = (NO_IDS, NO_DM, NO_TILE, ONE_SIZE)
    yield "quantization", lambda: FrameRun(ctx, *(com + (NO_SEG, NO_LF, NO_CDEF, NO_LR, NO_GM, NO_FG, NO_SKIP)))
    yield "segmentation", lambda: FrameRun(ctx, *(com + (NO_QUANT, NO_LF, NO_CDEF, NO_LR, NO_GM, NO_FG, NO_SKIP)))
    yield "in-loop filters", lambda: FrameRun(ctx, *(com + (NO_SEG, NO_GM, NO_FG, NO_SKIP)), vec=CDEF8,
                                              assume=lambda s: OR(NOT(s.E.use_128x128_superblock.b), GT(s.arg().lr_params.lr_unit_shift.n, ZERO)))


def grain_runs(ctx):
    n = 14 if ctx.thorough else 3
    v = {k: (n, n) for k in FGV}
    v.update({"ar_coeffs_y": (24, 24), "ar_coeffs_cb": (25, 25), "ar_coeffs_cr": (25, 25)})
    pts = {"num_y_points": (0, n), "num_cb_points": (0, min(n, 10)), "num_cr_points": (0, min(n, 10))}
    for lag in range(4):
        yield "film grain, lag %d" % lag, lambda lag=lag: FrameRun(ctx, *(FEW + (NO_TILE, NO_GM, NO_SKIP, FGR, pts, {"ar_coeff_lag": (lag, lag)})), vec=v)


def gm_runs(ctx):
    yield "global motion", lambda: FrameRun(ctx, *(FEW + (NO_TILE, NO_FG, NO_SKIP, GMR)))


def over(ctx, gens, what):
    for gen in gens:
        for n, mk in gen(ctx):
            ctx.ob(n, lambda: what(ctx, n, mk()))


def c14(ctx):
    ctx.rule("frame header, general part", "the bits of the header are the uncompressed_header syntax elements in order, with their widths and presence conditions")
    over(ctx, (general_runs,), layout)


def c15(ctx):
    ctx.rule("frame header, tile and coding tool parameters", "as the general part, with each parameter group left symbolic in turn")
    over(ctx, (tile_runs, tool_runs, grain_runs, gm_runs, skip_runs), layout)


def c16(ctx):
    ctx.rule("state after the header", "every setting that later coding reads has the value a decoder derives from the header")
    over(ctx, (general_runs, tile_runs, tool_runs, grain_runs, gm_runs, skip_runs), state)


RULES = {"C14": c14, "C15": c15, "C16": c16}
