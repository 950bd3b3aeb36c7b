import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__("sys").argv[1])), "rest.py")).read())
CD = "src/cdf.rs"
HDR = ENC + '''#[allow(dead_code)] fn hdr<F: Fn(&mut EncoderContext, &mut Frame)>(t: FrameType, n: &str, f: F) -> (Vec<u8>, Rc<RefCell<EncoderContext>>) { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut fr = Frame::new(t, 64, 64); fr.tile_info.uniform_tile_spacing_flag = true; f(&mut ectx.borrow_mut(), &mut fr);
 let b = payload(&mut OBU_FRAME_HEADER(fr), &ectx, n); (b, ectx) }
'''
RUN = r'''#!/bin/bash
# Builds the program from a scratch copy of the sources in the current directory and runs it on small inputs.
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
tmp="$(mktemp -d /tmp/av1demo.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r src Cargo.toml "$tmp/" || exit 3
cp Cargo.lock "$tmp/" 2>/dev/null || cp /opt/vp/av1enc/Cargo.lock "$tmp/" || exit 3
cd "$tmp" || exit 3
cargo build --offline --bin av1enc --target-dir "$tmp/target" > build.log 2>&1 || { tail -20 build.log; exit 4; }
B="$tmp/target/debug/av1enc"
'''
BW_, BR_ = "src/binary_writer.rs", "src/binary_reader.rs"
MVD = TE + """#[allow(dead_code)] fn mi(b: BlockSize, x: isize, y: isize) -> ModeInfo { ModeInfo { mi_size: b, tx_size: TxSize::TX_8X8, tx_type: TxType::DCT_DCT, is_inter: true, skip: false, intra: false, single: true, seg_id_predicted: 0, skip_mode: 0,
 ref_frame: [RefFrame::LAST_FRAME, RefFrame::NONE], interp_filter: [InterpFilter::EIGHTTAP; 2], level_context: [0; 3], dc_context: [0; 3], palette_size: [0; 3], comp_group_idx: 0, compound_idx: 0, segment_id: 0, y_mode: YMode::NEARMV, mvs: [MotionVector::new(x, y); 2] } }
"""
SPECS = [
 dict(id="drl-default", property="C07", needs="a choice from the list of predicted vectors, in the last of its three contexts",
      breaks="one of the initial distributions has two digits exchanged, so the decoder starts from another one",
      edits=[(CD, "[ 18945, 32768, 0 ]", "[ 18954, 32768, 0 ]")],
      demo="""use cdf::*;
#[test] fn drl() { assert_eq!(default_cdf.drl_mode, [[13104, 32768, 0], [24560, 32768, 0], [18945, 32768, 0]]); }
"""),
 dict(id="sgr-strength", property="C08", needs="self-guided restoration with parameter set 13",
      breaks="the strength of one parameter set of the restoration filter is another set's",
      edits=[(K, "[ 0, 0, 1, 11 ],  [ 0, 0, 1, 14 ]", "[ 0, 0, 1, 11 ],  [ 0, 0, 1, 15 ]")],
      demo="""use constants::*;
#[test] fn sets() { assert_eq!(sgr_params[13], [0, 0, 1, 14]); assert_eq!(sgr_params[12], [0, 0, 1, 11]); assert_eq!(sgr_params[14], [2, 30, 0, 0]); }
"""),
 dict(id="hidden-key-frame", property="C14", needs="a key frame that is not shown at once",
      breaks="the buffers a hidden key frame is stored in are not announced and taken to be all of them",
      edits=[(O, "if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {\n                        ecx.refresh", "if frame.frame_type==SWITCH_FRAME || frame.frame_type==KEY_FRAME {\n                        ecx.refresh")],
      demo=HDR + """#[test] fn flags() { let h = |x: u8| hdr(FrameType::KEY_FRAME, &format!("hid{}", x), |e, _| { e.show_frame = false; e.refresh_frame_flags = x; }); let (a, ea) = h(1); let (b, eb) = h(2); assert_ne!(a, b); assert_eq!((ea.borrow().refresh_frame_flags, eb.borrow().refresh_frame_flags), (1, 2)); }
"""),
 dict(id="chroma-matrix", property="C15", needs="separate chroma quantizers allowed, quantizer matrices in use and no difference between the two chroma planes",
      breaks="the matrix of the second chroma plane is left out although the decoder reads it",
      edits=[(O, "if !ecx.color_config.separate_uv_delta_q {\n                            frame.quantization_params.qm_v", "if !frame.quantization_params.diff_uv_delta {\n                            frame.quantization_params.qm_v")],
      demo=HDR + """#[test] fn qm() { let h = |x: u8| hdr(FrameType::KEY_FRAME, &format!("qm{}", x), |e, f| { e.color_config.separate_uv_delta_q = true; f.quantization_params.using_qmatrix = true; f.quantization_params.qm_v = x; }).0; assert_ne!(h(3), h(4)); }
"""),
 dict(id="segment-before-skip", property="C16", needs="segmentation with a reference frame feature and no feature of a higher kind",
      breaks="the segment is taken to follow the skip flag although the decoder reads it first",
      edits=[(O, "if j >= SEG_LVL_REF_FRAME {", "if j > SEG_LVL_REF_FRAME {")],
      demo=HDR + """#[test] fn order() { for j in 0..8 { let e = hdr(FrameType::KEY_FRAME, &format!("seg{}", j), |_, f| { f.segmentation_params.segmentation_enabled = true; f.segmentation_params.feature_value[3][j] = Some(0); }).1; assert_eq!(e.borrow().seg_id_pre_skip, j >= 5); assert_eq!(e.borrow().last_active_seg_id, 3); } }
"""),
 dict(id="header-with-last-frame", property="C22", needs="an input with fewer frames than the frame limit",
      breaks="the sequence header is written with the last frame, which never comes",
      edits=[(MN, "if fr==0 {", "if fr+1==config.frames.unwrap() {")],
      script=RUN + r'''head -c 768 /dev/zero > in.yuv
for n in 1 2 5; do "$B" --input in.yuv --output out.obu --frames $n --size 16x16 2>err.txt || { cat err.txt; exit 2; }; [ -s out.obu ] || { echo "no output for $n frames"; exit 1; }; done
'''),
 dict(id="right-edge-inside", property="C23", needs="a position just right of the tile's last column",
      breaks="the first column of the next tile counts as part of the tile",
      edits=[(T, "c<self.mi_col_end as isize", "c<=self.mi_col_end as isize")],
      demo=TE + """#[test] fn inside() { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut c = BoolCoder::new(); let mut t = TileEncoder::new(&ectx, &mut c); t.mi_row_start = 4; t.mi_row_end = 12; t.mi_col_start = 8; t.mi_col_end = 24;
 for r in 0..20isize { for x in 0..40isize { assert_eq!(t.is_inside(r, x), r >= 4 && r < 12 && x >= 8 && x < 24); } } }
"""),
 dict(id="wide-block-index", property="C24", needs="a block wider than high that covers two filter areas",
      breaks="the filter index of a 128x64 block is stored for the area below instead of the one to the right, so it is coded again there",
      edits=[(T, "while i < r+h4 {", "while i < r+w4 {"), (T, "while j < c+w4 {", "while j < c+h4 {")],
      demo=TE + """#[test] fn areas() { for &(b, right, below) in [(BlockSize::BLOCK_128X64, true, false), (BlockSize::BLOCK_64X128, false, true), (BlockSize::BLOCK_128X128, true, true), (BlockSize::BLOCK_64X64, false, false)].iter() {
 let ectx = Rc::new(RefCell::new(EncoderContext::new())); { let mut e = ectx.borrow_mut(); e.frame_is_intra = true; e.enable_cdef = true; } let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![];
 let mut f = Frame::new(FrameType::KEY_FRAME, 128, 128); f.cdef_params.cdef_bits = 2; let mut s = Superblock::new(BlockSize::BLOCK_128X128, 0, 0); let mut p = PartitionTree::new(b); p.cdef_idx = 3;
 { let mut t = TileEncoder::new(&ectx, &mut c); t.mi_row_end = 32; t.mi_col_end = 32; t.encode_block(&mut s, 0, 0, &mut f, &mut o, &mut p); }
 assert_eq!((f.cdef_idx[0][0], f.cdef_idx[0][16] == 3, f.cdef_idx[16][0] == 3), (3, right, below)); } }
"""),
 dict(id="group-end-size", property="C27", needs="a frame whose tiles are sent in several groups",
      breaks="the last tile of every group but the frame's last one is preceded by a size the decoder does not read",
      edits=[(O, "if !last_tile {", "if !last_tile || tg_end+1<num_tiles {")],
      demo=ENC + """#[test] fn sizes() { let g = |t: usize| { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut f = Frame::new(FrameType::KEY_FRAME, 8, 8); f.tile_col_starts = vec![0, 1, 2, 3]; f.tile_row_starts = vec![0, 1]; f.tile_groups = vec![0, 1];
 { let mut e = ectx.borrow_mut(); e.tg_start = t; e.tg_end = t; e.mi_col_starts = vec![2; 5]; e.mi_row_starts = vec![2; 3]; e.num_planes = 1; e.use_128x128_superblock = false; e.tile_size_bytes = 2; }
 payload(&mut OBU_TILE_GROUP(f), &ectx, &format!("tg{}", t)) }; for t in 0..7 { let b = g(t); assert_eq!((b[0], num(&b[1..4]), num(&b[4..7])), (1, t as u64, t as u64)); assert_eq!(b.len(), g(7).len()); } }
"""),

 dict(id="long-padding", property="C18", needs="a padding unit of 65536 bytes or more",
      breaks="padding is cut to its length modulo 65536",
      edits=[(O, "for i in 0..padding {", "for i in 0..(padding as u16) {")],
      demo=ENC + """#[test] fn pad() { for &n in [0, 1, 300, 65535, 65536, 65600].iter() { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let b = payload(&mut OBU_PADDING(n), &ectx, &format!("pad{}", n));
 assert_eq!(b.len(), 8 * n as usize); assert!(b.iter().all(|x| *x == 0)); } }
"""),
 dict(id="header-again", property="C22", needs="a run of more than 256 frames",
      breaks="the sequence header, which is written once, is written again with every 256th frame",
      edits=[(MN, "if fr==0 {", "if fr & 0xff==0 {")],
      script=RUN + r"""head -c 115200 /dev/zero > in.yuv
size() { "$B" --input in.yuv --output out.obu --frames $1 --size 16x16 2>err.txt || { cat err.txt; exit 2; }; stat -c %s out.obu; }
a=$(size 100) || exit 2; b=$(size 300) || exit 2
echo "$a bytes for 100 frames, $b for 300"
[ "$a" = "$b" ]
"""),

 dict(id="equal-second-vector", property="C35", needs="two compound neighbours whose second vectors differ only vertically",
      breaks="vectors of a pair that differ only in the vertical part of the second one are taken for the same entry",
      edits=[(T, "cand_mvs[1]==self.ref_stack_mv[idx][1] {", "cand_mvs[1].x==self.ref_stack_mv[idx][1].x {")],
      demo=MVD + """#[test] fn pairs() { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut c = BoolCoder::new(); let mut f = Frame::new(FrameType::INTER_FRAME, 64, 64); let mut p = PartitionTree::new(BlockSize::BLOCK_8X8); p.ref_frame = [RefFrame::LAST_FRAME, RefFrame::ALTREF_FRAME];
 let mut t = TileEncoder::new(&ectx, &mut c); t.num_mv_found = 0;
 for &(y, n, w) in [(8, 1, 4), (16, 2, 4), (8, 2, 8)].iter() { let mut m = mi(BlockSize::BLOCK_8X8, 24, 40); m.ref_frame = p.ref_frame; m.y_mode = YMode::NEAR_NEARMV; m.mvs[1] = MotionVector::new(16, y);
  t.add_ref_mv_candidate(0, 0, true, 4, &m, &mut f, &mut p); assert_eq!(t.num_mv_found, n); assert_eq!(t.weight_stack[if y == 8 { 0 } else { 1 }], w); } }
"""),
 dict(id="warp-centre", property="C36", needs="a rotating or zooming global motion and a block that is not square",
      breaks="the global vector is that of a point beside the block's centre",
      edits=[(T, "let y = (self.mi_row * MI_SIZE + bh/2 - 1) as isize;", "let y = (self.mi_row * MI_SIZE + bw/2 - 1) as isize;")],
      demo=MVD + """#[test] fn warp() { for &(b, w, h) in [(BlockSize::BLOCK_16X16, 16, 16), (BlockSize::BLOCK_64X16, 64, 16), (BlockSize::BLOCK_16X64, 16, 64)].iter() { let ectx = Rc::new(RefCell::new(EncoderContext::new()));
 { let mut e = ectx.borrow_mut(); e.gm_type[1] = 2; e.gm_params[1] = [0, 0, 65536, 4096, 0, 65536]; }
 let mut c = BoolCoder::new(); let mut f = Frame::new(FrameType::INTER_FRAME, 256, 256); f.allow_high_precision_mv = true; f.use_ref_frame_mvs = false; let mut p = PartitionTree::new(b); p.ref_frame = [RefFrame::LAST_FRAME, RefFrame::NONE];
 let mut t = TileEncoder::new(&ectx, &mut c); t.mi_row = 16; t.mi_col = 16; t.find_mv_stack(false, &mut f, &mut p);
 let _ = w; let y = (64 + h / 2 - 1) * 4096; assert_eq!((t.global_mvs[0].x, t.global_mvs[0].y), ((y + 4096) >> 13, 0)); } }
"""),
 dict(id="tall-scan-step", property="C37", needs="a block 64 samples high with small neighbours on its left",
      breaks="every small neighbour is looked at where the decoder takes one in four rows",
      edits=[(T, "let use_step16 = bh4 >= 16;", "let use_step16 = bh4 > 16;")],
      demo=MVD + """#[test] fn steps() { for &(b, n) in [(BlockSize::BLOCK_32X32, 4), (BlockSize::BLOCK_64X64, 4), (BlockSize::BLOCK_128X128, 4)].iter() { let ectx = Rc::new(RefCell::new(EncoderContext::new()));
 let mut c = BoolCoder::new(); let mut f = Frame::new(FrameType::INTER_FRAME, 512, 512); f.allow_high_precision_mv = true; f.use_ref_frame_mvs = false; let mut p = PartitionTree::new(b); p.ref_frame = [RefFrame::LAST_FRAME, RefFrame::NONE];
 for r in 0..128 { for x in 0..128 { f.mis[r][x] = Some(mi(BlockSize::BLOCK_8X8, 0, 8 * (r as isize / 2))); } }
 let mut t = TileEncoder::new(&ectx, &mut c); t.mi_row_end = 128; t.mi_col_start = 31; t.mi_col_end = 128; t.mi_row_start = 32; t.mi_row = 32; t.mi_col = 32; t.find_mv_stack(false, &mut f, &mut p);
 assert_eq!(t.num_mv_found, n); } }
"""),
 dict(id="tall-motion-step", property="C38", needs="a block 64 samples high but narrower, in a frame that uses the motion of earlier frames",
      breaks="the motion of earlier frames is sampled twice as densely down the block as the decoder does",
      edits=[(T, "let step_h4 = if bh4>=16 { 4 } else { 2 };", "let step_h4 = if bw4>=16 { 4 } else { 2 };")],
      demo=MVD + """#[test] fn steps() { for &(b, n) in [(BlockSize::BLOCK_16X16, 2), (BlockSize::BLOCK_16X64, 4), (BlockSize::BLOCK_64X64, 4)].iter() { let ectx = Rc::new(RefCell::new(EncoderContext::new()));
 ectx.borrow_mut().motion_field_mvs = vec![(0..40).map(|y| vec![MotionVector::new(8 * y, 8); 40]).collect(); 8];
 let mut c = BoolCoder::new(); let mut f = Frame::new(FrameType::INTER_FRAME, 256, 256); f.allow_high_precision_mv = true; f.use_ref_frame_mvs = true; let mut p = PartitionTree::new(b); p.ref_frame = [RefFrame::LAST_FRAME, RefFrame::NONE];
 let mut t = TileEncoder::new(&ectx, &mut c); t.mi_row_start = 16; t.mi_col_start = 16; t.mi_row_end = 64; t.mi_col_end = 64; t.mi_row = 16; t.mi_col = 16; t.find_mv_stack(false, &mut f, &mut p);
 assert_eq!(t.num_mv_found, n); } }
"""),
 dict(id="old-output-stays", property="C22", needs="an output file that exists and is longer than the new stream",
      breaks="the output file keeps its old end after the new stream",
      edits=[(BW_, "File::create(path).map(|file| BinaryWriter {", "::std::fs::OpenOptions::new().write(true).create(true).open(path).map(|file| BinaryWriter {")],
      script=RUN + r"""head -c 384 /dev/zero > in.yuv
"$B" --input in.yuv --output new.obu --frames 1 --size 16x16 2>err.txt || { cat err.txt; exit 2; }
head -c 5000 /dev/urandom > old.obu
"$B" --input in.yuv --output old.obu --frames 1 --size 16x16 2>err.txt || { cat err.txt; exit 2; }
cmp new.obu old.obu
"""),
 dict(id="partial-plane-used", property="C21", needs="an input that ends within a plane of a frame",
      breaks="a plane that could only be filled in part is taken for a whole one",
      edits=[(BR_, "            Err(e) => Err(e)\n", "            Err(e) => if tmp.iter().any(|b| *b>0) {\n                for i in 0..len { v[i] = T::from(tmp[i]); }\n                Ok(len)\n            } else {\n                Err(e)\n            }\n")],
      script=RUN + r"""head -c 384 /dev/zero | tr '\000' '\101' > whole.yuv
head -c 380 whole.yuv > part.yuv
for f in whole part; do "$B" --input $f.yuv --output $f.obu --frames 1 --size 16x16 2>err.txt || { cat err.txt; exit 2; }; done
echo "$(stat -c %s whole.obu) bytes for a whole frame, $(stat -c %s part.obu) for a part of one"
[ -s whole.obu ] && [ ! -s part.obu ]
"""),
]
