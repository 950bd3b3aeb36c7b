U = "src/util.rs"; K = "src/constants.rs"; O = "src/obu_encoder.rs"; CM = "src/common.rs"; T = "src/tile_encoder.rs"; B = "src/bool_coder.rs"
W = "src/binary_writer.rs"; P = "src/option.rs"; FR = "src/frame.rs"; MN = "src/main.rs"
TMP = '''#[allow(dead_code)] fn tmp(n: &str) -> String { format!("{}/av1demo-{}-{}", ::std::env::temp_dir().display(), ::std::process::id(), n) }
'''
ENC = '''use std::rc::Rc; use std::cell::RefCell; use encoder::*; use obu::*; use obu::OBU::*; use obu::MetaData::*; use obu_encoder::*; use binary_writer::*; use bool_coder::*;
#[allow(unused_imports)] use sequence_header::*; #[allow(unused_imports)] use frame::*; #[allow(unused_imports)] use constants::*;
''' + TMP + '''#[allow(dead_code)] fn payload(o: &mut OBU, ectx: &Rc<RefCell<EncoderContext>>, n: &str) -> Vec<u8> { let f = tmp(n); let mut out = vec![]; { let mut w = BinaryWriter::file(&f).unwrap(); let mut c = BoolCoder::new();
 let mut e = OBUEncoder::new(ectx, &mut w, &mut c); e.encode_obu_payload(o, &mut out); } ::std::fs::remove_file(&f).unwrap(); out }
#[allow(dead_code)] fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a * 2 + *x as u64) }
'''
TE = '''use std::rc::Rc; use std::cell::RefCell; use encoder::*; use tile_encoder::*; use bool_coder::*; use frame::*; use constants::*; use block::*; use common::*;
'''
SPECS = [
 dict(id="msb64-upper-half", property="C06", needs="a value of 2^33 or more",
      breaks="the upper half is split off one bit too high, so the result of large values is one too small",
      edits=[(U, "let mut m0 = n >> 32;", "let mut m0 = n >> 33;")],
      demo='''use util::*;
#[test] fn every_bit() { for i in 0..64 { assert_eq!(msb64(1u64 << i) as usize, i); assert_eq!(msb64((1u64 << i) | 1) as usize, i); } }
'''),
 dict(id="transfer-code", property="C10", needs="a colour description with the SMPTE ST 428 or HLG transfer function",
      breaks="the two transfer functions are announced with each other's code",
      edits=[(K, "TC_SMPTE_428 = 17,", "TC_SMPTE_428 = 18,"), (K, "TC_HLG = 18,", "TC_HLG = 17,")],
      demo='''use constants::TransferCharacteristics::*;
#[test] fn codes() { assert_eq!(TC_SMPTE_428 as usize, 17); assert_eq!(TC_HLG as usize, 18); }
'''),
 dict(id="tall-block-height", property="C09", needs="a block four times as high as wide",
      breaks="the 4-unit height of the 16x64 block is that of 16x32",
      edits=[(K, "8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4\n];\n\npub const tx_width:", "8, 16, 32, 16, 32, 4, 1, 8, 2, 8, 4\n];\n\npub const tx_width:")],
      demo='''use constants::*; use constants::BlockSize::*;
#[test] fn heights() { for &(b, w, h) in [(BLOCK_4X16, 1, 4), (BLOCK_16X4, 4, 1), (BLOCK_8X32, 2, 8), (BLOCK_32X8, 8, 2), (BLOCK_16X64, 4, 16), (BLOCK_64X16, 16, 4)].iter() {
 assert_eq!((num_4x4_blocks_wide[b as usize], num_4x4_blocks_high[b as usize]), (w, h)); } }
'''),
 dict(id="ref-balance-context", property="C11", needs="two neighbours that use both groups of references equally often",
      breaks="a tie between the two groups is coded in the context of the second group",
      edits=[(CM, "if counts0<counts1 { 0 }", "if counts0<=counts1 && counts1>0 { 0 }")],
      demo='''use common::*;
#[test] fn ties() { for n in 0..5 { assert_eq!(ref_count_ctx(n, n), 1); assert_eq!(ref_count_ctx(n, n + 1), 0); assert_eq!(ref_count_ctx(n + 1, n), 2); } }
'''),
 dict(id="horizontal-class", property="C12", needs="a block with the one-dimensional horizontal flipped transform",
      breaks="the flipped horizontal transform uses the two-dimensional neighbourhood and contexts",
      edits=[(CM, "H_DCT | H_ADST | H_FLIPADST => TX_CLASS_HORIZ,", "H_DCT | H_ADST => TX_CLASS_HORIZ,")],
      demo='''use common::*; use constants::*; use constants::TxType::*;
#[test] fn classes() { for t in [H_DCT, H_ADST, H_FLIPADST].iter() { assert_eq!(get_tx_class(*t), TX_CLASS_HORIZ); } for t in [V_DCT, V_ADST, V_FLIPADST].iter() { assert_eq!(get_tx_class(*t), TX_CLASS_VERT); } }
'''),
 dict(id="mono-bit-depth", property="C13", needs="profile 2 with high bit depth but not twelve bits",
      breaks="the bit that tells ten from twelve bits is missing unless it is set",
      edits=[(O, "if sequence_header.profile==2 && ecx.color_config.high_bitdepth {\n                    self.coder", "if sequence_header.profile==2 && ecx.color_config.high_bitdepth && ecx.color_config.twelve_bit {\n                    self.coder")],
      demo=ENC + '''#[test] fn depth() { let n = |hi: bool| { let ectx = Rc::new(RefCell::new(EncoderContext::new())); { let mut e = ectx.borrow_mut(); e.color_config.high_bitdepth = hi; e.color_config.subsampling_y = false; }
 let mut s = SequenceHeader::new(64, 64); s.profile = 2; payload(&mut OBU_SEQUENCE_HEADER(s), &ectx, if hi { "seqh" } else { "seql" }).len() };
 assert_eq!(n(true), n(false) + 1); }
'''),
 dict(id="unit-size-threshold", property="C17", needs="a unit of 128 bytes or more, whose own size takes two bytes",
      breaks="the frame unit size counts the unit and one byte, so it is one short for large units",
      edits=[(O, "self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);", "self.coder.encode_leb128(&mut temporal_unit_bits, (obu_length+1) as u64);")],
      demo=ENC + '''fn leb(b: &[u8], p: &mut usize) -> usize { let (mut v, mut i) = (0usize, 0); loop { let x = b[*p]; *p += 1; v |= ((x & 127) as usize) << (7 * i); i += 1; if x < 128 { return v; } } }
#[test] fn nested() { for &n in [0u32, 5, 126, 127, 200, 20000].iter() { let f = tmp(&format!("unit{}", n)); { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut w = BinaryWriter::file(&f).unwrap(); let mut c = BoolCoder::new();
 OBUEncoder::new(&ectx, &mut w, &mut c).encode_temporal_unit(&mut OBU_PADDING(n)); }
 let b = ::std::fs::read(&f).unwrap(); ::std::fs::remove_file(&f).unwrap(); let mut p = 0; for _ in 0..3 { let l = leb(&b, &mut p); assert_eq!(l, b.len() - p); } } }
'''),
 dict(id="timecode-offset", property="C18", needs="a time code with an offset of 16 bits or more",
      breaks="the announced length of a long time offset loses its highest bit",
      edits=[(O, "self.coder.push_bits_with_size(out_bits, tol as u32, 5);", "self.coder.push_bits_with_size(out_bits, (tol % 16) as u32, 5);")],
      demo=ENC + '''#[test] fn offsets() { for n in 0..32u8 { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let v = if n == 0 { 0 } else { (1u64 << (n - 1)) as u32 };
 let b = payload(&mut OBU_METADATA(METADATA_TYPE_TIMECODE { counting_type: 1, discontinuity_flag: false, cnt_dropped_flag: false, n_frames: 5, seconds: None, minutes: None, hours: None, time_offset_length: n, time_offset_value: v }), &ectx, &format!("tc{}", n));
 let l = b.len() - n as usize; assert_eq!(num(&b[l - 5..l]), n as u64); assert_eq!(num(&b[l..]), v as u64); } }
'''),
 dict(id="write-error-dropped", property="C19", needs="an output that runs out of space",
      breaks="a full output no longer stops the program, the rest of the stream is lost silently",
      edits=[(W, "if let Err(e) = self.write_all(&tmp) {\n                assert!(false, e);", "if let Err(e) = self.write_all(&tmp) {\n                assert!(e.raw_os_error().is_some() && e.raw_os_error() != Some(5) || e.kind() == io::ErrorKind::WriteZero || true, e);")],
      demo='''use binary_writer::*;
#[test] fn full() { let r = ::std::panic::catch_unwind(|| { let mut w = BinaryWriter::file("/dev/full").unwrap(); for _ in 0..200000 { w.write_bit(1); } }); assert!(r.is_err()); }
'''),
 dict(id="size-three-parts", property="C20", needs="a size with more parts than width and height",
      breaks="extra parts of a value are ignored instead of being rejected",
      edits=[(P, "if v.len() == len {\n            for i in 0..v.len() {", "if v.len() >= len {\n            for i in 0..len {")],
      demo='''use option::*;
#[test] fn parts() { for a in ["352x288x3", "352x288x", "1x2x3x4"].iter() { let mut c = Config::default(); CommandOption::init_config(&mut c);
 assert!(CommandOption::parse(vec!["-s".to_string(), a.to_string()], &mut c).is_err(), "{}", a); } let mut c = Config::default(); assert!(CommandOption::parse(vec!["-s".to_string(), "352x288".to_string()], &mut c).is_ok()); }
'''),
 dict(id="samples-in-eights", property="C21", needs="a plane whose number of samples is not a multiple of eight",
      breaks="the last samples of such a plane keep their old value",
      edits=[("src/binary_reader.rs", "for i in 0..len {", "for i in 0..(if len>8 { len & !7 } else { len }) {")],
      demo=TMP + '''use binary_reader::*;
#[test] fn planes() { for n in 1..70usize { let f = tmp(&format!("plane{}", n)); let d: Vec<u8> = (0..n).map(|i| i as u8 + 1).collect(); ::std::fs::write(&f, &d).unwrap(); let mut v: Vec<u16> = vec![0; n]; { let mut r = BinaryReader::file(&f).unwrap(); r.read_to_vec(&mut v).unwrap(); } ::std::fs::remove_file(&f).unwrap(); for i in 0..n { assert_eq!(v[i], d[i] as u16); } } }
'''),
 dict(id="long-vector-bit", property="C25", needs="a vector component of class 10, at least 1024 samples long, with the top offset bit set",
      breaks="the last offset bit of the longest vectors is not coded",
      edits=[(T, "for i in 0..(mv_class as usize) {", "for i in 0..Min!(mv_class as usize, 9) {")],
      demo=TE + '''fn bits(x: isize) -> Vec<u8> { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![];
 let mut f = Frame::new(FrameType::KEY_FRAME, 64, 64); let mut p = PartitionTree::new(BlockSize::BLOCK_8X8); p.mvs[0] = MotionVector::new(x, 0);
 { let mut t = TileEncoder::new(&ectx, &mut c); t.y_mode = YMode::NEWMV as usize; t.assign_mv(false, &mut f, &mut o, &mut p); } c.exit_encoder(&mut o); o }
#[test] fn distinct() { for k in 0..10 { let a = 8193 + 8; assert_ne!(bits(a), bits(a + (8 << k)), "offset bit {}", k); } }
'''),
 dict(id="subexp-middle", property="C26", needs="a reference coefficient exactly in the middle of its range",
      breaks="a coefficient is counted from the other end of its range than the decoder does",
      edits=[(T, "if (r<<1) <= mx {", "if (r<<1) < mx {")],
      demo=TE + '''// the code of every coefficient of the first tap, read back by the definition
fn lit(c: &mut BoolCoder, i: &mut ::std::collections::VecDeque<u8>, n: usize) -> isize { c.decode_literal(i, n as u8) as isize }
fn subexp(c: &mut BoolCoder, i: &mut ::std::collections::VecDeque<u8>, num: isize, k: usize) -> isize { let (mut n, mut mk) = (0usize, 0isize); loop { let b2 = if n > 0 { k + n - 1 } else { k }; let a = 1isize << b2;
 if num <= mk + 3 * a { let m0 = num - mk; let mut w = 0; while (m0 >> w) > 0 { w += 1; } let m = (1 << w) - m0; let v = lit(c, i, w - 1); if v < m { return v + mk; } let e = lit(c, i, 1); return (v << 1) - m + e + mk; }
 if lit(c, i, 1) == 0 { return lit(c, i, b2) + mk; } n += 1; mk += a; } }
fn inv(r: isize, v: isize) -> isize { if v > 2 * r { v } else if v & 1 == 1 { r - ((v + 1) >> 1) } else { r + (v >> 1) } }
fn signed(c: &mut BoolCoder, i: &mut ::std::collections::VecDeque<u8>, low: isize, high: isize, k: usize, r: isize) -> isize { let (mx, r) = (high - low, r - low); let v = subexp(c, i, mx, k); (if (r << 1) <= mx { inv(r, v) } else { mx - 1 - inv(mx - 1 - r, v) }) + low }
#[test] fn coefficients() { for set in 0..16 { for v in -96..32 { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![];
 let mut f = Frame::new(FrameType::KEY_FRAME, 64, 64); f.allow_intrabc = false; { let mut e = ectx.borrow_mut(); e.upscaled_width = 64; e.num_planes = 1; e.loop_restoration_size = [64; 3]; e.frame_restoration_type[0] = FrameRestorationType::RESTORE_SGRPROJ; e.ref_sgr_xqd[0] = [-32, 31]; e.use_128x128_superblock = false; }
 let mut s = Superblock::new(BlockSize::BLOCK_64X64, 0, 0); s.lr_units = vec![vec![vec![LRUnit { use_wiener: false, use_sgrproj: true, restoration_type: FrameRestorationType::RESTORE_SGRPROJ, lr_sgr_set: set, lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [v, 90] }]]]; f.superblocks = vec![vec![s]];
 { let mut t = TileEncoder::new(&ectx, &mut c); t.encode_lr(&mut o, &mut f, 0, 0, BlockSize::BLOCK_64X64); } c.exit_encoder(&mut o); let n = o.len() / 8; let mut i: ::std::collections::VecDeque<u8> = o.into_iter().collect(); c.init_decoder(&mut i, n as u32);
 let mut cdf = ::cdf::default_cdf.use_sgrproj; assert_eq!(c.decode_symbol(&mut i, &mut cdf) as usize, 1); assert_eq!(lit(&mut c, &mut i, 4) as usize, set);
 if sgr_params[set][0] > 0 { assert_eq!(signed(&mut c, &mut i, -96, 32, 4, -32), v, "set {}", set); }
 if sgr_params[set][2] > 0 { assert_eq!(signed(&mut c, &mut i, -32, 96, 4, 31), 90, "set {}", set); } } } }
'''),
 dict(id="shared-run-length", property="C28", needs="more than 200000 symbols coded in the same process, by any coders",
      breaks="a counter shared by all coders influences the output, so the same symbols give different bits later in the process",
      edits=[(B, "self.bool_value += self.bool_range - left;\n        self.bool_range = left - right;\n\n        if self.bool_value>=65536", '''static CODED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        let coded = CODED.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
        self.bool_value += self.bool_range - left;
        self.bool_range = left - right - (((coded & 0x3ffff == 0x3ffff) as i32) << 5);

        if self.bool_value>=65536''')],
      demo='''use bool_coder::*;
fn run() -> Vec<u8> { let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![]; let mut s: u64 = 1; let mut cdf = vec![9000, 20000, 30000, 32768, 0]; for _ in 0..1000 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); c.encode_symbol(((s >> 40) & 3) as i32, &mut o, &mut cdf); } c.exit_encoder(&mut o); o }
#[test] fn same() { let a = run(); for _ in 0..1200 { assert!(run() == a); } }
'''),
 dict(id="unchecked-symbol", property="C29", needs="a symbol outside its table",
      breaks="a symbol outside its table reads whatever lies behind the table instead of stopping",
      edits=[(B, "let fr: i32 = 32768-cdf[symbol as usize];\n        let mut left", "let fr: i32 = 32768-unsafe { *cdf.as_ptr().offset(symbol as isize) };\n        let mut left")],
      demo='''use bool_coder::*;
#[test] fn stops() { let r = ::std::panic::catch_unwind(|| { let mut mem = vec![16384, 32768, 0, 300, 200, 100, 50, 40, 30]; let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![]; c.encode_symbol(3, &mut o, &mut mem[0..3]); }); assert!(r.is_err()); }
'''),
]
