PRE = '''use bool_coder::*;
use std::collections::VecDeque;
#[allow(unused_imports)] use util::*;
#[allow(dead_code)] fn q(v: &Vec<u8>) -> VecDeque<u8> { v.iter().cloned().collect() }
'''
F = "src/bool_coder.rs"
SPECS = [
 dict(id="leb128-continuation", property="C01", needs="a value with a 7-bit group equal to 127 and nothing above it",
      breaks="the continuation bit is set on the last byte, so the reader runs on into the following data",
      edits=[(F, "out_bits.push((v>127) as u8);", "out_bits.push((v>=127) as u8);")],
      demo=PRE + '''#[test] fn leb() { let mut c = BoolCoder::new(); for v in [127u64, 128, 255, (127<<7)|3, 1<<40].iter() { let mut o = vec![];
 c.encode_leb128(&mut o, *v); let l = o.len(); o.extend(vec![0u8,0,0,0,0,0,0,1]); let mut d = q(&o);
 assert_eq!(c.decode_leb128(&mut d), *v); assert_eq!(o.len() - d.len(), l); } }
'''),
 dict(id="carry-boundary", property="C02", needs="a low end that reaches exactly 2^16",
      breaks="a carry is missed when the low end is exactly 65536, so the emitted code denotes another interval",
      edits=[(F, "if self.bool_value>=65536 {", "if self.bool_value>65536 {")],
      demo=PRE + '''#[test] fn carries() { let mut s: u64 = 12345; let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
 for _ in 0..3000 { let n = 2 + rnd(15) as usize; let mut cdf: Vec<i32> = (1..n as i32).map(|i| i*32768/(n as i32)).collect(); cdf.push(32768); cdf.push(0);
 let mut d = cdf.clone(); let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![]; let syms: Vec<i32> = (0..200).map(|_| rnd(n as u64) as i32).collect();
 for x in &syms { c.encode_symbol(*x, &mut o, &mut cdf); } c.exit_encoder(&mut o); let mut i = q(&o); c.init_decoder(&mut i, (o.len()/8) as u32);
 for x in &syms { assert_eq!(c.decode_symbol(&mut i, &mut d) as i32, *x); } } }
'''),
 dict(id="adapt-16-symbols", property="C03", needs="a 16-symbol alphabet",
      breaks="the adaptation rate is capped one too low for alphabets of 16 symbols, on both sides",
      edits=[(F, "let rate: i32 = 4 + (cdf[N as usize] > 31) as i32 + msb16(N as u16) as i32;", "let rate: i32 = 4 + (cdf[N as usize] > 31) as i32 + (msb16(N as u16) as i32).min(3);"),
             (F, "let rate: i32 = 4 + ((cdf[N as usize]>31) as i32) + msb16(N as u16) as i32;", "let rate: i32 = 4 + ((cdf[N as usize]>31) as i32) + (msb16(N as u16) as i32).min(3);")],
      demo=PRE + '''#[test] fn rate16() { let mut a: Vec<i32> = (1..17).map(|i| i*2048).collect(); a.push(0); let mut w = a.clone();
 let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![]; c.encode_symbol(3, &mut o, &mut a);
 let rate = 4 + 4; let diff = ((32768 - (16 << 5)) >> rate) << rate; let mut t = 32; for i in 0..15 { if i == 3 { t += diff; } w[i] -= (w[i] - t) >> rate; t += 32; } w[16] = 1; assert_eq!(a, w); } 
'''),
 dict(id="decoder-max-bits", property="C04", needs="a segment whose last symbols leave unread bits, followed by more data",
      breaks="the end of a segment leaves one bit unread, so whatever follows is read out of phase",
      edits=[(F, "self.bool_max_bits = 8 * sz as i32 - 15;", "self.bool_max_bits = 8 * sz as i32 - 16;")],
      demo=PRE + '''#[test] fn follow() { let mut c = BoolCoder::new(); c.init_encoder(); let mut o = vec![]; c.encode_literal(&mut o, 5, 3); c.exit_encoder(&mut o); let n = o.len()/8;
 for i in 0..16 { o.push((i & 1) as u8); } let mut d = q(&o); c.init_decoder(&mut d, n as u32); assert_eq!(c.decode_literal(&mut d, 3), 5); c.exit_decoder(&mut d); assert_eq!(d.len(), 16); } 
'''),
 dict(id="ns-truncated", property="C05", needs="an input that ends just before the extra bit of a non-symmetric value",
      breaks="a missing last bit is silently taken as zero",
      edits=[(F, "if let Some(extra_bit) = in_bits.pop_front() { return (v<<1) - m + extra_bit as u64; }\n        else { assert!(false); }\n        0", "let extra_bit = in_bits.pop_front().unwrap_or(0);\n        (v<<1) - m + extra_bit as u64")],
      demo=PRE + '''#[test] fn cut() { let mut c = BoolCoder::new(); let mut o = vec![]; c.encode_ns(&mut o, 4, 5); o.pop(); assert!(std::panic::catch_unwind(move || c.decode_ns(&mut q(&o), 5)).is_err()); }
'''),
 dict(id="exit-bit-count", property="C04", needs="a segment that ends while a run of ones is pending",
      breaks="the padding no longer ends the segment on a byte boundary",
      edits=[(F, "for _ in 0..self.bool_value_zero_count {\n            out_bits.push(1);\n            self.bit_count += 1;\n        }\n        for i in 0..16", "for _ in 0..self.bool_value_zero_count {\n            out_bits.push(1);\n        }\n        for i in 0..16")],
      demo=PRE + '''#[test] fn aligned() { let mut c = BoolCoder::new(); for n in 0..4096u64 { c.init_encoder(); let mut o = vec![]; c.encode_literal(&mut o, n, 12); c.exit_encoder(&mut o); assert_eq!(o.len()%8, 0); } }
'''),
 dict(id="leb128-8th-byte", property="C01", needs="a value that takes eight bytes",
      breaks="the eighth byte of a length is not read",
      edits=[(F, "let mut v: u64 = 0;\n        for i in 0..8 {\n            let mut leb", "let mut v: u64 = 0;\n        for i in 0..7 {\n            let mut leb")],
      demo=PRE + '''#[test] fn big() { let mut c = BoolCoder::new(); let mut o = vec![]; c.encode_leb128(&mut o, (1<<55)+9); assert_eq!(c.decode_leb128(&mut q(&o)), (1<<55)+9); }
'''),
]
