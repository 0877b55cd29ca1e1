//! C09: packed sensor data unpacks exactly.
use proptest::prelude::*;
use rawler::bits::Endian;
use rawler::decompressors::packed::PackedDecompressor;
use rawler::decompressors::{decompress_lines, decompress_strips, Decompressor};
use rawler::pumps::{BitPump, BitPumpJPEG, BitPumpLSB, BitPumpMSB, BitPumpMSB32};
use rawler::rawsource::RawSource;
use rawler::RawImageData;
use serde::{Deserialize, Serialize};
use vh::fill::{fill, Fill, Rng};
use vh::pack::*;
use vh::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Kind {
  P10LsbWords,
  P10Be,
  P12Be,
  P12Word16,
  P12Aligned16,
  P12Word32,
  P12LeControl,
  P12BeControl,
  P12Interlaced,
  P12InterlacedUnaligned,
  P12Le,
  U12Le,
  U12Be,
  U12BeLeft,
  U12LeLeft,
  U14Le,
  U14Be,
  U16Le,
  U16LeSkip,
  U16Be,
}
const KINDS: [Kind; 20] = [
  Kind::P10LsbWords,
  Kind::P10Be,
  Kind::P12Be,
  Kind::P12Word16,
  Kind::P12Aligned16,
  Kind::P12Word32,
  Kind::P12LeControl,
  Kind::P12BeControl,
  Kind::P12Interlaced,
  Kind::P12InterlacedUnaligned,
  Kind::P12Le,
  Kind::U12Le,
  Kind::U12Be,
  Kind::U12BeLeft,
  Kind::U12LeLeft,
  Kind::U14Le,
  Kind::U14Be,
  Kind::U16Le,
  Kind::U16LeSkip,
  Kind::U16Be,
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  kind: Kind,
  /// in pixel groups of the packing
  groups: usize,
  h: usize,
  fill: Fill,
  junk: u64,
  tail: usize,
}

fn geometry(k: Kind, groups: usize, h: usize) -> (usize, usize, u32) {
  use Kind::*;
  let (g, bits) = match k {
    P10LsbWords => (8, 10),
    P10Be => (4, 10),
    P12Be | P12Aligned16 | P12Interlaced | P12InterlacedUnaligned | P12Le => (2, 12),
    P12Word16 => (4, 12),
    P12Word32 => (8, 12),
    P12LeControl | P12BeControl => (10, 12),
    U12Le | U12Be | U12BeLeft | U12LeLeft => (1, 12),
    U14Le | U14Be => (1, 14),
    _ => (1, 16),
  };
  let w = (groups * g).min(64 / g * g).max(g);
  (w, h, bits)
}

fn pack(c: &Case, img: &[u16], w: usize, h: usize) -> Vec<u8> {
  use Kind::*;
  let mut r = Rng::new(c.junk);
  let rows = || img.chunks_exact(w);
  match c.kind {
    P10LsbWords => swap(pack_msb(img, 10), 2),
    P10Be => pack_msb(img, 10),
    P12Be => pack_msb(img, 12),
    P12Word16 => swap(pack_msb(img, 12), 2),
    P12Aligned16 => rows()
      .flat_map(|l| {
        let mut v = pack_msb(l, 12);
        if v.len() % 2 == 1 {
          v.push(r.next() as u8);
        }
        v
      })
      .collect(),
    P12Word32 => swap(pack_msb(img, 12), 4),
    P12LeControl => rows().flat_map(|l| control(pack_lsb(l, 12), r.next())).collect(),
    P12BeControl => rows().flat_map(|l| control(pack_msb(l, 12), r.next())).collect(),
    P12Interlaced | P12InterlacedUnaligned => {
      let even: Vec<u16> = rows().step_by(2).flatten().copied().collect();
      let odd: Vec<u16> = rows().skip(1).step_by(2).flatten().copied().collect();
      let mut v = pack_msb(&even, 12);
      if c.kind == P12Interlaced {
        // the second field starts at the next 2048 byte boundary strictly after the first
        let start = (v.len() / 2048 + 1) * 2048;
        while v.len() < start {
          v.push(r.next() as u8);
        }
      }
      v.extend(pack_msb(&odd, 12));
      v
    }
    P12Le => pack_lsb(img, 12),
    U12Le | U14Le => img.iter().flat_map(|s| (s | (r.next() as u16 & if c.kind == U12Le { 0xf000 } else { 0xc000 })).to_le_bytes()).collect(),
    U12Be | U14Be => img.iter().flat_map(|s| (s | (r.next() as u16 & if c.kind == U12Be { 0xf000 } else { 0xc000 })).to_be_bytes()).collect(),
    U12BeLeft => img.iter().flat_map(|s| (s << 4 | (r.next() as u16 & 15)).to_be_bytes()).collect(),
    U12LeLeft => img.iter().flat_map(|s| (s << 4 | (r.next() as u16 & 15)).to_le_bytes()).collect(),
    U16Le => img.iter().flat_map(|s| s.to_le_bytes()).collect(),
    U16Be => img.iter().flat_map(|s| s.to_be_bytes()).collect(),
    U16LeSkip => {
      let _ = h;
      rows()
        .flat_map(|l| {
          let mut v: Vec<u8> = l.iter().flat_map(|s| s.to_le_bytes()).collect();
          v.extend(r.bytes(w * 2));
          v
        })
        .collect()
    }
  }
}

fn code(k: Kind) -> u16 {
  1 + KINDS.iter().position(|x| *x == k).unwrap() as u16
}

fn unwrapped(id: u16, w: usize, h: usize, body: &[u8]) -> Result<Vec<u16>, String> {
  let mut buf = vec![];
  buf.extend(id.to_le_bytes());
  buf.extend((w as u16).to_le_bytes());
  buf.extend((h as u16).to_le_bytes());
  buf.extend(body);
  match rawler::decode_unwrapped(&RawSource::new_from_slice(&buf)) {
    Ok(RawImageData::Integer(v)) => Ok(v),
    Ok(_) => Err("float data".into()),
    Err(e) => Err(e.to_string()),
  }
}

fn run(c: &Case) -> Outcome {
  let (w, h, bits) = geometry(c.kind, c.groups, c.h);
  let max = ((1u32 << bits) - 1) as u16;
  let img = c.fill.u16s(w * h, max);
  let mut data = pack(c, &img, w, h);
  let full = data.len();
  let mut r = Rng::new(c.junk ^ 99);
  data.extend(r.bytes(c.tail));
  let out = unwrapped(code(c.kind), w, h, &data).map_err(|e| format!("{:?} {w}x{h}: complete data rejected: {e}", c.kind))?;
  if out != img {
    let i = out.iter().zip(&img).position(|(a, b)| a != b);
    return Err(format!("{:?} {w}x{h}: differs at {:?} ({} samples)", c.kind, i.map(|i| (i, out[i], img[i])), out.len()));
  }
  // Too little data (beyond the 16 bytes of padding this entry adds) is an error.
  if full > 17 {
    let cut = full - 17 - (c.junk as usize % (full - 17 + 1)).min(full - 17);
    let res = unwrapped(code(c.kind), w, h, &data[..cut]);
    ensure!(res.is_err(), "{:?} {w}x{h}: {cut} of {full} bytes accepted", c.kind);
  }
  Ok(if c.fill.is_flat() { trivial(format!("{:?}", c.kind)) } else { nontrivial(format!("{:?}", c.kind)) })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Direct {
  bits: u32,
  little: bool,
  groups: usize,
  h: usize,
  skip: usize,
  strip: usize,
  fill: Fill,
  cut: usize,
}
fn run_direct(c: &Direct) -> Outcome {
  let g = match c.bits {
    8 | 16 => 1,
    10 => 4,
    12 => 2,
    _ => 1,
  };
  let w = c.groups * g;
  let h = c.h + c.skip;
  let max = ((1u32 << c.bits) - 1) as u16;
  let img = c.fill.u16s(w * h, max);
  let data = match (c.bits, c.little) {
    (16, true) => img.iter().flat_map(|s| s.to_le_bytes()).collect(),
    (16, false) => img.iter().flat_map(|s| s.to_be_bytes()).collect(),
    _ => pack_msb(&img, c.bits),
  };
  let e = if c.little { Endian::Little } else { Endian::Big };
  let all = decompress_lines::<u16, _>(&data, w, h, false, PackedDecompressor::new(c.bits, e)).map_err(|e| format!("lines: {e}"))?;
  ensure!(all.pixels() == &img[..], "{} bit lines differ ({w}x{h})", c.bits);
  ensure!(all.width == w && all.height == h, "dimensions {}x{}", all.width, all.height);
  let st = decompress_strips::<u16, _>(&data, w, h, false, c.strip, PackedDecompressor::new(c.bits, e)).map_err(|e| format!("strips: {e}"))?;
  ensure!(st.pixels() == &img[..], "{} bit strips of {} rows differ ({w}x{h})", c.bits, c.strip);
  let mut part = vec![0u16; w * c.h];
  PackedDecompressor::new(c.bits, e).decompress(&data, c.skip, part.chunks_exact_mut(w), w).map_err(|e| format!("skip: {e}"))?;
  ensure!(part == img[c.skip * w..], "{} bit with {} skipped rows differs", c.bits, c.skip);
  let cut = c.cut.min(data.len());
  if cut > 0 {
    let short = &data[..data.len() - cut];
    ensure!(decompress_lines::<u16, _>(short, w, h, false, PackedDecompressor::new(c.bits, e)).is_err(), "{} bit: {} of {} bytes accepted", c.bits, short.len(), data.len());
  }
  Ok(if c.fill.is_flat() { trivial(format!("{} bit", c.bits)) } else { nontrivial(format!("{} bit", c.bits)) })
}

// ---- float samples -----------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct FloatCase {
  bits: u32,
  little: bool,
  w: usize,
  h: usize,
  skip: usize,
  seed: u64,
}
/// Value of an IEEE-like float with the given field widths.
fn ref_float(v: u32, frac: u32, exp: u32) -> f64 {
  let sign = if v >> (frac + exp) & 1 == 1 { -1.0 } else { 1.0 };
  let e = (v >> frac) & ((1 << exp) - 1);
  let f = v & ((1 << frac) - 1);
  let bias = (1i32 << (exp - 1)) - 1;
  if e == (1 << exp) - 1 {
    if f == 0 { sign * f64::INFINITY } else { f64::NAN }
  } else if e == 0 {
    sign * f as f64 * 2f64.powi(1 - bias - frac as i32)
  } else {
    sign * (1.0 + f as f64 / (1u64 << frac) as f64) * 2f64.powi(e as i32 - bias)
  }
}
fn run_float(c: &FloatCase) -> Outcome {
  let mut r = Rng::new(c.seed);
  let n = c.w * (c.h + c.skip);
  let raw: Vec<u32> = (0..n)
    .map(|_| {
      let v = r.next() as u32;
      let v = match r.below(8) {
        0 => 0,
        1 => v & 0x8000_03ff,
        2 => v | 0x7f80_0000,
        _ => v,
      };
      match c.bits {
        16 => if r.bool() { v & 0x83ff } else { v & 0xffff },
        24 => if r.below(3) == 0 { v & 0x80_ffff } else { v & 0xff_ffff },
        _ => v,
      }
    })
    .collect();
  let nb = c.bits as usize / 8;
  let data: Vec<u8> = raw
    .iter()
    .flat_map(|v| {
      let b = v.to_le_bytes();
      let mut b = b[..nb].to_vec();
      if !c.little {
        b.reverse();
      }
      b
    })
    .collect();
  let e = if c.little { Endian::Little } else { Endian::Big };
  let all = decompress_lines::<f32, _>(&data, c.w, c.h + c.skip, false, PackedDecompressor::new(c.bits, e)).map_err(|e| format!("lines: {e}"))?;
  let mut part = vec![0f32; c.w * c.h];
  Decompressor::<f32>::decompress(&PackedDecompressor::new(c.bits, e), &data, c.skip, part.chunks_exact_mut(c.w), c.w).map_err(|e| format!("skip: {e}"))?;
  for (i, v) in raw.iter().enumerate() {
    let want = match c.bits {
      16 => ref_float(*v, 10, 5),
      24 => ref_float(*v, 16, 7),
      _ => ref_float(*v, 23, 8),
    };
    let got = all.pixels()[i];
    let same = |got: f32| (got.is_nan() && want.is_nan()) || (got as f64 == want && got.is_sign_negative() == want.is_sign_negative());
    ensure!(same(got), "{} bit float {:#x}: {} instead of {}", c.bits, v, got, want);
    if i >= c.skip * c.w {
      ensure!(same(part[i - c.skip * c.w]), "{} bit float with skip: {} instead of {}", c.bits, part[i - c.skip * c.w], want);
    }
  }
  ensure!(decompress_lines::<f32, _>(&data[..data.len() - 1], c.w, c.h + c.skip, false, PackedDecompressor::new(c.bits, e)).is_err(), "short float data accepted");
  Ok(nontrivial(format!("f{}{}", c.bits, if c.little { "le" } else { "be" })))
}

// ---- 8 bit with tone table ------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TableCase {
  w: usize,
  h: usize,
  seed: u64,
  step: u16,
}
fn run_table(c: &TableCase) -> Outcome {
  let mut r = Rng::new(c.seed);
  let mut t = vec![0u16; 256];
  let mut acc = 0u32;
  for v in t.iter_mut() {
    *v = acc.min(65535) as u16;
    acc += r.below(c.step as u64 + 1) as u32;
  }
  let px = r.bytes(c.w * c.h + 4);
  let mut body: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
  body.extend(&px);
  let out = unwrapped(0, c.w, c.h, &body)?;
  // Dithering spreads a value over half the distance to its neighbours; it may
  // never leave the interval between the neighbouring table entries.
  for row in 0..c.h {
    let l = &px[row * c.w..];
    let mut rnd = u32::from_le_bytes([l[0], l[1], l[2], l[3]]);
    for col in 0..c.w {
      let i = l[col] as usize;
      let lo = if i > 0 { t[i - 1] } else { t[i] } as u32;
      let hi = if i < 255 { t[i + 1] } else { t[i] } as u32;
      let base = if t[i] == 0 { 0 } else { (t[i] as u32).saturating_sub((hi - lo + 2) / 4) };
      let want = (base + (((hi - lo) * (rnd & 2047) + 1024) >> 12)).min(65535) as u16;
      rnd = 15700u32.wrapping_mul(rnd & 65535).wrapping_add(rnd >> 16);
      let got = out[row * c.w + col];
      ensure!(got == want, "({row},{col}): code {i} gives {got} instead of {want}");
    }
  }
  Ok(nontrivial("table"))
}

// ---- bit pumps --------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PumpCase {
  kind: u8,
  bytes: Vec<u8>,
  ops: Vec<(u8, u8)>,
}
fn run_pump(c: &PumpCase) -> Outcome {
  // logical bit sequence
  let mut bits: Vec<u8> = vec![];
  let mut src = c.bytes.clone();
  match c.kind {
    0 => {
      for b in &src {
        for i in 0..8 {
          bits.push(b >> i & 1);
        }
      }
    }
    1 => {
      for b in &src {
        for i in (0..8).rev() {
          bits.push(b >> i & 1);
        }
      }
    }
    2 => {
      while src.len() % 4 != 0 {
        src.push(0x5a);
      }
      for w in src.chunks(4) {
        for b in w.iter().rev() {
          for i in (0..8).rev() {
            bits.push(b >> i & 1);
          }
        }
      }
    }
    _ => {
      let mut stuffed = vec![];
      for b in &src {
        stuffed.push(*b);
        if *b == 0xff {
          stuffed.push(0);
        }
        for i in (0..8).rev() {
          bits.push(b >> i & 1);
        }
      }
      if c.bytes.len() % 2 == 1 {
        stuffed.extend([0xff, 0xd9, 0x12, 0x34]);
      }
      src = stuffed;
      bits.extend(std::iter::repeat(0).take(4096)); // zeros after the end
    }
  }
  let lsb = c.kind == 0;
  let mut pump: Box<dyn BitPump> = match c.kind {
    0 => Box::new(BitPumpLSB::new(&src)),
    1 => Box::new(BitPumpMSB::new(&src)),
    2 => Box::new(BitPumpMSB32::new(&src)),
    _ => Box::new(BitPumpJPEG::new(&src)),
  };
  let mut pos = 0usize;
  let mut done = 0;
  for (op, num) in &c.ops {
    let num = (*num % 33) as u32;
    if num == 0 && *op % 4 != 0 {
      continue;
    }
    if pos + 32 > bits.len() {
      break;
    }
    // the JPEG pump keeps at most 32 fresh bits: larger peeks need at most 32
    let want = {
      let mut v = 0u64;
      for i in 0..num as usize {
        if lsb {
          v |= (bits[pos + i] as u64) << i;
        } else {
          v = v << 1 | bits[pos + i] as u64;
        }
      }
      v as u32
    };
    done += 1;
    match op % 4 {
      0 => {
        let got = pump.get_bits(num);
        ensure!(got == want, "get_bits({num}) at {pos}: {got:#x} instead of {want:#x}");
        pos += num as usize;
      }
      1 => {
        let got = pump.peek_bits(num);
        ensure!(got == want, "peek_bits({num}) at {pos}: {got:#x} instead of {want:#x}");
      }
      2 => {
        let got = pump.get_ibits_sextended(num);
        let w = ((want as i64) << (64 - num) >> (64 - num)) as i32;
        ensure!(got == w, "get_ibits_sextended({num}) at {pos}: {got} instead of {w}");
        pos += num as usize;
      }
      _ => {
        let k = (num / 2).max(1);
        pump.peek_bits(num);
        pump.consume_bits(k.min(num));
        pos += k.min(num) as usize;
      }
    }
  }
  Ok(if done >= 4 { nontrivial(format!("pump{}", c.kind)) } else { trivial("short") })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ZeroRun {
  runs: Vec<u8>,
  kind: u8,
}
fn run_zero(c: &ZeroRun) -> Outcome {
  let mut bits = vec![];
  for r in &c.runs {
    bits.extend(std::iter::repeat(0u8).take(*r as usize));
    bits.push(1);
  }
  bits.extend([1u8; 64]);
  while bits.len() % 32 != 0 {
    bits.push(1);
  }
  let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect();
  let bytes = if c.kind == 0 { bytes } else { swap(bytes, 4) };
  let mut p: Box<dyn BitPump> = if c.kind == 0 { Box::new(BitPumpMSB::new(&bytes)) } else { Box::new(BitPumpMSB32::new(&bytes)) };
  for (i, r) in c.runs.iter().enumerate() {
    let got = p.consume_zerobits();
    ensure!(got == *r as u32, "zero run {i}: counted {got} instead of {r}");
    ensure!(p.get_bits(1) == 1, "bit after run {i}");
  }
  Ok(if c.runs.len() > 1 { nontrivial("zeroruns") } else { trivial("zeroruns") })
}

fn main() {
  main_with(
    "C09",
    "cases: generated samples packed by a reference packer (20 sensor layouts, generic 1-16 bit, 16/24/32 bit floats, tone table, plus random operation sequences on the bit readers) and unpacked by the code under test, complete and truncated; widths are whole pixel groups of the layout; non-trivial: samples not constant (bit readers: at least 4 operations); distinct by full case description",
    |r| {
      r.assume("rows are whole pixel groups of the packing (2 pixels for 12 bit, 4 for 10 bit, ...), as in every camera format that uses it");
      let n = r.scale(24000, 400000);
      r.check("layouts", n, || (prop::sample::select(KINDS.to_vec()), 1..=64usize, 1..=64usize, fill(), any::<u64>(), 0..20usize).prop_map(|(kind, groups, h, fill, junk, tail)| Case { kind, groups, h, fill, junk, tail }), run);
      let n = r.scale(12000, 200000);
      r.check("direct", n, || (prop_oneof![Just(16u32), Just(12), Just(10), Just(8), 1..=16u32], any::<bool>(), 1..=90usize, 1..=12usize, 0..=5usize, 1..=7usize, fill(), 0..20usize).prop_map(|(bits, little, groups, h, skip, strip, fill, cut)| Direct { bits, little, groups, h, skip, strip, fill, cut }), run_direct);
      let n = r.scale(6000, 100000);
      r.check("floats", n, || (prop_oneof![Just(16u32), Just(24), Just(32)], any::<bool>(), 1..=70usize, 1..=5usize, 0..=3usize, any::<u64>()).prop_map(|(bits, little, w, h, skip, seed)| FloatCase { bits, little, w, h, skip, seed }), run_float);
      let n = r.scale(1000, 20000);
      r.check("tone_table", n, || (4..=64usize, 1..=16usize, any::<u64>(), prop_oneof![Just(1u16), Just(8), Just(255)]).prop_map(|(w, h, seed, step)| TableCase { w, h, seed, step }), run_table);
      let n = r.scale(20000, 300000);
      r.check("bit_readers", n, || (0..4u8, prop::collection::vec(prop_oneof![3 => any::<u8>(), 1 => Just(0xffu8), 1 => Just(0u8)], 5..200), prop::collection::vec((any::<u8>(), any::<u8>()), 1..60)).prop_map(|(kind, bytes, ops)| PumpCase { kind, bytes, ops }), run_pump);
      let n = r.scale(3000, 60000);
      r.check("zero_runs", n, || (prop::collection::vec(prop_oneof![0..8u8, 0..=130u8], 1..12), 0..2u8).prop_map(|(runs, kind)| ZeroRun { runs, kind }), run_zero);
    },
  )
}
