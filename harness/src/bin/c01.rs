//! C01: lossless JPEG encoder output decodes to the encoded samples, with the
//! project's decoder and with an independent strict decoder.
use proptest::prelude::*;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::ljpeg92::LjpegCompressor;
use serde::{Deserialize, Serialize};
use vh::fill::{fill, Fill, Rng};
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Content {
  Plain(Fill),
  /// Differences whose magnitude classes occur with Fibonacci-like frequencies:
  /// forces very long Huffman codes (and the 16 bit length limit).
  Skewed { seed: u64, base: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  w: usize,
  h: usize,
  comps: usize,
  bits: u8,
  predictor: u8,
  padding: usize,
  extra_rows: usize,
  content: Content,
}

fn skewed(seed: u64, base: u8, w: usize, h: usize, line: usize, comps: usize, max: i64, bits: u8) -> Vec<u16> {
  // row-wise walk: predictor 1 sees exactly these differences (except first column)
  let mut r = Rng::new(seed);
  let mut perm: Vec<u32> = (0..=bits.min(16) as u32).collect();
  for i in (1..perm.len()).rev() {
    if base & 1 == 1 {
      perm.swap(i, r.below(i as u64 + 1) as usize);
    }
  }
  let mut pool: Vec<u32> = vec![];
  let (mut a, mut b) = (1usize, 1usize);
  for s in &perm {
    for _ in 0..a {
      pool.push(*s);
    }
    (a, b) = (b, a + b);
    if pool.len() > w * h {
      break;
    }
  }
  for i in (1..pool.len()).rev() {
    pool.swap(i, r.below(i as u64 + 1) as usize);
  }
  let _ = b;
  let mut out = vec![0u16; h * line];
  let mut pi = 0;
  for row in 0..h {
    let mut prev: Vec<i64> = (0..comps).map(|c| if row == 0 { 1 << (bits - 1) } else { out[(row - 1) * line + c] as i64 }).collect();
    for col in 0..w {
      for c in 0..comps {
        let s = pool[pi % pool.len()];
        pi += 1;
        let mag = if s == 0 { 0 } else { r.range(1 << (s - 1), (1 << s) - 1) };
        let v = prev[c];
        let nv = if r.bool() { v + mag } else { v - mag };
        let nv = if nv > max || nv < 0 { if v - mag >= 0 { v - mag } else { v + mag } } else { nv };
        let nv = if bits == 16 { nv.rem_euclid(65536) } else { nv.clamp(0, max) };
        out[row * line + col * comps + c] = nv as u16;
        prev[c] = nv;
      }
    }
  }
  out
}

fn strat(maxw: usize, maxh: usize) -> BoxedStrategy<Case> {
  let content = prop_oneof![
    5 => fill().prop_map(Content::Plain),
    1 => (any::<u64>(), any::<u8>()).prop_map(|(seed, base)| Content::Skewed { seed, base }),
  ];
  (
    prop_oneof![4 => 1..=12usize, 4 => 1..=maxw],
    prop_oneof![4 => 1..=6usize, 4 => 1..=maxh],
    1..=4usize,
    prop_oneof![6 => 10..=16u8, 2 => Just(16u8), 1 => 2..=9u8],
    1..=7u8,
    prop_oneof![3 => Just(0usize), 1 => 1..=5usize],
    prop_oneof![5 => Just(0usize), 1 => 1..=2usize],
    content,
  )
    .prop_map(|(w, h, comps, bits, predictor, padding, extra_rows, content)| Case { w, h, comps, bits, predictor, padding, extra_rows, content })
    .boxed()
}

fn run(c: &Case) -> Outcome {
  let line = (c.w + c.padding) * c.comps;
  let max = ((1u32 << c.bits) - 1) as u16;
  let mut img = match &c.content {
    Content::Plain(f) => f.u16s(line * (c.h + c.extra_rows), max),
    Content::Skewed { seed, base } => {
      let mut v = skewed(*seed, *base, c.w, c.h, line, c.comps, max as i64, c.bits);
      v.resize(line * (c.h + c.extra_rows), 0);
      v
    }
  };
  // Padding holds data that must not reach the output.
  let mut r = Rng::new(0xabc);
  for row in 0..c.h {
    for k in c.w * c.comps..line {
      img[row * line + k] = (r.next() as u16) & max;
    }
  }
  let want: Vec<u16> = (0..c.h).flat_map(|r| img[r * line..r * line + c.w * c.comps].to_vec()).collect();
  let enc = LjpegCompressor::new(&img, c.w, c.h, c.comps, c.bits, c.predictor, 0, c.padding)
    .map_err(|e| format!("encoder rejects valid image: {e}"))?
    .encode()
    .map_err(|e| format!("encoder failed: {e}"))?;
  let d = ljref::decode(&enc).map_err(|e| format!("encoder output is not a valid lossless JPEG stream: {e}"))?;
  ensure_eq!((d.w, d.h, d.ncomp, d.precision, d.predictor, d.pt), (c.w, c.h, c.comps, c.bits as u32, c.predictor, 0), "frame header");
  if d.data != want {
    let i = d.data.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
    return Err(format!("independent decoder: sample {i} is {} instead of {}", d.data[i], want[i]));
  }
  if c.bits >= 10 {
    let dec = LjpegDecompressor::new(&enc).map_err(|e| format!("own decoder rejects stream: {e}"))?;
    ensure_eq!((dec.width(), dec.height(), dec.components()), (c.w * c.comps, c.h, c.comps), "decoder geometry");
    let mut out = vec![0u16; want.len()];
    dec.decode(&mut out, 0, c.w * c.comps, c.w * c.comps, c.h, false).map_err(|e| format!("own decoder failed: {e}"))?;
    if out != want {
      let i = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
      return Err(format!("round trip: sample {i} (of {}x{}x{}) is {} instead of {}", c.w, c.h, c.comps, out[i], want[i]));
    }
  }
  let flat = matches!(&c.content, Content::Plain(f) if f.is_flat());
  let label = format!("p{} c{} {}{}", c.predictor, c.comps, if c.bits == 16 { "16bit" } else if c.bits < 10 { "<10bit" } else { "10-15bit" }, if d.max_code_len >= 14 { " longcodes" } else { "" });
  Ok(if flat || c.w * c.h < 4 { trivial(label) } else { nontrivial(label) })
}

/// Rejected parameters must be an error, never a wrong stream.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad {
  w: usize,
  h: usize,
  comps: usize,
  bits: u8,
  predictor: u8,
  short: usize,
}
fn run_bad(b: &Bad) -> Outcome {
  let need = b.w * b.h * b.comps;
  let len = need.saturating_sub(b.short);
  let img = vec![0u16; len];
  let bad_len = len < need;
  let bad = bad_len || !(2..=16).contains(&b.bits) || !(1..=7).contains(&b.predictor) || b.w > 65535 || b.h > 65535;
  let r = LjpegCompressor::new(&img, b.w, b.h, b.comps, b.bits, b.predictor, 0, 0);
  ensure!(r.is_err() == bad, "parameters {:?}: encoder says {}, expected {}", b, if r.is_err() { "error" } else { "ok" }, if bad { "error" } else { "ok" });
  Ok(if bad { nontrivial("rejected") } else { trivial("accepted") })
}

fn main() {
  main_with(
    "C01",
    "cases: generated image (size, 1-4 components, 2-16 bits, predictor 1-7, row padding, content incl. random, extremes, smooth, and skewed distributions reaching 16 bit Huffman codes) encoded by the encoder under test and decoded by both the decoder under test and an independent strict T.81 decoder; non-trivial: image not constant and at least 4 pixels (or, for the parameter sub-check, an invalid parameter set); distinct by full case description",
    |r| {
      let n = r.scale(24000, 400000);
      r.check("roundtrip", n, || strat(70, 24), run);
      let n = r.scale(160, 4000);
      r.check("roundtrip_large", n, || strat(700, 120), run);
      // The Fibonacci distribution needs thousands of samples to exceed 16 bit codes.
      let n = r.scale(240, 4000);
      r.check(
        "longcodes",
        n,
        || {
          (60..=110usize, 60..=110usize, 1..=4usize, 15..=16u8, 1..=1u8, any::<u64>(), any::<u8>())
            .prop_map(|(w, h, comps, bits, predictor, seed, base)| Case { w: w * if comps > 2 { 3 } else { 2 }, h, comps, bits, predictor, padding: 0, extra_rows: 0, content: Content::Skewed { seed, base } })
        },
        run,
      );
      let n = r.scale(2000, 20000);
      r.check(
        "parameters",
        n,
        || {
          (prop_oneof![6 => 1..40usize, 1 => 65530..65540usize], prop_oneof![6 => 1..4usize, 1 => 65530..65540usize], 1..=4usize, 0..=20u8, 0..=10u8, 0..=3usize)
            .prop_filter("size", |t| t.0 * t.1 < 400_000)
            .prop_map(|(w, h, comps, bits, predictor, short)| Bad { w, h, comps, bits, predictor, short })
        },
        run_bad,
      );
    },
  )
}
