//! C02: streams written by an independent lossless JPEG encoder decode exactly.
use proptest::prelude::*;
use rawler::decompressors::ljpeg::{LJpegDecompressor, LjpegDecompressor};
use rawler::decompressors::Decompressor;
use serde::{Deserialize, Serialize};
use vh::fill::{fill, Fill};
use vh::ljref::EncOpts;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  w: usize,
  h: usize,
  n: usize,
  o: EncOpts,
  fill: Fill,
  /// output window: columns (in pixels) and rows left off at the end, x offset, extra stride
  cut_w: usize,
  cut_h: usize,
  x: usize,
  pad: usize,
  trailing: Option<Fill>,
}

fn opts() -> BoxedStrategy<EncOpts> {
  (
    1..=7u8,
    prop_oneof![5 => 10..=16u32, 2 => Just(16u32)],
    prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
    any::<bool>(),
    prop_oneof![Just(0u8), Just(1u8), 2..=200u8],
    0..8u8,
    prop::bool::weighted(0.15),
    any::<bool>(),
  )
    .prop_map(|(predictor, precision, table_seed, shared_table, id_base, extra_segments, dng_bug, pad_ones)| EncOpts {
      predictor,
      precision,
      table_seed,
      shared_table,
      id_base,
      extra_segments,
      dng_bug,
      pad_ones,
    })
    .boxed()
}

fn strat(mw: usize, mh: usize) -> BoxedStrategy<Case> {
  (1..=mw, 1..=mh, 1..=4usize, opts(), fill(), prop_oneof![2 => Just(0usize), 1 => 1..6usize], prop_oneof![2 => Just(0usize), 1 => 1..4usize], prop_oneof![2 => Just(0usize), 1 => 1..9usize], prop_oneof![2 => Just(0usize), 1 => 1..9usize], prop::option::weighted(0.3, fill()))
    .prop_map(|(w, h, n, o, fill, cw, ch, x, pad, trailing)| Case { cut_w: cw.min(w - 1), cut_h: ch.min(h - 1), w, h, n, o, fill, x, pad, trailing })
    .boxed()
}

fn run(c: &Case) -> Outcome {
  let max = ((1u32 << c.o.precision) - 1) as u16;
  let img = c.fill.u16s(c.w * c.h * c.n, max);
  let mut enc = ljref::encode(&img, c.w, c.h, c.n, &c.o);
  if let Some(t) = &c.trailing {
    enc.extend(t.bytes(11));
  }
  let dec = LjpegDecompressor::new_full(&enc, c.o.dng_bug, false).map_err(|e| format!("valid stream rejected: {e}"))?;
  ensure_eq!((dec.width(), dec.height(), dec.components()), (c.w * c.n, c.h, c.n), "geometry");
  let ow = (c.w - c.cut_w) * c.n;
  let oh = c.h - c.cut_h;
  let stride = c.x + ow + c.pad;
  const MARK: u16 = 0xA5C3;
  let mut out = vec![MARK; stride * oh + 7];
  dec.decode(&mut out, c.x, stride, ow, oh, false).map_err(|e| format!("valid stream not decoded: {e}"))?;
  for (i, v) in out.iter().enumerate() {
    let (row, col) = (i / stride, i % stride);
    let want = if row < oh && col >= c.x && col < c.x + ow { img[row * c.w * c.n + (col - c.x)] } else { MARK };
    if *v != want {
      return Err(format!("row {row} column {col} (window {ow}x{oh} at {} of {}x{}x{}): {} instead of {}", c.x, c.w, c.h, c.n, v, want));
    }
  }
  // The line interface must agree, for any number of skipped rows.
  if !c.o.dng_bug {
    let skip = c.cut_h;
    let mut lines = vec![0u16; c.w * c.n * (c.h - skip)];
    LJpegDecompressor::new()
      .decompress(&enc, skip, lines.chunks_exact_mut(c.w * c.n), c.w * c.n)
      .map_err(|e| format!("line interface: {e}"))?;
    ensure!(lines == img[skip * c.w * c.n..], "line interface delivers other samples (skip {skip})");
  }
  let label = format!("p{} c{} {}{}", c.o.predictor, c.n, if c.cut_w + c.cut_h + c.x + c.pad > 0 { "window" } else { "full" }, if c.o.dng_bug { " bug16" } else { "" });
  Ok(if c.fill.is_flat() || c.w * c.h < 4 { trivial(label) } else { nontrivial(label) })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ycc {
  bw: usize,
  bh: usize,
  v: usize,
  o: EncOpts,
  y: Fill,
  cb: Fill,
  cr: Fill,
}
fn run_ycc(c: &Ycc) -> Outcome {
  let (w, h) = (c.bw * 2, c.bh * c.v);
  // sRAW carries at most 15 bit samples: differences do not wrap
  let max = ((1u32 << c.o.precision.min(15)) - 1) as u16;
  let y = c.y.u16s(w * h, max);
  let cb = c.cb.u16s(c.bw * c.bh, max);
  let cr = c.cr.u16s(c.bw * c.bh, max);
  let o = EncOpts { predictor: 1, dng_bug: false, precision: c.o.precision.min(15), ..c.o.clone() };
  let enc = ljref::encode_ycc(&y, &cb, &cr, w, h, c.v, &o);
  let dec = LjpegDecompressor::new(&enc).map_err(|e| format!("valid stream rejected: {e}"))?;
  ensure_eq!((dec.width(), dec.height(), dec.super_h(), dec.super_v()), (w * 3, h, 2, c.v), "geometry");
  let mut out = vec![0u16; w * h * 3];
  dec.decode(&mut out, 0, w * 3, w * 3, h, false).map_err(|e| format!("not decoded: {e}"))?;
  for r in 0..h {
    for k in 0..w {
      let b = (r / c.v) * c.bw + k / 2;
      let want = [y[r * w + k], cb[b], cr[b]];
      let got = &out[(r * w + k) * 3..(r * w + k) * 3 + 3];
      ensure!(got == want, "pixel ({r},{k}): {:?} instead of {:?}", got, want);
    }
  }
  Ok(if c.y.is_flat() { trivial(format!("42{}", c.v)) } else { nontrivial(if c.v == 2 { "4:2:0" } else { "4:2:2" }) })
}

/// Decoding into something larger than the frame is an error, not garbage.
fn run_toolarge(c: &Case) -> Outcome {
  let max = ((1u32 << c.o.precision) - 1) as u16;
  let img = c.fill.u16s(c.w * c.h * c.n, max);
  let enc = ljref::encode(&img, c.w, c.h, c.n, &c.o);
  let dec = LjpegDecompressor::new_full(&enc, c.o.dng_bug, false).map_err(|e| format!("valid stream rejected: {e}"))?;
  let ow = (c.w + c.cut_w) * c.n;
  let oh = c.h + c.cut_h;
  let mut out = vec![0u16; ow * oh];
  let r = dec.decode(&mut out, 0, ow, ow, oh, false);
  ensure!(r.is_err() == (c.cut_w + c.cut_h > 0), "decoding {}x{} into {ow}x{oh}: {:?}", c.w * c.n, c.h, r);
  Ok(if c.cut_w + c.cut_h > 0 { nontrivial("too large") } else { trivial("fits") })
}

fn main() {
  main_with(
    "C02",
    "cases: generated image encoded by an independent T.81 encoder with random canonical Huffman tables (depth up to 16, shared or per component), predictor 1-7, 1-4 components, 10-16 bit, component ids, optional extra segments / grouped DHT / DHT before SOF, 16-bit-difference variant, decoded by the code under test into a random window of a marked buffer; non-trivial: non-constant image of at least 4 pixels; distinct by full case description",
    |r| {
      let n = r.scale(60000, 1000000);
      r.check("decode", n, || strat(60, 20), run);
      let n = r.scale(160, 4000);
      r.check("decode_large", n, || strat(600, 90), run);
      let n = r.scale(4000, 60000);
      r.check("subsampled", n, || (1..=20usize, 1..=10usize, 1..=2usize, opts(), fill(), fill(), fill()).prop_map(|(bw, bh, v, o, y, cb, cr)| Ycc { bw, bh, v, o, y, cb, cr }), run_ycc);
      let n = r.scale(1500, 20000);
      r.check("too_large", n, || strat(30, 10), run_toolarge);
    },
  )
}
