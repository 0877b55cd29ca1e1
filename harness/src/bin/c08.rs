//! C08: any DNG storage layout decodes to the stored pixels.
use proptest::prelude::*;
use rawler::decoders::RawDecodeParams;
use rawler::rawimage::RawPhotometricInterpretation;
use rawler::rawsource::RawSource;
use rawler::{Orientation, RawImage, RawImageData};
use serde::{Deserialize, Serialize};
use vh::fill::Rng;
use vh::foreign::*;
use vh::picture::Pic;
use vh::tiffmini::{self, Dir, Layout, Val};
use vh::rawgen::{illuminant, rect, Kind, ILLUMINANTS};
use vh::*;

fn decode(file: &[u8]) -> Result<RawImage, String> {
  let src = RawSource::new_from_slice(file);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("decoder rejects the file: {e}"))?;
  dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("decoder fails: {e}"))
}

fn test(c: &Case) -> Outcome {
  let (file, e) = build(c);
  let img = decode(&file)?;
  let spp = c.spp();
  ensure_eq!((img.width, img.height, img.cpp), (c.w, c.h, spp), "dimensions");
  let lw = c.w * spp;
  if c.float {
    let RawImageData::Float(v) = &img.data else { return Err("float image decoded as integer".into()) };
    let want = c.fbits();
    ensure!(v.len() == want.len(), "{} samples instead of {}", v.len(), want.len());
    for i in 0..v.len() {
      let w = fval(want[i], c.bits);
      let ok = if w.is_nan() { v[i].is_nan() } else { v[i].to_bits() == (w as f32).to_bits() };
      ensure!(ok, "sample at column {}, row {} is {} instead of {w} (bits {:#x})", i % lw, i / lw, v[i], want[i]);
    }
  } else {
    let RawImageData::Integer(v) = &img.data else { return Err("integer image decoded as float".into()) };
    let want = c.ints();
    match c.table() {
      None => {
        if let Some(m) = dngmini::first_diff(v, &want, lw) {
          return Err(m);
        }
      }
      Some(t) => {
        ensure!(v.len() == want.len(), "{} samples instead of {}", v.len(), want.len());
        for i in 0..v.len() {
          let at = |k: i64| t[(k.max(0) as usize).min(t.len() - 1)] as i64;
          let k = want[i] as i64;
          let (lo, ce, hi) = (at(k - 1), at(k), at(k + 1));
          let delta = hi - lo;
          // dithered between the neighbouring table entries
          let min = (ce - (delta + 2) / 4 - 1).max(0);
          let max = (ce + delta / 4 + 1).max(if ce - (delta + 2) / 4 <= 0 { delta / 2 + 1 } else { 0 }).min(65535);
          ensure!((min..=max).contains(&(v[i] as i64)), "linearised sample {} (column {}, row {}) is {}, table entry is {ce} ({lo}..{hi})", want[i], i % lw, i / lw, v[i]);
        }
      }
    }
  }
  ensure_eq!(img.active_area, e.active.map(rect), "active area");
  ensure_eq!(img.crop_area, e.crop.map(rect), "crop area");
  ensure_eq!(img.whitelevel.0, e.white, "white level");
  let a = e.active.unwrap_or((0, 0, c.w, c.h));
  let b = &img.blacklevel;
  for y in a.1..(a.1 + a.3).min(a.1 + 13) {
    for x in a.0..(a.0 + a.2).min(a.0 + 13) {
      for k in 0..spp {
        let got = b.levels[((y % b.height) * b.width + x % b.width) * b.cpp + k.min(b.cpp - 1)].as_f32() as f64;
        let want = e.blacks.as_ref().map_or(0.0, |(bw, bh, v)| v[(((y - a.1) % bh) * bw + (x - a.0) % bw) * spp + k]);
        ensure!((got - want).abs() <= 1e-6 * want.abs().max(1.0), "black level at ({x},{y}) channel {k} is {got} instead of {want}");
      }
      if let (RawPhotometricInterpretation::Cfa(cc), true) = (&img.photometric, c.kind.pattern().is_some()) {
        ensure!(cc.cfa.color_at(y, x) == c.kind.color_at(x, y) as usize, "colour at ({x},{y}) is {} instead of {}", cc.cfa.color_at(y, x), c.kind.color_at(x, y));
      }
    }
  }
  let pi_ok = match c.kind {
    Kind::Mono => matches!(img.photometric, RawPhotometricInterpretation::BlackIsZero),
    Kind::Linear1 | Kind::Linear3 => matches!(img.photometric, RawPhotometricInterpretation::LinearRaw),
    _ => matches!(img.photometric, RawPhotometricInterpretation::Cfa(_)),
  };
  ensure!(pi_ok, "photometric interpretation {:?}", img.photometric);
  if let Some(o) = c.orientation {
    ensure_eq!(img.orientation, Orientation::from_u16(o), "orientation");
  }
  if c.neutral {
    for (g, w) in img.wb_coeffs.iter().zip([1.0 / 0.473, 1.0, 1.6]) {
      ensure!((*g as f64 - w).abs() < 1e-5, "white balance {:?}", img.wb_coeffs);
    }
  }
  let ms: Vec<(u16, u64)> = c.mats.iter().take(2).map(|(i, s)| (ILLUMINANTS[*i as usize % 20], *s)).collect();
  for (k, (code, s)) in ms.iter().enumerate() {
    if k == 0 && ms.len() == 2 && ms[1].0 == *code {
      continue;
    }
    let Some(m) = img.color_matrix.get(&illuminant(*code)) else { return Err(format!("matrix for illuminant {code} missing")) };
    let w = mat(*s);
    ensure!(m.len() == 9 && m.iter().zip(w).all(|(a, b)| (*a as f64 - b as f64 / 10000.0).abs() < 1e-6), "matrix for illuminant {code}: {m:?} instead of {w:?}/10000");
  }
  let lab = format!(
    "{}{} {}{}",
    if c.float { "float" } else { "int" },
    c.bits,
    match c.comp {
      Comp::None => "plain",
      Comp::Ljpeg(_) => "ljpeg",
      Comp::Deflate(_) => "deflate",
    },
    if c.tile.is_some() { " tiles" } else { " strips" }
  );
  Ok(if c.fill.is_flat() { trivial(lab) } else { nontrivial(lab) })
}

// ---- lossy JPEG ---------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lossy {
  /// linear RGB, linear, mosaic, monochrome with the general code of JPEG
  kind: u8,
  w: usize,
  h: usize,
  tile: Option<(u8, u8)>,
  big: bool,
  smooth: bool,
  seed: u64,
}
fn lossy_case() -> impl Strategy<Value = Lossy> {
  (0..4u8, 1..=130usize, 1..=90usize, prop::option::of((1..=5u8, 1..=5u8)), any::<bool>(), any::<bool>(), any::<u64>()).prop_map(|(kind, w, h, tile, big, smooth, seed)| Lossy { kind, w, h, tile, big, smooth, seed })
}
fn lossy(c: &Lossy) -> Outcome {
  let mut r = Rng::new(c.seed);
  let spp = if c.kind == 0 { 3 } else { 1 };
  let mut d = Dir::new();
  d.set(254, Val::long(&[0])).set(256, Val::long(&[c.w as u32])).set(257, Val::long(&[c.h as u32])).set(258, Val::short(&vec![8; spp])).set(277, Val::short(&[spp as u16]));
  d.set(259, Val::short(&[if c.kind == 3 { 7 } else { 34892 }])).set(262, Val::short(&[[34892, 34892, 32803, 1][c.kind as usize]]));
  if c.kind == 2 {
    d.set(33421, Val::short(&[2, 2])).set(33422, Val::byte(&[0, 1, 1, 2]));
  }
  let rows = 1 + r.below(c.h as u64) as usize;
  let (tw, th) = c.tile.map_or((c.w, rows), |(a, b)| (16 * a as usize, 16 * b as usize));
  let mut want = vec![0u16; c.w * c.h * spp];
  let mut parts = vec![];
  for y0 in (0..c.h).step_by(th) {
    for x0 in (0..c.w).step_by(tw) {
      let rows = if c.tile.is_some() { th } else { th.min(c.h - y0) };
      let (b, s) = Pic { w: tw as u32, h: rows as u32, jpeg: true, gray: spp == 1, smooth: c.smooth, seed: r.next() }.coded();
      for y in 0..rows.min(c.h - y0) {
        for x in 0..tw.min(c.w - x0) * spp {
          want[((y0 + y) * c.w + x0) * spp + x] = s.px[y * tw * spp + x] as u16;
        }
      }
      parts.push(b);
    }
  }
  let n = parts.len();
  if c.tile.is_some() {
    d.set(322, Val::short(&[tw as u16])).set(323, Val::short(&[th as u16]));
    d.blobs.push((324, 325, parts));
  } else {
    d.set(278, Val::short(&[th as u16]));
    d.blobs.push((273, 279, parts));
  }
  let mut root = if r.bool() {
    d
  } else {
    let mut o = Dir::new();
    o.set(254, Val::long(&[1]));
    o.subs.push((330, vec![d]));
    o
  };
  root.set(271, Val::ascii("Maker")).set(272, Val::ascii("Model")).set(50706, Val::byte(&[1, 4, 0, 0])).set(50707, Val::byte(&[1, 4, 0, 0])).set(50708, Val::ascii("Maker Model"));
  root.set(50721, Val::srational(&[(1, 1), (0, 1), (0, 1), (0, 1), (1, 1), (0, 1), (0, 1), (0, 1), (1, 1)])).set(50778, Val::short(&[21]));
  let seed = r.next();
  let file = tiffmini::build(&[root], Layout { big: c.big, magic: 42, shuffle: if seed % 3 == 0 { 0 } else { seed >> 8 }, gaps: seed % 2 == 0 });
  let l = format!("{}x{} {}", c.w, c.h, ["linear RGB", "linear", "mosaic", "monochrome"][c.kind as usize]);
  let img = decode(&file).map_err(|e| format!("{l}: {e}"))?;
  ensure_eq!((img.width, img.height, img.cpp), (c.w, c.h, spp), "{l}: dimensions");
  let RawImageData::Integer(v) = &img.data else { return Err(format!("{l}: decoded as float")) };
  if let Some(m) = dngmini::first_diff(v, &want, c.w * spp) {
    return Err(format!("{l}: {m}"));
  }
  ensure!(img.whitelevel.0.iter().all(|w| *w == 255), "{l}: white level {:?}", img.whitelevel);
  Ok(nontrivial(format!("lossy {} {} {}", ["linear RGB", "linear", "mosaic", "monochrome"][c.kind as usize], if c.tile.is_some() { "tiles" } else { "strips" }, if n > 1 { "many" } else { "one" })))
}

fn main() {
  main_with("C08", "a case is non-trivial when its samples are not constant", |r| {
    r.assume("lossless JPEG tiles have 10 to 16 bits; packed rows fill whole bytes; linearization tables are non-decreasing; lossy JPEG is compared with what the image crate decodes; JPEG-XL is not generated");
    let n = r.scale(16_000, 400_000);
    r.check("layout", n, case, test);
    let n = r.scale(3_000, 60_000);
    r.check("lossy", n, lossy_case, lossy);
  })
}
