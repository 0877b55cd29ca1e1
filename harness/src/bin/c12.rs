//! C12: developing maps sensor levels and geometry correctly.
use proptest::prelude::*;
use rawler::decoders::RawMetadata;
use rawler::exif::Exif;
use rawler::formats::tiff::Rational;
use rawler::imgop::develop::{Intermediate, ProcessingStep as S, RawDevelop};
use rawler::imgop::sensor::bayer::bilinear::Bilinear4Channel;
use rawler::imgop::sensor::bayer::ppg::PPGDemosaic;
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::sensor::Demosaic;
use rawler::pixarray::{PixF32, PixU16};
use rawler::rawimage::{BlackLevel, RawPhotometricInterpretation, WhiteLevel};
use rawler::{Orientation, RawImage, RawImageData};
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use vh::fill::{fill, Fill, Rng};
use vh::rawgen::*;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Levels {
  /// 0: one level, 1: 2x2, 2: whole pattern, 3: 1x2, 4: 2x1
  shape: u8,
  range: u8,
  seed: u64,
  /// one white level for all instead of one per channel
  one_white: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  pix: Pix,
  lv: Levels,
  active: Option<FracRect>,
  crop: Option<FracRect>,
  steps: u8,
  orientation: u16,
}

fn levels() -> impl Strategy<Value = Levels> {
  (0..5u8, 0..3u8, any::<u64>(), any::<bool>()).prop_map(|(shape, range, seed, one_white)| Levels { shape, range, seed, one_white })
}
fn small_pix() -> impl Strategy<Value = Pix> {
  (kind(), 1usize..40, 1usize..40, 8..=16u32, prop::bool::weighted(0.2), fill()).prop_map(|(kind, w, h, bps, float, fill)| Pix { kind, w, h, bps, float, fill })
}

impl Levels {
  fn dim(&self, k: Kind) -> (usize, usize) {
    match self.shape {
      0 => (1, 1),
      1 => (2, 2),
      2 => k.pat_dim(),
      3 => (2, 1),
      _ => (1, 2),
    }
  }
  fn blacks(&self, k: Kind, max: u32) -> Vec<(u32, u32)> {
    let (w, h) = self.dim(k);
    let mut r = Rng::new(self.seed);
    (0..w * h * k.cpp())
      .map(|_| match self.range {
        0 => (0, 1),
        1 => (r.below(max as u64 / 2 + 1) as u32, 1),
        _ => {
          let d = 1 + r.below(64) as u32;
          (r.below((max as u64 / 2 + 1) * d as u64) as u32, d)
        }
      })
      .collect()
  }
  fn whites(&self, k: Kind, max: u32) -> Vec<u32> {
    let mut r = Rng::new(self.seed ^ 77);
    let mut one = || max / 2 + 2 + r.below(max as u64 / 2 + 1) as u32;
    let v = one();
    let n = if k.cpp() == 3 && !self.one_white { 3 } else { 1 };
    (0..n).map(|i| if i == 0 { v } else { one() }).collect()
  }
}

/// what is stored at (x, y, channel), its black and its white level
fn model(c: &Case) -> impl Fn(usize, usize, usize) -> (f64, f64, f64) {
  let k = c.pix.kind;
  let max = (1u32 << c.pix.bps) - 1;
  let (bw, bh) = c.lv.dim(k);
  let b = c.lv.blacks(k, max);
  let w = c.lv.whites(k, max);
  let data: Vec<f64> = match image_data(&c.pix) {
    RawImageData::Integer(v) => v.into_iter().map(|v| v as f64).collect(),
    RawImageData::Float(v) => v.into_iter().map(|v| v as f64).collect(),
  };
  let width = c.pix.w;
  move |x, y, ch| {
    let (n, d) = b[((y % bh) * bw + x % bw) * k.cpp() + ch];
    (data[(y * width + x) * k.cpp() + ch], n as f64 / d as f64, *w.get(ch).unwrap_or(&w[0]) as f64)
  }
}

fn image_data(p: &Pix) -> RawImageData {
  if p.float {
    let max = ((1u32 << p.bps) - 1) as f32;
    RawImageData::Float(p.ints().into_iter().map(|v| v as f32 * 1.25 + 0.125 * max / 65535.0).collect())
  } else {
    RawImageData::Integer(p.ints())
  }
}

fn rect_opt(c: &Case) -> (Option<(usize, usize, usize, usize)>, Option<(usize, usize, usize, usize)>) {
  let active = c.active.map(|f| f.within(0, 0, c.pix.w, c.pix.h));
  let a = active.unwrap_or((0, 0, c.pix.w, c.pix.h));
  (active, c.crop.map(|f| f.within(a.0, a.1, a.2, a.3)))
}

fn image(c: &Case) -> RawImage {
  let mut img = c.pix.image();
  let max = (1u32 << c.pix.bps) - 1;
  img.data = image_data(&c.pix);
  let (w, h) = c.lv.dim(c.pix.kind);
  let b: Vec<Rational> = c.lv.blacks(c.pix.kind, max).iter().map(|(n, d)| Rational::new(*n, *d)).collect();
  img.blacklevel = BlackLevel::new(&b, w, h, c.pix.kind.cpp());
  img.whitelevel = WhiteLevel(c.lv.whites(c.pix.kind, max));
  let (a, cr) = rect_opt(c);
  img.active_area = a.map(rect);
  img.crop_area = cr.map(rect);
  img.orientation = Orientation::from_u16(c.orientation);
  img
}

fn want_scaled(v: f64, b: f64, w: f64) -> f64 {
  (v - b).max(0.0) / (w - b)
}
fn near(got: f32, want: f64, scale: f64) -> bool {
  // black levels and differences are held in single precision
  (got as f64 - want).abs() <= 1e-6 * (1.0 + want.abs()) + 3e-7 * scale
}

fn run_scale(c: &Case) -> Outcome {
  let mut img = image(c);
  img.apply_scaling().map_err(|e| format!("scaling fails: {e}"))?;
  let m = model(c);
  let k = c.pix.kind;
  let RawImageData::Float(out) = &img.data else { return Err("scaled image is not float".into()) };
  ensure_eq!(out.len(), c.pix.w * c.pix.h * k.cpp(), "sample count after scaling");
  for y in 0..c.pix.h {
    for x in 0..c.pix.w {
      for ch in 0..k.cpp() {
        let (v, b, w) = m(x, y, ch);
        let want = want_scaled(v, b, w);
        let got = out[(y * c.pix.w + x) * k.cpp() + ch];
        ensure!(near(got, want, v / (w - b)), "({x},{y}) channel {ch}: {v} with black {b} white {w} becomes {got} instead of {want}");
      }
    }
  }
  for l in &img.blacklevel.levels {
    ensure!(l.as_f32() == 0.0, "black level after scaling is {:?}", img.blacklevel);
  }
  ensure!(img.whitelevel.0.iter().all(|w| *w == 1), "white level after scaling is {:?}", img.whitelevel);


  let label = format!("{}{}", if k.pattern().is_some() { "mosaic" } else if k.cpp() == 3 { "linear3" } else { "mono" }, if c.lv.dim(k) != (1, 1) { "/pattern" } else { "" });
  if c.pix.fill.is_flat() {
    Ok(trivial(label))
  } else {
    Ok(nontrivial(label))
  }
}

const STEPS: [S; 5] = [S::Rescale, S::Demosaic, S::CropActiveArea, S::CropDefault, S::SRgb];
fn steps(bits: u8) -> Vec<S> {
  STEPS.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, s)| *s).collect()
}
fn gamma(v: f64) -> f64 {
  if v <= 0.0031308 {
    v * 12.92
  } else {
    1.055 * v.powf(1.0 / 2.4) - 0.055
  }
}

fn flat(i: &Intermediate) -> (usize, usize, usize, Vec<f32>) {
  match i {
    Intermediate::Monochrome(p) => (p.width, p.height, 1, p.data.clone()),
    Intermediate::ThreeColor(p) => (p.width, p.height, 3, p.data.iter().flatten().copied().collect()),
    Intermediate::FourColor(p) => (p.width, p.height, 4, p.data.iter().flatten().copied().collect()),
  }
}

/// Expected image: samples by position, cut out by plain coordinates.
fn expect(c: &Case) -> (usize, usize, usize, Vec<f64>) {
  let st = steps(c.steps);
  let has = |s: S| st.contains(&s);
  let m = model(c);
  let k = c.pix.kind;
  let val = |x: usize, y: usize, ch: usize| {
    let (v, b, w) = m(x, y, ch);
    if has(S::Rescale) {
      want_scaled(v, b, w)
    } else {
      v
    }
  };
  let (active, crop) = rect_opt(c);
  let full = (0, 0, c.pix.w, c.pix.h);
  let first = if has(S::CropActiveArea) { active.unwrap_or(full) } else { full };
  let last = if has(S::CropDefault) { crop.or(active).unwrap_or(full) } else { first };
  let mut out = vec![];
  let cpp;
  if has(S::Demosaic) && k.pattern().is_some() {
    // the demosaicers are judged on their own (C13); here: region and crop
    // (bit for bit the scaled samples, gradient decisions may hang on the last bit)
    let mut img = image(c);
    if has(S::Rescale) {
      img.apply_scaling().expect("scaling");
    }
    let data = img.data.as_f32().into_owned();
    let px = PixF32::new_with(data, c.pix.w, c.pix.h);
    let RawPhotometricInterpretation::Cfa(cfg) = c.pix.photometric() else { unreachable!() };
    let roi = rect(first);
    let (n, flat): (usize, Vec<f32>) = match k {
      Kind::Bayer(_) => (3, PPGDemosaic::new().demosaic(&px, &cfg.cfa, &cfg.colors, roi).data.into_iter().flatten().collect()),
      Kind::XTrans(_) => (3, XTransBilinearDemosaic::new().demosaic(&px, &cfg.cfa, &cfg.colors, roi).data.into_iter().flatten().collect()),
      _ => (4, Bilinear4Channel::new().demosaic(&px, &cfg.cfa, &cfg.colors, roi).data.into_iter().flatten().collect()),
    };
    cpp = n;
    for y in 0..last.3 {
      for x in 0..last.2 {
        let (sx, sy) = (last.0 + x - first.0, last.1 + y - first.1);
        for ch in 0..n {
          out.push(flat[(sy * first.2 + sx) * n + ch] as f64);
        }
      }
    }
  } else {
    cpp = k.cpp();
    for y in 0..last.3 {
      for x in 0..last.2 {
        for ch in 0..cpp {
          out.push(val(last.0 + x, last.1 + y, ch));
        }
      }
    }
  }
  if has(S::SRgb) {
    out.iter_mut().for_each(|v| *v = gamma(*v));
  }
  (last.2, last.3, cpp, out)
}

fn label(c: &Case) -> Cls {
  let (a, cr) = rect_opt(c);
  let k = c.pix.kind;
  let l = format!("{}{}{}", if k.pattern().is_some() { if c.steps & 2 != 0 { "demosaic" } else { "mosaic" } } else if k.cpp() == 3 { "linear3" } else { "mono" }, if a.is_some() { "/active" } else { "" }, if cr.is_some() { "/crop" } else { "" });
  if c.pix.fill.is_flat() || (a.is_none() && cr.is_none()) {
    trivial(l)
  } else {
    nontrivial(l)
  }
}

fn fits(c: &Case) -> bool {
  // the 4 channel demosaic needs a whole pattern cell
  let (a, _) = rect_opt(c);
  let a = if c.steps & 4 != 0 { a.unwrap_or((0, 0, c.pix.w, c.pix.h)) } else { (0, 0, c.pix.w, c.pix.h) };
  !matches!(c.pix.kind, Kind::Rgbe | Kind::Cygm) || c.steps & 2 == 0 || (a.2 >= 2 && a.3 >= 2)
}

fn run_pipeline(c: &Case) -> Outcome {
  if !fits(c) {
    return Ok(trivial("too small"));
  }
  let img = image(c);
  let before = format!("{:?}", img.data);
  let got = RawDevelop::new_with(&steps(c.steps)).develop_intermediate(&img).map_err(|e| format!("develop fails: {e}"))?;
  ensure!(before == format!("{:?}", img.data), "develop changes its input");
  let g = flat(&got);
  ensure_eq!((got.dim().w, got.dim().h), (g.0, g.1), "dim() of the result");
  let w = expect(c);
  let (a, cr) = rect_opt(c);
  ensure!((g.0, g.1, g.2) == (w.0, w.1, w.2), "result is {}x{}x{} instead of {}x{}x{} (steps {:?}, active {a:?}, crop {cr:?})", g.0, g.1, g.2, w.0, w.1, w.2, steps(c.steps));
  ensure_eq!(g.3.len(), w.3.len(), "sample count");
  let tol = if c.steps & 16 != 0 { 3e-5 } else { 3e-6 };
  for i in 0..g.3.len() {
    ensure!((g.3[i] as f64 - w.3[i]).abs() <= tol * (1.0 + w.3[i].abs()), "({},{}) channel {} is {} instead of {} (steps {:?}, active {a:?}, crop {cr:?})", i / w.2 % w.0, i / w.2 / w.0, i % w.2, g.3[i], w.3[i], steps(c.steps));
  }
  Ok(label(c))
}

/// TIFF flavour of LZW, written from the TIFF 6.0 text.
fn unlzw(src: &[u8]) -> Result<Vec<u8>, String> {
  let mut out = vec![];
  let mut table: Vec<Vec<u8>> = vec![];
  let reset = |t: &mut Vec<Vec<u8>>| {
    t.clear();
    t.extend((0..256).map(|i| vec![i as u8]));
    t.push(vec![]);
    t.push(vec![]);
  };
  reset(&mut table);
  let mut bits = 9;
  let mut pos = 0;
  let mut prev: Option<Vec<u8>> = None;
  loop {
    if pos + bits > src.len() * 8 {
      return Err("LZW data ends without end code".into());
    }
    let mut code = 0usize;
    for i in 0..bits {
      code = code << 1 | (src[(pos + i) / 8] >> (7 - (pos + i) % 8) & 1) as usize;
    }
    pos += bits;
    if code == 257 {
      return Ok(out);
    }
    if code == 256 {
      reset(&mut table);
      bits = 9;
      prev = None;
      continue;
    }
    let s = match &prev {
      None => table.get(code).cloned().filter(|s| !s.is_empty()).ok_or("bad first LZW code")?,
      Some(p) => {
        let s = match table.get(code) {
          Some(s) => s.clone(),
          None if code == table.len() => [p.as_slice(), &p[..1]].concat(),
          None => return Err(format!("LZW code {code} beyond table of {}", table.len())),
        };
        table.push([p.as_slice(), &s[..1]].concat());
        s
      }
    };
    out.extend(&s);
    bits = match table.len() {
      0..=510 => 9,
      511..=1022 => 10,
      1023..=2046 => 11,
      _ => 12,
    };
    prev = Some(s);
  }
}

fn run_tiff(c: &Case) -> Outcome {
  if !fits(c) {
    return Ok(trivial("too small"));
  }
  let img = image(c);
  let dev = RawDevelop::new_with(&steps(c.steps));
  let mut exif = Exif::default();
  exif.artist = Some("An Artist".into());
  exif.iso_speed_ratings = Some(200);
  let md = RawMetadata { exif, make: "Make".into(), model: "Model".into(), lens: None, unique_image_id: None, rating: None };
  let mut out = Cursor::new(Vec::new());
  dev.develop(&img, &md, &mut out).map_err(|e| format!("develop fails: {e}"))?;
  let out = out.into_inner();
  let p = vh::tiffmini::parse(&out)?;
  let d = p.root();
  let w = expect(c);
  ensure_eq!((d.req(256)?.uint(0) as usize, d.req(257)?.uint(0) as usize), (w.0, w.1), "size in the TIFF");
  ensure_eq!(d.req(277)?.uint(0) as usize, w.2, "SamplesPerPixel");
  ensure_eq!(d.req(258)?.uints(), vec![16; w.2], "BitsPerSample");
  ensure_eq!(d.req(259)?.uint(0), 5, "Compression");
  ensure_eq!(d.uint(317, 1), 1, "Predictor");
  ensure_eq!(d.req(262)?.uint(0), if w.2 == 1 { 1 } else { 2 }, "PhotometricInterpretation");
  ensure_eq!(d.req(274)?.uint(0) as u16, img.orientation.to_u16(), "Orientation");
  ensure_eq!(d.req(271)?.text(), "Verif", "Make");
  ensure_eq!(d.req(272)?.text(), "Model 1", "Model");
  ensure_eq!(d.req(315)?.text(), "An Artist", "Artist");
  let exif = d.subs.get(&34665).and_then(|l| l.first()).ok_or("no EXIF directory")?;
  ensure_eq!(exif.req(34855)?.uint(0), 200, "ISO");
  let rows = d.req(278)?.uint(0) as usize;
  let offs = d.req(273)?.uints();
  let lens = d.req(279)?.uints();
  ensure_eq!(offs.len(), w.1.div_ceil(rows), "strip count");
  ensure_eq!(lens.len(), offs.len(), "strip byte counts");
  let mut samples: Vec<u16> = vec![];
  for (i, (o, l)) in offs.iter().zip(&lens).enumerate() {
    let src = out.get(*o as usize..*o as usize + *l as usize).ok_or("strip outside the file")?;
    let b = unlzw(src)?;
    let n = rows.min(w.1 - i * rows) * w.0 * w.2 * 2;
    ensure_eq!(b.len(), n, "bytes in strip {i}");
    samples.extend(b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])));
  }
  ensure_eq!(samples.len(), w.3.len(), "sample count");
  for i in 0..samples.len() {
    let want = (w.3[i].clamp(0.0, 1.0) * 65535.0).floor();
    ensure!((samples[i] as f64 - want).abs() <= 3.0, "sample {i} is {} instead of {want}", samples[i]);
  }
  let img16 = dev.develop_intermediate(&img).map_err(|e| e.to_string())?.to_dynamic_image().ok_or("no dynamic image")?;
  ensure_eq!((img16.width() as usize, img16.height() as usize), (w.0, w.1), "size of the dynamic image");
  let raw: Vec<u16> = match img16 {
    image::DynamicImage::ImageLuma16(i) => i.into_raw(),
    image::DynamicImage::ImageRgb16(i) => i.into_raw(),
    image::DynamicImage::ImageRgba16(i) => i.into_raw(),
    _ => return Err("unexpected dynamic image type".into()),
  };
  ensure!(raw == samples, "dynamic image and TIFF differ");
  Ok(label(c))
}

// ---- black level from masked areas ------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Masked {
  pat: u8,
  w: usize,
  h: usize,
  border: [u8; 4],
  horiz: Option<(u8, u8)>,
  vert: Option<(u8, u8)>,
  fill: Fill,
  /// most photosites read nothing, one in so many reads a little
  dark: Option<u16>,
}
fn run_masked(c: &Masked) -> Outcome {
  let (w, h) = (c.w, c.h);
  let pix = Pix { kind: Kind::Bayer(c.pat), w, h, bps: 14, float: false, fill: c.fill.clone() };
  let mut cam = pix.camera();
  let b: Vec<usize> = c.border.iter().map(|v| *v as usize).collect();
  cam.active_area = Some([b[0], b[1], b[2], b[3]]);
  let span = |v: (u8, u8), n: usize| {
    let s = v.0 as usize % (n - 2);
    (s, 2 + v.1 as usize % (n - s - 1))
  };
  let hz = c.horiz.map(|v| span(v, h));
  let vt = c.vert.map(|v| span(v, w));
  cam.blackareah = hz;
  cam.blackareav = vt;
  let mut data = pix.ints();
  if let Some(k) = c.dark {
    let mut r = Rng::new(k as u64 ^ 0xda4c);
    data.iter_mut().for_each(|v| *v = if r.below(k as u64 + 1) == 0 { 1 + r.below(3) as u16 } else { 0 });
  }
  let other = RawImage::new(cam.clone(), PixU16::new_with(data.clone(), w, h), 1, [1.0; 4], pix.photometric(), None, Some(WhiteLevel::new_bits(14, 1)), false);
  let img = RawImage::new_with_data(cam, RawImageData::Integer(data.clone()), w, h, 1, [1.0; 4], pix.photometric(), None, Some(WhiteLevel::new_bits(14, 1)), false);
  ensure!(other.blacklevel.levels == img.blacklevel.levels && other.blackareas == img.blackareas && other.active_area == img.active_area, "the two ways to make an image differ: {:?} and {:?}", other.blacklevel, img.blacklevel);
  let a = img.active_area.ok_or("active area missing")?;
  ensure_eq!((a.p.x, a.p.y, a.d.w, a.d.h), (b[0], b[1], w - b[0] - b[2], h - b[1] - b[3]), "active area of the camera borders");
  // masked rows span the active width, masked columns the active height
  let mut sum = [(0f64, 0f64); 4];
  let mut add = |x: usize, y: usize| {
    let i = (y % 2) * 2 + x % 2;
    sum[i].0 += data[y * w + x] as f64;
    sum[i].1 += 1.0;
  };
  if let Some((s, n)) = hz {
    for y in s..s + n {
      for x in b[0]..w - b[2] {
        add(x, y);
      }
    }
  }
  if let Some((s, n)) = vt {
    for y in b[1]..h - b[3] {
      for x in s..s + n {
        add(x, y);
      }
    }
  }
  let bl = &img.blacklevel;
  if hz.is_none() && vt.is_none() {
    ensure!(bl.levels.iter().all(|l| l.as_f32() == 0.0), "black level without masked area: {bl:?}");
    return Ok(trivial("no masked area"));
  }
  ensure_eq!((bl.width, bl.height, bl.cpp), (2, 2, 1), "black level pattern");
  for i in 0..4 {
    let want = sum[i].0 / sum[i].1;
    ensure!((bl.levels[i].as_f32() as f64 - want).abs() <= 1e-5 * want + 1e-6, "black level {i} is {} instead of the mean {want} of the masked photosites", bl.levels[i].as_f32());
  }
  Ok(nontrivial(format!("{}{}", if hz.is_some() { "rows" } else { "" }, if vt.is_some() { "cols" } else { "" })))
}

// ---- rotated sensor -----------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fuji {
  pat: u8,
  w: usize,
  h: usize,
  t: usize,
  alt: bool,
  fill: Fill,
}
fn run_fuji(c: &Fuji) -> Outcome {
  let pix = Pix { kind: Kind::Bayer(c.pat), w: c.w, h: c.h, bps: 14, float: false, fill: c.fill.clone() };
  let mut img = pix.image();
  img.whitelevel = WhiteLevel(vec![16384]);
  img.fuji_rotation_width = Some(c.t);
  if c.alt {
    img.camera.hints.push("fuji_rotate_90cw".into());
  }
  let get = |s: &[S]| -> Result<(usize, usize, Vec<[f32; 3]>), String> {
    match RawDevelop::new_with(s).develop_intermediate(&img).map_err(|e| e.to_string())? {
      Intermediate::ThreeColor(p) => Ok((p.width, p.height, p.data)),
      _ => Err("not three colours".into()),
    }
  };
  let (mut sw, mut sh, mut src) = get(&[S::Rescale, S::Demosaic])?;
  ensure_eq!((sw, sh), (c.w, c.h), "size without rotation");
  if c.alt {
    // quarter turn clockwise
    let mut r = vec![[0.0; 3]; sw * sh];
    for y in 0..sh {
      for x in 0..sw {
        r[x * sh + (sh - 1 - y)] = src[y * sw + x];
      }
    }
    src = r;
    std::mem::swap(&mut sw, &mut sh);
  }
  let (ow, oh, out) = get(&[S::Rescale, S::Demosaic, S::FujiRotate])?;
  let r2 = std::f64::consts::SQRT_2;
  let mut want = [(c.t as f64 * r2).floor() as usize, ((sw - c.t) as f64 * r2).floor() as usize];
  want.sort();
  ensure_eq!((ow, oh), (want[1], want[0]), "size of the upright image");
  let mut checked = 0;
  for y in 0..oh {
    for x in 0..ow {
      let dx = x as f64 - ow as f64 / 2.0;
      let dy = y as f64 - oh as f64 / 2.0;
      let fx = (dx + dy) / r2 + sw as f64 / 2.0;
      let fy = (dy - dx) / r2 + sh as f64 / 2.0;
      if fx < 0.0 || fy < 0.0 || fx.floor() + 1.0 >= sw as f64 || fy.floor() + 1.0 >= sh as f64 {
        continue;
      }
      let (x0, y0) = (fx.floor() as usize, fy.floor() as usize);
      let (ax, ay) = (fx - x0 as f64, fy - y0 as f64);
      for ch in 0..3 {
        let p = |yy: usize, xx: usize| src[yy * sw + xx][ch] as f64;
        let v = (p(y0, x0) * (1.0 - ax) + p(y0, x0 + 1) * ax) * (1.0 - ay) + (p(y0 + 1, x0) * (1.0 - ax) + p(y0 + 1, x0 + 1) * ax) * ay;
        let g = out[y * ow + x][ch] as f64;
        ensure!((g - v).abs() < 1e-4, "upright image channel {ch} at ({x},{y}) is {g} instead of {v}");
      }
      checked += 1;
    }
  }
  if checked > 4 && !c.fill.is_flat() {
    Ok(nontrivial(if c.alt { "quarter turn" } else { "plain" }))
  } else {
    Ok(trivial("small"))
  }
}

fn main() {
  main_with(
    "C12",
    "cases: generated raw images (kind, size, level pattern, areas, steps) scaled and developed, compared per photosite with a scalar model; masked area means; rotated sensors; non-trivial: content not constant and (pipeline) an active area or crop is set; distinct by full case description",
    |r| {
      r.assume("areas lie inside the image and the crop inside the active area, as decoders provide them; white level above black level");
      let case = || {
        (small_pix(), levels(), prop::option::weighted(0.7, frac_rect()), prop::option::weighted(0.6, frac_rect()), any::<u8>(), 1..=8u16)
          .prop_map(|(pix, lv, active, crop, steps, orientation)| Case { pix, lv, active, crop, steps: steps & 31, orientation })
      };
      let n = r.scale(20000, 400000);
      r.check("levels", n, case, run_scale);
      let n = r.scale(20000, 400000);
      r.check("pipeline", n, case, run_pipeline);
      // the file always comes from scaled data
      let n = r.scale(5000, 100000);
      r.check("tiff", n, move || case().prop_map(|mut c| { c.steps |= 1; if c.pix.w % 7 == 0 { c.pix.h += 250; } c }), run_tiff);
      let n = r.scale(4000, 80000);
      r.check(
        "masked",
        n,
        || {
          let size = prop_oneof![4 => (12usize..50, 12usize..50), 1 => (50usize..300, 50usize..300)];
          let dark = prop::option::weighted(0.25, 0..3000u16);
          (0..4u8, size, prop::array::uniform4(0..5u8), prop::option::weighted(0.7, any::<(u8, u8)>()), prop::option::weighted(0.7, any::<(u8, u8)>()), fill(), dark)
            .prop_map(|(pat, (w, h), border, horiz, vert, fill, dark)| Masked { pat, w, h, border, horiz, vert, fill, dark })
        },
        run_masked,
      );
      let n = r.scale(1500, 30000);
      r.check("rotated", n, || (0..4u8, 10usize..40, 10usize..40, any::<u16>(), any::<bool>(), fill()).prop_map(|(pat, w, h, t, alt, fill)| { let m = if alt { h } else { w }; Fuji { pat, w, h, t: 1 + t as usize % (m - 1), alt, fill } }), run_fuji);
    },
  )
}
