//! C04: rendering metadata survives a DNG write and read, per photosite.
use proptest::prelude::*;
use rawler::decoders::{RawDecodeParams, RawMetadata};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::exif::Exif;
use rawler::formats::tiff::Rational;
use rawler::rawimage::{BlackLevel, RawPhotometricInterpretation, WhiteLevel};
use rawler::rawsource::RawSource;
use rawler::{Orientation, RawImage};
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use vh::dngmini;
use vh::fill::{Fill, Rng};
use vh::rawgen::*;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  kind: Kind,
  w: usize,
  h: usize,
  bps: u32,
  lossless: bool,
  predictor: u8,
  crop_mode: u8,
  active: Option<FracRect>,
  crop: Option<FracRect>,
  /// 0: one level, 1: 2x2, 2: whole colour pattern, 3: two rows, 4: three columns
  black_shape: u8,
  /// 0: 16 bit, 1: beyond 16 bit, 2: fractions
  black_range: u8,
  black_seed: u64,
  white: Vec<u32>,
  wb: Option<[u16; 4]>,
  mats: Vec<(u8, u64)>,
  orientation: Option<u16>,
  masked: Vec<FracRect>,
  scale: Option<[u8; 6]>,
}

fn case() -> impl Strategy<Value = Case> {
  (
    (kind(), 4usize..80, 4usize..80, 10..=16u32, any::<bool>(), 1..=7u8, 0..3u8),
    (prop::option::weighted(0.8, frac_rect()), prop::option::weighted(0.7, frac_rect()), 0..5u8, prop_oneof![4 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)], any::<u64>()),
    (
      prop::collection::vec(prop_oneof![2 => 1..=65535u32, 1 => 65534..=70000u32, 1 => any::<u32>()], 3),
      prop::option::weighted(0.9, prop::array::uniform4(200..8000u16)),
      prop::collection::vec((0..20u8, any::<u64>()), 0..4),
      prop::option::of(1..=8u16),
      prop::collection::vec(frac_rect(), 0..3),
      prop::option::weighted(0.2, prop::array::uniform6(1..=4u8)),
    ),
  )
    .prop_map(|((kind, w, h, bps, lossless, predictor, crop_mode), (active, crop, black_shape, black_range, black_seed), (white, wb, mats, orientation, masked, scale))| Case {
      kind,
      w,
      h,
      bps,
      lossless,
      predictor,
      crop_mode,
      active,
      crop,
      black_shape,
      black_range,
      black_seed,
      white,
      wb,
      mats,
      orientation,
      masked,
      scale,
    })
}

impl Case {
  fn active_rect(&self) -> Option<(usize, usize, usize, usize)> {
    self.active.map(|f| f.within(0, 0, self.w, self.h))
  }
  fn crop_rect(&self) -> Option<(usize, usize, usize, usize)> {
    let a = self.active_rect().unwrap_or((0, 0, self.w, self.h));
    self.crop.map(|f| f.within(a.0, a.1, a.2, a.3))
  }
  fn black_dim(&self) -> (usize, usize) {
    match self.black_shape % 5 {
      0 => (1, 1),
      1 => (2, 2),
      3 => (1, 2),
      4 => (3, 1),
      _ => self.kind.pat_dim(),
    }
  }
  fn blacks(&self) -> Vec<(u32, u32)> {
    let (w, h) = self.black_dim();
    let mut r = Rng::new(self.black_seed);
    (0..w * h * self.kind.cpp())
      .map(|_| match self.black_range {
        0 => (r.below(65536) as u32, 1),
        1 => (r.below(1 << 31) as u32, 1),
        _ => (r.below(100_000) as u32, 1 + r.below(5000) as u32),
      })
      .collect()
  }
  fn black_at(&self, x: usize, y: usize, c: usize) -> f64 {
    let (w, h) = self.black_dim();
    let (n, d) = self.blacks()[((y % h) * w + x % w) * self.kind.cpp() + c];
    n as f64 / d as f64
  }
  fn matrices(&self) -> Vec<(u16, Vec<f32>)> {
    let mut m: Vec<(u16, Vec<f32>)> = vec![];
    for (i, s) in &self.mats {
      let code = ILLUMINANTS[*i as usize % 20];
      if m.iter().any(|(c, _)| *c == code) {
        continue;
      }
      let mut r = Rng::new(*s);
      let n = 3 * self.kind.colors().max(3);
      m.push((code, (0..n).map(|_| r.range(-25000, 25000) as f32 / 10000.0 + r.f32() * 0.0001).collect()));
    }
    m
  }
  fn wbf(&self) -> Option<[f32; 4]> {
    self.wb.map(|w| w.map(|v| v as f32 / 1000.0))
  }
  fn image(&self) -> RawImage {
    let pix = Pix { kind: self.kind, w: self.w, h: self.h, bps: self.bps, float: false, fill: Fill::Random(self.black_seed) };
    let mut img = pix.image();
    let (bw, bh) = self.black_dim();
    let bl: Vec<Rational> = self.blacks().iter().map(|(n, d)| Rational::new(*n, *d)).collect();
    img.blacklevel = BlackLevel::new(&bl, bw, bh, self.kind.cpp());
    img.whitelevel = WhiteLevel::new(self.white[..self.kind.cpp()].to_vec());
    img.wb_coeffs = self.wbf().unwrap_or([f32::NAN; 4]);
    img.active_area = self.active_rect().map(rect);
    img.crop_area = self.crop_rect().map(rect);
    img.color_matrix = self.matrices().into_iter().map(|(c, m)| (illuminant(c), m)).collect();
    img.blackareas = self.masked.iter().map(|f| rect(f.within(0, 0, self.w, self.h))).collect();
    if let Some(s) = self.scale {
      img.camera.default_scale.0 = [[s[0] as u32, s[1] as u32], [s[2] as u32, s[3] as u32]];
      img.camera.best_quality_scale.0 = [s[4] as u32, s[5] as u32];
    }
    img
  }
}

fn write(c: &Case) -> Result<Vec<u8>, String> {
  let img = c.image();
  let mut buf = Cursor::new(Vec::new());
  {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
    let mut f = dng.subframe(0);
    f.raw_image(
      &img,
      [CropMode::Best, CropMode::ActiveArea, CropMode::None][c.crop_mode as usize % 3],
      if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed },
      DngPhotometricConversion::Original,
      c.predictor,
    )
    .map_err(|e| format!("raw_image: {e}"))?;
    f.finalize().map_err(|e| e.to_string())?;
    dng.load_base_tags(&img).map_err(|e| e.to_string())?;
    let md = RawMetadata {
      exif: Exif { orientation: c.orientation, ..Default::default() },
      model: img.clean_model.clone(),
      make: img.clean_make.clone(),
      lens: None,
      unique_image_id: None,
      rating: None,
    };
    dng.load_metadata(&md).map_err(|e| e.to_string())?;
    dng.close().map_err(|e| e.to_string())?;
  }
  Ok(buf.into_inner())
}

type R4 = (usize, usize, usize, usize);
fn close(a: f64, b: f64, tol: f64) -> bool {
  (a - b).abs() <= tol + 1e-6 * b.abs()
}

fn test(c: &Case) -> Outcome {
  let file = write(c)?;
  let p = tiffmini::parse(&file)?;
  p.check_overlap()?;
  let root = p.root();
  let d = dngmini::raw_dir(&p)?;
  let full: R4 = (0, 0, c.w, c.h);
  let (want_active, want_crop): (R4, Option<R4>) = match c.crop_mode % 3 {
    0 => {
      let a = c.active_rect().unwrap_or(full);
      (a, Some(c.crop_rect().unwrap_or(a)))
    }
    1 => {
      let a = c.active_rect().unwrap_or(full);
      (a, Some(a))
    }
    _ => (full, None),
  };
  let cpp = c.kind.cpp();
  // ---- as an independent reader sees it
  let aa = d.req(50829)?.uints();
  ensure_eq!(aa, vec![want_active.1 as u32, want_active.0 as u32, (want_active.1 + want_active.3) as u32, (want_active.0 + want_active.2) as u32], "ActiveArea");
  match want_crop {
    Some(k) => {
      ensure_eq!(d.req(50719)?.nums(), vec![(k.0 - want_active.0) as f64, (k.1 - want_active.1) as f64], "DefaultCropOrigin");
      ensure_eq!(d.req(50720)?.nums(), vec![k.2 as f64, k.3 as f64], "DefaultCropSize");
    }
    None => {
      // no crop: either absent or the full image
      if let Some(v) = d.get(50719) {
        ensure_eq!(v.nums(), vec![0.0, 0.0], "DefaultCropOrigin");
      }
      if let Some(v) = d.get(50720) {
        ensure_eq!(v.nums(), vec![c.w as f64, c.h as f64], "DefaultCropSize");
      }
    }
  }
  ensure_eq!(d.req(50717)?.uints(), c.white[..cpp].to_vec(), "WhiteLevel");
  let rd = d.req(50713)?.uints();
  ensure!(rd.len() == 2, "BlackLevelRepeatDim has {} values", rd.len());
  let (br, bc) = (rd[0] as usize, rd[1] as usize);
  let bl = d.req(50714)?;
  ensure!(bl.count as usize == br * bc * cpp, "{} black levels for {br}x{bc}x{cpp}", bl.count);
  let cfa = if c.kind.pattern().is_some() {
    let dims = d.req(33421)?.uints();
    let pat = d.req(33422)?;
    ensure!(dims.len() == 2 && pat.count == dims[0] * dims[1], "CFA pattern of {} entries for {dims:?}", pat.count);
    let planes = d.req(50710)?.uints();
    let want: Vec<u32> = match c.kind {
      Kind::Cygm => vec![1, 4, 3, 5],
      Kind::Rgbe => vec![0, 1, 2, 3],
      _ => vec![0, 1, 2],
    };
    ensure_eq!(planes, want, "CFAPlaneColor");
    Some((dims[0] as usize, dims[1] as usize, pat.clone()))
  } else {
    None
  };
  let btol = 1e-6;
  for y in want_active.1..want_active.1 + want_active.3 {
    for x in want_active.0..want_active.0 + want_active.2 {
      let (ry, rx) = (y - want_active.1, x - want_active.0);
      for k in 0..cpp {
        let got = bl.num(((ry % br) * bc + rx % bc) * cpp + k);
        let want = c.black_at(x, y, k);
        ensure!(close(got, want, btol), "black level of photosite ({x},{y}) channel {k} is {got} instead of {want}");
      }
      if let Some((rows, cols, pat)) = &cfa {
        let got = pat.uint((ry % rows) * cols + rx % cols);
        let want = c.kind.color_at(x, y) as u32;
        ensure!(got == want, "colour of photosite ({x},{y}) is {got} instead of {want}");
      }
      if x > want_active.0 + 24 {
        break;
      }
    }
    if y > want_active.1 + 24 {
      break;
    }
  }
  if !c.masked.is_empty() {
    let want: Vec<u32> = c.masked.iter().flat_map(|f| {
      let r = f.within(0, 0, c.w, c.h);
      [r.1 as u32, r.0 as u32, (r.1 + r.3) as u32, (r.0 + r.2) as u32]
    }).collect();
    ensure_eq!(d.req(50830)?.uints(), want, "MaskedAreas");
  } else {
    ensure!(d.get(50830).is_none(), "MaskedAreas invented");
  }
  let s = c.scale.unwrap_or([1; 6]).map(|v| v as f64);
  ensure_eq!(d.req(50718)?.nums(), vec![s[0] / s[1], s[2] / s[3]], "DefaultScale");
  ensure_eq!(d.req(50780)?.nums(), vec![s[4] / s[5]], "BestQualityScale");
  if c.lossless {
    ensure_eq!(d.req(258)?.uint(0), c.bps, "BitsPerSample");
  }
  let colour = cpp > 1 || cfa.is_some();
  let ncol = c.kind.colors();
  let ms = c.matrices();
  if colour {
    match c.wbf() {
      Some(wb) => {
        let n = root.req(50728)?;
        ensure!(n.count as usize == ncol, "AsShotNeutral has {} values for {ncol} colours", n.count);
        for i in 0..ncol {
          ensure!(close(n.num(i), 1.0 / wb[i] as f64, 1.1e-5), "AsShotNeutral[{i}] is {} for coefficient {}", n.num(i), wb[i]);
        }
      }
      None => ensure!(root.get(50728).is_none(), "AsShotNeutral invented"),
    }
    let mut stored: Vec<u16> = vec![];
    for (ill, mat) in [(50778u16, 50721u16), (50779, 50722), (52529, 52531)] {
      ensure!(root.get(ill).is_some() == root.get(mat).is_some(), "matrix without illuminant (tags {ill}, {mat})");
      let Some(m) = root.get(mat) else { continue };
      let code = root.req(ill)?.uint(0) as u16;
      ensure!(!stored.contains(&code), "illuminant {code} stored twice");
      stored.push(code);
      let Some((_, want)) = ms.iter().find(|(c, _)| *c == code) else { return Err(format!("matrix for illuminant {code} invented")) };
      ensure!(m.count as usize == want.len(), "ColorMatrix has {} values instead of {}", m.count, want.len());
      for (i, w) in want.iter().enumerate() {
        ensure!(close(m.num(i), *w as f64, 1.01e-4), "matrix for illuminant {code}, element {i}: {} instead of {w}", m.num(i));
      }
    }
    if !ms.is_empty() {
      ensure!(!stored.is_empty(), "no colour matrix stored");
      for need in [17u16, 21] {
        if ms.iter().any(|(c, _)| *c == need) {
          ensure!(stored.contains(&need), "matrix for illuminant {need} lost");
        }
      }
    } else {
      ensure!(stored.is_empty(), "matrix invented");
    }
  }
  match c.orientation {
    Some(o) => ensure_eq!(root.req(274)?.uint(0), o as u32, "Orientation"),
    None => ensure!(root.get(274).is_none_or(|v| v.uint(0) == 1), "orientation invented"),
  }
  // ---- as the project's own reader sees it
  let src = RawSource::new_from_slice(&file);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("own decoder rejects the file: {e}"))?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("own decoder fails: {e}"))?;
  ensure_eq!(img.active_area, Some(rect(want_active)), "decoded active area");
  match want_crop {
    Some(k) => ensure_eq!(img.crop_area, Some(rect(k)), "decoded crop area"),
    None => ensure!(img.crop_area.is_none_or(|k| k == rect(full)), "decoded crop area {:?}", img.crop_area),
  }
  ensure_eq!(img.whitelevel.0, c.white[..cpp].to_vec(), "decoded white level");
  if c.lossless {
    ensure_eq!(img.bps, c.bps as usize, "decoded bit depth");
  }
  let b = &img.blacklevel;
  ensure!(b.levels.len() == b.width * b.height * b.cpp && b.cpp == cpp, "decoded black level shape {b:?}");
  let dcfa = match (&img.photometric, c.kind) {
    (RawPhotometricInterpretation::BlackIsZero, Kind::Mono) => None,
    (RawPhotometricInterpretation::LinearRaw, Kind::Linear1 | Kind::Linear3) => None,
    (RawPhotometricInterpretation::Cfa(cc), _) if c.kind.pattern().is_some() => Some(cc.cfa.clone()),
    (p, k) => return Err(format!("{k:?} decoded as {p:?}")),
  };
  for y in want_active.1..(want_active.1 + want_active.3).min(want_active.1 + 24) {
    for x in want_active.0..(want_active.0 + want_active.2).min(want_active.0 + 24) {
      for k in 0..cpp {
        let got = b.levels[((y % b.height) * b.width + x % b.width) * cpp + k].as_f32() as f64;
        let want = c.black_at(x, y, k);
        ensure!(close(got, want, 1e-6), "decoded black level of photosite ({x},{y}) channel {k} is {got} instead of {want}");
      }
      if let Some(cfa) = &dcfa {
        ensure!(cfa.color_at(y, x) == c.kind.color_at(x, y) as usize, "decoded colour of photosite ({x},{y}) is {} instead of {}", cfa.color_at(y, x), c.kind.color_at(x, y));
      }
    }
  }
  if colour {
    if let Some(wb) = c.wbf() {
      for i in 0..3 {
        let want = wb[i] as f64;
        // neutral value is stored with 1e-5 resolution
        ensure!(close(img.wb_coeffs[i] as f64, want, want * want * 1.2e-5), "decoded white balance {:?} instead of {wb:?}", img.wb_coeffs);
      }
    } else {
      ensure!(img.wb_coeffs[0].is_nan(), "white balance invented: {:?}", img.wb_coeffs);
    }
    for (ill, m) in &img.color_matrix {
      let code = u16::from(*ill);
      let Some((_, want)) = ms.iter().find(|(c, _)| *c == code) else { return Err(format!("decoded matrix for {ill:?} invented")) };
      ensure!(m.len() == want.len() && m.iter().zip(want).all(|(a, b)| close(*a as f64, *b as f64, 1.01e-4)), "decoded matrix for {ill:?}: {m:?} instead of {want:?}");
    }
    for need in [17u16, 21] {
      if ms.iter().any(|(c, _)| *c == need) {
        ensure!(img.color_matrix.contains_key(&illuminant(need)), "matrix for illuminant {need} lost on reading");
      }
    }
  }
  if let Some(o) = c.orientation {
    ensure_eq!(img.orientation, Orientation::from_u16(o), "decoded orientation");
  }
  let shifted = want_active.0 % c.kind.pat_dim().0 != 0 || want_active.1 % c.kind.pat_dim().1 != 0;
  let lab = format!("{}{}", if cfa.is_some() { "cfa" } else if cpp == 3 { "linear3" } else { "single" }, if shifted { " shifted pattern" } else { "" });
  Ok(if c.active.is_some() || c.crop.is_some() || c.black_shape > 0 || !ms.is_empty() { nontrivial(lab) } else { trivial("all defaults") })
}

fn main() {
  main_with("C04", "a case is non-trivial when it carries an area, a black level pattern or a colour matrix", |r| {
    r.assume("two calibration matrices are stored; with more, incandescent (A) and D65 are the ones that must survive");
    r.assume("AsShotNeutral resolution 1e-5, colour matrix resolution 1e-4, as the writer defines");
    let n = r.scale(20_000, 400_000);
    r.check("meta", n, case, test);
  })
}
