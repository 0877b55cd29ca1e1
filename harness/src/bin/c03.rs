//! C03: a raw image written to DNG keeps every pixel value.
use proptest::prelude::*;
use rawler::decoders::RawDecodeParams;
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::rawsource::RawSource;
use rawler::RawImageData;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use vh::dngmini::{self, first_diff, Samples};
use vh::rawgen::*;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  pix: Pix,
  lossless: bool,
  predictor: u8,
  on_root: bool,
  crop: u8,
  thumb: bool,
}
fn case() -> impl Strategy<Value = Case> {
  (pix(), any::<bool>(), 1..=7u8, prop::bool::weighted(0.3), 0..3u8, prop::bool::weighted(0.2)).prop_map(|(pix, lossless, predictor, on_root, crop, thumb)| Case {
    pix,
    lossless,
    predictor,
    on_root,
    crop,
    thumb: thumb && !on_root,
  })
}

fn write(c: &Case) -> Result<Vec<u8>, String> {
  let img = c.pix.image();
  let comp = if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed };
  let crop = [CropMode::Best, CropMode::ActiveArea, CropMode::None][c.crop as usize % 3];
  let mut buf = Cursor::new(Vec::new());
  {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
    let pic = image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(31, 17, |x, y| image::Rgb([x as u8 * 8, y as u8 * 9, 77])));
    {
      let mut f = if c.on_root { dng.subframe_on_root(0) } else { dng.subframe(0) };
      f.raw_image(&img, crop, comp, DngPhotometricConversion::Original, c.predictor).map_err(|e| format!("raw_image: {e}"))?;
      f.finalize().map_err(|e| e.to_string())?;
    }
    if c.thumb {
      dng.thumbnail(&pic).map_err(|e| e.to_string())?;
      let mut f = dng.subframe(1);
      f.preview(&pic, 0.7).map_err(|e| e.to_string())?;
      f.finalize().map_err(|e| e.to_string())?;
    }
    dng.load_base_tags(&img).map_err(|e| e.to_string())?;
    dng.close().map_err(|e| e.to_string())?;
  }
  Ok(buf.into_inner())
}

fn test(c: &Case) -> Outcome {
  let file = write(c)?;
  let p = tiffmini::parse(&file)?;
  p.check_overlap()?;
  let root = p.root();
  ensure!(root.get(50706).is_some_and(|v| v.typ == 1 && v.count == 4), "no DNGVersion");
  let d = dngmini::raw_dir(&p)?;
  let st = dngmini::read_raw(&file, d, p.big)?;
  let cpp = c.pix.kind.cpp();
  ensure_eq!((st.w, st.h, st.spp), (c.pix.w, c.pix.h, cpp), "stored dimensions");
  let (want_i, want_f) = if c.pix.float { (vec![], c.pix.floats()) } else { (c.pix.ints(), vec![]) };
  let src = RawSource::new_from_slice(&file);
  let own_ok = !(c.lossless && c.pix.bps < 10 && !c.pix.float);
  let own = if own_ok {
    let dec = rawler::get_decoder(&src).map_err(|e| format!("own decoder rejects the file: {e}"))?;
    let img = dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("own decoder fails: {e}"))?;
    ensure_eq!((img.width, img.height, img.cpp), (c.pix.w, c.pix.h, cpp), "decoded dimensions");
    Some(img)
  } else {
    None
  };
  let want_pi = match c.pix.kind {
    Kind::Mono => 1,
    Kind::Linear1 | Kind::Linear3 => 34892,
    _ => 32803,
  };
  ensure_eq!(d.req(262)?.uint(0), want_pi, "PhotometricInterpretation");
  let lw = c.pix.w * cpp;
  if c.pix.float && c.lossless {
    // samples are scaled to 16 bit integers; ends of the range are fixed
    let Samples::Int(v) = &st.samples else { return Err("float data in a lossless JPEG".into()) };
    for (i, f) in want_f.iter().enumerate() {
      let e = (*f as f64).clamp(0.0, 1.0) * 65535.0;
      ensure!((v[i] as f64 - e).abs() <= 1.0, "sample {i}: {f} stored as {}", v[i]);
    }
    if let Some(img) = &own {
      let RawImageData::Integer(o) = &img.data else { return Err("own decoder returns floats".into()) };
      if let Some(m) = first_diff(o, v, lw) {
        return Err(format!("own decoder and stored data: {m}"));
      }
    }
    return Ok(nontrivial("float as lossless integer"));
  }
  match &st.samples {
    Samples::Int(v) => {
      ensure!(!c.pix.float, "floats stored as integers");
      if let Some(m) = first_diff(v, &want_i, lw) {
        return Err(format!("independent reader: {m}"));
      }
      if let Some(img) = &own {
        let RawImageData::Integer(o) = &img.data else { return Err("own decoder returns floats".into()) };
        if let Some(m) = first_diff(o, &want_i, lw) {
          return Err(format!("own decoder: {m}"));
        }
      }
    }
    Samples::Float(v) => {
      ensure!(c.pix.float, "integers stored as floats");
      let b = |v: &[f32]| v.iter().map(|f| f.to_bits()).collect::<Vec<_>>();
      if let Some(m) = first_diff(&b(v), &b(&want_f), lw) {
        return Err(format!("independent reader: {m}"));
      }
      if let Some(img) = &own {
        let RawImageData::Float(o) = &img.data else { return Err("own decoder returns integers".into()) };
        if let Some(m) = first_diff(&b(o), &b(&want_f), lw) {
          return Err(format!("own decoder: {m}"));
        }
      }
    }
  }
  let lab = format!("{} {}{}", kind_name(&c.pix.kind), if c.lossless { "lossless" } else { "uncompressed" }, if st.chunks > 1 { " multi" } else { "" });
  Ok(if c.pix.fill.is_flat() || c.pix.w * c.pix.h < 4 { trivial(lab) } else { nontrivial(lab) })
}
fn kind_name(k: &Kind) -> &'static str {
  match k {
    Kind::Bayer(_) => "bayer",
    Kind::XTrans(_) => "xtrans",
    Kind::Rgbe => "rgbe",
    Kind::Cygm => "cygm",
    Kind::Linear3 => "linear3",
    Kind::Linear1 => "linear1",
    Kind::Mono => "mono",
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rgb {
  w: usize,
  h: usize,
  wide: bool,
  lossless: bool,
  predictor: u8,
  fill: fill::Fill,
}
fn rgb() -> impl Strategy<Value = Rgb> {
  (dim(), dim(), any::<bool>(), any::<bool>(), 1..=7u8, fill::fill()).prop_map(|(w, h, wide, lossless, predictor, fill)| Rgb { w, h, wide, lossless, predictor, fill })
}
fn test_rgb(c: &Rgb) -> Outcome {
  let n = c.w * c.h * 3;
  let comp = if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed };
  let want = c.fill.u16s(n, if c.wide { 65535 } else { 255 });
  let mut buf = Cursor::new(Vec::new());
  {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
    let mut f = dng.subframe(0);
    if c.wide {
      f.rgb_image_u16(&want, c.w, c.h, comp, c.predictor)
    } else {
      f.rgb_image_u8(&want.iter().map(|v| *v as u8).collect::<Vec<_>>(), c.w, c.h, comp, c.predictor)
    }
    .map_err(|e| format!("rgb image: {e}"))?;
    f.finalize().map_err(|e| e.to_string())?;
    dng.close().map_err(|e| e.to_string())?;
  }
  let file = buf.into_inner();
  let p = tiffmini::parse(&file)?;
  p.check_overlap()?;
  let d = dngmini::raw_dir(&p)?;
  let st = dngmini::read_raw(&file, d, p.big)?;
  ensure_eq!((st.w, st.h, st.spp), (c.w, c.h, 3), "stored dimensions");
  ensure_eq!(d.req(50717)?.uints(), vec![if c.wide { 65535 } else { 255 }; 3], "WhiteLevel");
  let Samples::Int(v) = &st.samples else { return Err("stored as float".into()) };
  if let Some(m) = first_diff(v, &want, c.w * 3) {
    return Err(m);
  }
  let src = RawSource::new_from_slice(&file);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("own decoder rejects the file: {e}"))?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("own decoder fails: {e}"))?;
  if let Some(m) = first_diff(img.pixels_u16(), &want, c.w * 3) {
    return Err(format!("own decoder: {m}"));
  }
  Ok(if c.fill.is_flat() { trivial("flat") } else { nontrivial(if c.wide { "rgb16" } else { "rgb8" }) })
}

fn main() {
  main_with("C03", "a case is non-trivial when the image has at least four pixels and is not constant", |r| {
    r.assume("lossless storage of fewer than 10 bits is judged by the independent reader only (the project's LJPEG decoder supports 10 bits and up)");
    let n = r.scale(2600, 60_000);
    r.check("raw", n, case, test);
    let n = r.scale(300, 8_000);
    r.check("rgb", n, rgb, test_rgb);
  })
}
