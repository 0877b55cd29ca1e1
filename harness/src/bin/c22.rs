//! C22: a vendor file decodes to what it records.
use proptest::prelude::*;
use rawler::decoders::{Decoder, RawDecodeParams};
use rawler::rawimage::RawPhotometricInterpretation;
use rawler::rawsource::RawSource;
use rawler::RawImageData;
use vh::fill::fill;
use vh::vfile::{self, Built, VFile};
use vh::*;

fn near(a: f64, b: f64) -> bool {
  a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-5 * b.abs().max(1.0)
}
fn area(r: &rawler::imgop::Rect) -> [usize; 4] {
  [r.p.x, r.p.y, r.d.w, r.d.h]
}
fn decoder<'a>(src: &RawSource, l: &str) -> Result<Box<dyn Decoder + 'a>, String> {
  rawler::get_decoder(src).map_err(|e| format!("{l}: no decoder: {e:?}"))
}

fn image(c: &VFile, dummy: bool) -> Outcome {
  let b = vfile::build(c);
  let l = format!("{} {} {} {}", c.name(), b.coding, b.cam.make, b.cam.model);
  let src = RawSource::new_from_slice(&b.file);
  let dec = decoder(&src, &l)?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), dummy).map_err(|e| format!("{l}: {e:?}"))?;
  // the camera
  ensure_eq!((&img.make, &img.model), (&b.cam.make, &b.cam.model), "{l}: camera");
  ensure_eq!(img.camera.mode, b.cam.mode, "{l}: mode");
  ensure_eq!((&img.clean_make, &img.clean_model), (&b.cam.clean_make, &b.cam.clean_model), "{l}: clean name");
  // geometry
  ensure_eq!((img.width, img.height, img.cpp), (b.w, b.h, b.cpp), "{l}: size");
  let crop = img.crop_area.as_ref().map(area);
  ensure_eq!(crop, b.crop, "{l}: crop area");
  let active = img.active_area.as_ref().map(area);
  ensure_eq!(active, b.active, "{l}: active area");
  match &img.photometric {
    RawPhotometricInterpretation::Cfa(k) => ensure_eq!(k.cfa.name.as_str(), b.cfa.unwrap_or(&b.cam.cfa.name), "{l}: pattern"),
    p => return Err(format!("{l}: photometric {p:?}")),
  }
  // colour
  for i in 0..3 {
    ensure!(near(img.wb_coeffs[i] as f64, b.wb[i]), "{l}: white balance {:?} instead of {:?}", img.wb_coeffs, b.wb);
  }
  ensure!(img.wb_coeffs[3].is_nan(), "{l}: fourth coefficient {}", img.wb_coeffs[3]);
  ensure!(img.color_matrix == b.cam.color_matrix, "{l}: matrices {:?}", img.color_matrix);
  // the camera's own levels win
  let white = b.cam.whitelevel.clone().or(b.white.clone());
  if let Some(w) = white {
    let w: Vec<u32> = if w.len() == 1 { vec![w[0]; b.cpp] } else { w };
    let shift = if c.name() == "ORF" && b.coding.ends_with("14") { 2 } else { 0 };
    let w: Vec<u32> = w.iter().map(|v| v << shift).collect();
    ensure_eq!(img.whitelevel.0, w, "{l}: white level");
  }
  let black: Option<Vec<f64>> = match &b.cam.blacklevel {
    Some(v) => Some(v.iter().map(|x| *x as f64).collect()),
    None if b.cam.hints.iter().any(|h| h == "invalid_blacklevel") => None,
    None => b.black.clone(),
  };
  let got: Vec<f64> = img.blacklevel.levels.iter().map(|x| x.n as f64 / x.d as f64).collect();
  // an open finding: levels of the colours taken as those of an RGGB pattern; the rest is still compared
  let misplaced = b.rgb.is_some_and(|k| got == [k[0], k[1], k[1], k[2]].map(|v| v as f64)) && black.as_ref().is_some_and(|v| *v != got);
  match black {
    _ if misplaced => {}
    Some(v) => {
      ensure_eq!(got, v, "{l}: black level");
    }
    None if !dummy => {
      // nothing known about it
      ensure!(img.blacklevel.levels.iter().all(|x| x.n == 0), "{l}: black level {:?} from nowhere", img.blacklevel);
    }
    None => {}
  }
  // samples
  if !dummy {
    let RawImageData::Integer(got) = &img.data else { return Err(format!("{l}: float samples")) };
    ensure!(got.len() == b.samples.len(), "{l}: {} samples instead of {}", got.len(), b.samples.len());
    for (i, (g, (lo, hi))) in got.iter().zip(&b.samples).enumerate() {
      ensure!(g >= lo && g <= hi, "{l}: row {} column {}: {g} instead of {lo}..={hi}", i / b.w, i % b.w);
    }
  }
  if misplaced {
    return Err(format!("{}: black levels of red, green, blue stored as for RGGB", c.name()));
  }
  Ok(nontrivial(format!("{} {}", c.name(), b.coding)))
}

fn metadata(c: &VFile) -> Outcome {
  let b: Built = vfile::build(c);
  let l = format!("{} {} {}", c.name(), b.cam.make, b.cam.model);
  let src = RawSource::new_from_slice(&b.file);
  let dec = decoder(&src, &l)?;
  let m = dec.raw_metadata(&src, &RawDecodeParams::default()).map_err(|e| format!("{l}: {e:?}"))?;
  ensure_eq!((&m.make, &m.model), (&b.cam.clean_make, &b.cam.clean_model), "{l}: name");
  let x = dec.xpacket(&src, &RawDecodeParams::default()).map_err(|e| format!("{l}: {e:?}"))?;
  ensure!(x == b.xmp, "{l}: XMP packet of {:?} bytes instead of {:?}", x.map(|v| v.len()), b.xmp.as_ref().map(|v| v.len()));
  if !b.has_exif {
    ensure_eq!(m.exif.recommended_exposure_index, Some(b.exif.iso as u32), "{l}: exposure index");
    return Ok(nontrivial(c.name()));
  }
  let e = &b.exif;
  let x = &m.exif;
  let rat = |r: &Option<rawler::formats::tiff::Rational>| r.as_ref().map(|r| (r.n, r.d));
  let some = |s: &String| (!s.is_empty()).then(|| s.clone());
  ensure_eq!(x.orientation, Some(e.orientation), "{l}: orientation");
  ensure_eq!(x.artist, some(&e.artist), "{l}: artist");
  if x.iso_speed_ratings.is_none() && x.exposure_time.is_none() && x.fnumber.is_none() && x.focal_length.is_none() && x.date_time_original.is_none() && x.lens_model.is_none() {
    return Err(format!("{}: nothing of the Exif directory", c.name()));
  }
  ensure_eq!(x.iso_speed_ratings, Some(e.iso), "{l}: sensitivity");
  ensure_eq!(rat(&x.exposure_time), Some(e.exposure), "{l}: exposure time");
  ensure_eq!(rat(&x.fnumber), Some(e.fnumber), "{l}: aperture");
  ensure_eq!(rat(&x.focal_length), Some(e.focal), "{l}: focal length");
  ensure_eq!(x.date_time_original.as_deref(), Some(e.date.as_str()), "{l}: date");
  // without a name the lens may be recognised by its focal length
  if m.lens.is_none() || !e.lens.is_empty() && c.name() != "CR2" {
    ensure_eq!(x.lens_model, some(&e.lens), "{l}: lens");
  }
  Ok(nontrivial(c.name()))
}

// ---- files without any structure ----------------------------------------

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Naked {
  cam: u8,
  fill: vh::fill::Fill,
  seed: u64,
  dummy: bool,
}
fn naked(c: &Naked) -> Outcome {
  let mut cams: Vec<_> = rawler::global_loader().get_cameras().values().filter(|k| k.filesize > 0).collect();
  cams.sort_by_key(|k| (k.filesize, k.model.clone()));
  let k = cams[c.cam as usize % cams.len()];
  if cams.iter().filter(|x| x.filesize == k.filesize).count() > 1 {
    return Ok(trivial("another camera writes files of the same size"));
  }
  let l = format!("naked {} {}", k.make, k.model);
  let (w, h) = (k.raw_width, k.raw_height);
  let bits = k.filesize * 8 / w / h;
  if ![10, 12].contains(&bits) || k.hints.iter().any(|h| h == "12le_16bitaligned") {
    return Ok(trivial(format!("{bits} bits")));
  }
  let px = c.fill.u16s(w * h, (1 << bits) - 1);
  let mut file = vh::pack::swap(vh::pack::pack_msb(&px, bits as u32), 2);
  // rows and end
  file.resize(k.filesize, 0x5a);
  let src = RawSource::new_from_slice(&file);
  let dec = decoder(&src, &l)?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), c.dummy).map_err(|e| format!("{l}: {e:?}"))?;
  ensure_eq!((&img.make, &img.model), (&k.make, &k.model), "{l}: camera");
  ensure_eq!((img.width, img.height, img.cpp), (w, h, 1), "{l}: size");
  let whole = [0, 0, w, h];
  let active = k.active_area.map(|a| [a[0], a[1], w - a[0] - a[2], h - a[1] - a[3]]);
  ensure_eq!(img.active_area.as_ref().map(area), active, "{l}: active area");
  ensure!(img.wb_coeffs.iter().all(|v| v.is_nan()), "{l}: white balance {:?} from nowhere", img.wb_coeffs);
  if let Some(v) = &k.whitelevel {
    ensure_eq!(&img.whitelevel.0, v, "{l}: white level");
  }
  if c.dummy {
    return Ok(nontrivial("naked without pixels"));
  }
  let RawImageData::Integer(got) = &img.data else { return Err(format!("{l}: float samples")) };
  if let Some(i) = (0..w * h).find(|i| got.get(*i) != px.get(*i)) {
    return Err(format!("{l}: row {} column {}: {:?} instead of {}", i / w, i % w, got.get(i), px[i]));
  }
  if k.blacklevel.is_none() && (k.blackareah.is_some() || k.blackareav.is_some()) {
    let a = active.unwrap_or(whole);
    let mut sum = [(0f64, 0f64); 4];
    let mut add = |x0: usize, x1: usize, y0: usize, y1: usize| {
      for y in y0..y1 {
        for x in x0..x1 {
          let s = &mut sum[(y % 2) * 2 + x % 2];
          s.0 += px[y * w + x] as f64;
          s.1 += 1.0;
        }
      }
    };
    if let Some((s, n)) = k.blackareah {
      add(a[0], a[0] + a[2], s, s + n);
    }
    if let Some((s, n)) = k.blackareav {
      add(s, s + n, a[1], a[1] + a[3]);
    }
    for i in 0..4 {
      let (got, want) = (img.blacklevel.levels[i].as_f32() as f64, sum[i].0 / sum[i].1);
      ensure!((got - want).abs() <= 1e-5 * want + 1e-6, "{l}: black level {i} is {got} instead of {want}");
    }
  }
  Ok(nontrivial(format!("naked {}", k.model)))
}

fn main() {
  main_with(
    "C22",
    "cases: whole synthetic files of 17 vendor containers (camera of the supported list, storage variant, byte order, directory layout, maker note style, levels and samples generated); decoded image and metadata are compared with what was put into the file; files of cameras that write nothing but samples; non-trivial: all files that decode; distinct by full case description",
    |r| {
      r.assume("levels in the camera definition take precedence over those of the file (documented order); cameras with masked areas are left out because the generated images are smaller than the areas");
      let n = r.scale(36000, 400000);
      r.check("image", n, vfile::case, |c| image(c, false));
      let n = r.scale(12000, 120000);
      r.check("without_pixels", n, vfile::case, |c| image(c, true));
      let n = r.scale(12000, 120000);
      r.check("metadata", n, vfile::case, metadata);
      let n = r.scale(150, 1500);
      r.check("naked", n, || (any::<u8>(), fill(), any::<u64>(), prop::bool::weighted(0.1)).prop_map(|(cam, fill, seed, dummy)| Naked { cam, fill, seed, dummy }), naked);
    },
  )
}
