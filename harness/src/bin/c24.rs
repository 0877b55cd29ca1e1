//! C24: analyze prints what is in the file and leaves everything as it was.
use proptest::prelude::*;
use rawler::decoders::{RawDecodeParams};
use rawler::imgop::develop::RawDevelop;
use rawler::rawsource::RawSource;
use rawler::{RawImage, RawImageData};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use vh::cli::*;
use vh::foreign;
use vh::picture;
use vh::vfile::{self, Built, Preview, VFile};
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Input {
  Vendor(VFile),
  Dng(Box<foreign::Case>),
  Bad(u8, u64),
  Missing,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum What {
  RawPixel,
  RawChecksum,
  Preview,
  PreviewChecksum,
  Thumbnail,
  ThumbnailChecksum,
  Full,
  FullChecksum,
  Srgb,
  Meta,
}
use What::*;
const ALL: [What; 10] = [RawPixel, RawChecksum, Preview, PreviewChecksum, Thumbnail, ThumbnailChecksum, Full, FullChecksum, Srgb, Meta];
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  input: Input,
  what: What,
  /// default, JSON, YAML
  format: u8,
  name: u8,
  /// name relative to the working directory
  relative: bool,
  threads: u8,
}
const NAMES: [&str; 6] = ["a.raw", "IMG 1.NEF", "ü € x.dng", "noext", "-.x.y", "sub/dir/b.DNG"];

fn case() -> impl Strategy<Value = Case> {
  let vendor = (vfile::case(), prop::option::weighted(0.6, picture::pic())).prop_map(|(mut v, pic)| {
    v.pic = pic;
    Input::Vendor(v)
  });
  let dng = foreign::case().prop_map(|mut c| {
    c.lin = None;
    Input::Dng(Box::new(c))
  });
  let bad = (any::<u8>(), any::<u64>()).prop_map(|(k, s)| Input::Bad(k, s));
  let input = prop_oneof![8 => vendor, 6 => dng, 1 => bad, 1 => Just(Input::Missing)];
  let what = prop_oneof![3 => prop::sample::select(ALL.to_vec()), 1 => Just(Meta), 1 => Just(RawPixel)];
  (input, what, 0..3u8, 0..NAMES.len() as u8, any::<bool>(), 1..4u8).prop_map(|(input, what, format, name, relative, threads)| Case { input, what, format, name, relative, threads })
}

/// Type, size and samples of a portable pixel or gray map.
struct Map {
  kind: u8,
  w: usize,
  h: usize,
  px: Vec<u16>,
}
fn portable(b: &[u8]) -> Result<Map, String> {
  let mut at = 0;
  let mut words = vec![];
  while words.len() < 4 {
    let s = at;
    while at < b.len() && !b[at].is_ascii_whitespace() {
      at += 1;
    }
    ensure!(at < b.len() && at > s, "no header of a pixel map in {} bytes", b.len());
    words.push(String::from_utf8_lossy(&b[s..at]).into_owned());
    at += 1;
  }
  let n = |i: usize| words[i].parse::<usize>().map_err(|e| format!("header {words:?}: {e}"));
  let (w, h, max) = (n(1)?, n(2)?, n(3)?);
  let kind = match words[0].as_str() {
    "P5" => 5,
    "P6" => 6,
    k => return Err(format!("a pixel map of type {k}")),
  };
  let size = if max > 255 { 2 } else { 1 };
  let count = w * h * if kind == 6 { 3 } else { 1 };
  ensure_eq!(b.len() - at, count * size, "bytes of samples for the {}x{} map of type P{}", w, h, kind);
  let px = if size == 2 { b[at..].chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect() } else { b[at..].iter().map(|v| *v as u16).collect() };
  Ok(Map { kind, w, h, px })
}
fn quiet<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok().flatten()
}
fn hex(d: md5::Digest) -> String {
  format!("{d:x}")
}
fn text(v: &Value, at: &str) -> Value {
  v.pointer(at).cloned().unwrap_or(Value::Null)
}

fn analyze(c: &Case) -> Outcome {
  let mut built: Option<Built> = None;
  let (file, l) = match &c.input {
    Input::Vendor(v) => {
      let b = vfile::build(v);
      let l = format!("{} {} {:?}", v.name(), b.coding, c.what);
      let f = b.file.clone();
      built = Some(b);
      (Some(f), l)
    }
    Input::Dng(k) => (Some(foreign::build(k).0), format!("DNG {:?}", c.what)),
    Input::Bad(k, s) => (Some(damaged(*k, *s)), format!("damaged {:?}", c.what)),
    Input::Missing => (None, format!("missing {:?}", c.what)),
  };
  let s = Scratch::new();
  let name = NAMES[c.name as usize % NAMES.len()];
  if let Some(f) = &file {
    s.file(format!("in/{name}"), f);
  }
  s.dir("in");
  let before = snapshot(&s.0);
  let opt = match c.what {
    RawPixel => "--raw-pixel",
    RawChecksum => "--raw-checksum",
    Preview => "--preview-pixel",
    PreviewChecksum => "--preview-checksum",
    Thumbnail => "--thumbnail-pixel",
    ThumbnailChecksum => "--thumbnail-checksum",
    Full => "--full-pixel",
    FullChecksum => "--full-checksum",
    Srgb => "--srgb",
    Meta => "--meta",
  };
  let mut args = vec!["analyze".to_string(), opt.to_string()];
  match c.format {
    1 => args.push("--json".into()),
    2 => args.push("--yaml".into()),
    _ => {}
  }
  args.push("--".into());
  let path = s.0.join("in").join(name);
  args.push(if c.relative { format!("in/{name}") } else { path.to_string_lossy().into_owned() });
  let r = run(&s.0, &args, Limits { fsize: None, threads: c.threads as usize })?;
  if let Some(d) = tree_diff(&before, &snapshot(&s.0)) {
    return Err(format!("{l}: {d}"));
  }
  let code = r.code.ok_or_else(|| format!("{l}: killed by a signal: {}", r.tail()))?;
  let fails = |why: &str| -> Outcome {
    ensure!(code != 0, "{l}: success for a file that {why}");
    ensure!(r.stdout.is_empty(), "{l}: {} bytes of output for a file that {why}", r.stdout.len());
    Ok(trivial(format!("{why}")))
  };
  if matches!(c.input, Input::Bad(..) | Input::Missing) {
    return fails(if file.is_none() { "is missing" } else { "is damaged" });
  }
  let file = file.unwrap();
  let src = RawSource::new_from_slice(&file);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("{l}: {e:?}"))?;
  let p = RawDecodeParams::default();
  let Ok(img) = dec.raw_image(&src, &p, false) else { return fails("does not decode") };
  let done = |k: &str| -> Outcome {
    Ok(nontrivial(format!("{} {k}", match &c.input { Input::Vendor(v) => v.name(), _ => "DNG" })))
  };
  let ok = || -> Result<(), String> {
    ensure!(code == 0, "{l}: {}", r.tail());
    Ok(())
  };
  let line = || -> Result<String, String> {
    ok()?;
    ensure!(r.out.ends_with('\n') && r.out.lines().count() == 1, "{l}: output {:?} is not one line", r.out);
    Ok(r.out.trim_end().to_string())
  };
  match c.what {
    RawPixel => {
      ok()?;
      let m = portable(&r.stdout).map_err(|e| format!("{l}: {e}"))?;
      let cpp = if m.kind == 6 { 3 } else { 1 };
      ensure_eq!((m.w, m.h, cpp), (img.width, img.height, img.cpp), "{l}: size and samples per pixel");
      match (&built, &c.input) {
        (Some(b), _) => {
          for (i, (g, (lo, hi))) in m.px.iter().zip(&b.samples).enumerate() {
            ensure!(g >= lo && g <= hi, "{l}: sample {i} is {g} instead of {lo}..={hi}");
          }
        }
        (_, Input::Dng(k)) if !k.float => {
          ensure!(m.px == k.ints(), "{l}: other samples");
        }
        _ => {
          let mut i: RawImage = img.clone();
          i.apply_scaling().map_err(|e| format!("{l}: {e:?}"))?;
          i.data.force_integer();
          let RawImageData::Integer(want) = &i.data else { unreachable!() };
          ensure!(m.px == *want, "{l}: other samples");
        }
      }
      done("raw pixels")
    }
    RawChecksum => {
      let got = line()?;
      let want = match &img.data {
        RawImageData::Integer(v) => md5::compute(v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()),
        RawImageData::Float(v) => md5::compute(v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()),
      };
      ensure_eq!(got, hex(want), "{l}: checksum");
      done("raw checksum")
    }
    Meta => {
      ok()?;
      let v: Value = if c.format == 2 { serde_yaml::from_str(&r.out).map_err(|e| format!("{l}: {e}"))? } else { serde_json::from_str(&r.out).map_err(|e| format!("{l}: {e}"))? };
      ensure_eq!(text(&v, "/file/fileSize"), Value::from(file.len()), "{l}: file size");
      ensure_eq!(text(&v, "/file/fileName"), Value::from(name.rsplit('/').next().unwrap()), "{l}: file name");
      ensure_eq!(text(&v, "/file/digest"), Value::from(hex(md5::compute(&file))), "{l}: digest");
      let at = |k: &str| text(&v, &format!("/data/metadata/rawParams/{k}"));
      ensure_eq!((at("rawWidth"), at("rawHeight")), (Value::from(img.width), Value::from(img.height)), "{l}: size");
      let area = |k: &str| {
        let a = at(k);
        (!a.is_null()).then(|| ["p/x", "p/y", "d/w", "d/h"].map(|t| text(&a, &format!("/{t}")).as_u64().unwrap_or(u64::MAX) as usize))
      };
      let rect = |r: &Option<rawler::imgop::Rect>| r.map(|r| [r.p.x, r.p.y, r.d.w, r.d.h]);
      ensure_eq!(area("cropArea"), rect(&img.crop_area), "{l}: crop");
      ensure_eq!(area("activeArea"), rect(&img.active_area), "{l}: active area");
      let wb = at("wbCoeffs");
      for i in 0..4 {
        let g = wb[i].as_f64();
        let w = img.wb_coeffs[i];
        ensure!(if w.is_nan() { wb[i].is_null() } else { !w.is_finite() || g.is_some_and(|g| (g - w as f64).abs() <= 1e-5 * g.abs().max(1.0)) }, "{l}: coefficient {i} is {:?} instead of {w}", wb[i]);
      }
      ensure_eq!(at("whitelevels"), Value::from(img.whitelevel.0.clone()), "{l}: white level");
      let Some(b) = &built else { return done("metadata") };
      let at = |k: &str| text(&v, &format!("/data/metadata/rawMetadata/{k}"));
      ensure_eq!((at("make"), at("model")), (Value::from(b.cam.clean_make.as_str()), Value::from(b.cam.clean_model.as_str())), "{l}: camera");
      if b.has_exif {
        let e = &b.exif;
        let rat = |r: (u32, u32)| Value::from(format!("{}/{}", r.0, r.1));
        ensure_eq!(at("exif/orientation"), Value::from(e.orientation), "{l}: orientation");
        ensure_eq!(at("exif/artist"), if e.artist.is_empty() { Value::Null } else { Value::from(e.artist.as_str()) }, "{l}: artist");
        // the MRW decoder does not follow the pointer (known finding of C22)
        if !l.starts_with("MRW") {
          ensure_eq!(at("exif/iso_speed_ratings"), Value::from(e.iso), "{l}: sensitivity");
          ensure_eq!(at("exif/exposure_time"), rat(e.exposure), "{l}: exposure time");
          ensure_eq!(at("exif/fnumber"), rat(e.fnumber), "{l}: aperture");
          ensure_eq!(at("exif/focal_length"), rat(e.focal), "{l}: focal length");
          ensure_eq!(at("exif/date_time_original"), Value::from(e.date.as_str()), "{l}: date");
        }
      }
      done(if c.format == 2 { "metadata YAML" } else { "metadata JSON" })
    }
    _ => {
      // pictures
      let dev = || quiet(|| RawDevelop::default().develop_intermediate(&img).ok().and_then(|d| d.to_dynamic_image()));
      let preview = || match built.as_ref().map(|b| &b.preview) {
        Some(Preview::Picture(k)) => {
          let d = if k.spp == 1 {
            image::DynamicImage::ImageLuma8(image::ImageBuffer::from_raw(k.w as u32, k.h as u32, k.px.clone()).unwrap())
          } else {
            image::DynamicImage::ImageRgb8(image::ImageBuffer::from_raw(k.w as u32, k.h as u32, k.px.clone()).unwrap())
          };
          Some(Some(d))
        }
        Some(Preview::Unknown) => None,
        Some(Preview::Nothing) => Some(dev()),
        None => {
          // pictures of a DNG, which C23 judges
          let thumb = if matches!(c.what, Thumbnail | ThumbnailChecksum) { dec.thumbnail_image(&src, &p).ok()? } else { None };
          Some(thumb.or(dec.preview_image(&src, &p).ok()?).or_else(dev))
        }
      };
      let want = match c.what {
        Full | FullChecksum | Srgb => Some(dev()),
        _ => preview(),
      };
      let Some(want) = want else { return Ok(trivial("without a preview of its own")) };
      let Some(want) = want else { return fails("cannot be developed") };
      match c.what {
        PreviewChecksum | ThumbnailChecksum | FullChecksum => {
          let got = line()?;
          ensure_eq!(got, hex(md5::compute(want.as_bytes())), "{l}: checksum");
        }
        _ => {
          ok()?;
          let m = portable(&r.stdout).map_err(|e| format!("{l}: {e}"))?;
          ensure_eq!((m.kind, m.w, m.h), (6, want.width() as usize, want.height() as usize), "{l}: type and size");
          let px: Vec<u16> = if c.what == Srgb { want.to_rgb16().into_raw() } else { want.to_rgb8().into_raw().into_iter().map(|v| v as u16).collect() };
          if let Some(i) = (0..px.len()).find(|i| px[*i] != m.px[*i]) {
            return Err(format!("{l}: sample {i} is {} instead of {}", m.px[i], px[i]));
          }
        }
      }
      done(&format!("{:?}", c.what))
    }
  }
}

fn main() {
  main_with("C24", "cases: runs of the real program on generated vendor files, DNGs, damaged and missing files with one of ten outputs; non-trivial: the output was there and compared; distinct by full case description", |r| {
    r.assume("developed pictures are compared with those of the library's own steps, which C12, C13 and C14 judge; pictures of DNGs with those of the decoder (C23); other embedded pictures, samples and metadata with what was put into the file");
    let n = r.scale(4000, 60_000);
    r.check("analyze", n, case, analyze);
    cleanup();
  })
}
