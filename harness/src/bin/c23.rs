//! C23: previews and thumbnails show what the file holds.
use proptest::prelude::*;
use rawler::decoders::{Decoder, RawDecodeParams};
use rawler::dng::convert::{convert_raw_source, ConvertParams};
use rawler::imgop::develop::RawDevelop;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawsource::RawSource;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use vh::fill::Rng;
use vh::picture::{self, Pic, Shown};
use vh::tiffmini::{self, Dir, Layout, PDir, Val};
use vh::vfile::{self, Preview, VFile};
use vh::*;

fn decoder<'a>(src: &RawSource, l: &str) -> Result<Box<dyn Decoder + 'a>, String> {
  rawler::get_decoder(src).map_err(|e| format!("{l}: no decoder: {e:?}"))
}
fn with_pic() -> impl Strategy<Value = VFile> {
  // mostly the containers with previews
  let fmt = prop_oneof![4 => prop::sample::select(vec![7u8, 8, 9, 12, 14, 15, 16]), 1 => 0..vfile::FORMATS.len() as u8];
  (vfile::case(), fmt, prop::option::weighted(0.85, picture::pic())).prop_map(|(mut v, fmt, pic)| {
    v.fmt = fmt;
    v.pic = pic;
    v
  })
}
fn same(got: &Shown, want: &Shown, l: &str) -> Result<(), String> {
  ensure_eq!((got.w, got.h, got.spp), (want.w, want.h, want.spp), "{l}: size and samples per pixel");
  if let Some(i) = (0..want.px.len()).find(|i| got.px[*i] != want.px[*i]) {
    let p = i / want.spp;
    return Err(format!("{l}: column {}, row {}: {} instead of {}", p % want.w, p / want.w, got.px[i], want.px[i]));
  }
  Ok(())
}

fn embedded(c: &VFile) -> Outcome {
  let b = vfile::build(c);
  let l = format!("{} {} {}", c.name(), b.cam.make, b.cam.model);
  if b.preview == Preview::Unknown {
    return Ok(trivial(format!("{} without a preview of its own", c.name())));
  }
  let src = RawSource::new_from_slice(&b.file);
  let dec = decoder(&src, &l)?;
  let got = dec.preview_image(&src, &RawDecodeParams { image_index: 0 }).map_err(|e| format!("{l}: {e:?}"))?;
  match (&b.preview, got) {
    (Preview::Nothing, None) => return Ok(trivial(format!("{} nothing", c.name()))),
    (Preview::Nothing, Some(_)) => return Err(format!("{l}: a preview from nowhere")),
    (_, None) => return Err(format!("{l}: preview not found")),
    (Preview::Picture(want), Some(d)) => {
      let got = picture::shown(&d).ok_or(format!("{l}: preview is {:?}", d.color()))?;
      same(&got, want, &l)?;
    }
    _ => unreachable!(),
  }
  let second = dec.preview_image(&src, &RawDecodeParams { image_index: 1 }).map_err(|e| format!("{l}: {e:?}"))?;
  ensure!(second.is_none(), "{l}: preview of a second image");
  Ok(nontrivial(format!("{} preview", c.name())))
}

// ---- converted files ----------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Written {
  v: VFile,
  thumbnail: bool,
  preview: bool,
}
fn data(file: &[u8], d: &PDir) -> Result<Vec<u8>, String> {
  let (o, n) = (d.req(273)?.uints(), d.req(279)?.uints());
  ensure_eq!(o.len(), n.len(), "strips and lengths");
  let mut v = vec![];
  for (o, n) in o.iter().zip(&n) {
    v.extend(file.get(*o as usize..*o as usize + *n as usize).ok_or("strip outside of the file")?);
  }
  Ok(v)
}
/// Size of the largest picture of the same shape within the bounds.
fn fitted(w: usize, h: usize, bw: usize, bh: usize) -> (usize, usize) {
  let k = (bw as f64 / w as f64).min(bh as f64 / h as f64);
  (((w as f64 * k).round() as usize).max(1), ((h as f64 * k).round() as usize).max(1))
}
/// Every pixel is one of those around its place in the source.
fn scaled(got: &Shown, from: &Shown, tolerance: i32, l: &str) -> Result<(), String> {
  for y in 0..got.h {
    for x in 0..got.w {
      let sx = ((x as f64 + 0.5) * from.w as f64 / got.w as f64).floor() as i64;
      let sy = ((y as f64 + 0.5) * from.h as f64 / got.h as f64).floor() as i64;
      let p = got.rgb(x, y);
      let mut best = i32::MAX;
      for dy in -1..=1 {
        for dx in -1..=1 {
          let q = from.rgb((sx + dx).clamp(0, from.w as i64 - 1) as usize, (sy + dy).clamp(0, from.h as i64 - 1) as usize);
          let far = (0..3).map(|i| (p[i] as i32 - q[i] as i32).abs()).max().unwrap();
          best = best.min(far);
        }
      }
      if best > tolerance {
        return Err(format!("{l}: column {x}, row {y} of {}x{}: {p:?}, the source has {:?} there", got.w, got.h, from.rgb(sx.clamp(0, from.w as i64 - 1) as usize, sy.clamp(0, from.h as i64 - 1) as usize)));
      }
    }
  }
  Ok(())
}
fn written(c: &Written) -> Outcome {
  let b = vfile::build(&c.v);
  let l = format!("{} {} {}", c.v.name(), b.cam.make, b.cam.model);
  let src = RawSource::new_from_slice(&b.file);
  let mut out = Cursor::new(vec![]);
  let dec = decoder(&src, &l)?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("{l}: {e:?}"))?;
  // the files have areas that no camera writes
  let whole = Rect::new(Point::zero(), Dim2::new(img.width, img.height));
  let inside = |a: &Rect, b: &Rect| a.d.w > 1 && a.d.h > 1 && a.p.x >= b.p.x && a.p.y >= b.p.y && a.p.x + a.d.w <= b.p.x + b.d.w && a.p.y + a.d.h <= b.p.y + b.d.h;
  let active = img.active_area.unwrap_or(whole);
  if !inside(&active, &whole) || !inside(&img.crop_area.unwrap_or(active), &active) {
    return Ok(trivial(format!("{} areas do not nest", c.v.name())));
  }
  let p = ConvertParams { embedded: false, thumbnail: c.thumbnail, preview: c.preview, ..Default::default() };
  convert_raw_source(&src, &mut out, "a.raw", &p).map_err(|e| format!("{l}: conversion: {e:?}"))?;
  let dng = out.into_inner();
  // what has to be shown
  let mut smooth = false;
  let mut from_raw = false;
  let want = match &b.preview {
    Preview::Picture(k) => {
      smooth = c.v.pic.as_ref().is_some_and(|k| k.smooth);
      Some(k.clone())
    }
    Preview::Unknown => return Ok(trivial(format!("{} without a preview of its own", c.v.name()))),
    Preview::Nothing => {
      from_raw = true;
      let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| RawDevelop::default().develop_intermediate(&img).ok().and_then(|d| d.to_dynamic_image())));
      d.ok().flatten().map(|d| picture::shown(&image::DynamicImage::ImageRgb8(d.to_rgb8())).unwrap())
    }
  };
  let t = tiffmini::parse(&dng).map_err(|e| format!("{l}: {e}"))?;
  let root = t.root();
  ensure!(root.get(700).map(|v| v.uints().iter().map(|x| *x as u8).collect::<Vec<u8>>()) == b.xmp, "{l}: XMP packet of {:?} values instead of {:?}", root.get(700).map(|v| v.count), b.xmp.as_ref().map(|v| v.len()));
  let subs: Vec<&PDir> = root.subs.get(&330).map(|v| v.iter().collect()).unwrap_or_default();
  let previews: Vec<&PDir> = subs.iter().copied().filter(|d| d.uint(254, 0) == 1).collect();
  let has_thumbnail = root.get(254).is_some_and(|v| v.uint(0) == 1);
  let back = RawSource::new_from_slice(&dng);
  let dd = decoder(&back, &l)?;
  let read_thumb = dd.thumbnail_image(&back, &RawDecodeParams::default()).map_err(|e| format!("{l}: reading the thumbnail: {e:?}"))?;
  let read_prev = dd.preview_image(&back, &RawDecodeParams::default()).map_err(|e| format!("{l}: reading the preview: {e:?}"))?;
  let Some(want) = want else {
    ensure!(!has_thumbnail && previews.is_empty(), "{l}: pictures of what cannot be developed");
    return Ok(trivial(format!("{} cannot be developed", c.v.name())));
  };
  ensure_eq!(has_thumbnail, c.thumbnail, "{l}: thumbnail present");
  ensure_eq!(previews.len(), c.preview as usize, "{l}: previews present");
  ensure_eq!(read_thumb.is_some(), c.thumbnail, "{l}: thumbnail read");
  ensure_eq!(read_prev.is_some(), c.preview, "{l}: preview read");
  if c.thumbnail {
    ensure_eq!((root.uint(259, 0), root.uint(262, 0), root.uint(277, 0), root.req(258)?.uints()), (1, 2, 3, vec![8, 8, 8]), "{l}: thumbnail layout");
    let (w, h) = (root.uint(256, 0) as usize, root.uint(257, 0) as usize);
    let (fw, fh) = fitted(want.w, want.h, 240, 120);
    ensure!(w.abs_diff(fw) <= 1 && h.abs_diff(fh) <= 1 && w <= 240 && h <= 120, "{l}: thumbnail of {}x{} has {w}x{h}", want.w, want.h);
    let px = data(&dng, root)?;
    ensure_eq!(px.len(), w * h * 3, "{l}: thumbnail bytes");
    let got = Shown { w, h, spp: 3, px };
    scaled(&got, &want, 0, &format!("{l}: thumbnail"))?;
    let r = picture::shown(&read_thumb.unwrap()).ok_or(format!("{l}: thumbnail is not 8 bit"))?;
    same(&r, &got, &format!("{l}: thumbnail read back"))?;
  }
  if c.preview {
    let d = previews[0];
    ensure_eq!((d.uint(259, 0), d.uint(262, 0), d.uint(277, 0), d.req(258)?.uints()), (7, 6, 3, vec![8, 8, 8]), "{l}: preview layout");
    let (w, h) = (d.uint(256, 0) as usize, d.uint(257, 0) as usize);
    let (fw, fh) = if want.w > 1024 { fitted(want.w, want.h, 1024, 768) } else { (want.w, want.h) };
    let slack = (want.w > 1024) as usize;
    ensure!(w.abs_diff(fw) <= slack && h.abs_diff(fh) <= slack, "{l}: preview of {}x{} has {w}x{h}", want.w, want.h);
    let jpeg = data(&dng, d)?;
    let j = image::load_from_memory_with_format(&jpeg, image::ImageFormat::Jpeg).map_err(|e| format!("{l}: preview: {e:?}"))?;
    let got = picture::shown(&j).ok_or(format!("{l}: preview is not 8 bit"))?;
    ensure_eq!((got.w, got.h, got.spp), (w, h, 3), "{l}: preview size");
    if smooth {
      scaled(&got, &want, 24, &format!("{l}: preview"))?;
    } else {
      // the average survives the coding
      let mean = |s: &Shown, i: usize| (0..s.w * s.h).map(|k| s.rgb(k % s.w, k / s.w)[i] as f64).sum::<f64>() / (s.w * s.h) as f64;
      if want.w <= 1024 && want.w * want.h >= 256 {
        for i in 0..3 {
          ensure!((mean(&got, i) - mean(&want, i)).abs() < 40.0, "{l}: preview: channel {i} is {} on average instead of {}", mean(&got, i), mean(&want, i));
        }
      }
    }
    let r = picture::shown(&read_prev.unwrap()).ok_or(format!("{l}: preview is not 8 bit"))?;
    same(&r, &got, &format!("{l}: preview read back"))?;
  }
  Ok(if c.thumbnail || c.preview { nontrivial(format!("{} {}", c.v.name(), if from_raw { "developed" } else { "embedded" })) } else { trivial("nothing asked for") })
}

// ---- pictures in DNG files ----------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct InDng {
  w: usize,
  h: usize,
  gray: bool,
  /// 8 to 16
  bits: u8,
  /// strips, tiles, JPEG strip
  how: u8,
  /// thumbnail of the first directory or preview below it
  root: bool,
  big: bool,
  /// a small picture at the other of the two places
  both: bool,
  /// the raw image sits in the first directory, where no thumbnail does
  raw_first: bool,
  /// directories of other kinds: transparency masks, depth maps, alternative previews
  decoys: Vec<u8>,
  seed: u64,
}
const DECOYS: [u32; 9] = [4, 5, 8, 9, 16, 0x10001, 0x10004, 2, 3];
fn in_dng() -> impl Strategy<Value = InDng> {
  let bits = prop_oneof![4 => Just(8u8), 3 => Just(16u8), 1 => prop::sample::select(vec![10u8, 12, 14])];
  let places = (any::<bool>(), prop::bool::weighted(0.3), any::<bool>(), prop::collection::vec(0..DECOYS.len() as u8, 0..4));
  (1..=90usize, 1..=70usize, any::<bool>(), bits, 0..3u8, any::<bool>(), places, any::<u64>()).prop_map(|(w, h, gray, bits, how, big, (root, both, raw_first, decoys), seed)| InDng { w, h, gray, bits, how, root, big, both, raw_first, decoys, seed })
}
fn dng_read(c: &InDng) -> Outcome {
  // rows of the packed depths fill whole bytes and pixel groups
  let c = &InDng { w: if c.how != 2 && c.bits != 8 && c.bits != 16 { c.w.div_ceil(8) * 8 } else { c.w }, ..c.clone() };
  let mut r = Rng::new(c.seed);
  let l = format!("{}x{} {} {} bit, {}", c.w, c.h, if c.gray { "gray" } else { "RGB" }, c.bits, ["strips", "tiles", "JPEG"][c.how as usize]);
  let bits = if c.how == 2 { 8 } else { c.bits as u32 };
  let spp = if c.gray { 1 } else { 3 };
  let mut d = Dir::new();
  d.set(254, Val::long(&[1])).set(256, Val::long(&[c.w as u32])).set(257, Val::short(&[c.h as u16]));
  d.set(258, Val::short(&vec![bits as u16; spp])).set(277, Val::short(&[spp as u16]));
  let want: Vec<u16>;
  if c.how == 2 {
    let p = Pic { w: c.w as u32, h: c.h as u32, jpeg: true, gray: c.gray, smooth: r.bool(), seed: c.seed };
    let (j, s) = p.coded();
    d.set(259, Val::short(&[7])).set(262, Val::short(&[if c.gray { 1 } else { 6 }]));
    if r.bool() {
      d.set(278, Val::long(&[c.h as u32]));
    }
    d.blobs.push((273, 279, vec![j]));
    want = s.px.iter().map(|v| *v as u16).collect();
  } else {
    want = (0..c.w * c.h * spp).map(|_| r.below(1 << bits) as u16).collect();
    d.set(259, Val::short(&[1])).set(262, Val::short(&[if c.gray { 1 } else { 2 }]));
    let row = |v: &[u16]| -> Vec<u8> {
      match bits {
        8 => v.iter().map(|v| *v as u8).collect(),
        16 => v.iter().flat_map(|v| if c.big { v.to_be_bytes() } else { v.to_le_bytes() }).collect(),
        b => {
          let mut o = vh::pack::pack_msb(v, b);
          o.truncate((v.len() * b as usize).div_ceil(8));
          o
        }
      }
    };
    let n = c.w * spp;
    if c.how == 0 {
      let rows = 1 + r.below(c.h as u64) as usize;
      d.set(278, Val::short(&[rows as u16]));
      d.blobs.push((273, 279, want.chunks(rows * n).map(|s| s.chunks(n).flat_map(row).collect()).collect()));
    } else {
      let (tw, th) = (16 * (1 + r.below(4) as usize), 16 * (1 + r.below(4) as usize));
      d.set(322, Val::short(&[tw as u16])).set(323, Val::short(&[th as u16]));
      let mut tiles = vec![];
      for ty in (0..c.h).step_by(th) {
        for tx in (0..c.w).step_by(tw) {
          let mut t = vec![];
          for y in ty..ty + th {
            let line: Vec<u16> = (tx * spp..(tx + tw) * spp).map(|x| if y < c.h && x < n { want[y * n + x] } else { r.below(1 << bits) as u16 }).collect();
            t.extend(row(&line));
          }
          tiles.push(t);
        }
      }
      d.blobs.push((324, 325, tiles));
    }
  }
  // the raw image
  let mut raw = Dir::new();
  raw.set(254, Val::long(&[0])).set(256, Val::short(&[4])).set(257, Val::short(&[4])).set(258, Val::short(&[16])).set(259, Val::short(&[1])).set(262, Val::short(&[32803])).set(277, Val::short(&[1])).set(278, Val::short(&[4]));
  raw.set(33421, Val::short(&[2, 2])).set(33422, Val::byte(&[0, 1, 1, 2]));
  raw.blobs.push((273, 279, vec![r.bytes(32)]));
  let mut small = |kind: u32| -> (Dir, Vec<u8>) {
    let mut o = Dir::new();
    let px = r.bytes(12);
    o.set(254, Val::long(&[kind])).set(256, Val::short(&[2])).set(257, Val::short(&[2])).set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3])).set(278, Val::short(&[2]));
    o.blobs.push((273, 279, vec![px.clone()]));
    (o, px)
  };
  let (other, other_px) = small(1);
  let decoys: Vec<Dir> = c.decoys.iter().map(|k| small(DECOYS[*k as usize]).0).collect();
  let extra = small(1).0;
  let (has_thumb, has_prev) = (c.root || c.both, !c.root || c.both);
  let raw_first = c.raw_first && !has_thumb;
  let mut root = if c.root {
    d.clone()
  } else if c.both {
    other.clone()
  } else if raw_first {
    raw.clone()
  } else {
    Dir::new()
  };
  root.set(271, Val::ascii("Maker")).set(272, Val::ascii("Model")).set(50706, Val::byte(&[1, 4, 0, 0])).set(50707, Val::byte(&[1, 1, 0, 0])).set(50708, Val::ascii("Maker Model"));
  root.set(50721, Val::srational(&[(1, 1), (0, 1), (0, 1), (0, 1), (1, 1), (0, 1), (0, 1), (0, 1), (1, 1)])).set(50778, Val::short(&[21]));
  let mut subs = if raw_first { vec![] } else { vec![raw] };
  // anywhere among them
  for k in decoys {
    subs.insert(r.below(subs.len() as u64 + 1) as usize, k);
  }
  if has_prev {
    let at = r.below(subs.len() as u64 + 1) as usize;
    subs.insert(at, if c.root { other } else { d });
    if r.bool() {
      // the first preview counts
      subs.insert(at + 1 + r.below((subs.len() - at) as u64) as usize, extra);
    }
  }
  if !subs.is_empty() {
    root.subs.push((330, subs));
  }
  let seed = r.next();
  let file = tiffmini::build(&[root], Layout { big: c.big, magic: 42, shuffle: if seed % 3 == 0 { 0 } else { seed >> 8 }, gaps: seed % 2 == 0 });
  let src = RawSource::new_from_slice(&file);
  let dec = decoder(&src, &l)?;
  let p = RawDecodeParams::default();
  let thumb = dec.thumbnail_image(&src, &p).map_err(|e| format!("{l}: {e:?}"))?;
  let prev = dec.preview_image(&src, &p).map_err(|e| format!("{l}: {e:?}"))?;
  ensure_eq!((thumb.is_some(), prev.is_some()), (has_thumb, has_prev), "{l}: thumbnail and preview");
  if let Some(k) = dec.preview_image(&src, &RawDecodeParams { image_index: 1 }).map_err(|e| format!("{l}: {e:?}"))? {
    return Err(format!("{l}: preview of a second image: {:?}", k.color()));
  }
  use image::DynamicImage::*;
  // what the file lacks comes from the next larger picture
  let at = std::path::PathBuf::from(format!("/dev/shm/vh-{}", std::process::id()));
  let path = at.join(format!("c23-{:?}.dng", std::thread::current().id()));
  std::fs::create_dir_all(&at).and_then(|_| std::fs::write(&path, &file)).map_err(|e| format!("scratch file: {e}"))?;
  let (t2, p2) = (rawler::analyze::extract_thumbnail_pixels(&path, &p), rawler::analyze::extract_preview_pixels(&path, &p));
  let (d1, d2) = (rawler::analyze::thumbnail_digest(&path, &p), rawler::analyze::preview_digest(&path, &p));
  let full = rawler::analyze::extract_full_pixels(&path, &p);
  let _ = std::fs::remove_file(&path);
  let full = full.map_err(|e| format!("{l}: full image: {e:?}"))?;
  ensure_eq!((full.width(), full.height()), (4, 4), "{l}: full image");
  let p_want = prev.as_ref().unwrap_or(&full);
  let t_want = thumb.as_ref().unwrap_or(p_want);
  for (name, got, digest, want) in [("thumbnail", t2, d1, t_want), ("preview", p2, d2, p_want)] {
    let got = got.map_err(|e| format!("{l}: extracting the {name}: {e:?}"))?;
    ensure!(got == *want, "{l}: extracted {name} of {}x{} instead of {}x{}", got.width(), got.height(), want.width(), want.height());
    let digest = digest.map_err(|e| format!("{l}: {name} digest: {e:?}"))?;
    ensure_eq!(digest, *md5::compute(want.as_bytes()), "{l}: {name} digest");
  }
  let (img, little) = if c.root { (thumb.unwrap(), prev) } else { (prev.unwrap(), thumb) };
  if let Some(k) = little {
    let s = picture::shown(&k).ok_or(format!("{l}: small picture is {:?}", k.color()))?;
    ensure_eq!((s.w, s.h, s.spp, s.px), (2, 2, 3, other_px), "{l}: small picture");
  }
  ensure_eq!((img.width() as usize, img.height() as usize), (c.w, c.h), "{l}: size");
  // other depths are spread over 16 bits
  let full = |v: u16| if bits == 8 || bits == 16 { v as f64 } else { v as f64 * 65535.0 / ((1u32 << bits) - 1) as f64 };
  let got: Vec<u16> = match (&img, c.gray, bits) {
    (ImageLuma8(i), true, 8) => i.as_raw().iter().map(|v| *v as u16).collect(),
    (ImageRgb8(i), false, 8) => i.as_raw().iter().map(|v| *v as u16).collect(),
    (ImageLuma16(i), true, 9..=16) => i.as_raw().clone(),
    (ImageRgb16(i), false, 9..=16) => i.as_raw().clone(),
    _ => return Err(format!("{l}: picture is {:?}", img.color())),
  };
  let slack = if bits == 8 || bits == 16 { 0.0 } else { 1.0 + (1u32 << (16 - bits)) as f64 };
  for (i, (g, v)) in got.iter().zip(&want).enumerate() {
    ensure!((*g as f64 - full(*v)).abs() <= slack, "{l}: row {}, sample {}: {g} instead of {}", i / (c.w * spp), i % (c.w * spp), full(*v));
  }
  Ok(nontrivial(format!("{} {}", ["strips", "tiles", "JPEG"][c.how as usize], if c.root { "thumbnail" } else { "preview" })))
}

fn main() {
  main_with(
    "C23",
    "cases: raw files of 16 containers with a generated picture where the container keeps its preview, converted files with and without thumbnail and preview, DNG files with pictures in the layouts the decoder names; non-trivial: a picture was there and compared; distinct by full case description",
    |r| {
      r.assume("pictures inside JPEG data are compared with what the image crate decodes; coded previews of smooth pictures within 24 levels");
      let n = r.scale(12000, 150000);
      r.check("embedded", n, with_pic, embedded);
      let n = r.scale(8000, 80000);
      r.check("written", n, || (with_pic(), prop::bool::weighted(0.8), prop::bool::weighted(0.8)).prop_map(|(v, thumbnail, preview)| Written { v, thumbnail, preview }), written);
      let n = r.scale(20000, 200000);
      r.check("dng_read", n, in_dng, dng_read);
      vh::cli::cleanup();
    },
  )
}
