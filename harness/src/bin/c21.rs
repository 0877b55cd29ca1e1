//! C21: results do not depend on the schedule, the run or the history.
use proptest::prelude::*;
use rawler::decoders::{Decoder, RawDecodeParams, WellKnownIFD};
use rawler::dng::convert::{convert_raw_source, ConvertParams};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::GenericTiffReader;
use rawler::imgop::develop::{Intermediate, RawDevelop};
use rawler::rawsource::RawSource;
use rawler::{RawImage, RawImageData};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, OnceLock};
use vh::fill::fill;
use vh::foreign;
use vh::rawgen::{self, Pix};
use vh::rw2::{self, Rw2};
use vh::tiffmini::{self, Dir, Layout, Val};
use vh::vendor::{self, Vc};
use vh::vfile::{self, VFile};
use vh::*;

const POOLS: [usize; 5] = [1, 2, 3, 5, 8];
fn pool(i: usize) -> &'static rayon::ThreadPool {
  static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
  &P.get_or_init(|| POOLS.iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i % POOLS.len()]
}

// ---- what a result is ---------------------------------------------------

fn md5(b: &[u8]) -> String {
  format!("{:x}", md5::compute(b))
}
fn bytes16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn bytes32(v: &[f32]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}
fn pixels(d: &RawImageData) -> String {
  match d {
    RawImageData::Integer(v) => format!("{} integers {}", v.len(), md5(&bytes16(v))),
    RawImageData::Float(v) => format!("{} floats {}", v.len(), md5(&bytes32(v))),
  }
}
/// Everything about the image that is no sample value.
fn facts(i: &RawImage) -> BTreeMap<&'static str, String> {
  let mats: BTreeMap<_, _> = i.color_matrix.iter().collect();
  let tags: BTreeMap<_, _> = i.dng_tags.iter().collect();
  let cam_mats: BTreeMap<_, _> = i.camera.color_matrix.iter().collect();
  let params: BTreeMap<_, _> = i.camera.params.iter().map(|(k, v)| (k, format!("{v:?}"))).collect();
  BTreeMap::from([
    ("size", format!("{}x{}x{}", i.width, i.height, i.cpp)),
    ("bps", format!("{}", i.bps)),
    ("make", format!("{} {} {} {}", i.make, i.model, i.clean_make, i.clean_model)),
    ("camera", format!("{} {} {} {} {} {:?} {:?} {:?}", i.camera.make, i.camera.model, i.camera.clean_make, i.camera.clean_model, i.camera.mode, i.camera.hints, params, cam_mats)),
    ("cfa", format!("{:?}", i.camera.cfa.name)),
    ("wb", format!("{:?}", i.wb_coeffs.map(f32::to_bits))),
    ("white", format!("{:?}", i.whitelevel)),
    ("photometric", format!("{:?}", i.photometric)),
    ("active area", format!("{:?}", i.active_area)),
    ("crop area", format!("{:?}", i.crop_area)),
    ("masked areas", format!("{:?}", i.blackareas)),
    ("orientation", format!("{:?}", i.orientation)),
    ("matrices", format!("{mats:?}")),
    ("tags", format!("{tags:?}")),
    ("rotation", format!("{:?}", i.fuji_rotation_width)),
  ])
}
fn whole(i: &RawImage) -> BTreeMap<&'static str, String> {
  let mut f = facts(i);
  f.insert("black", format!("{:?}", i.blacklevel));
  f.insert("pixels", pixels(&i.data));
  f
}
type Facts = BTreeMap<&'static str, String>;
fn first_difference(a: &Facts, b: &Facts) -> Option<String> {
  a.iter().find_map(|(k, v)| match b.get(k) {
    Some(w) if v == w => None,
    o => Some(format!("{k}: {} / {}", cut(v), cut(o.map(|s| s.as_str()).unwrap_or("missing")))),
  })
}
fn cut(s: &str) -> String {
  s.chars().take(160).collect()
}
/// Runs an operation and gives its whole result, a refusal included.
fn end<T>(f: impl FnOnce() -> Result<T, String>, show: impl FnOnce(T) -> Facts) -> Facts {
  match catch_unwind(AssertUnwindSafe(|| f().map(show))) {
    Ok(Ok(v)) => v,
    Ok(Err(e)) => Facts::from([("error", e)]),
    Err(_) => Facts::from([("error", "panic".into())]),
  }
}
fn failed(f: &Facts) -> bool {
  f.contains_key("error")
}

// ---- inputs -------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Input {
  Dng(Box<foreign::Case>),
  Rw2(Rw2),
  Codec(Vc),
  Vendor(VFile),
}
impl Input {
  fn bytes(&self) -> Vec<u8> {
    match self {
      Input::Dng(c) => foreign::build(c).0,
      Input::Rw2(c) if c.format == 8 => rw2::build_strips(c).file,
      Input::Rw2(c) => rw2::build(c).0,
      Input::Codec(c) => vendor::build(c).0,
      Input::Vendor(v) => vfile::build(v).file,
    }
  }
  fn label(&self) -> String {
    match self {
      Input::Dng(c) => format!("dng {:?}", c.comp).split('(').next().unwrap().to_string(),
      Input::Rw2(c) => format!("rw2 {}", c.format),
      Input::Codec(c) => format!("codec {}", c.codec),
      Input::Vendor(v) => format!("file {}", v.name()),
    }
  }
}
fn rw2_case() -> impl Strategy<Value = Rw2> {
  (3..=8u16, any::<bool>(), 1..=9usize, 1..=20usize, fill(), any::<u64>(), (1..=3u8, 1..=2u8)).prop_map(|(format, b, packets, h, fill, seed, strips)| Rw2 {
    format,
    bps: if b && format > 4 { 14 } else { 12 },
    packets,
    h,
    fill,
    seed,
    strips,
  })
}
fn codec() -> impl Strategy<Value = Vc> {
  (prop::sample::select(vendor::CODECS.to_vec()), 1..=64usize, 1..=40usize, fill(), any::<u64>()).prop_map(|(codec, w, h, fill, seed)| Vc { codec, w, h, fill, seed })
}
fn file() -> BoxedStrategy<Input> {
  prop_oneof![4 => foreign::case().prop_map(|c| Input::Dng(Box::new(c))), 1 => rw2_case().prop_map(Input::Rw2), 4 => vfile::case().prop_map(Input::Vendor)].boxed()
}
fn any_input() -> BoxedStrategy<Input> {
  prop_oneof![5 => file(), 2 => codec().prop_map(Input::Codec)].boxed()
}

// ---- decoding under schedules -------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sched {
  input: Input,
  /// decoded at the same time
  other: Input,
  copies: u8,
}
fn decode(b: &Arc<Vec<u8>>, raw: bool) -> Facts {
  let src = RawSource::new_from_shared_vec(b.clone());
  if raw {
    end(|| rawler::decode_unwrapped(&src).map_err(|e| e.to_string()), |d| Facts::from([("pixels", pixels(&d))]))
  } else {
    end(|| rawler::decode(&src, &RawDecodeParams::default()).map_err(|e| e.to_string()), |i| whole(&i))
  }
}
fn run_sched(c: &Sched) -> Outcome {
  let b = Arc::new(c.input.bytes());
  let o = Arc::new(c.other.bytes());
  let raw = matches!(c.input, Input::Codec(_));
  let oraw = matches!(c.other, Input::Codec(_));
  let want = pool(0).install(|| decode(&b, raw));
  for p in 1..POOLS.len() {
    let got = pool(p).install(|| decode(&b, raw));
    if let Some(d) = first_difference(&want, &got) {
      return Err(format!("{}: {} threads: {d}", c.input.label(), POOLS[p]));
    }
  }
  // several at once, and another input between them
  let n = c.copies as usize % 4 + 2;
  let mut got: Vec<Option<Facts>> = vec![None; n];
  let p = c.copies as usize;
  pool(p).scope(|s| {
    for (i, g) in got.iter_mut().enumerate() {
      let (b, o) = (&b, &o);
      s.spawn(move |_| {
        if i % 2 == 1 {
          decode(o, oraw);
        }
        *g = Some(decode(b, raw));
      });
    }
  });
  for g in got {
    if let Some(d) = first_difference(&want, &g.unwrap()) {
      return Err(format!("{}: {n} at once: {d}", c.input.label()));
    }
  }
  Ok(if failed(&want) { trivial(format!("{} refused", c.input.label())) } else { nontrivial(c.input.label()) })
}

// ---- a decode without pixels --------------------------------------------

fn run_dummy(c: &Input) -> Outcome {
  let b = c.bytes();
  let src = RawSource::new_from_slice(&b);
  let p = RawDecodeParams::default();
  let full = end(|| rawler::decode(&src, &p).map_err(|e| e.to_string()), |i| facts(&i));
  if failed(&full) {
    return Ok(trivial(format!("{} refused", c.label())));
  }
  let l = c.label();
  let dummy = end(|| rawler::decode_dummy(&src).map_err(|e| e.to_string()), |i| facts(&i));
  if let Some(d) = first_difference(&full, &dummy) {
    return Err(format!("{l}: full / without pixels: {d} {}", dummy.get("error").map(|s| s.as_str()).unwrap_or("")));
  }
  // the same from one decoder, in either order
  for order in [[true, false], [false, true]] {
    let dec = rawler::get_decoder(&src).map_err(|e| format!("{l}: {e}"))?;
    for dummy in order {
      let got = end(|| dec.raw_image(&src, &p, dummy).map_err(|e| e.to_string()), |i| facts(&i));
      if let Some(d) = first_difference(&full, &got) {
        return Err(format!("{l}: one decoder, without pixels {dummy}: {d}"));
      }
    }
  }
  Ok(nontrivial(l))
}

// ---- history of one decoder ---------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
  input: Input,
  ops: Vec<u8>,
  /// the bytes come from a file
  from_file: bool,
}
const OPS: [&str; 11] = ["raw", "dummy", "metadata", "thumbnail", "preview", "full", "xpacket", "root", "exif", "count", "dump"];
fn picture(i: Option<image::DynamicImage>) -> Facts {
  Facts::from([("picture", i.map_or("none".into(), |i| format!("{}x{} {:?} {}", i.width(), i.height(), i.color(), md5(i.as_bytes()))))])
}
fn text(k: &'static str, v: impl std::fmt::Debug) -> Facts {
  Facts::from([(k, format!("{v:?}"))])
}
fn op(dec: &dyn Decoder, src: &RawSource, op: u8) -> Facts {
  let p = RawDecodeParams::default();
  let e = |e: rawler::RawlerError| e.to_string();
  match OPS[op as usize % OPS.len()] {
    "raw" => end(|| dec.raw_image(src, &p, false).map_err(e), |i| whole(&i)),
    "dummy" => end(|| dec.raw_image(src, &p, true).map_err(e), |i| facts(&i)),
    "metadata" => end(|| dec.raw_metadata(src, &p).map_err(e), |m| text("metadata", m)),
    "thumbnail" => end(|| dec.thumbnail_image(src, &p).map_err(e), picture),
    "preview" => end(|| dec.preview_image(src, &p).map_err(e), picture),
    "full" => end(|| dec.full_image(src, &p).map_err(e), picture),
    "xpacket" => end(|| dec.xpacket(src, &p).map_err(e), |m| text("xpacket", m)),
    "root" => end(|| dec.ifd(WellKnownIFD::Root).map_err(e), |m| text("root", m)),
    "exif" => end(|| dec.ifd(WellKnownIFD::Exif).map_err(e), |m| text("exif", m)),
    "count" => end(|| dec.raw_image_count().map_err(e), |m| text("count", m)),
    _ => end(|| Ok(serde_json::to_string(&dec.format_dump()).unwrap_or_default()), |m| text("dump", m)),
  }
}
fn run_history(c: &History) -> Outcome {
  let b = c.input.bytes();
  let l = c.input.label();
  let mem = RawSource::new_from_slice(&b);
  let dir;
  let src = if c.from_file {
    dir = vh::cli::Scratch::new();
    let p = dir.file("input.raw", &b);
    RawSource::new(&p).map_err(|e| format!("{l}: cannot open: {e}"))?
  } else {
    RawSource::new_from_shared_vec(Arc::new(b.clone()))
  };
  let Ok(dec) = rawler::get_decoder(&src) else {
    ensure!(rawler::get_decoder(&mem).is_err(), "{l}: a decoder for the bytes, none for the file");
    return Ok(trivial("no decoder"));
  };
  let mut good = 0;
  for (n, o) in c.ops.iter().enumerate() {
    let fresh = rawler::get_decoder(&mem).map_err(|e| format!("{l}: a decoder once, then {e}"))?;
    let want = op(fresh.as_ref(), &mem, *o);
    let got = op(dec.as_ref(), &src, *o);
    if let Some(d) = first_difference(&want, &got) {
      return Err(format!("{l}: {} as step {n}: fresh / after history: {d}", OPS[*o as usize % OPS.len()]));
    }
    good += !failed(&want) as usize;
  }
  Ok(if good > 1 { nontrivial(l) } else { trivial(format!("{l} refused")) })
}

// ---- developing ---------------------------------------------------------

fn run_develop(c: &Pix) -> Outcome {
  let img = c.image();
  let dev = |p: usize| {
    pool(p).install(|| {
      end(
        || RawDevelop::default().develop_intermediate(&img).map_err(|e| e.to_string()),
        |i| {
          let (d, b): (_, Vec<u8>) = match &i {
            Intermediate::Monochrome(p) => (p.dim(), bytes32(&p.data)),
            Intermediate::ThreeColor(p) => (p.dim(), bytes32(p.data.as_flattened())),
            Intermediate::FourColor(p) => (p.dim(), bytes32(p.data.as_flattened())),
          };
          let mut f = Facts::from([("size", format!("{d:?}")), ("samples", md5(&b))]);
          f.insert("picture", i.to_dynamic_image().map_or("none".into(), |i| md5(i.as_bytes())));
          f
        },
      )
    })
  };
  let want = dev(0);
  for p in 1..POOLS.len() {
    if let Some(d) = first_difference(&want, &dev(p)) {
      return Err(format!("{:?}: {} threads: {d}", c.kind, POOLS[p]));
    }
  }
  Ok(if failed(&want) { trivial("refused") } else { nontrivial(format!("{:?}", c.kind).split('(').next().unwrap().to_string()) })
}

// ---- converting ---------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
  input: Input,
  lossless: bool,
  predictor: u8,
  preview: bool,
  thumb: bool,
  embedded: bool,
  crop: u8,
}
/// The file with the time of writing blanked.
fn without_time(mut b: Vec<u8>) -> Result<Vec<u8>, String> {
  let p = tiffmini::parse(&b)?;
  let u16at = |b: &[u8], o: usize| u16::from_le_bytes([b[o], b[o + 1]]);
  let u32at = |b: &[u8], o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
  let d = p.root().offset as usize;
  for i in 0..u16at(&b, d) as usize {
    let e = d + 2 + 12 * i;
    if u16at(&b, e) == 306 {
      let (n, at) = (u32at(&b, e + 4), u32at(&b, e + 8));
      b[at..at + n].fill(b'?');
    }
  }
  Ok(b)
}
fn run_convert(c: &Conv) -> Outcome {
  let b = Arc::new(c.input.bytes());
  let l = c.input.label();
  let params = ConvertParams {
    embedded: c.embedded,
    compression: if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed },
    predictor: c.predictor % 7 + 1,
    preview: c.preview,
    thumbnail: c.thumb,
    crop: [CropMode::Best, CropMode::ActiveArea, CropMode::None][c.crop as usize % 3],
    ..Default::default()
  };
  let conv = |p: usize| {
    pool(p).install(|| {
      let src = RawSource::new_from_shared_vec(b.clone());
      let mut out = Cursor::new(vec![]);
      catch_unwind(AssertUnwindSafe(|| convert_raw_source(&src, &mut out, "input.raw", &params).map_err(|e| e.to_string())))
        .unwrap_or_else(|_| Err("panic".into()))
        .map(|_| out.into_inner())
    })
  };
  let want = conv(0);
  for p in 1..POOLS.len() {
    match (&want, conv(p)) {
      (Ok(a), Ok(b)) => {
        let (a, b) = (without_time(a.clone()).map_err(|e| format!("{l}: {e}"))?, without_time(b).map_err(|e| format!("{l}: {e}"))?);
        if a != b {
          let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
          return Err(format!("{l}: {} threads: DNG of {} / {} bytes differs at {at}", POOLS[p], a.len(), b.len()));
        }
      }
      (Err(_), Err(_)) => {}
      (a, b) => return Err(format!("{l}: 1 thread {}, {} threads {}", if a.is_ok() { "converts" } else { "refuses" }, POOLS[p], if b.is_ok() { "converts" } else { "refuses" })),
    }
  }
  Ok(if want.is_ok() { nontrivial(l) } else { trivial(format!("{l} refused")) })
}

// ---- repeated runs: choices between several candidates -------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mats {
  pix: Pix,
  mats: Vec<(u8, u64)>,
  tags: Vec<(u16, u8)>,
  lossless: bool,
}
fn run_write(c: &Mats) -> Outcome {
  let make = || {
    let mut img = c.pix.image();
    for (i, s) in &c.mats {
      let code = rawgen::ILLUMINANTS[*i as usize % rawgen::ILLUMINANTS.len()];
      let m = foreign::mat(*s).map(|v| v as f32 / 10000.0).to_vec();
      img.color_matrix.entry(rawgen::illuminant(code)).or_insert(m);
    }
    for (t, n) in &c.tags {
      img.dng_tags.insert(0xd000 + t % 500, rawler::formats::tiff::Value::Byte((0..*n).collect()));
    }
    img
  };
  let write = || -> Result<(Vec<u8>, Option<String>), String> {
    let img = make();
    let mut buf = Cursor::new(vec![]);
    {
      let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
      let mut f = dng.subframe(0);
      f.raw_image(&img, CropMode::None, if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed }, DngPhotometricConversion::Original, 1).map_err(|e| e.to_string())?;
      f.finalize().map_err(|e| e.to_string())?;
      dng.close().map_err(|e| e.to_string())?;
    }
    let params = catch_unwind(AssertUnwindSafe(|| img.develop_params().map(|p| format!("{p:?}")).map_err(|e| e.to_string()))).ok().and_then(|r| r.ok());
    Ok((buf.into_inner(), params))
  };
  let (want, params) = write()?;
  for n in 1..8 {
    let (got, p) = pool(n).install(write)?;
    if got != want {
      let at = want.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(want.len().min(got.len()));
      return Err(format!("the same image written {n} times: DNG of {} / {} bytes differs at {at}", want.len(), got.len()));
    }
    ensure!(p == params, "the same image asked {n} times for its development parameters: {params:?} / {p:?}");
  }
  let n = make().color_matrix.len();
  Ok(if n > 1 || c.tags.len() > 1 { nontrivial(format!("{n} matrices")) } else { trivial("one candidate") })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Dirs {
  /// per directory: parent (index, root for the first), pointer tag, tags held
  dirs: Vec<(u8, u8, Vec<u8>)>,
  big: bool,
}
const POINTERS: [u16; 3] = [330, 34665, 34853];
const HELD: [u16; 8] = [256, 270, 271, 272, 33434, 33437, 50706, 37500];
fn dirs_file(c: &Dirs) -> Vec<u8> {
  fn make(c: &Dirs, at: usize) -> Dir {
    let mut d = Dir::new();
    d.set(305, Val::ascii("x"));
    for h in &c.dirs[at].2 {
      d.set(HELD[*h as usize % 8], Val::long(&[1000 + at as u32]));
    }
    let mut kids: BTreeMap<u16, Vec<Dir>> = BTreeMap::new();
    for i in at + 1..c.dirs.len() {
      if c.dirs[i].0 as usize % i == at {
        kids.entry(POINTERS[c.dirs[i].1 as usize % 3]).or_default().push(make(c, i));
      }
    }
    d.subs.extend(kids);
    d
  }
  tiffmini::build(&[make(c, 0)], Layout { big: c.big, ..Layout::default() })
}
fn run_dirs(c: &Dirs) -> Outcome {
  let b = dirs_file(c);
  let ask = || -> Result<Vec<String>, String> {
    let t = GenericTiffReader::new(&mut Cursor::new(&b), 0, 0, None, &POINTERS).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for h in HELD {
      let offs = |l: Vec<&rawler::formats::tiff::IFD>| l.iter().map(|d| d.offset).collect::<Vec<_>>();
      out.push(format!("find_first_ifd_with_tag({h}) {:?}", t.find_first_ifd_with_tag(h).map(|d| d.offset)));
      out.push(format!("find_ifds_with_tag({h}) {:?}", offs(t.find_ifds_with_tag(h))));
      let r = t.root_ifd();
      out.push(format!("root.find_ifds_with_tag({h}) {:?}", offs(r.find_ifds_with_tag(h))));
      out.push(format!("root.get_entry_recursive({h}) {:?}", r.get_entry_recursive(h)));
      out.push(format!("root.get_entry_subs({h}) {:?}", r.get_entry_subs(h)));
    }
    out.push(serde_json::to_string(t.root_ifd()).unwrap_or_default());
    Ok(out)
  };
  let want = ask()?;
  for n in 1..6 {
    for (a, b) in want.iter().zip(ask()?) {
      ensure!(*a == b, "asked {n} times: {} / {}", cut(a), cut(&b));
    }
  }
  let several = c.dirs.iter().skip(1).map(|d| (d.0, d.1)).collect::<std::collections::HashSet<_>>().len();
  Ok(if several > 1 { nontrivial(format!("{} directories", c.dirs.len())) } else { trivial("one kind of directory") })
}

fn main() {
  main_with("C21", "a case is non-trivial when the operation produced a result (not a refusal), and for repeated choices when there were at least two candidates", |r| {
    let n = r.scale(4000, 60_000);
    r.check("schedules", n, || (any_input(), any_input(), any::<u8>()).prop_map(|(input, other, copies)| Sched { input, other, copies }), run_sched);
    let n = r.scale(8000, 100_000);
    r.check("without_pixels", n, file, run_dummy);
    let n = r.scale(5000, 60_000);
    r.check("history", n, || (file(), prop::collection::vec(any::<u8>(), 2..12), prop::bool::weighted(0.3)).prop_map(|(input, ops, from_file)| History { input, ops, from_file }), run_history);
    let n = r.scale(3000, 40_000);
    r.check("develop", n, rawgen::pix, run_develop);
    let n = r.scale(2000, 30_000);
    r.check("convert", n, || (file(), any::<(bool, u8, bool, bool, bool, u8)>()).prop_map(|(input, (lossless, predictor, preview, thumb, embedded, crop))| Conv { input, lossless, predictor, preview, thumb, embedded, crop }), run_convert);
    let n = r.scale(3000, 40_000);
    r.check("write", n, || (rawgen::pix(), prop::collection::vec((0..20u8, any::<u64>()), 0..6), prop::collection::vec((any::<u16>(), 1..9u8), 0..6), any::<bool>()).prop_map(|(mut pix, mats, tags, lossless)| { pix.w = pix.w.min(40); pix.h = pix.h.min(40); Mats { pix, mats, tags, lossless } }), run_write);
    let n = r.scale(6000, 80_000);
    r.check("directories", n, || (prop::collection::vec((any::<u8>(), any::<u8>(), prop::collection::vec(any::<u8>(), 0..6)), 1..10), any::<bool>()).prop_map(|(dirs, big)| Dirs { dirs, big }), run_dirs);
    r.assume("thread pools of 1, 2, 3, 5 and 8 workers, shared by the cases running at the same time, stand for all schedules");
    r.assume("the date of writing in the converted DNG is left out of the comparison");
  });
}
