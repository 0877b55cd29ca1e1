//! C18: makedng and process-raw write what was asked and nothing else.
use proptest::prelude::*;
use rawler::decoders::RawDecodeParams;
use rawler::imgop::develop::{ProcessingStep, RawDevelop};
use rawler::rawsource::RawSource;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use vh::cli::*;
use vh::fill::Rng;
use vh::rawgen::{FracRect, frac_rect};
use vh::tiffmini::{Dir, Layout, PDir, Val};
use vh::*;

// ---------------------------------------------------------------- process-raw

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Content {
  Good(Raw),
  Bad(u8, u64),
  Mutated(Good, Vec<(u16, u8)>, Option<u16>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
  good: Good,
  active: Option<FracRect>,
  crop: Option<FracRect>,
}
impl Raw {
  fn build(&self) -> (Vec<u8>, (usize, usize), (usize, usize), (usize, usize)) {
    let mut c = self.good.case();
    c.active = self.active.clone();
    c.crop = self.crop.clone().map(|f| (f, 0));
    let (mut root, e) = foreign::build_root(&c);
    if let Some(d) = self.good.date_text() {
      root.set(0x0132, Val::ascii(&d));
    }
    let full = (c.w, c.h);
    let act = e.active.map_or(full, |a| (a.2, a.3));
    let crop = e.crop.map_or(act, |a| (a.2, a.3));
    (foreign::file_of(&c, root), full, act, crop)
  }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Input {
  dir: u8,
  stem: u8,
  ext: u8,
  content: Content,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DevCase {
  inputs: Vec<Input>,
  /// directory, stem, kind (file, directory, read-only file)
  existing: Vec<(u8, u8, u8)>,
  /// recursive?, into the input directory?
  tree: Option<(bool, bool)>,
  form: u8,
  replace: bool,
  artist: bool,
  keep_mtime: bool,
  crop: u8,
  index: u8,
  verbose: bool,
  threads: u8,
  fsize: Option<u16>,
  block: (u8, u8),
}
const DIRS: [&str; 4] = ["", "a", "a/b", "c d"];
const STEMS: [&str; 5] = ["FOO", "FOO_1", "x.y", "bär", "foo"];
const EXTS: [&str; 7] = ["CR3", "nef", "dng", "DNG", "txt", "tif", "3fr"];
fn join(d: &str, n: &str) -> String {
  if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}
impl Input {
  fn dir(&self) -> &'static str {
    DIRS[self.dir as usize % 4]
  }
  fn stem(&self) -> &'static str {
    STEMS[self.stem as usize % 5]
  }
  fn rel(&self) -> String {
    join(self.dir(), &format!("{}.{}", self.stem(), EXTS[self.ext as usize % 7]))
  }
  fn supported(&self) -> bool {
    !matches!(self.ext % 7, 4 | 5)
  }
}
fn dev_case() -> impl Strategy<Value = DevCase> {
  let content = prop_oneof![
    6 => (good(), prop::option::of(frac_rect()), prop::option::of(frac_rect())).prop_map(|(good, active, crop)| Content::Good(Raw { good, active, crop })),
    2 => (0..4u8, any::<u64>()).prop_map(|(k, s)| Content::Bad(k, s)),
    1 => (good(), prop::collection::vec((0..700u16, any::<u8>()), 0..4), prop::option::of(any::<u16>())).prop_map(|(g, m, c)| Content::Mutated(g, m, c)),
  ];
  let input = (0..4u8, prop_oneof![2 => 0..2u8, 1 => 0..5u8], prop_oneof![4 => 0..4u8, 1 => 0..7u8], content).prop_map(|(dir, stem, ext, content)| Input { dir, stem, ext, content });
  (
    (
      prop::collection::vec(input, 1..6),
      prop::collection::vec((0..4u8, 0..5u8, prop_oneof![3 => Just(0u8), 1 => 1..4u8]), 0..3),
      prop_oneof![3 => (any::<bool>(), prop::bool::weighted(0.3)).prop_map(Some), 1 => Just(None)],
      0..7u8,
      any::<bool>(),
      any::<bool>(),
      any::<bool>(),
    ),
    (0..3u8, 0..3u8, any::<bool>(), 1..4u8, prop::option::weighted(0.12, 0..30000u16), prop_oneof![5 => Just((0u8, 0u8)), 1 => (1..3u8, 0..4u8)]),
  )
    .prop_map(|((inputs, existing, tree, form, replace, artist, keep_mtime), (crop, index, verbose, threads, fsize, block))| DevCase { inputs, existing, tree, form, replace, artist, keep_mtime, crop, index, verbose, threads, fsize, block })
}
/// The image that developing gives, computed with the library.
fn developed(file: &[u8], crop: u8) -> Result<image::DynamicImage, String> {
  let src = RawSource::new_from_slice(file);
  let d = rawler::get_decoder(&src).map_err(|e| e.to_string())?;
  let raw = d.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| e.to_string())?;
  let mut dev = RawDevelop::default();
  match crop % 3 {
    0 => {}
    1 => dev.steps.retain(|s| *s != ProcessingStep::CropDefault),
    _ => dev.steps.retain(|s| !matches!(s, ProcessingStep::CropDefault | ProcessingStep::CropActiveArea)),
  }
  dev.develop_intermediate(&raw).map_err(|e| e.to_string())?.to_dynamic_image().ok_or("no image".into())
}
struct Job {
  rel: String,
  dir: String,
  stem: String,
  /// None: it must fail
  image: Option<Option<image::DynamicImage>>,
  size: (usize, usize),
  date: Option<i64>,
}
fn suffix_of(name: &str, stem: &str) -> Option<u32> {
  let r = name.strip_prefix(stem)?;
  if r.is_empty() {
    return Some(0);
  }
  let d = r.strip_prefix('_')?;
  if d.is_empty() || d.starts_with('0') || !d.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  d.parse().ok()
}
fn judge(c: &DevCase, j: &Job, b: &[u8]) -> Result<(), String> {
  let p = tiffmini::parse(b)?;
  let img = image::load_from_memory_with_format(b, image::ImageFormat::Tiff).map_err(|e| format!("no readable TIFF: {e}"))?;
  if let Some(Some(want)) = &j.image {
    ensure_eq!((img.width() as usize, img.height() as usize), j.size, "size of the image");
    ensure_eq!(img.color(), want.color(), "kind of pixels");
    ensure!(img.as_bytes() == want.as_bytes(), "other pixels than developing gives");
  }
  let r = p.root();
  if c.artist {
    ensure_eq!(r.req(315)?.text(), "A. Tester", "artist");
  }
  if matches!(j.image, Some(Some(_))) {
    ensure_eq!(r.req(271)?.text(), "Other Make", "make");
  }
  Ok(())
}

fn develop(c: &DevCase) -> Outcome {
  let s = Scratch::new();
  let (src, out) = (s.dir("in"), s.dir("out"));
  let mut seen = BTreeSet::new();
  let mut list: Vec<(&Input, Vec<u8>)> = vec![];
  for i in &c.inputs {
    if !seen.insert(i.rel()) {
      continue;
    }
    let b = match &i.content {
      Content::Good(r) => r.build().0,
      Content::Bad(k, seed) => damaged(*k, *seed),
      Content::Mutated(g, m, cut) => {
        let mut f = g.file();
        for (at, v) in m {
          let n = f.len();
          f[*at as usize % n] = *v;
        }
        if let Some(k) = cut {
          f.truncate(*k as usize % f.len());
        }
        f
      }
    };
    let p = s.file(format!("in/{}", i.rel()), &b);
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000 + i.stem as u64 * 1000 + i.ext as u64);
    std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(t)).map_err(|e| e.to_string())?;
    list.push((i, b));
  }
  let same = matches!(c.tree, Some((_, true)));
  let to = if same { "in" } else { "out" };
  let target = s.0.join(to);
  if c.block.0 == 1 && !same && c.block.1 % 4 != 0 {
    s.file(format!("out/{}", DIRS[c.block.1 as usize % 4]), b"in the way");
  }
  for (d, st, kind) in &c.existing {
    let (d, n) = (DIRS[*d as usize % 4], format!("{}.tif", STEMS[*st as usize % 5]));
    let rel = format!("{to}/{}", join(d, &n));
    let dd = target.join(d);
    if dd.ancestors().any(|a| a.starts_with(&target) && a.is_file()) || std::fs::symlink_metadata(s.0.join(&rel)).is_ok() {
      continue;
    }
    match kind {
      1 => {
        s.dir(&rel);
      }
      3 => {
        s.dir(format!("{to}/{d}"));
        s.link(&rel, s.0.join("missing-target"));
      }
      k => {
        let p = s.file(&rel, b"precious");
        if *k == 2 {
          let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444));
        }
      }
    }
  }
  if c.block.0 == 2 && !same {
    let d = target.join(DIRS[c.block.1 as usize % 4]);
    if d.is_dir() {
      let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555));
    }
  }
  let before = snapshot(&s.0);
  let mut a: Vec<String> = vec!["process-raw".into(), "--crop".into(), ["best", "activearea", "none"][c.crop as usize % 3].into(), "--keep-mtime".into(), c.keep_mtime.to_string()];
  if c.artist {
    a.extend(["--artist".into(), "A. Tester".into()]);
  }
  match c.index % 3 {
    1 => a.extend(["--image-index".into(), "all".into()]),
    2 => a.extend(["--image-index".into(), "0".into()]),
    _ => {}
  }
  if c.replace {
    a.push("--override".into());
  }
  if c.verbose {
    a.push("-v".into());
  }
  let job = |i: &Input, b: &[u8], dir: &str, stem: &str| -> Result<Job, String> {
    let (image, size, date) = match &i.content {
      Content::Good(r) => {
        let (_, full, act, crop) = r.build();
        (Some(Some(developed(b, c.crop)?)), [crop, act, full][c.crop as usize % 3], r.good.mtime())
      }
      Content::Bad(..) => (None, (0, 0), None),
      Content::Mutated(..) => (Some(None), (0, 0), None),
    };
    Ok(Job { rel: format!("in/{}", i.rel()), dir: dir.into(), stem: stem.into(), image, size, date })
  };
  let mut jobs = vec![];
  match &c.tree {
    Some((rec, _)) => {
      if *rec {
        a.push("-r".into());
      }
      a.extend([src.to_string_lossy().into_owned(), target.to_string_lossy().into_owned()]);
      for (i, b) in &list {
        if i.supported() && (*rec || i.dir().is_empty()) {
          jobs.push(job(i, b, i.dir(), i.stem())?);
        }
      }
    }
    None => {
      let (i, b) = &list[0];
      let (arg, d, st) = match c.form {
        0 => ("out", "", i.stem()),
        1 => ("out/new.tif", "", "new"),
        2 => ("out/new", "", "new"),
        3 => ("out/p/q/new.tif", "p/q", "new"),
        4 => ("out/FOO.tif", "", "FOO"),
        5 => ("out/new.jpg", "", "new"),
        _ => ("out/", "", i.stem()),
      };
      a.extend([s.0.join(format!("in/{}", i.rel())).to_string_lossy().into_owned(), s.0.join(arg).to_string_lossy().into_owned()]);
      // a directory of that name takes the file under its own name
      if c.form == 4 && matches!(before.get("out/FOO.tif"), Some(Node::Dir)) {
        return Ok(trivial("directory in the way of a file"));
      }
      jobs.push(job(i, b, d, st)?);
    }
  }
  let _ = out;
  let r = run(&s.0, &a, Limits { fsize: c.fsize.map(|n| n as u64), threads: c.threads as usize })?;
  let after = snapshot(&s.0);
  ensure!(r.code.is_some_and(|c| c != 101), "the program died: {}", r.tail());
  let inputs: BTreeSet<String> = jobs.iter().map(|j| j.rel.clone()).collect();
  let told: BTreeSet<&str> = r.err.lines().filter_map(|l| l.strip_prefix("   ")).collect();
  let n = jobs.len();
  let failed: Vec<bool> = if n == 1 { vec![!r.ok()] } else { jobs.iter().map(|j| told.contains(&*s.0.join(&j.rel).to_string_lossy())).collect() };
  let nf = failed.iter().filter(|f| **f).count();
  ensure!(r.ok() == (nf == 0), "exit status and list of {nf} failures contradict: {}", r.tail());
  if c.tree.is_some() || nf == 0 {
    let line = if nf == 0 { format!("Processed {n}/{n} files") } else { format!("Processed {}/{n} files, {nf} failed:", n - nf) };
    ensure!(r.err.lines().any(|l| l == line), "summary {line:?} is missing: {}", r.tail());
  }
  let candidate = |k: &str, j: &Job| -> bool {
    let Some(rel) = k.strip_prefix(&format!("{to}/")) else { return false };
    let (d, n) = rel.rsplit_once('/').unwrap_or(("", rel));
    d == j.dir && n.strip_suffix(".tif").is_some_and(|st| suffix_of(st, &j.stem).is_some())
  };
  let mut changed: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  for (k, v) in &before {
    match after.get(k) {
      Some(w) if w == v => {}
      w => {
        ensure!(!inputs.contains(k), "the input {k} was changed or removed");
        ensure!(jobs.iter().any(|j| candidate(k, j)), "{k} has changed and is no output; {}", r.tail());
        ensure!(c.replace, "{k} existed before and has changed without --override");
        ensure!(matches!(v, Node::File(_) | Node::Link(_)), "{k} was no file, and is replaced");
        if let Some(Node::File(b)) = w {
          changed.insert(k.clone(), b.clone());
        }
      }
    }
  }
  for (k, v) in &after {
    if before.contains_key(k) {
      continue;
    }
    match v {
      Node::File(b) => {
        ensure!(jobs.iter().any(|j| candidate(k, j)), "{k} has appeared and is no output; {}", r.tail());
        changed.insert(k.clone(), b.clone());
      }
      Node::Dir => ensure!(jobs.iter().any(|j| format!("{to}/{}/", j.dir).starts_with(&format!("{k}/"))), "directory {k} has appeared"),
      _ => return Err(format!("{k} has appeared")),
    }
  }
  // every changed file belongs to one successful job
  let mut made: Vec<Option<String>> = vec![None; n];
  for (k, b) in &changed {
    let mut why = String::new();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| !matches!(jobs[*i].image, Some(Some(_))));
    let hit = order.into_iter().find(|i| {
      let j = &jobs[*i];
      if made[*i].is_some() || failed[*i] || !candidate(k, j) || j.image.is_none() {
        return false;
      }
      match judge(c, j, b) {
        Ok(()) => true,
        Err(m) => {
          why += &format!("; as {}: {m}", j.rel);
          false
        }
      }
    });
    match hit {
      Some(i) => made[i] = Some(k.clone()),
      None => return Err(format!("{k} is no complete image of any input{why}; {}", r.tail())),
    }
  }
  let had = |j: &Job| before.keys().any(|k| candidate(k, j));
  let blocked = |d: &str| {
    let p = target.join(d);
    p.ancestors().take_while(|a| a.starts_with(&target)).any(|a| match before.get(&a.strip_prefix(&s.0).unwrap().to_string_lossy().into_owned()) {
      Some(Node::Dir) => std::fs::metadata(a).is_ok_and(|m| m.permissions().mode() & 0o200 == 0),
      Some(_) => true,
      None => false,
    })
  };
  for (i, j) in jobs.iter().enumerate() {
    if failed[i] {
      ensure!(!(matches!(j.image, Some(Some(_))) && !had(j) && !blocked(&j.dir) && c.fsize.is_none()), "{} was not processed although nothing is in the way; {}", j.rel, r.tail());
      // with the override option an existing file is not in the way
      let alone = jobs.iter().filter(|o| o.dir == j.dir && (suffix_of(&o.stem, &j.stem).is_some() || suffix_of(&j.stem, &o.stem).is_some())).count() == 1;
      let key = format!("{to}/{}", join(&j.dir, &format!("{}.tif", j.stem)));
      let writable = std::fs::metadata(s.0.join(&key)).map_or(true, |m| m.permissions().mode() & 0o200 != 0);
      if alone && c.replace && matches!(j.image, Some(Some(_))) && !blocked(&j.dir) && c.fsize.is_none() && matches!(before.get(&key), Some(Node::File(_))) && writable && !inputs.contains(&key) {
        return Err(format!("{key} was not replaced in spite of --override; {}", r.tail()));
      }
    } else {
      ensure!(j.image.is_some(), "{} counts as processed, but is no raw file", j.rel);
      let Some(k) = &made[i] else {
        return Err(format!("{} counts as processed, but has no output; {}", j.rel, r.tail()));
      };
      if c.keep_mtime && matches!(j.image, Some(Some(_))) {
        ensure_eq!(mtime(&s.0.join(k)), j.date.or(mtime(&s.0.join(&j.rel))), "modification time of {k}");
      }
    }
  }
  let lab = format!(
    "{} {}{}{}{}",
    match c.tree { Some((true, _)) => "tree", Some(_) => "directory", None => "file" },
    if n == 0 { "empty" } else if nf == 0 { "processed" } else if nf == n { "failed" } else { "mixed" },
    if c.fsize.is_some() { " size limit" } else { "" },
    if jobs.iter().any(had) { " existing" } else { "" },
    if c.replace { " override" } else { "" },
  );
  Ok(if n > 0 { nontrivial(lab) } else { trivial(lab) })
}

// -------------------------------------------------------------------- makedng

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Part {
  Raw(Good),
  /// width, height, 16 bit, flat colour, TIFF instead of PPM
  Rgb { w: u16, h: u8, deep: bool, flat: bool, tiff: bool, seed: u64 },
  /// grey images are no raw data
  Grey(u64),
  /// exif?, xmp?
  Jpeg { w: u8, h: u8, seed: u64, exif: bool, xmp: bool },
  Bad(u8, u64),
  Missing,
}
const USES: [&str; 5] = ["raw", "preview", "thumbnail", "exif", "xmp"];
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Matrix {
  slot: u8,
  named: Option<u8>,
  vals: Vec<i16>,
  illu: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MakeCase {
  parts: Vec<Part>,
  /// use -> part; None: the default map
  map: Option<Vec<Option<u8>>>,
  texts: Vec<Option<String>>,
  mats: Vec<Matrix>,
  wb: Option<(u8, Vec<u16>)>,
  lin: Option<(u8, Vec<u16>)>,
  version: Option<u8>,
  colorimetric: Option<bool>,
  /// 0 free, 1 existing, 2 an input, 3 missing directory, 4 read-only directory, 5 a directory, 6 a link to an input, 7 a link to an existing file
  out: u8,
  replace: bool,
  fsize: Option<u32>,
}
const NAMED: [(&str, [f32; 9]); 4] = [
  ("XYZ_sRGB_D50", [3.1338561, -1.6168667, -0.4906146, -0.9787684, 1.9161415, 0.0334540, 0.0719453, -0.2289914, 1.4052427]),
  ("XYZ_sRGB_D65", [3.2404542, -1.5371385, -0.4985314, -0.969266, 1.8760108, 0.041556, 0.0556434, -0.2040259, 1.0572252]),
  ("XYZ_AdobeRGB_D50", [1.9624274, -0.6105343, -0.3413404, -0.9787684, 1.9161415, 0.0334540, 0.0286869, -0.1406752, 1.3487655]),
  ("XYZ_AdobeRGB_D65", [2.0413690, -0.5649464, -0.3446944, -0.9692660, 1.8760108, 0.0415560, 0.0134474, -0.1183897, 1.0154096]),
];
const ILLU: [(&str, u32); 8] = [("Unknown", 0), ("A", 17), ("B", 18), ("C", 19), ("D50", 23), ("D55", 20), ("D65", 21), ("D75", 22)];
const LIN: [&str; 6] = ["8bit_sRGB", "8bit_sRGB_invert", "16bit_sRGB", "8bit_gamma2.2", "8bit_gamma1.8_invert", "16bit_gamma2.4_invert"];

impl Part {
  fn name(&self, k: usize) -> String {
    let e = match self {
      Part::Raw(_) => "dng",
      Part::Rgb { tiff: true, .. } => "tif",
      Part::Rgb { .. } => "ppm",
      Part::Grey(_) => "pgm",
      Part::Jpeg { .. } => "jpg",
      Part::Bad(..) => "ppm",
      Part::Missing => "raw",
    };
    format!("part {k}.{e}")
  }
  fn samples(&self) -> Vec<u16> {
    match self {
      Part::Rgb { w, h, deep, flat, seed, .. } => {
        let mut r = Rng::new(*seed);
        let m = if *deep { 0xffff } else { 0xff };
        let f = [r.next() as u16 & m, r.next() as u16 & m, r.next() as u16 & m];
        (0..*w as usize * *h as usize * 3).map(|i| if *flat { f[i % 3] } else { r.next() as u16 & m }).collect()
      }
      _ => vec![],
    }
  }
  fn dates(seed: u64) -> String {
    format!("20{:02}:0{}:1{} 0{}:22:33", seed % 30, 1 + seed % 9, seed % 7, seed % 8)
  }
  fn xmp(seed: u64) -> Vec<u8> {
    format!("<?xpacket begin='' id='{seed}'?><x:xmpmeta/><?xpacket end='w'?>").into_bytes()
  }
  fn file(&self) -> Option<Vec<u8>> {
    Some(match self {
      Part::Raw(g) => g.file_with(|d| {
        d.set(700, Val::byte(&Part::xmp(g.seed)));
        d.set(315, Val::ascii("Part Artist"));
      }),
      Part::Rgb { w, h, deep, tiff, .. } => {
        let px = self.samples();
        let b: Vec<u8> = match (*deep, *tiff) {
          (false, _) => px.iter().map(|v| *v as u8).collect(),
          (true, false) => px.iter().flat_map(|v| v.to_be_bytes()).collect(),
          (true, true) => px.iter().flat_map(|v| v.to_le_bytes()).collect(),
        };
        if *tiff {
          let mut d = Dir::new();
          let bits = if *deep { 16 } else { 8 };
          d.set(256, Val::long(&[*w as u32])).set(257, Val::long(&[*h as u32])).set(258, Val::short(&[bits; 3])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3])).set(278, Val::long(&[*h as u32])).set(284, Val::short(&[1]));
          d.blobs.push((273, 279, vec![b]));
          tiffmini::build(&[d], Layout { big: false, ..Default::default() })
        } else {
          let mut f = format!("P6\n{w} {h}\n{}\n", if *deep { 65535 } else { 255 }).into_bytes();
          f.extend(b);
          f
        }
      }
      Part::Grey(seed) => {
        let mut f = b"P5\n20 10\n255\n".to_vec();
        f.extend(Rng::new(*seed).bytes(200));
        f
      }
      Part::Jpeg { w, h, seed, exif, xmp } => {
        let mut r = Rng::new(*seed);
        let px = r.bytes(*w as usize * *h as usize * 3);
        let mut j = vec![];
        image::codecs::jpeg::JpegEncoder::new_with_quality(&mut j, 90).encode(&px, *w as u32, *h as u32, image::ExtendedColorType::Rgb8).unwrap();
        let mut f = vec![0xFF, 0xD8];
        let mut seg = |b: Vec<u8>| {
          f.extend([0xFF, 0xE1]);
          f.extend((b.len() as u16 + 2).to_be_bytes());
          f.extend(b);
        };
        if *exif {
          let mut root = Dir::new();
          let mut e = Dir::new();
          e.set(0x9003, Val::ascii(&Part::dates(*seed))).set(0x829a, Val::rational(&[(1, 1 + (*seed % 500) as u32)])).set(0x8827, Val::short(&[100 + (*seed % 900) as u16]));
          root.set(271, Val::ascii("Jpeg Make"));
          root.subs.push((34665, vec![e]));
          let mut b = b"Exif\0\0".to_vec();
          b.extend(tiffmini::build(&[root], Layout { big: seed & 1 == 1, ..Default::default() }));
          seg(b);
        }
        if *xmp {
          let mut b = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
          b.extend(Part::xmp(*seed));
          seg(b);
        }
        f.extend(&j[2..]);
        f
      }
      Part::Bad(k, seed) => damaged(*k, *seed),
      Part::Missing => return None,
    })
  }
  /// The pixels of an image part, as `image` reads them.
  fn picture(&self) -> Option<image::DynamicImage> {
    match self {
      Part::Rgb { .. } | Part::Grey(_) | Part::Jpeg { .. } => image::load_from_memory(&self.file()?).ok(),
      _ => None,
    }
  }
}

fn make_case() -> impl Strategy<Value = MakeCase> {
  let part = prop_oneof![
    4 => good().prop_map(Part::Raw),
    4 => (prop_oneof![5 => 2..60u16, 1 => 1020..1100u16], 2..40u8, any::<bool>(), any::<bool>(), any::<bool>(), any::<u64>()).prop_map(|(w, h, deep, flat, tiff, seed)| Part::Rgb { w, h, deep, flat, tiff, seed }),
    1 => any::<u64>().prop_map(Part::Grey),
    3 => (4..40u8, 4..40u8, any::<u64>(), any::<bool>(), any::<bool>()).prop_map(|(w, h, seed, exif, xmp)| Part::Jpeg { w, h, seed, exif, xmp }),
    1 => (0..4u8, any::<u64>()).prop_map(|(k, s)| Part::Bad(k, s)),
    1 => Just(Part::Missing),
  ];
  let text = || prop::option::weighted(0.4, prop_oneof![Just("X".to_string()), "[ -~]{1,30}", Just("Jürgen ©".to_string())].prop_filter("option like", |s| !s.starts_with('-') && !s.trim().is_empty()));
  let mat = (1..4u8, prop::option::weighted(0.3, 0..4u8), prop::collection::vec(any::<i16>(), 9), 0..8u8).prop_map(|(slot, named, vals, illu)| Matrix { slot, named, vals, illu });
  (
    prop::collection::vec(part, 1..5),
    prop_oneof![1 => Just(None), 4 => prop::collection::vec(prop::option::weighted(0.7, 0..4u8), 5).prop_map(Some)],
    prop::collection::vec(text(), 4),
    prop::collection::vec(mat, 0..3),
    prop::option::weighted(0.4, (0..4u8, prop::collection::vec(1..30000u16, 3))),
    prop::option::weighted(0.4, (0..12u8, prop::collection::vec(any::<u16>(), 1..300))),
    prop::option::of(0..7u8),
    prop::option::of(any::<bool>()),
    prop_oneof![6 => Just(0u8), 6 => 0..8u8],
    any::<bool>(),
    prop::option::weighted(0.1, 0..20000u32),
  )
    .prop_map(|(parts, map, texts, mats, wb, lin, version, colorimetric, out, replace, fsize)| MakeCase { parts, map, texts, mats, wb, lin, version, colorimetric, out, replace, fsize })
}

fn close(got: &[f64], want: &[f64]) -> bool {
  got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() <= 1.5e-4 * (1.0 + b.abs() / 4.0))
}
fn mean(b: &[u8]) -> [f64; 3] {
  let n = (b.len() / 3).max(1) as f64;
  let mut m = [0.0; 3];
  b.iter().enumerate().for_each(|(i, v)| m[i % 3] += *v as f64 / n);
  m
}
fn strip<'a>(f: &'a [u8], d: &PDir) -> Result<&'a [u8], String> {
  let (o, n) = (d.req(273)?.uints(), d.req(279)?.uints());
  ensure_eq!((o.len(), n.len()), (1, 1), "strips");
  f.get(o[0] as usize..(o[0] + n[0]) as usize).ok_or("strip outside of the file".into())
}

fn makedng(c: &MakeCase) -> Outcome {
  if matches!(c.out, 2 | 6) && matches!(c.parts[0], Part::Missing) {
    return Ok(trivial("output is a missing input"));
  }
  let s = Scratch::new();
  s.dir("d");
  let mut paths = vec![];
  for (k, p) in c.parts.iter().enumerate() {
    let rel = format!("parts/{}", p.name(k));
    if let Some(b) = p.file() {
      s.file(&rel, &b);
    }
    paths.push(rel);
  }
  s.dir("parts");
  s.file("d/old.dng", b"precious");
  s.dir("d/dir.dng");
  s.dir("ro");
  let out = match c.out {
    0 => "d/new.dng".to_string(),
    1 => "d/old.dng".into(),
    2 => paths[0].clone(),
    3 => "d/none/new.dng".into(),
    4 => "ro/new.dng".into(),
    5 => "d/dir.dng".into(),
    6 => {
      s.link("d/link.dng", s.0.join(&paths[0]));
      "d/link.dng".into()
    }
    _ => {
      s.link("d/link.dng", s.0.join("d/old.dng"));
      "d/link.dng".into()
    }
  };
  let _ = std::fs::set_permissions(s.0.join("ro"), std::fs::Permissions::from_mode(0o555));
  let before = snapshot(&s.0);
  // use -> part
  let mut uses: Vec<Option<usize>> = match &c.map {
    None => vec![Some(0); 5],
    Some(m) => m.iter().map(|p| p.map(|p| p as usize % c.parts.len())).collect(),
  };
  if c.map.is_some() && uses.iter().all(|u| u.is_none()) {
    uses[0] = Some(0);
  }
  let mut a: Vec<String> = vec!["makedng".into(), "-o".into(), s.0.join(&out).to_string_lossy().into_owned()];
  a.push("-i".into());
  for p in &paths {
    a.push(s.0.join(p).to_string_lossy().into_owned());
  }
  if c.map.is_some() {
    a.push("--map".into());
    for (u, p) in uses.iter().enumerate() {
      if let Some(p) = p {
        a.push(format!("{p}:{}", USES[u]));
      }
    }
  }
  let mut opt = |k: &str, v: String| a.push(format!("--{k}={v}"));
  for (k, t) in ["artist", "make", "model", "unique-camera-model"].iter().zip(&c.texts) {
    if let Some(t) = t {
      opt(k, t.clone());
    }
  }
  let mut mats: BTreeMap<u8, (Vec<f64>, u32)> = BTreeMap::new();
  for m in &c.mats {
    if mats.contains_key(&m.slot) {
      continue;
    }
    let (text, vals) = match m.named {
      Some(k) => (NAMED[k as usize % 4].0.to_string(), NAMED[k as usize % 4].1.iter().map(|v| *v as f64).collect::<Vec<_>>()),
      None => {
        let v: Vec<f64> = m.vals.iter().map(|v| *v as f64 / 10000.0).collect();
        (v.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(", "), v)
      }
    };
    opt(&format!("matrix{}", m.slot), text);
    opt(&format!("illuminant{}", m.slot), ILLU[m.illu as usize % 8].0.into());
    mats.insert(m.slot, (vals, ILLU[m.illu as usize % 8].1));
  }
  let mut wb = None;
  if let Some((k, v)) = &c.wb {
    let f: Vec<f64> = v.iter().map(|v| *v as f64 / 10000.0).collect();
    match k {
      0 => {
        opt("white-xy", "D50".into());
        wb = Some((50729, vec![0.34567, 0.35851]));
      }
      1 => {
        opt("white-xy", "D65".into());
        wb = Some((50729, vec![0.31271, 0.32902]));
      }
      2 => {
        opt("white-xy", format!("{},{}", f[0], f[1]));
        wb = Some((50729, f[..2].to_vec()));
      }
      _ => {
        opt("wb", format!("{},{},{}", f[0], f[1], f[2]));
        wb = Some((50728, f));
      }
    }
  }
  let raw = uses[0].map(|p| &c.parts[p]);
  let raw_image = raw.is_some_and(|r| matches!(r, Part::Rgb { .. } | Part::Jpeg { .. }));
  let mut lin: Option<Vec<f64>> = None;
  if let (Some((k, v)), true) = (&c.lin, raw_image) {
    let k = *k as usize;
    if k < LIN.len() {
      opt("linearization", LIN[k].into());
      let n = if LIN[k].starts_with("8bit") { 256 } else { 65536 };
      lin = Some((0..n).map(|i| {
        let x = i as f64 / (n - 1) as f64;
        65535.0 * match k {
          0 | 2 => if x <= 0.0031308 { 12.92 * x } else { 1.055 * x.powf(1.0 / 2.4) - 0.055 },
          1 => if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) },
          3 => x.powf(1.0 / 2.2),
          4 => x.powf(1.8),
          _ => x.powf(2.4),
        }
      }).collect());
    } else {
      opt("linearization", v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
      lin = Some(v.iter().map(|v| *v as f64).collect());
    }
  }
  if let Some(v) = c.version {
    opt("dng-backward-version", format!("1.{v}"));
  }
  if let Some(o) = c.colorimetric {
    opt("colorimetric-reference", if o { "output" } else { "scene" }.into());
  }
  if c.replace {
    a.push("-f".into());
  }
  let r = run(&s.0, &a, Limits { fsize: c.fsize.map(|n| n as u64), threads: 1 })?;
  let after = snapshot(&s.0);
  ensure!(r.code.is_some_and(|c| c != 101), "the program died: {}", r.tail());
  ensure!(r.code != Some(2) || !r.err.contains("Usage:"), "the arguments are not understood: {}", r.err);
  // must it work?
  let bad_use = |u: usize| match uses[u].map(|p| &c.parts[p]) {
    None => false,
    Some(Part::Missing) => true,
    Some(Part::Bad(..)) => u < 3,
    Some(Part::Grey(_)) => u == 0,
    _ => false,
  };
  let exists = !matches!(c.out, 0 | 3 | 4);
  let place_bad = matches!(c.out, 3 | 4 | 5) || matches!(c.out, 2 | 6) && !matches!(c.parts[0], Part::Missing) || exists && !c.replace;
  let must_fail = (0..5).any(bad_use) || place_bad;
  // links are replaced, not followed
  let real = out.as_str();
  // nothing but the output changes
  for (k, v) in &before {
    if after.get(k) != Some(v) {
      ensure!(k == real || *k == out, "{k} has changed or is gone; {}", r.tail());
      ensure!(c.replace, "{k} existed before and has changed without --override; {}", r.tail());
      ensure!(!k.starts_with("parts/") , "the input {k} was changed or removed");
      ensure!(!matches!(v, Node::Dir), "a directory is gone");
    }
  }
  for k in after.keys() {
    ensure!(before.contains_key(k) || k == real, "{k} has appeared; {}", r.tail());
  }
  if !r.ok() {
    ensure!(must_fail || c.fsize.is_some(), "the program failed although nothing is wrong: {}", r.tail());
    ensure!(!matches!(c.out, 0 | 3 | 4) || !after.contains_key(real), "a failing run has left {real}; {}", r.tail());
    if place_bad {
      if let Some(m) = tree_diff(&before, &after) {
        return Err(format!("the output is refused, but {m}"));
      }
    }
    return Ok(nontrivial(format!("failed{}", if c.fsize.is_some() { " size limit" } else if place_bad { " place" } else { " part" })));
  }
  ensure!(!must_fail, "the program reports success, which cannot be: {}", r.tail());
  let Some(Node::File(b)) = after.get(real) else { return Err(format!("success, but there is no {real}")) };
  ensure!(before.get(real) != after.get(real), "success, but {real} is the old file");
  let p = tiffmini::parse(b)?;
  p.check_overlap()?;
  let root = p.root();
  ensure_eq!(root.req(50706)?.data.clone(), vec![1, 6, 0, 0], "DNGVersion");
  ensure_eq!(root.req(50707)?.data.clone(), vec![1, c.version.unwrap_or(4), 0, 0], "DNGBackwardVersion");
  for (t, tag) in c.texts.iter().zip([315u16, 271, 272, 50708]) {
    if let Some(t) = t {
      ensure_eq!(root.req(tag)?.text(), t.clone(), "text of tag {tag}");
    }
  }
  ensure_eq!(root.req(50879)?.nums(), vec![c.colorimetric.unwrap_or(false) as u8 as f64], "ColorimetricReference");
  for (slot, (v, i)) in &mats {
    if *slot == 3 && c.version != Some(6) {
      continue;
    }
    let (mt, it) = [(50721, 50778), (50722, 50779), (52531, 52529)][*slot as usize - 1];
    ensure!(close(&root.req(mt)?.nums(), v), "matrix {slot} is {:?}, given was {v:?}", root.req(mt)?.nums());
    ensure_eq!(root.req(it)?.nums(), vec![*i as f64], "illuminant {slot}");
  }
  if let Some((t, v)) = &wb {
    ensure!(close(&root.req(*t)?.nums(), v), "white balance is {:?}, given was {v:?}", root.req(*t)?.nums());
    ensure!(root.get(if *t == 50728 { 50729 } else { 50728 }).is_none(), "two kinds of white balance");
  }
  let dirs: Vec<&PDir> = root.subs.get(&330).into_iter().flatten().collect();
  ensure_eq!(dirs.len(), uses[0].is_some() as usize + uses[1].is_some_and(|p| c.parts[p].picture().is_some()) as usize, "number of images beside the thumbnail");
  // raw data
  match raw {
    Some(Part::Raw(g)) => {
      let d = read_dng(b)?;
      ensure_eq!((d.w, d.h, d.spp), (g.w as usize, g.h as usize, if g.linear { 3 } else { 1 }), "size of the raw image");
      ensure!(d.px == g.pixels(), "other pixels than the raw input");
    }
    Some(x) => {
      let i = x.picture().ok_or("no picture")?;
      let want: Vec<u16> = match &i {
        image::DynamicImage::ImageRgb8(v) => v.as_raw().iter().map(|v| *v as u16).collect(),
        image::DynamicImage::ImageRgb16(v) => v.as_raw().clone(),
        _ => return Err("unexpected picture".into()),
      };
      let d = read_dng(b)?;
      ensure_eq!((d.w, d.h, d.spp), (i.width() as usize, i.height() as usize, 3), "size of the raw image");
      ensure!(d.px == want, "other pixels than the raw input");
      let rd = dngmini::raw_dir(&p)?;
      let top = if lin.is_some() || matches!(i, image::DynamicImage::ImageRgb16(_)) { 65535.0 } else { 255.0 };
      ensure_eq!(rd.req(50717)?.nums(), vec![top; 3], "WhiteLevel");
      ensure!(rd.req(50714)?.nums().iter().all(|v| *v == 0.0), "BlackLevel");
      match (&lin, rd.get(50712)) {
        (None, None) => {}
        (Some(w), Some(g)) => {
          let g = g.nums();
          ensure_eq!(g.len(), w.len(), "length of the linearization table");
          let tol = if c.lin.as_ref().is_some_and(|l| (l.0 as usize) < LIN.len()) { 3.0 } else { 0.0 };
          if let Some(k) = (0..w.len()).find(|k| (w[*k] - g[*k]).abs() > tol) {
            return Err(format!("entry {k} of the linearization table is {}, must be {}", g[k], w[k]));
          }
        }
        (w, g) => return Err(format!("linearization table: given {}, written {}", w.is_some(), g.is_some())),
      }
    }
    None => ensure!(dirs.iter().all(|d| d.uint(254, 0) == 1), "raw data without raw input"),
  }
  // preview
  if let Some(i) = uses[1].and_then(|p| c.parts[p].picture()) {
    let d = dirs.iter().find(|d| d.uint(254, 0) == 1).ok_or("no preview")?;
    let j = image::load_from_memory_with_format(strip(b, d)?, image::ImageFormat::Jpeg).map_err(|e| format!("preview: {e}"))?;
    ensure_eq!((j.width(), j.height()), (d.uint(256, 0), d.uint(257, 0)), "size of the preview");
    if i.width() <= 1024 {
      ensure_eq!((j.width(), j.height()), (i.width(), i.height()), "size of the preview");
    } else {
      ensure!(j.width() <= 1024 && j.height() <= 768, "preview too large");
      ensure!((j.width() as f64 / i.width() as f64 - j.height() as f64 / i.height() as f64).abs() <= 1.0 / i.height() as f64 + 1e-3, "preview is distorted: {}x{} of {}x{}", j.width(), j.height(), i.width(), i.height());
    }
    if matches!(c.parts[uses[1].unwrap()], Part::Rgb { flat: true, .. }) {
      let (g, w) = (mean(&j.to_rgb8()), mean(&i.to_rgb8()));
      ensure!(g.iter().zip(&w).all(|(a, b)| (a - b).abs() < 6.0), "colour of the preview is {g:?}, of the input {w:?}");
    }
  }
  // thumbnail
  match uses[2].and_then(|p| c.parts[p].picture()) {
    Some(i) => {
      let px = strip(b, root)?;
      let (w, h) = (root.uint(256, 0) as usize, root.uint(257, 0) as usize);
      ensure!(w > 0 && h > 0 && w <= 240 && h <= 120 && px.len() == w * h * 3, "thumbnail of {w}x{h} with {} bytes", px.len());
      let (fw, fh) = (w as f64 / i.width() as f64, h as f64 / i.height() as f64);
      ensure!((fw - fh).abs() <= 1.0 / i.height() as f64 + 1.0 / i.width() as f64, "thumbnail is distorted: {w}x{h} of {}x{}", i.width(), i.height());
      if matches!(c.parts[uses[2].unwrap()], Part::Rgb { flat: true, .. }) {
        let (g, w) = (mean(px), mean(&i.to_rgb8()));
        ensure!(g.iter().zip(&w).all(|(a, b)| (a - b).abs() < 1.5), "colour of the thumbnail is {g:?}, of the input {w:?}");
      }
    }
    None => ensure!(root.get(273).is_none(), "a thumbnail without input"),
  }
  // metadata
  let exif = root.subs.get(&34665).and_then(|d| d.first());
  match uses[3].map(|p| &c.parts[p]) {
    Some(Part::Jpeg { seed, exif: true, .. }) => {
      let e = exif.ok_or("no Exif directory")?;
      ensure_eq!(e.req(0x9003)?.text(), Part::dates(*seed), "date");
      ensure_eq!(e.req(0x829a)?.nums(), vec![1.0 / (1 + *seed % 500) as u32 as f64], "exposure time");
      ensure_eq!(e.req(0x8827)?.nums(), vec![(100 + *seed % 900) as u16 as f64], "sensitivity");
    }
    Some(Part::Raw(g)) => {
      if let Some(d) = g.date_text() {
        ensure_eq!(exif.ok_or("no Exif directory")?.req(0x9003)?.text(), d, "date");
      }
      ensure_eq!(root.req(315)?.text(), c.texts[0].clone().unwrap_or("Part Artist".into()), "artist");
    }
    _ => {}
  }
  let want = match uses[4].map(|p| &c.parts[p]) {
    Some(Part::Jpeg { seed, xmp: true, .. }) => Some(Part::xmp(*seed)),
    Some(Part::Raw(g)) => Some(Part::xmp(g.seed)),
    _ => None,
  };
  ensure_eq!(root.get(700).map(|v| v.data.clone()), want, "XMP packet");
  Ok(nontrivial(format!(
    "made from {}{}{}",
    match raw { Some(Part::Raw(_)) => "raw", Some(_) => "image", None => "no raw" },
    if c.map.is_some() { " mapped" } else { "" },
    if exists { " override" } else { "" }
  )))
}

fn main() {
  main_with("C18", "a case is non-trivial when the run had an input to process", |r| {
    r.assume("the program runs as an unprivileged user in a scratch tree; failing output is produced with file size limits, files and directories in the way, and read-only directories");
    r.assume("the expected pixels of process-raw are those of the library's own develop steps, which C12, C13 and C14 judge; the size is computed independently");
    let n = r.scale(1600, 30_000);
    r.check("develop", n, dev_case, develop);
    let n = r.scale(2400, 40_000);
    r.check("makedng", n, make_case, makedng);
    cleanup();
  })
}
