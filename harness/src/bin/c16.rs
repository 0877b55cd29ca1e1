//! C16: batch conversion is complete, isolated and never destroys files.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use vh::cli::*;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Content {
  Good(Good),
  Bad(u8, u64),
  /// a link without target
  Dangling,
  /// a link to a good file outside of the tree
  Linked(Good),
  /// a convertible file with bytes changed: any outcome, but a clean one
  Mutated(Good, Vec<(u16, u8)>, Option<u16>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Input {
  dir: u8,
  stem: u8,
  ext: u8,
  content: Content,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Existing {
  dir: u8,
  stem: u8,
  /// 0: plain file, 1: directory, 2: dangling link, 3: read-only file
  kind: u8,
  upper: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Mode {
  /// whole tree: recursive?, output: 0 separate, 1 the input directory itself, 2 inside of it
  Tree(bool, u8),
  /// one file; output form
  File(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  inputs: Vec<Input>,
  existing: Vec<Existing>,
  mode: Mode,
  replace: bool,
  uncompressed: bool,
  preview: bool,
  thumbnail: bool,
  embed: bool,
  artist: bool,
  keep_mtime: bool,
  crop: u8,
  predictor: u8,
  jobs: u8,
  threads: u8,
  index: u8,
  verbose: bool,
  fsize: Option<u16>,
  /// the output has no place for this directory: 0 none, 1 a file is in the way, 2 not writable
  block: (u8, u8),
  relative: bool,
}
const DIRS: [&str; 6] = ["", "a", "a/b", "c d", "a/b/e", "a/b/e/a/e"];
const STEMS: [&str; 7] = ["FOO", "FOO_1", "x.y", "bär", "foo", "FOO_1_1", ".h"];
const EXTS: [&str; 10] = ["CR3", "NEF", "dng", "DNG", "rw2", "Arw", "txt", "jpg", "", "3fr"];

impl Input {
  fn name(&self) -> String {
    let e = EXTS[self.ext as usize % EXTS.len()];
    let s = STEMS[self.stem as usize % STEMS.len()];
    if e.is_empty() { s.to_string() } else { format!("{s}.{e}") }
  }
  fn dir(&self) -> &'static str {
    DIRS[self.dir as usize % DIRS.len()]
  }
  fn rel(&self) -> String {
    join(self.dir(), &self.name())
  }
  fn supported(&self) -> bool {
    !matches!(self.ext as usize % EXTS.len(), 6..=8)
  }
}
fn join(d: &str, n: &str) -> String {
  if d.is_empty() { n.to_string() } else { format!("{d}/{n}") }
}

fn content() -> impl Strategy<Value = Content> {
  prop_oneof![
    8 => good().prop_map(Content::Good),
    3 => (0..4u8, any::<u64>()).prop_map(|(k, s)| Content::Bad(k, s)),
    1 => Just(Content::Dangling),
    1 => good().prop_map(Content::Linked),
    2 => (good(), prop::collection::vec((0..700u16, any::<u8>()), 0..4), prop::option::of(any::<u16>())).prop_map(|(g, m, c)| Content::Mutated(g, m, c)),
  ]
}
fn case() -> impl Strategy<Value = Case> {
  let input = (0..6u8, prop_oneof![3 => 0..2u8, 1 => 0..7u8], prop_oneof![5 => 0..5u8, 1 => 0..10u8], content()).prop_map(|(dir, stem, ext, content)| Input { dir, stem, ext, content });
  let existing = (0..6u8, prop_oneof![3 => 0..3u8, 1 => 0..7u8], prop_oneof![3 => Just(0u8), 1 => 1..4u8], prop::bool::weighted(0.2)).prop_map(|(dir, stem, kind, upper)| Existing { dir, stem, kind, upper });
  (
    (
      prop::collection::vec(input, 1..7),
      prop::collection::vec(existing, 0..3),
      prop_oneof![4 => (any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1..3u8]).prop_map(|(r, o)| Mode::Tree(r, o)), 1 => (0..9u8).prop_map(Mode::File)],
      any::<bool>(),
      any::<bool>(),
      any::<bool>(),
      any::<bool>(),
      any::<bool>(),
    ),
    (any::<bool>(), any::<bool>(), 0..3u8, 1..8u8, 0..4u8, 1..4u8, 0..4u8, any::<bool>()),
    (prop::option::weighted(0.12, 0..20000u16), prop_oneof![5 => Just((0u8, 0u8)), 1 => (1..3u8, 0..6u8)], any::<bool>()),
  )
    .prop_map(|((inputs, existing, mode, replace, uncompressed, preview, thumbnail, embed), (artist, keep_mtime, crop, predictor, jobs, threads, index, verbose), (fsize, block, relative))| Case {
      inputs, existing, mode, replace, uncompressed, preview, thumbnail, embed, artist, keep_mtime, crop, predictor, jobs, threads, index, verbose, fsize, block, relative,
    })
}

/// `stem`, or `stem_<k>` with k > 0
fn suffix_of(name: &str, stem: &str) -> Option<u32> {
  let r = name.strip_prefix(stem)?;
  if r.is_empty() {
    return Some(0);
  }
  let d = r.strip_prefix('_')?;
  if d.is_empty() || d.starts_with('0') || !d.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  d.parse().ok()
}
fn split_ext(name: &str) -> (String, String) {
  match name.rfind('.') {
    Some(i) if i > 0 => (name[..i].to_string(), name[i + 1..].to_string()),
    _ => (name.to_string(), String::new()),
  }
}

struct Src {
  name: String,
  dir: String,
  stem: String,
  bytes: Option<Vec<u8>>,
  good: Option<Good>,
  /// must it fail?
  bad: bool,
}

/// Is this a complete result of converting `s`?
fn judge(c: &Case, s: &Src, path: &std::path::Path) -> Result<(), String> {
  let b = std::fs::read(path).map_err(|e| e.to_string())?;
  let d = read_dng(&b)?;
  let root = d.parsed.root();
  if let Some(g) = &s.good {
    ensure_eq!((d.w, d.h, d.spp), (g.w as usize, g.h as usize, if g.linear { 3 } else { 1 }), "image size");
    ensure!(d.px == g.pixels(), "other pixels than the input");
    ensure_eq!(root.req(271)?.text(), "Other Make", "make");
  }
  ensure_eq!(d.comp, if c.uncompressed { 1 } else { 7 }, "compression");
  match (embedded(&d)?, c.embed) {
    (None, false) => {}
    (Some(o), true) => {
      ensure!(Some(&o) == s.bytes.as_ref(), "the embedded original differs from the input");
      ensure_eq!(root.req(50827)?.text(), s.name, "name of the original");
    }
    (Some(_), false) => return Err("an original is embedded against the option".into()),
    (None, true) => return Err("no original is embedded".into()),
  }
  // previews: every further directory is a reduced image
  let reduced = root.subs.get(&330).into_iter().flatten().filter(|d| d.uint(254, 0) == 1).count();
  ensure_eq!(reduced, c.preview as usize, "number of preview images");
  ensure_eq!(root.uint(254, 0) == 1, c.thumbnail, "thumbnail in the root directory");
  if c.artist {
    ensure_eq!(root.req(315)?.text(), "A. Tester", "artist");
  }
  ensure!(root.req(305)?.text().starts_with("DNGLab"), "software tag");
  Ok(())
}

fn test(c: &Case) -> Outcome {
  let s = Scratch::new();
  let (src, out) = (s.dir("in"), s.dir("out"));
  // distinct inputs
  let mut seen = BTreeSet::new();
  let mut list: Vec<(Src, bool)> = vec![];
  for i in &c.inputs {
    let rel = i.rel();
    if !seen.insert(rel.clone()) || DIRS.contains(&rel.as_str()) {
      continue;
    }
    let p = format!("in/{rel}");
    let (bytes, good, bad) = match &i.content {
      Content::Good(g) => (Some(g.file()), Some(g.clone()), false),
      Content::Bad(k, seed) => (Some(damaged(*k, *seed)), None, true),
      Content::Dangling => {
        s.dir(format!("in/{}", i.dir()));
        s.link(&p, "nowhere/at/all");
        (None, None, true)
      }
      Content::Linked(g) => {
        s.dir(format!("in/{}", i.dir()));
        let n = format!("elsewhere/{}.bin", seen.len());
        let t = s.file(&n, &g.file());
        s.link(&p, t);
        (Some(g.file()), Some(g.clone()), false)
      }
      Content::Mutated(g, m, cut) => {
        let mut f = g.file();
        for (at, v) in m {
          let n = f.len();
          f[*at as usize % n] = *v;
        }
        if let Some(k) = cut {
          f.truncate(*k as usize % f.len());
        }
        (Some(f), None, false)
      }
    };
    if !matches!(i.content, Content::Dangling | Content::Linked(_)) {
      let p = s.file(&p, bytes.as_ref().unwrap());
      let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000 + i.stem as u64 * 1000 + i.ext as u64);
      std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(t)).map_err(|e| e.to_string())?;
    }
    let (mut stem, _) = split_ext(&i.name());
    if EXTS[i.ext as usize % EXTS.len()].is_empty() && i.name() == ".h" {
      stem = ".h".into();
    }
    list.push((Src { name: i.name(), dir: i.dir().into(), stem, bytes, good, bad }, i.supported()));
  }
  ensure!(!list.is_empty(), "no input");
  // destination
  let (target, to): (std::path::PathBuf, String) = match &c.mode {
    Mode::Tree(_, 0) => (out.clone(), "out".into()),
    Mode::Tree(_, 1) => (src.clone(), "in".into()),
    Mode::Tree(_, _) => (s.dir("in/results"), "in/results".into()),
    Mode::File(_) => (out.clone(), "out".into()),
  };
  let same = matches!(c.mode, Mode::Tree(_, 1));
  if c.block.0 == 1 && !same {
    let d = DIRS[c.block.1 as usize % DIRS.len()];
    if !d.is_empty() {
      s.file(format!("{to}/{d}"), b"in the way");
    }
  }
  // files in an output below the input directory would be inputs
  let inner = matches!(c.mode, Mode::Tree(_, 1 | 2));
  for e in c.existing.iter().filter(|_| !inner) {
    let d = DIRS[e.dir as usize % DIRS.len()];
    let n = format!("{}.{}", STEMS[e.stem as usize % 7], if e.upper { "DNG" } else { "dng" });
    let dd = target.join(d);
    if dd.exists() && !dd.is_dir() || dd.ancestors().any(|a| a.starts_with(&target) && a.is_file()) || std::fs::symlink_metadata(dd.join(&n)).is_ok() {
      continue;
    }
    let rel = format!("{to}/{}", join(d, &n));
    match e.kind {
      // a directory with the name of an input takes its output
      1 if list.iter().any(|(x, _)| x.dir == d && x.name == n) => {}
      1 => {
        s.dir(&rel);
      }
      2 => {
        s.dir(format!("{to}/{d}"));
        s.link(&rel, "missing-target");
      }
      k => {
        let p = s.file(&rel, b"precious");
        if k == 3 {
          let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444));
        }
      }
    }
  }
  if c.block.0 == 2 && !same {
    let d = target.join(DIRS[c.block.1 as usize % DIRS.len()]);
    if d.is_dir() {
      let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555));
    }
  }
  let before = snapshot(&s.0);
  // arguments
  let mut a: Vec<String> = vec!["convert".into()];
  let mut opt = |k: &str, v: String| {
    a.push(k.into());
    a.push(v);
  };
  opt("--compression", if c.uncompressed { "uncompressed" } else { "lossless" }.into());
  opt("--dng-preview", c.preview.to_string());
  opt("--dng-thumbnail", c.thumbnail.to_string());
  opt("--embed-raw", c.embed.to_string());
  opt("--keep-mtime", c.keep_mtime.to_string());
  opt("--crop", ["best", "activearea", "none"][c.crop as usize % 3].into());
  opt("--ljpeg92-predictor", c.predictor.to_string());
  opt("--jobs", c.jobs.to_string());
  if c.index == 1 {
    opt("--image-index", "all".into());
  }
  if c.artist {
    opt("--artist", "A. Tester".into());
  }
  if c.replace {
    a.push("--override".into());
  }
  if c.verbose {
    a.push("-v".into());
  }
  // the inputs of this run, with the directory and name their output gets
  let mut cwd = s.0.clone();
  let mut run_list: Vec<(&Src, String, String, String)> = vec![]; // source, dir, stem, ext
  match &c.mode {
    Mode::Tree(rec, _) => {
      if *rec {
        a.push("--recursive".into());
      }
      if c.relative {
        a.extend(["in".to_string(), to.clone()]);
      } else {
        a.extend([src.to_string_lossy().into_owned(), target.to_string_lossy().into_owned()]);
      }
      for (x, sup) in &list {
        if *sup && (*rec || x.dir.is_empty()) {
          let (_, e) = split_ext(&x.name);
          run_list.push((x, x.dir.clone(), x.stem.clone(), if e.eq_ignore_ascii_case("dng") { e } else { "dng".into() }));
        }
      }
    }
    Mode::File(form) => {
      let x = &list[0].0;
      // the program names the output of a link after its target
      if x.bytes.is_none() || before.get(&format!("in/{}", join(&x.dir, &x.name))).is_some_and(|n| matches!(n, Node::Link(_))) {
        return Ok(trivial("no single input"));
      }
      let i = src.join(join(&x.dir, &x.name));
      let (arg, d, st, e) = match form {
        0 => ("out".to_string(), "", x.stem.clone(), "dng"),
        1 => ("out/new.dng".into(), "", "new".into(), "dng"),
        2 => ("out/new".into(), "", "new".into(), "dng"),
        3 => ("out/p/q/new.dng".into(), "p/q", "new".into(), "dng"),
        4 => ("out/FOO.dng".into(), "", "FOO".into(), "dng"),
        5 => ("out/new.DNG".into(), "", "new".into(), "DNG"),
        6 => {
          cwd = out.clone();
          ("new.dng".into(), "", "new".into(), "dng")
        }
        7 => ("out/new.tif".into(), "", "new".into(), "dng"),
        _ => ("out/".into(), "", x.stem.clone(), "dng"),
      };
      a.push(i.to_string_lossy().into_owned());
      a.push(if c.relative || *form == 6 { arg } else { s.0.join(arg).to_string_lossy().into_owned() });
      let (_, xe) = split_ext(&x.name);
      let e = if (*form == 0 || *form == 8) && xe.eq_ignore_ascii_case("dng") { xe } else { e.to_string() };
      run_list.push((x, d.into(), st, e));
    }
  }
  let r = run(&cwd, &a, Limits { fsize: c.fsize.map(|n| n as u64), threads: c.threads as usize })?;
  let after = snapshot(&s.0);

  // 1. nothing that is no output has changed
  let plain = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| !k.starts_with(&format!("{to}/"))).map(|(k, v)| (k.clone(), v.clone())).collect() };
  if let Some(m) = tree_diff(&plain(&before), &plain(&after)) {
    return Err(format!("outside of the output: {m}"));
  }
  let mut fresh: BTreeMap<String, Vec<String>> = BTreeMap::new();
  let input_names: BTreeSet<String> = list.iter().map(|(x, _)| format!("in/{}", join(&x.dir, &x.name))).collect();
  for (k, v) in &before {
    match after.get(k) {
      Some(w) if w == v => {}
      got => {
        ensure!(!input_names.contains(k), "the input {k} was changed or removed");
        ensure!(c.replace, "{k} existed before and has changed without --override");
        ensure!(!matches!(v, Node::Dir | Node::Other), "{k} was no file, and is replaced");
        let rel = k.strip_prefix(&format!("{to}/")).unwrap();
        let (d, n) = rel.rsplit_once('/').unwrap_or(("", rel));
        let (st, _) = split_ext(n);
        let mine = run_list.iter().any(|x| x.1 == d && suffix_of(&st, &x.2).is_some());
        ensure!(mine, "{k} is no output of this run, but has changed");
        if got.is_some() {
          fresh.entry(d.into()).or_default().push(n.into());
        }
      }
    }
  }
  for (k, v) in &after {
    if before.contains_key(k) {
      continue;
    }
    let rel = k.strip_prefix(&format!("{to}/")).ok_or("appeared outside")?;
    let (d, n) = rel.rsplit_once('/').unwrap_or(("", rel));
    match v {
      Node::Dir => ensure!(run_list.iter().any(|x| x.1 == rel || x.1.starts_with(&format!("{rel}/"))), "directory {k} has appeared"),
      Node::File(_) => fresh.entry(d.into()).or_default().push(n.into()),
      _ => return Err(format!("{k} has appeared")),
    }
  }
  let told: BTreeSet<String> = r.err.lines().filter_map(|l| l.strip_prefix("   ")).filter(|l| l.starts_with(&*src.to_string_lossy())).map(|l| l.to_string()).collect();
  let full = |x: &Src| src.join(join(&x.dir, &x.name)).to_string_lossy().into_owned();
  // 2. every output is the complete result of one input
  let mut made: Vec<Option<String>> = vec![None; run_list.len()];
  for (d, names) in &fresh {
    for n in names {
      let (st, ext) = split_ext(n);
      let p = target.join(d).join(n);
      let mut why = String::new();
      // files whose pixels are known first
      let mut order: Vec<usize> = (0..run_list.len()).collect();
      order.sort_by_key(|i| run_list[*i].0.good.is_none());
      let hit = order.into_iter().find(|i| {
        let x = &run_list[*i];
        if x.1 != *d || x.3 != ext || made[*i].is_some() || suffix_of(&st, &x.2).is_none() || x.0.bad || told.contains(&full(x.0)) {
          return false;
        }
        match judge(c, x.0, &p) {
          Ok(()) => true,
          Err(m) => {
            why += &format!("; as {}: {m}", x.0.name);
            false
          }
        }
      });
      match hit {
        Some(i) => made[i] = Some(n.clone()),
        None => return Err(format!("output {d}/{n} is no complete result of any input{why}; {}", r.tail())),
      }
    }
  }
  // 3. who must have succeeded, and under which name
  let had = |d: &str, stem: &str| before.keys().any(|k| k.strip_prefix(&format!("{to}/")).is_some_and(|rel| {
    let (dd, n) = rel.rsplit_once('/').unwrap_or(("", rel));
    dd == d && suffix_of(&split_ext(n).0, stem).is_some() && split_ext(n).1.eq_ignore_ascii_case("dng")
  }));
  let blocked = |d: &str| {
    let p = target.join(d);
    p.ancestors().take_while(|a| a.starts_with(&target)).any(|a| match before.get(&a.strip_prefix(&s.0).unwrap().to_string_lossy().into_owned()) {
      Some(Node::Dir) => std::fs::metadata(a).is_ok_and(|m| m.permissions().mode() & 0o200 == 0),
      Some(_) => true,
      None => false,
    })
  };
  let mut failed = vec![];
  for (i, x) in run_list.iter().enumerate() {
    let free = !had(&x.1, &x.2) && !blocked(&x.1) && c.fsize.is_none();
    let sure = x.0.good.is_some();
    match &made[i] {
      Some(n) => {
        // names without other candidates are fixed
        let rivals: Vec<&(&Src, String, String, String)> = run_list.iter().filter(|y| y.1 == x.1 && (suffix_of(&y.2, &x.2).is_some() || suffix_of(&x.2, &y.2).is_some())).collect();
        let same: usize = rivals.iter().filter(|y| y.2 == x.2).count();
        if rivals.len() == same {
          let k = suffix_of(&split_ext(n).0, &x.2).unwrap() as usize;
          ensure!(k < same, "{} is named {n}, with {same} inputs of that name", x.0.name);
        }
        if c.keep_mtime && sure {
          let want = x.0.good.as_ref().unwrap().mtime().or(mtime(&src.join(join(&x.0.dir, &x.0.name))));
          ensure_eq!(mtime(&target.join(&x.1).join(n)), want, "modification time of {n}");
        }
      }
      None => {
        ensure!(!(sure && free), "{} was not converted although nothing is in the way; {}", join(&x.0.dir, &x.0.name), r.tail());
        failed.push(x.0);
      }
    }
  }
  // an existing plain file in the way of a single candidate
  for x in &run_list {
    let alone = run_list.iter().filter(|y| y.1 == x.1 && (suffix_of(&y.2, &x.2).is_some() || suffix_of(&x.2, &y.2).is_some())).count() == 1;
    let key = format!("{to}/{}", join(&x.1, &format!("{}.{}", x.2, x.3)));
    if alone && c.replace && x.0.good.is_some() && !blocked(&x.1) && c.fsize.is_none() && matches!(before.get(&key), Some(Node::File(_))) && !input_names.contains(&key) {
      ensure!(after.get(&key) != before.get(&key), "{key} was not replaced in spite of --override; {}", r.tail());
    }
  }
  // 4. exit status and summary
  let n = run_list.len();
  ensure!(r.code.is_some_and(|c| c != 101), "the program died: {}", r.tail());
  ensure!(r.ok() == failed.is_empty(), "{} of {n} inputs failed: {}", failed.len(), r.tail());
  let single = matches!(c.mode, Mode::File(_));
  if !single || failed.is_empty() {
    let line = if failed.is_empty() { format!("Converted {n}/{n} files") } else { format!("Converted {}/{n} files, {} failed:", n - failed.len(), failed.len()) };
    ensure!(r.err.lines().any(|l| l == line), "summary {line:?} is missing: {}", r.tail());
    for f in &failed {
      let p = full(f);
      ensure!(told.contains(&p), "{p} failed, but is not listed: {}", r.tail());
    }
    if !single {
      ensure_eq!(told.len(), failed.len(), "number of listed failures");
    }
  }
  let ok = n - failed.len();
  let lab = format!(
    "{} {}{}{}{}",
    match c.mode { Mode::Tree(true, _) => "tree", Mode::Tree(false, _) => "directory", Mode::File(_) => "file" },
    if ok > 0 && !failed.is_empty() { "mixed" } else if ok > 0 { "converted" } else if n == 0 { "empty" } else { "failed" },
    if c.fsize.is_some() { " size limit" } else { "" },
    if run_list.iter().any(|x| had(&x.1, &x.2)) { " existing" } else { "" },
    if c.replace { " override" } else { "" },
  );
  Ok(if n > 0 { nontrivial(lab) } else { trivial(lab) })
}

fn main() {
  main_with("C16", "a case is non-trivial when the run had at least one supported input", |r| {
    r.assume("the program runs as an unprivileged user in a scratch tree; failing output is produced with file size limits, files and directories in the way, and read-only directories");
    r.assume("names are valid UTF-8; directory cycles through links and unreadable directories are not generated; multi-image sources do not occur");
    let n = r.scale(2400, 40_000);
    r.check("batch", n, case, test);
    cleanup();
  })
}
