//! C17: extracting originals is exact, contained and never destroys files.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use vh::cli::*;
use vh::fill::Rng;
use vh::tiffmini::Val;
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Kind {
  Good,
  WrongDigest,
  NoDigest,
  /// a byte of a stored block is changed
  Flipped(u16, u8),
  /// the stored data ends early
  Cut(u16),
  NoData,
  NoName,
  /// OriginalRawFileName without any text
  EmptyNameTag,
  NoDng(u8),
  /// a TIFF file without DNGVersion
  PlainTiff,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Item {
  dir: u8,
  stem: u8,
  ext: u8,
  kind: Kind,
  name: u8,
  len: u32,
  mode: u8,
  good: Good,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  items: Vec<Item>,
  existing: Vec<(u8, u8, bool)>,
  tree: Option<bool>,
  /// output: separate directory, the input directory; for a file: directory, new file, existing file, file in a new directory
  out: u8,
  replace: bool,
  skip: bool,
  verbose: bool,
  fsize: Option<u32>,
}
const DIRS: [&str; 6] = ["", "a", "a/b", "c d", "a/b/a.b/d/d", "q/q/q/Q"];
const STEMS: [&str; 4] = ["FOO", "BAR", "x.y", "FOO_1"];
const EXTS: [&str; 4] = ["dng", "DNG", "tif", "Dng"];
const PLAIN: [&str; 7] = ["FOO.CR3", "BAR.NEF", "FOO.dng", "with space.ARW", "noext", "..hidden", "bär.raf"];
const HOSTILE: usize = 12;

/// (name in the DNG, the name the file may get, is it plain?)
fn name_of(n: u8, root: &str) -> (Vec<u8>, Option<String>, bool) {
  let n = n as usize;
  if n < PLAIN.len() {
    return (PLAIN[n].as_bytes().to_vec(), Some(PLAIN[n].to_string()), true);
  }
  let (s, c): (String, Option<&str>) = match (n - PLAIN.len()) % HOSTILE {
    0 => ("../evil.CR3".into(), Some("evil.CR3")),
    1 => ("../../sentinel/evil.CR3".into(), Some("evil.CR3")),
    2 => (format!("{root}/sentinel/evil.CR3"), Some("evil.CR3")),
    3 => (format!("{root}/sentinel/keep.txt"), Some("keep.txt")),
    4 => ("a/b/FOO.CR3".into(), Some("FOO.CR3")),
    5 => ("..".into(), None),
    6 => ("".into(), None),
    7 => ("/".into(), None),
    8 => ("x/..".into(), None),
    9 => ("../sentinel/keep.txt/".into(), Some("keep.txt")),
    10 => (".".into(), None),
    _ => ("./../out2/./evil.CR3".into(), Some("evil.CR3")),
  };
  (s.into_bytes(), c.map(|x| x.to_string()), false)
}

impl Item {
  fn rel(&self) -> String {
    let (d, n) = (DIRS[self.dir as usize % 6], format!("{}.{}", STEMS[self.stem as usize % 4], EXTS[self.ext as usize % 4]));
    if d.is_empty() { n } else { format!("{d}/{n}") }
  }
  fn dir(&self) -> &'static str {
    DIRS[self.dir as usize % 6]
  }
  fn original(&self) -> Vec<u8> {
    let mut r = Rng::new(self.good.seed ^ 5);
    match self.mode {
      0 => r.bytes(self.len as usize),
      1 => vec![r.next() as u8; self.len as usize],
      _ => {
        let w = r.bytes(41);
        (0..self.len as usize).map(|i| w[i % 41] ^ (i / 9000) as u8).collect()
      }
    }
  }
  fn file(&self, root: &str) -> Vec<u8> {
    let orig = self.original();
    if let Kind::NoDng(k) = self.kind {
      return damaged(k, self.good.seed);
    }
    let mut blocks = vec![];
    for c in orig.chunks(65536) {
      let mut e = libflate::zlib::Encoder::new(vec![]).unwrap();
      e.write_all(c).unwrap();
      blocks.push(e.finish().into_result().unwrap());
    }
    let mut data = (orig.len() as u32).to_be_bytes().to_vec();
    let mut at = 4 * (blocks.len() as u32 + 2);
    data.extend(at.to_be_bytes());
    for b in &blocks {
      at += b.len() as u32;
      data.extend(at.to_be_bytes());
    }
    let head = data.len();
    for b in &blocks {
      data.extend(b);
    }
    let body = data.len() - head;
    data.extend([0; 28]);
    match self.kind {
      Kind::Flipped(p, v) if body > 0 => data[head + p as usize % body] ^= v.max(1),
      Kind::Cut(p) => {
        let n = data.len();
        data.truncate(p as usize % n.max(1));
      }
      _ => {}
    }
    let mut digest: [u8; 16] = md5::compute(&orig).into();
    if matches!(self.kind, Kind::WrongDigest) {
      digest[self.good.seed as usize % 16] ^= 1 << (self.good.seed >> 8 & 7);
    }
    let (name, _, _) = name_of(self.name, root);
    self.good.file_with(|d| {
      if !matches!(self.kind, Kind::NoName) {
        let mut n = name.clone();
        n.push(0);
        d.set(50827, if matches!(self.kind, Kind::EmptyNameTag) { Val::raw(2, vec![0]) } else { Val::raw(2, n) });
      }
      if !matches!(self.kind, Kind::NoData) {
        d.set(50828, Val::undefined(&data));
      }
      if !matches!(self.kind, Kind::NoDigest) {
        d.set(50973, Val::byte(&digest));
      }
      if matches!(self.kind, Kind::PlainTiff) {
        d.entries.retain(|(t, _)| *t != 50706);
      }
    })
  }
}

fn case() -> impl Strategy<Value = Case> {
  let kind = prop_oneof![
    8 => Just(Kind::Good),
    1 => Just(Kind::WrongDigest),
    1 => Just(Kind::NoDigest),
    1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Kind::Flipped(a, b)),
    1 => any::<u16>().prop_map(Kind::Cut),
    1 => Just(Kind::NoData),
    1 => Just(Kind::NoName),
    1 => Just(Kind::EmptyNameTag),
    1 => (0..4u8).prop_map(Kind::NoDng),
    1 => Just(Kind::PlainTiff),
  ];
  let len = prop_oneof![3 => 0..5000u32, 1 => 65530..65545u32, 1 => 131060..131080u32, 1 => 0..200_000u32];
  let name = prop_oneof![3 => 0..PLAIN.len() as u8, 2 => PLAIN.len() as u8..(PLAIN.len() + HOSTILE) as u8];
  let item = (0..6u8, 0..4u8, prop_oneof![4 => 0..2u8, 1 => 0..4u8], kind, name, len, 0..3u8, good()).prop_map(|(dir, stem, ext, kind, name, len, mode, good)| Item { dir, stem, ext, kind, name, len, mode, good });
  (
    prop::collection::vec(item, 1..6),
    prop::collection::vec((0..6u8, 0..(PLAIN.len() + 3) as u8, any::<bool>()), 0..3),
    prop_oneof![1 => Just(None), 3 => any::<bool>().prop_map(Some)],
    0..4u8,
    any::<bool>(),
    prop::bool::weighted(0.25),
    any::<bool>(),
    prop::option::weighted(0.1, 0..100_000u32),
  )
    .prop_map(|(items, existing, tree, out, replace, skip, verbose, fsize)| Case { items, existing, tree, out, replace, skip, verbose, fsize })
}

struct Exp {
  rel: String,
  /// where the file may go, relative to the scratch root
  to: Option<String>,
  plain: bool,
  data: Vec<u8>,
  /// Some(true) must work on a free place, Some(false) must fail
  sure: Option<bool>,
}

fn test(c: &Case) -> Outcome {
  let s = Scratch::new();
  let root = s.0.to_string_lossy().into_owned();
  s.dir("in");
  s.dir("out");
  s.file("sentinel/keep.txt", b"keep me");
  s.dir("out2");
  let mut seen = BTreeSet::new();
  let items: Vec<&Item> = c.items.iter().filter(|i| seen.insert(i.rel())).collect();
  for i in &items {
    s.file(format!("in/{}", i.rel()), &i.file(&root));
  }
  let inplace = c.out == 1 && c.tree.is_some();
  let to = if inplace { "in" } else { "out" };
  for (d, n, dir) in &c.existing {
    let n = *n as usize;
    let name = if n < PLAIN.len() { PLAIN[n] } else { ["evil.CR3", "keep.txt", "new.raw"][n - PLAIN.len()] };
    let d = DIRS[*d as usize % 6];
    let rel = if d.is_empty() { format!("{to}/{name}") } else { format!("{to}/{d}/{name}") };
    if s.0.join(&rel).exists() {
      continue;
    }
    // a DNG in the input directory would be an input
    if inplace && name.to_lowercase().ends_with(".dng") {
      continue;
    }
    // (in a directory with the name of the input, that directory is used)
    if *dir && name.ends_with(".dng") {
      continue;
    }
    if *dir {
      s.dir(&rel);
    } else {
      s.file(&rel, b"precious");
    }
  }
  let before = snapshot(&s.0);
  let mut a: Vec<String> = vec!["extract".into()];
  if c.replace {
    a.push("--override".into());
  }
  if c.skip {
    a.push("--skipchecks".into());
  }
  if c.verbose {
    a.push("-v".into());
  }
  let mut exp: Vec<Exp> = vec![];
  let mut add = |i: &Item, to: Option<String>, named: bool| {
    let (_, _, plain) = name_of(i.name, &root);
    let plain = plain || !named;
    let sure = match i.kind {
      Kind::Good if plain => Some(true),
      Kind::Good => None,
      Kind::WrongDigest if c.skip && plain => Some(true),
      Kind::WrongDigest if c.skip => None,
      Kind::WrongDigest => Some(false),
      Kind::NoDigest => None,
      Kind::Flipped(..) if i.len == 0 => None,
      // a change that the inflater does not see is caught by the digest
      Kind::Flipped(..) if !c.skip => None,
      Kind::Flipped(..) => None,
      Kind::Cut(_) if !c.skip => None,
      Kind::Cut(_) => None,
      Kind::EmptyNameTag if !named => None,
      Kind::NoName if !named => None,
      _ => Some(false),
    };
    exp.push(Exp { rel: i.rel(), to, plain, data: i.original(), sure });
  };
  let dest = |i: &Item, dir: &str| -> Option<String> {
    let (_, n, _) = name_of(i.name, &root);
    n.map(|n| if dir.is_empty() { n } else { format!("{dir}/{n}") })
  };
  match c.tree {
    Some(rec) => {
      if rec {
        a.push("-r".into());
      }
      a.extend([format!("{root}/in"), format!("{root}/{to}")]);
      for i in &items {
        if i.ext % 4 != 2 && (rec || i.dir().is_empty()) {
          add(i, dest(i, i.dir()).map(|n| format!("{to}/{n}")), true);
        }
      }
    }
    None => {
      let i = items[0];
      a.push(format!("{root}/in/{}", i.rel()));
      let o = match c.out {
        0 => {
          add(i, dest(i, "").map(|n| format!("out/{n}")), true);
          "out".to_string()
        }
        1 => {
          add(i, Some("out/new.raw".into()), false);
          "out/new.raw".into()
        }
        2 => {
          add(i, Some("out/p/q/new.raw".into()), false);
          "out/p/q/new.raw".into()
        }
        _ => {
          add(i, Some(format!("in/{}", i.rel())), false);
          format!("in/{}", i.rel())
        }
      };
      a.push(format!("{root}/{o}"));
      // a directory with the name of the file: the embedded name counts
      if c.out == 1 && matches!(before.get("out/new.raw"), Some(Node::Dir)) {
        exp.clear();
        return Ok(trivial("directory in the way of a file"));
      }
    }
  }
  let r = run(&s.0, &a, Limits { fsize: c.fsize.map(|n| n as u64), threads: 1 })?;
  let after = snapshot(&s.0);
  let told: BTreeSet<String> = r.err.lines().filter_map(|l| l.strip_prefix("   ")).filter(|l| l.starts_with(&root)).map(|l| l.to_string()).collect();
  let n = exp.len();
  ensure!(r.code.is_some_and(|c| c != 101), "the program died: {}", r.tail());
  // changes of the tree
  let inputs: BTreeSet<String> = items.iter().map(|i| format!("in/{}", i.rel())).collect();
  let mut changed: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  for (k, v) in &before {
    match after.get(k) {
      Some(w) if w == v => continue,
      w => {
        ensure!(!inputs.contains(k), "the input {k} was changed or removed");
        ensure!(exp.iter().any(|e| e.to.as_ref() == Some(k)), "{k} has changed and is no output; {}", r.tail());
        ensure!(c.replace, "{k} existed before and has changed without --override");
        ensure!(matches!(v, Node::File(_)), "{k} was no file, and is replaced");
        ensure!(w.is_some() || c.fsize.is_some(), "{k} existed before and is lost by a failing extraction");
        if let Some(Node::File(b)) = w {
          changed.insert(k.clone(), b.clone());
        }
      }
    }
  }
  for (k, v) in &after {
    if before.contains_key(k) {
      continue;
    }
    match v {
      Node::File(b) => {
        ensure!(exp.iter().any(|e| e.to.as_ref() == Some(k)), "{k} has appeared and is no output; {}", r.tail());
        changed.insert(k.clone(), b.clone());
      }
      Node::Dir => ensure!(exp.iter().any(|e| e.to.as_ref().is_some_and(|t| t.starts_with(&format!("{k}/")))), "directory {k} has appeared"),
      _ => return Err(format!("{k} has appeared")),
    }
  }
  // which inputs are reported as failed
  let full = |e: &Exp| format!("{root}/in/{}", e.rel);
  let failed: Vec<bool> = if n == 1 { vec![!r.ok()] } else { exp.iter().map(|e| told.contains(&full(e))).collect() };
  let nf = failed.iter().filter(|f| **f).count();
  ensure!(r.ok() == (nf == 0), "exit status and list of {nf} failures contradict: {}", r.tail());
  if c.tree.is_some() || nf == 0 {
    let line = if nf == 0 { format!("Extracted {n}/{n} files") } else { format!("Extracted {}/{n} files, {nf} failed:", n - nf) };
    ensure!(r.err.lines().any(|l| l == line), "summary {line:?} is missing: {}", r.tail());
  }
  for (e, f) in exp.iter().zip(&failed) {
    ensure!(!(e.sure == Some(false) && !*f), "{} counts as extracted, but has no valid original", e.rel);
    let Some(t) = &e.to else {
      ensure!(*f, "{} counts as extracted, but its name names no file", e.rel);
      continue;
    };
    if !*f {
      let Some(b) = changed.get(t) else {
        // removed by another extraction of the same name that ran out of space
        if c.replace && c.fsize.is_some() && exp.iter().zip(&failed).any(|(o, f)| *f && o.to.as_ref() == Some(t)) {
          continue;
        }
        // an override with the same bytes
        ensure!(matches!(after.get(t), Some(Node::File(b)) if *b == e.data && c.replace), "{} counts as extracted, but {t} is not there", e.rel);
        continue;
      };
      let rivals: Vec<&Exp> = exp.iter().filter(|o| o.to.as_ref() == Some(t)).collect();
      let damage_possible = c.skip && e.sure != Some(true);
      if rivals.len() == 1 {
        ensure!(*b == e.data || damage_possible, "{t} has {} bytes which are not the embedded ones ({})", b.len(), e.data.len());
      } else {
        ensure!(rivals.iter().any(|o| *b == o.data) || rivals.iter().any(|_| c.skip), "{t} is none of the originals embedded under that name");
      }
    } else if e.sure == Some(true) && e.plain {
      // it failed although it was fine: something has to be in the way
      let taken = before.get(t).is_some_and(|v| !c.replace || !matches!(v, Node::File(_)) || inputs.contains(t));
      let rival = exp.iter().filter(|o| o.to.as_ref() == Some(t)).count() > 1;
      let path_blocked = t.match_indices('/').any(|(i, _)| matches!(before.get(&t[..i]), Some(Node::File(_)))) || exp.iter().any(|o| o.to.as_ref().is_some_and(|p| t.starts_with(&format!("{p}/"))));
      let space = c.fsize.is_some_and(|m| (m as usize) < e.data.len());
      ensure!(taken || rival || path_blocked || space, "{} was not extracted although nothing is in the way: {}", e.rel, r.tail());
    }
  }
  // a changed file belongs to somebody who succeeded
  for k in changed.keys() {
    ensure!(exp.iter().zip(&failed).any(|(e, f)| !*f && e.to.as_ref() == Some(k)), "{k} was written by a failing extraction: {}", r.tail());
  }
  // without --override every place is used once
  if !c.replace {
    for t in changed.keys() {
      let k = exp.iter().zip(&failed).filter(|(e, f)| !**f && e.to.as_ref() == Some(t)).count();
      ensure!(k <= 1, "{k} extractions into {t} count as successful");
    }
  }
  let lab = format!(
    "{} {}{}{}",
    match c.tree { Some(true) => "tree", Some(false) => "directory", None => "file" },
    if n == 0 { "empty" } else if nf == 0 { "extracted" } else if nf == n { "failed" } else { "mixed" },
    if exp.iter().any(|e| !e.plain) { " hostile" } else { "" },
    if c.fsize.is_some() { " size limit" } else { "" }
  );
  Ok(if n > 0 { nontrivial(lab) } else { trivial(lab) })
}

fn main() {
  main_with("C17", "a case is non-trivial when the run had at least one DNG to extract", |r| {
    r.assume("the program runs as an unprivileged user in a scratch tree; hostile names aim at files of that tree");
    r.assume("a DNG without digest may be refused or extracted; with --skipchecks damaged data may be written");
    let n = r.scale(4000, 60_000);
    r.check("extract", n, case, test);
    cleanup();
  })
}
