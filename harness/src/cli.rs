//! Runs the real command line program on scratch trees, as an unprivileged user.
use crate::fill::{Fill, Rng};
use crate::foreign::{self, Comp};
use crate::rawgen::{Kind, FracRect};
use crate::tiffmini::{self, Dir, Parsed, Val};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const UID: u32 = 54321;

/// A directory that is removed with everything in it.
pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);

fn base() -> &'static PathBuf {
  static B: OnceLock<PathBuf> = OnceLock::new();
  B.get_or_init(|| {
    let root = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let b = PathBuf::from(format!("{root}/vh-{}", std::process::id()));
    std::fs::create_dir_all(&b).expect("scratch");
    std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).unwrap();
    b
  })
}
pub fn chown(p: &Path) {
  let c = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())).unwrap();
  unsafe { libc::lchown(c.as_ptr(), UID, UID) };
}
impl Scratch {
  pub fn new() -> Scratch {
    let p = base().join(format!("s{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("scratch");
    chown(&p);
    Scratch(p)
  }
  pub fn dir(&self, rel: impl AsRef<Path>) -> PathBuf {
    let p = self.0.join(rel.as_ref());
    let mut at = self.0.clone();
    for c in rel.as_ref().components() {
      at.push(c);
      if std::fs::create_dir(&at).is_ok() {
        chown(&at);
      }
    }
    p
  }
  pub fn file(&self, rel: impl AsRef<Path>, b: &[u8]) -> PathBuf {
    if let Some(d) = rel.as_ref().parent() {
      self.dir(d);
    }
    let p = self.0.join(rel);
    std::fs::write(&p, b).expect("scratch file");
    chown(&p);
    p
  }
  pub fn link(&self, rel: impl AsRef<Path>, to: impl AsRef<Path>) {
    let p = self.0.join(rel);
    if std::os::unix::fs::symlink(to, &p).is_ok() {
      chown(&p);
    }
  }
}
fn open_up(p: &Path) {
  if let Ok(m) = std::fs::symlink_metadata(p) {
    if m.is_dir() {
      let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
      for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        open_up(&e.path());
      }
    }
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    open_up(&self.0);
    let _ = std::fs::remove_dir_all(&self.0);
  }
}
/// Removes the scratch area of this process.
pub fn cleanup() {
  let _ = std::fs::remove_dir_all(base());
}

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
  File(Vec<u8>),
  Dir,
  Link(PathBuf),
  Other,
}
pub type Tree = BTreeMap<String, Node>;
pub fn snapshot(root: &Path) -> Tree {
  fn walk(root: &Path, at: &Path, t: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(at) else { return };
    for e in rd.flatten() {
      let p = e.path();
      let k = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
      let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
      let n = if m.is_symlink() {
        Node::Link(std::fs::read_link(&p).unwrap_or_default())
      } else if m.is_dir() {
        walk(root, &p, t);
        Node::Dir
      } else if m.is_file() {
        Node::File(std::fs::read(&p).unwrap_or_default())
      } else {
        Node::Other
      };
      t.insert(k, n);
    }
  }
  let mut t = Tree::new();
  walk(root, root, &mut t);
  t
}
/// First path at which two trees differ.
pub fn tree_diff(a: &Tree, b: &Tree) -> Option<String> {
  for (k, v) in a {
    match b.get(k) {
      None => return Some(format!("{k} is gone")),
      Some(w) if w != v => return Some(format!("{k} has changed")),
      _ => {}
    }
  }
  b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} has appeared"))
}
pub fn mtime(p: &Path) -> Option<i64> {
  std::fs::metadata(p).ok().map(|m| m.mtime())
}

pub struct Ran {
  pub code: Option<i32>,
  pub out: String,
  pub err: String,
  pub stdout: Vec<u8>,
}
impl Ran {
  pub fn ok(&self) -> bool {
    self.code == Some(0)
  }
  pub fn tail(&self) -> String {
    let t: Vec<&str> = self.err.lines().rev().take(4).collect();
    format!("exit {:?}, stderr ends: {:?}", self.code, t)
  }
}
pub fn program() -> &'static PathBuf {
  static P: OnceLock<PathBuf> = OnceLock::new();
  P.get_or_init(|| {
    // a copy that the unprivileged user can reach
    let from = std::env::current_exe().expect("exe").with_file_name("dnglab");
    let to = base().join("dnglab");
    std::fs::copy(&from, &to).expect("copy of the program");
    std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
    to
  })
}
#[derive(Default, Clone, Copy)]
pub struct Limits {
  /// largest file the program may write
  pub fsize: Option<u64>,
  /// threads of the pool
  pub threads: usize,
}
pub fn run(cwd: &Path, args: &[String], lim: Limits) -> Result<Ran, String> {
  let mut c = Command::new(program());
  c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
  c.env("RAYON_NUM_THREADS", format!("{}", lim.threads.max(1))).env("TOKIO_WORKER_THREADS", "2").env_remove("RUST_LOG").env("HOME", cwd).env("RUST_BACKTRACE", "0");
  unsafe {
    c.pre_exec(move || {
      libc::setgroups(0, std::ptr::null());
      if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
        return Err(std::io::Error::last_os_error());
      }
      libc::umask(0o022);
      let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
      libc::setrlimit(libc::RLIMIT_AS, &l);
      if let Some(n) = lim.fsize {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
      }
      let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &l);
      Ok(())
    });
  }
  let mut ch = c.spawn().map_err(|e| format!("cannot start the program: {e}"))?;
  let collect = |mut p: Box<dyn std::io::Read + Send>| {
    std::thread::spawn(move || {
      let mut v = vec![];
      let _ = p.read_to_end(&mut v);
      v
    })
  };
  let (so, se) = (collect(Box::new(ch.stdout.take().unwrap())), collect(Box::new(ch.stderr.take().unwrap())));
  let t = Instant::now();
  let code = loop {
    match ch.try_wait().map_err(|e| e.to_string())? {
      Some(s) => break s.code(),
      None => {
        if t.elapsed() > Duration::from_secs(40) {
          let _ = ch.kill();
          let _ = ch.wait();
          return Err(format!("the program runs for more than 40 s: {args:?}"));
        }
        std::thread::sleep(Duration::from_millis(2));
      }
    }
  };
  let stdout = so.join().unwrap_or_default();
  let err = String::from_utf8_lossy(&se.join().unwrap_or_default()).into_owned();
  let r = Ran { code, out: String::from_utf8_lossy(&stdout).into_owned(), err, stdout };
  if r.err.contains("cannot allocate") || r.err.contains("Resource temporarily unavailable") {
    return Err(format!("the sandbox ran out of resources: {}", r.tail()));
  }
  Ok(r)
}

/// A raw file that any version of the program must be able to convert.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Good {
  pub w: u8,
  pub h: u8,
  pub seed: u64,
  pub linear: bool,
  pub ljpeg: bool,
  pub date: Option<u8>,
}
pub fn good() -> impl proptest::strategy::Strategy<Value = Good> {
  use proptest::prelude::*;
  (16..60u8, 16..60u8, any::<u64>(), prop::bool::weighted(0.2), any::<bool>(), prop::option::weighted(0.4, 0..28u8)).prop_map(|(w, h, seed, linear, ljpeg, date)| Good { w: w & !1, h: h & !1, seed, linear, ljpeg, date })
}
impl Good {
  pub fn case(&self) -> foreign::Case {
    foreign::Case {
      kind: if self.linear { Kind::Linear3 } else { Kind::Bayer((self.seed % 4) as u8) },
      w: self.w as usize,
      h: self.h as usize,
      bits: if self.seed & 8 == 0 { 16 } else { 12 },
      float: false,
      comp: if self.ljpeg { Comp::Ljpeg(0) } else { Comp::None },
      tile: None,
      rows: self.h as usize,
      fill: Fill::Random(self.seed),
      big: self.seed & 16 != 0,
      shuffle: self.seed,
      gaps: false,
      predictor: 1,
      table_seed: self.seed,
      lin: None,
      interleave: false,
      short_offsets: 0,
      sub: self.seed & 32 != 0,
      active: None::<FracRect>,
      crop: None,
      black: None,
      white: None,
      neutral: true,
      mats: vec![(7, self.seed)],
      orientation: Some(1 + (self.seed >> 8) as u16 % 8),
      extra: false,
    }
  }
  pub fn pixels(&self) -> Vec<u16> {
    self.case().ints()
  }
  pub fn date_text(&self) -> Option<String> {
    self.date.map(|d| format!("2021:02:{:02} 03:04:05", d + 1))
  }
  pub fn file(&self) -> Vec<u8> {
    self.file_with(|_| {})
  }
  pub fn file_with(&self, f: impl FnOnce(&mut Dir)) -> Vec<u8> {
    let c = self.case();
    let (mut root, _) = foreign::build_root(&c);
    if let Some(d) = self.date_text() {
      let mut e = Dir::new();
      e.set(0x9003, Val::ascii(&d));
      root.set(0x0132, Val::ascii(&d));
      root.subs.push((34665, vec![e]));
    }
    f(&mut root);
    foreign::file_of(&c, root)
  }
  /// seconds of the recorded modification, in UTC as the sandbox has it
  pub fn mtime(&self) -> Option<i64> {
    // 2021-02-01T03:04:05Z
    self.date.map(|d| 1612148645 + 86400 * d as i64)
  }
}

pub fn damaged(kind: u8, seed: u64) -> Vec<u8> {
  let mut r = Rng::new(seed);
  match kind % 4 {
    0 => vec![],
    1 => b"this is not a raw file\n".to_vec(),
    2 => {
      let n = 1 + r.below(3000) as usize;
      let mut v = r.bytes(n);
      v[0] = 0xEE;
      v
    }
    _ => {
      // the header of a DNG, and nothing else
      let g = Good { w: 20, h: 20, seed, linear: false, ljpeg: false, date: None };
      let mut f = g.file();
      f.truncate(4 + (seed % 4) as usize);
      f
    }
  }
}

/// A complete DNG, judged by the independent reader.
pub struct Dng {
  pub parsed: Parsed,
  pub w: usize,
  pub h: usize,
  pub spp: usize,
  pub px: Vec<u16>,
  pub big: bool,
  pub comp: u32,
}
pub fn read_dng(b: &[u8]) -> Result<Dng, String> {
  let parsed = tiffmini::parse(b)?;
  let big = b.first() == Some(&b'M');
  let d = crate::dngmini::raw_dir(&parsed)?;
  let comp = d.uint(259, 0);
  let s = crate::dngmini::read_raw(b, d, big)?;
  let crate::dngmini::Samples::Int(px) = s.samples else { return Err("samples are floats".into()) };
  parsed.root().req(50706)?;
  Ok(Dng { w: s.w, h: s.h, spp: s.spp, px, big, comp, parsed })
}
/// The embedded original, expanded with an independent inflater.
pub fn embedded(d: &Dng) -> Result<Option<Vec<u8>>, String> {
  let Some(v) = d.parsed.root().get(50828) else { return Ok(None) };
  let b = &v.data;
  let at = |i: usize| -> Result<usize, String> { Ok(u32::from_be_bytes(b.get(i * 4..i * 4 + 4).ok_or("embedded block too short")?.try_into().unwrap()) as usize) };
  let n = at(0)?;
  let mut out = vec![];
  for k in 0..n.div_ceil(65536) {
    let mut v = vec![];
    use std::io::Read;
    libflate::zlib::Decoder::new(b.get(at(1 + k)?..at(2 + k)?).ok_or("embedded block out of range")?).and_then(|mut d| d.read_to_end(&mut v)).map_err(|e| e.to_string())?;
    out.extend(v);
  }
  if out.len() != n {
    return Err(format!("embedded original has {} of {n} bytes", out.len()));
  }
  Ok(Some(out))
}
