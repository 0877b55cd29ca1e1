//! C20: FTP sessions behave like a file store.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use vh::cli::*;
use vh::fill::Rng;
use vh::ftp::*;
use vh::*;

// ---- the store ----------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum Item {
  Dir,
  File(Arc<Vec<u8>>),
}
type Path = Vec<String>;
#[derive(Debug, Default, Clone)]
struct Store {
  items: BTreeMap<Path, Item>,
}
impl Store {
  fn dir(&self, p: &[String]) -> bool {
    p.is_empty() || matches!(self.items.get(p), Some(Item::Dir))
  }
  fn get(&self, p: &[String]) -> Option<Item> {
    if p.is_empty() { Some(Item::Dir) } else { self.items.get(p).cloned() }
  }
  fn children(&self, p: &[String]) -> Vec<(String, Item)> {
    self.items.iter().filter(|(k, _)| k.len() == p.len() + 1 && k.starts_with(p)).map(|(k, v)| (k.last().unwrap().clone(), v.clone())).collect()
  }
  fn remove(&mut self, p: &[String]) {
    self.items.retain(|k, _| !k.starts_with(p));
  }
  /// Some(None): leads nowhere; None: leaves the base, which another property is about.
  fn walk(&self, base: usize, cwd: &[String], arg: &str) -> Option<Option<Path>> {
    let mut at: Path = if arg.starts_with('/') { vec![] } else { cwd.to_vec() };
    if !arg.starts_with('/') && !self.dir(cwd) {
      return Some(None);
    }
    for s in arg.split('/') {
      match s {
        "" | "." => {
          if !self.dir(&at) {
            return Some(None);
          }
        }
        ".." => {
          if at.len() <= base {
            return None;
          }
          if !self.dir(&at) {
            return Some(None);
          }
          at.pop();
        }
        _ => {
          if !self.dir(&at) {
            return Some(None);
          }
          at.push(s.to_string());
        }
      }
    }
    Some(Some(at))
  }
  fn tree(&self) -> Tree {
    self.items.iter().map(|(k, v)| (k.join("/"), match v { Item::Dir => Node::Dir, Item::File(b) => Node::File(b.to_vec()) })).collect()
  }
}

// ---- operations ---------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Arg {
  abs: bool,
  segs: Vec<u8>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
  Cwd(Arg),
  Cdup,
  Pwd,
  Mkd(Arg),
  Rmd(Arg),
  Dele(Arg),
  /// seed, kind of size, size of the pieces
  Stor(Arg, Mode, u64, u8, u16),
  /// an upload in two parts, the second with the next operation of this client
  Half(Arg, Mode, u64, u8),
  /// an upload that the client gives up
  Broken(Arg, Mode, u64, u8),
  Retr(Arg, Mode),
  /// a download that the client gives up
  Dropped(Arg, Mode),
  List(Option<Arg>, Mode),
  Nlst(u8, Mode),
  Free(u8),
  Bad(u8),
  NoData(u8, Arg),
  Twice(Arg, bool, bool),
  Unreachable(u8, Arg),
  /// several commands in one packet
  Burst(Vec<Op>),
  Again(bool),
}
const NAMES: [&str; 12] = ["a", "b", "c d", "f.bin", "x.txt", "\u{e4}\u{f6}.raw", ".hid", "[x]", "*", "aa", "F.BIN", "noext"];
const PATTERNS: [&str; 10] = ["", "*", "a*", "*a", "*.txt", "?", "*.*", "a/*", "c d/*", "zz*"];
const FREE: [(&str, u32); 8] = [("NOOP", 200), ("SYST", 215), ("FEAT", 211), ("TYPE I", 200), ("TYPE A", 200), ("noop", 200), ("type I", 200), ("EPSV ALL", 200)];
const BAD: [&[u8]; 22] = [
  b"CWD", b"RETR", b"STOR", b"MKD", b"RMD", b"DELE", b"TYPE", b"TYPE X", b"TYPE ", b"PORT", b"PORT 1,2,3", b"PORT 127,0,0,1,5,600", b"PORT 127,0,0,1,0,21", b"PORT x", b"XYZZY", b"HELO there", b"", b"RNFR a", b"CWD \xff\xfe", b"STOR \xc3", b"RETR a\xe4", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ 1 2 3",
];

impl Arg {
  fn text(&self, base: &str) -> String {
    let mut g = &self.segs[..];
    // "file/." is the file for some and nothing for others
    while g.len() > 1 && (190..200).contains(g.last().unwrap()) {
      g = &g[..g.len() - 1];
    }
    let s: Vec<&str> = g
      .iter()
      .map(|s| match *s {
        200.. => "..",
        190..=199 => ".",
        n => NAMES[n as usize % NAMES.len()],
      })
      .collect();
    let t = s.join("/");
    if self.abs {
      format!("{base}/{t}")
    } else if t.is_empty() {
      ".".into()
    } else {
      t
    }
  }
  fn plain(&self) -> bool {
    self.segs.last().is_some_and(|s| *s < 190)
  }
}
fn content(seed: u64, kind: u8) -> Arc<Vec<u8>> {
  let mut r = Rng::new(seed);
  let n = match kind % 16 {
    0 => 0,
    1 => 1,
    2 => r.below(20),
    3..=9 => r.below(3000),
    10 => 8192 - 1 + r.below(3),
    11 | 12 => r.below(70_000),
    13 => 65536 - 1 + r.below(3),
    _ => r.below(400_000),
  } as usize;
  let mut v = if r.below(4) == 0 {
    // line ends, commands, telnet codes
    let t = b"line\r\nQUIT\r\n.\r\n\xff\xf4\xff\xf2\0\n\r";
    (0..n).map(|i| t[i % t.len()]).collect()
  } else {
    r.bytes(n)
  };
  if n > 3 {
    v[0] = seed as u8;
    v[1] = (seed >> 8) as u8;
  }
  Arc::new(v)
}
fn wild(p: &str, s: &str) -> bool {
  let (p, s): (Vec<char>, Vec<char>) = (p.chars().collect(), s.chars().collect());
  fn m(p: &[char], s: &[char]) -> bool {
    match p.first() {
      None => s.is_empty(),
      Some('*') => m(&p[1..], s) || !s.is_empty() && m(p, &s[1..]),
      Some('?') => !s.is_empty() && m(&p[1..], &s[1..]),
      Some(c) => s.first() == Some(c) && m(&p[1..], &s[1..]),
    }
  }
  m(&p, &s)
}

// ---- one client ---------------------------------------------------------

struct Pending {
  what: String,
  arg: String,
  stream: std::net::TcpStream,
  rest: Vec<u8>,
  data: Arc<Vec<u8>>,
}
struct Client<'a> {
  s: &'a Server,
  ctl: Ctl,
  cwd: Path,
  base: Path,
  /// the server keeps the port of the last PORT command
  sticky: bool,
  pending: Option<Pending>,
  cuts: Vec<u8>,
  stats: Stats,
}
#[derive(Default, Clone)]
struct Stats {
  stored: usize,
  fetched: usize,
  failed: usize,
  changed: usize,
}
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
/// month, day, hour and minute of a time in seconds
fn civil(t: i64) -> (String, i64, i64, i64) {
  let (days, secs) = (t.div_euclid(86400), t.rem_euclid(86400));
  let z = days + 719468;
  let doe = z.rem_euclid(146097);
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (MONTHS[m as usize - 1].into(), doy - (153 * mp + 2) / 5 + 1, secs / 3600, secs % 3600 / 60)
}

impl<'a> Client<'a> {
  fn new(s: &'a Server, base: Path, user: usize, cuts: Vec<u8>) -> Result<Self, String> {
    let mut c = Client { s, ctl: Ctl::new(s.at)?, cwd: vec![], base, sticky: false, pending: None, cuts, stats: Stats::default() };
    c.enter(user)?;
    Ok(c)
  }
  fn enter(&mut self, user: usize) -> Result<(), String> {
    let (u, p) = [("bob", "secret"), ("open", "")][user % 2];
    self.ctl.login(u, p)?;
    self.cwd = vec![];
    self.sticky = false;
    if !self.base.is_empty() {
      let b = format!("/{}", self.base.join("/"));
      let r = self.ctl.ask(&format!("CWD {b}"))?;
      if r.code != 250 {
        return Err(format!("CWD {b}: {r:?}"));
      }
      self.cwd = self.base.clone();
    }
    Ok(())
  }
  fn prefix(&self) -> String {
    if self.base.is_empty() { String::new() } else { format!("/{}", self.base.join("/")) }
  }
  fn say(&mut self, line: &[u8]) -> Result<(), String> {
    let b = [line, b"\r\n"].concat();
    let cuts = self.cuts.clone();
    self.ctl.send_split(&b, &cuts)
  }
  /// Completes an upload that was begun earlier.
  fn complete(&mut self, st: &mut Store) -> Result<(), String> {
    let Some(mut p) = self.pending.take() else { return Ok(()) };
    let _ = p.stream.write_all(&p.rest);
    let _ = p.stream.shutdown(std::net::Shutdown::Write);
    let r = self.ctl.last().map_err(|e| format!("{}: {e}", p.what))?;
    self.stored(st, &p.what, &p.arg, r, &p.data)?;
    self.ctl.in_step().map_err(|e| format!("{}: {e}", p.what))
  }
  fn stored(&mut self, st: &mut Store, what: &str, arg: &str, r: Reply, data: &Arc<Vec<u8>>) -> Result<(), String> {
    let to = st.walk(self.base.len(), &self.cwd, arg);
    let Some(to) = to else { return Err("harness: left the base".into()) };
    let can = to.as_ref().filter(|t| t.len() > self.base.len() && st.dir(&t[..t.len() - 1]) && !st.dir(t)).cloned();
    match (can, r.good()) {
      (Some(t), true) => {
        st.items.insert(t, Item::File(data.clone()));
        self.stats.stored += 1;
        Ok(())
      }
      // a way with parent references may be refused
      (Some(_), false) if arg.split('/').any(|s| s == "..") => {
        self.stats.failed += 1;
        Ok(())
      }
      (None, false) => {
        self.stats.failed += 1;
        Ok(())
      }
      (can, _) => Err(format!("{what}: {r:?}, but this is {}", if can.is_some() { "possible" } else { "impossible" })),
    }
  }
  fn truth(&mut self, what: &str, r: &Reply, possible: bool) -> Result<(), String> {
    ensure!(r.good() == possible, "{what}: {r:?}, but this is {}", if possible { "possible" } else { "impossible" });
    if possible { self.stats.changed += 1 } else { self.stats.failed += 1 }
    Ok(())
  }
  /// The line of a command without data, None when it leaves the base.
  fn line(&self, st: &Store, o: &Op) -> Option<Vec<u8>> {
    let p = self.prefix();
    let path = |a: &Arg| -> Option<String> {
      let t = a.text(&p);
      st.walk(self.base.len(), &self.cwd, &t)?;
      Some(t)
    };
    Some(match o {
      Op::Cwd(a) => format!("CWD {}", path(a)?).into_bytes(),
      Op::Cdup => {
        if self.cwd.len() <= self.base.len() && !self.base.is_empty() {
          return None;
        }
        b"CDUP".to_vec()
      }
      Op::Pwd => b"PWD".to_vec(),
      Op::Mkd(a) if a.plain() => format!("MKD {}", path(a)?).into_bytes(),
      Op::Rmd(a) if a.plain() => format!("RMD {}", path(a)?).into_bytes(),
      Op::Dele(a) if a.plain() => format!("DELE {}", path(a)?).into_bytes(),
      Op::Free(k) => FREE[*k as usize % FREE.len()].0.as_bytes().to_vec(),
      Op::Bad(k) => BAD[*k as usize % BAD.len()].to_vec(),
      _ => return None,
    })
  }
  /// Judges the reply to a command without data and follows it.
  fn judge(&mut self, st: &mut Store, o: &Op, line: &[u8], r: &Reply) -> Result<(), String> {
    let what = format!("{:?} in /{}", String::from_utf8_lossy(line), self.cwd.join("/"));
    let arg = String::from_utf8_lossy(line).split_once(' ').map(|x| x.1.to_string()).unwrap_or_default();
    let to = st.walk(self.base.len(), &self.cwd, &arg).flatten();
    match o {
      Op::Cwd(_) => {
        let t = to.filter(|t| st.dir(t));
        self.truth(&what, r, t.is_some())?;
        if let Some(t) = t {
          self.cwd = t;
        }
      }
      Op::Cdup => {
        let mut up = self.cwd.clone();
        up.pop();
        // a directory that is gone may be left or not
        if st.dir(&up) && st.dir(&self.cwd) {
          self.truth(&what, r, true)?;
        }
        if r.good() {
          self.cwd = up;
        }
      }
      Op::Pwd => {
        let q = r.text.find('"').zip(r.text.rfind('"')).filter(|(a, b)| a < b).map(|(a, b)| r.text[a + 1..b].to_string());
        let want = format!("/{}", self.cwd.join("/"));
        if r.good() || st.dir(&self.cwd) {
          ensure!(r.code == 257 && q.as_deref() == Some(&want), "{what}: {r:?} instead of {want}");
        }
      }
      Op::Mkd(_) => {
        let t = to.filter(|t| !t.is_empty() && st.dir(&t[..t.len() - 1]) && st.get(t).is_none());
        self.truth(&what, r, t.is_some())?;
        if let Some(t) = t {
          st.items.insert(t, Item::Dir);
        }
      }
      Op::Rmd(_) => {
        let t = to.filter(|t| t.len() > self.base.len() && st.dir(t));
        let full = t.as_ref().is_some_and(|t| !st.children(t).is_empty());
        if !full {
          self.truth(&what, r, t.is_some())?;
        }
        if let (Some(t), true) = (t, r.good()) {
          st.remove(&t);
        }
      }
      Op::Dele(_) => {
        let t = to.filter(|t| matches!(st.get(t), Some(Item::File(_))));
        self.truth(&what, r, t.is_some())?;
        if let Some(t) = t {
          st.remove(&t);
        }
      }
      Op::Free(k) => {
        let want = FREE[*k as usize % FREE.len()].1;
        ensure!(r.code == want, "{what}: {r:?} instead of {want}");
      }
      Op::Bad(_) => {
        ensure!((500..600).contains(&r.code), "{what}: {r:?}");
      }
      _ => {}
    }
    Ok(())
  }
  fn listed(&mut self, st: &Store, what: &str, to: Option<Path>, before: &BTreeMap<String, i64>, r: &Reply, d: Option<Vec<u8>>) -> Result<(), String> {
    let item = to.as_ref().and_then(|t| st.get(t));
    let Some(item) = item else {
      ensure!(!r.good() && d.unwrap_or_default().is_empty(), "{what}: {r:?} for something that does not exist");
      self.stats.failed += 1;
      return Ok(());
    };
    ensure!(r.code == 226 || r.code == 250, "{what}: {r:?}");
    let t = to.unwrap();
    let mut want: Vec<(String, Item)> = if item == Item::Dir { st.children(&t) } else { vec![(t.last().unwrap().clone(), item)] };
    let text = String::from_utf8(d.unwrap_or_default()).map_err(|_| format!("{what}: listing is no text"))?;
    ensure!(text.is_empty() || text.ends_with("\r\n"), "{what}: listing ends with {:?}", text.chars().last());
    for l in text.split_terminator("\r\n") {
      // kind and rights, links, owner, group, size, month, day, time, name
      let f: Vec<&str> = l.splitn(9, ' ').collect();
      ensure!(f.len() == 9, "{what}: line {l:?}");
      let name = f[8].strip_suffix('/').unwrap_or(f[8]);
      let Some(i) = want.iter().position(|(n, _)| n == name) else { return Err(format!("{what}: lists {name:?} which is not there")) };
      let (_, it) = want.remove(i);
      match it {
        Item::Dir => ensure!(f[0].starts_with('d') && f[8].ends_with('/'), "{what}: directory as {l:?}"),
        Item::File(b) => {
          ensure!(f[0].starts_with('-'), "{what}: file as {l:?}");
          ensure!(f[4].parse() == Ok(b.len()), "{what}: size in {l:?} instead of {}", b.len());
        }
      }
      ensure!(f[0].len() == 10, "{what}: rights in {l:?}");
      if let Some(m) = before.get(name) {
        let (mo, d, h, mi) = civil(*m);
        let hm: Vec<i64> = f[7].split(':').filter_map(|x| x.parse().ok()).collect();
        ensure!(f[5] == mo && f[6].parse() == Ok(d) && hm == [h, mi], "{what}: time in {l:?} instead of {mo} {d} {h}:{mi}");
      }
    }
    ensure!(want.is_empty(), "{what}: does not list {:?}", want[0].0);
    Ok(())
  }
  fn times(&self, p: &Option<Path>) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    let Some(p) = p else { return m };
    let at = self.s.root().join(p.join("/"));
    let mut note = |q: std::path::PathBuf| {
      if let (Some(n), Some(t)) = (q.file_name(), mtime(&q)) {
        m.insert(n.to_string_lossy().into_owned(), t);
      }
    };
    match std::fs::read_dir(&at) {
      Ok(d) => d.flatten().for_each(|e| note(e.path())),
      Err(_) => note(at),
    }
    m
  }

  fn act(&mut self, st: &mut Store, o: &Op) -> Result<(), String> {
    self.complete(st)?;
    let p = self.prefix();
    let n = self.base.len();
    let here = format!("in /{}", self.cwd.join("/"));
    let way = |c: &Self, st: &Store, a: &Arg| -> Option<(String, Option<Path>)> {
      let t = a.text(&p);
      let w = st.walk(n, &c.cwd, &t)?;
      Some((t, w))
    };
    match o {
      Op::Stor(a, m, seed, kind, piece) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        if !a.plain() {
          return Ok(());
        }
        let what = format!("STOR {t:?} {here}");
        let data = content(*seed, *kind);
        self.sticky = *m == Mode::Port;
        let r = store(&mut self.ctl, format!("STOR {t}"), *m, &data, *piece as usize).map_err(|e| format!("{what}: {e}"))?;
        self.stored(st, &what, &t, r, &data)?;
      }
      Op::Half(a, m, seed, kind) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        if !a.plain() {
          return Ok(());
        }
        let what = format!("slow STOR {t:?} {here}");
        let data = content(*seed, *kind);
        self.sticky = *m == Mode::Port;
        let d = Data::open(&mut self.ctl, *m)?;
        self.say(format!("STOR {t}").as_bytes())?;
        let r = self.ctl.reply().map_err(|e| format!("{what}: {e}"))?;
        if r.code >= 200 {
          self.stored(st, &what, &t, r, &data)?;
        } else {
          let mut stream = d.stream()?;
          let k = data.len() / 2;
          let _ = stream.write_all(&data[..k]);
          self.pending = Some(Pending { what, arg: t, stream, rest: data[k..].to_vec(), data });
          return Ok(());
        }
      }
      Op::Broken(a, m, seed, kind) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        if !a.plain() {
          return Ok(());
        }
        let what = format!("broken STOR {t:?} {here}");
        let data = content(*seed, *kind);
        self.sticky = *m == Mode::Port;
        let d = Data::open(&mut self.ctl, *m)?;
        self.say(format!("STOR {t}").as_bytes())?;
        let r = self.ctl.reply().map_err(|e| format!("{what}: {e}"))?;
        let r = if r.code >= 200 {
          r
        } else {
          let mut s = d.stream()?;
          let _ = s.write_all(&data);
          // a reset, not an end
          drop(s);
          self.ctl.last().map_err(|e| format!("{what}: {e}"))?
        };
        ensure!(!r.good(), "{what}: {r:?}");
        self.stats.failed += 1;
      }
      Op::Retr(a, m) => {
        let Some((t, w)) = way(self, st, a) else { return Ok(()) };
        let what = format!("RETR {t:?} {here}");
        self.sticky = *m == Mode::Port;
        let (r, d) = fetch(&mut self.ctl, format!("RETR {t}"), *m).map_err(|e| format!("{what}: {e}"))?;
        match w.and_then(|w| st.get(&w)) {
          Some(Item::File(b)) => {
            ensure!(r.code == 226 || r.code == 250, "{what}: {r:?}");
            let d = d.ok_or(format!("{what}: no data"))?;
            ensure!(d == *b, "{what}: {} bytes which are not the {} stored ones", d.len(), b.len());
            self.stats.fetched += 1;
          }
          _ => {
            ensure!(!r.good() && d.unwrap_or_default().is_empty(), "{what}: {r:?}, but there is no such file");
            self.stats.failed += 1;
          }
        }
      }
      Op::Dropped(a, m) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        let what = format!("dropped RETR {t:?} {here}");
        self.sticky = *m == Mode::Port;
        let d = Data::open(&mut self.ctl, *m)?;
        self.say(format!("RETR {t}").as_bytes())?;
        let r = self.ctl.reply().map_err(|e| format!("{what}: {e}"))?;
        if r.code < 200 {
          let mut s = d.stream()?;
          let mut b = [0u8; 100];
          let _ = s.read(&mut b);
          drop(s);
          // whether the server notices depends on how much was sent
          self.ctl.last().map_err(|e| format!("{what}: {e}"))?;
        }
      }
      Op::List(a, m) => {
        let (t, w) = match a {
          Some(a) => match way(self, st, a) {
            Some((t, w)) => (format!(" {t}"), w),
            None => return Ok(()),
          },
          None => (String::new(), Some(self.cwd.clone()).filter(|c| st.dir(c))),
        };
        let what = format!("LIST{t} {here}");
        self.sticky = *m == Mode::Port;
        let times = self.times(&w);
        let (r, d) = fetch(&mut self.ctl, format!("LIST{t}"), *m).map_err(|e| format!("{what}: {e}"))?;
        self.listed(st, &what, w, &times, &r, d)?;
      }
      Op::Nlst(k, m) => {
        let pat = PATTERNS[*k as usize % PATTERNS.len()];
        let what = format!("NLST {pat:?} {here}");
        self.sticky = *m == Mode::Port;
        let line = if pat.is_empty() { "NLST".to_string() } else { format!("NLST {pat}") };
        let (r, d) = fetch(&mut self.ctl, line, *m).map_err(|e| format!("{what}: {e}"))?;
        if !st.dir(&self.cwd) {
          ensure!(!r.good(), "{what}: {r:?} in a directory that is gone");
          self.stats.failed += 1;
        } else {
          ensure!(r.code == 226 || r.code == 250, "{what}: {r:?}");
          let mut at = self.cwd.clone();
          let mut pat = if pat.is_empty() { "*" } else { pat };
          if let Some((a, b)) = pat.split_once('/') {
            at.push(a.into());
            pat = b;
          }
          let want: BTreeSet<String> = st.children(&at).into_iter().filter(|(n, _)| wild(pat, n)).map(|(n, i)| if i == Item::Dir { format!("{n}/") } else { n }).collect();
          let text = String::from_utf8(d.unwrap_or_default()).map_err(|_| format!("{what}: no text"))?;
          let got: Vec<&str> = text.split_terminator("\r\n").collect();
          let set: BTreeSet<String> = got.iter().map(|s| s.to_string()).collect();
          ensure!(set == want && got.len() == want.len(), "{what}: {got:?} instead of {want:?}");
        }
      }
      Op::NoData(k, a) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        if self.sticky {
          return Ok(());
        }
        let line = match k % 4 {
          0 => "LIST".to_string(),
          1 => format!("RETR {t}"),
          2 => format!("STOR {t}"),
          _ => "NLST".to_string(),
        };
        self.say(line.as_bytes())?;
        let r = self.ctl.reply().map_err(|e| format!("{line}: {e}"))?;
        ensure!(r.code >= 400, "{line:?} without a data connection: {r:?}");
        self.stats.failed += 1;
      }
      Op::Twice(a, first, second) => {
        let Some((t, w)) = way(self, st, a) else { return Ok(()) };
        let mode = |x: &bool| if *x { Mode::Epsv } else { Mode::Pasv };
        let what = format!("{:?}, {:?} and RETR {t:?} {here}", mode(first), mode(second));
        self.sticky = false;
        let one = Data::open(&mut self.ctl, mode(first)).map_err(|e| format!("{what}: {e}"))?;
        let two = Data::open(&mut self.ctl, mode(second)).map_err(|e| format!("{what}: {e}"))?;
        self.say(format!("RETR {t}").as_bytes())?;
        let r = self.ctl.reply().map_err(|e| format!("{what}: {e}"))?;
        let file = w.and_then(|w| st.get(&w));
        if r.code >= 200 {
          ensure!(!r.good() && !matches!(file, Some(Item::File(_))), "{what}: {r:?}");
          self.stats.failed += 1;
        } else {
          let d = read_all(&mut two.stream()?)?;
          let r = self.ctl.last().map_err(|e| format!("{what}: {e}"))?;
          match file {
            Some(Item::File(b)) => ensure!(r.good() && d == *b, "{what}: {r:?} and {} of {} bytes", d.len(), b.len()),
            _ => ensure!(!r.good(), "{what}: {r:?}"),
          }
        }
        drop(one);
      }
      Op::Unreachable(k, a) => {
        let Some((t, _)) = way(self, st, a) else { return Ok(()) };
        let line = match k % 4 {
          0 => "LIST".to_string(),
          1 => format!("RETR {t}"),
          2 => format!("STOR {t}"),
          _ => "NLST".to_string(),
        };
        let (_hold, port) = deaf_port()?;
        let r = self.ctl.ask(&format!("PORT 127,0,0,1,{},{}", port >> 8, port & 255))?;
        ensure!(r.code == 200, "PORT: {r:?}");
        self.sticky = true;
        self.say(line.as_bytes())?;
        let r = self.ctl.last().map_err(|e| format!("{line}: {e}"))?;
        ensure!(r.code >= 400, "{line:?} with a port nobody listens to: {r:?}");
        self.stats.failed += 1;
      }
      Op::Burst(v) => {
        // all lines are made before the first reply: arguments which leave the base are left out
        let mut sim = st.clone();
        let (cwd, stats) = (self.cwd.clone(), self.stats.clone());
        let mut lines = vec![];
        for o in v {
          let Some(l) = self.line(&sim, o) else { continue };
          // the prediction of the later lines' way needs the expected answers
          let arg = String::from_utf8_lossy(&l).split_once(' ').map(|x| x.1.to_string()).unwrap_or_default();
          let to = sim.walk(n, &self.cwd, &arg).flatten();
          match (o, to) {
            (Op::Cwd(_), Some(t)) if sim.dir(&t) => self.cwd = t,
            (Op::Cdup, _) => {
              if !sim.dir(&self.cwd) {
                continue;
              }
              self.cwd.pop();
            }
            (Op::Rmd(_), Some(t)) if sim.dir(&t) => {
              if !sim.children(&t).is_empty() {
                continue;
              }
              if t.len() > n {
                sim.remove(&t);
              }
            }
            (Op::Mkd(_), Some(t)) if !t.is_empty() && sim.dir(&t[..t.len() - 1]) && sim.get(&t).is_none() => {
              sim.items.insert(t, Item::Dir);
            }
            (Op::Dele(_), Some(t)) if matches!(sim.get(&t), Some(Item::File(_))) => sim.remove(&t),
            _ => {}
          }
          lines.push((o, l));
        }
        self.cwd = cwd;
        self.stats = stats;
        let all: Vec<u8> = lines.iter().flat_map(|(_, l)| [&l[..], b"\r\n"].concat()).collect();
        let cuts = self.cuts.clone();
        self.ctl.send_split(&all, &cuts)?;
        for (o, l) in &lines {
          let r = self.ctl.reply().map_err(|e| format!("{:?} in a burst: {e}", String::from_utf8_lossy(l)))?;
          self.judge(st, o, l, &r).map_err(|e| format!("burst: {e}"))?;
        }
      }
      Op::Again(quit) => {
        if *quit {
          let r = self.ctl.ask("QUIT")?;
          ensure!(r.code == 221, "QUIT: {r:?}");
          self.ctl.ends().map_err(|e| format!("QUIT: {e}"))?;
        }
        self.ctl = Ctl::new(self.s.at)?;
        self.enter(*quit as usize)?;
      }
      o => {
        let Some(l) = self.line(st, o) else { return Ok(()) };
        self.say(&l)?;
        let r = self.ctl.reply().map_err(|e| format!("{:?}: {e}", String::from_utf8_lossy(&l)))?;
        self.judge(st, o, &l, &r)?;
      }
    }
    if self.pending.is_none() {
      self.ctl.in_step().map_err(|e| format!("after {o:?} {here}: {e}"))?;
    }
    Ok(())
  }
}
/// A port on which connections are refused as long as the socket lives.
fn deaf_port() -> Result<(std::os::fd::OwnedFd, u16), String> {
  use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
  unsafe {
    let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
    if fd < 0 {
      return Err("socket".into());
    }
    let fd = OwnedFd::from_raw_fd(fd);
    let mut a: libc::sockaddr_in = std::mem::zeroed();
    a.sin_family = libc::AF_INET as u16;
    a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
    if libc::bind(fd.as_raw_fd(), &a as *const _ as *const libc::sockaddr, n) != 0 || libc::getsockname(fd.as_raw_fd(), &mut a as *mut _ as *mut libc::sockaddr, &mut n) != 0 {
      return Err("bind".into());
    }
    Ok((fd, u16::from_be(a.sin_port)))
  }
}

// ---- sessions of several clients, one command at a time -----------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  how: Spelling,
  clients: u8,
  ops: Vec<(u8, Op)>,
  cuts: Vec<u8>,
}
fn prepare(s: &Server, st: &mut Store, at: &[String]) {
  let put = |st: &mut Store, p: &[&str], v: Item| {
    let mut k = at.to_vec();
    k.extend(p.iter().map(|x| x.to_string()));
    let rel = format!("outer/root/{}", k.join("/"));
    match &v {
      Item::Dir => {
        s.scratch.dir(rel);
      }
      Item::File(b) => {
        s.scratch.file(rel, b);
      }
    }
    st.items.insert(k, v);
  };
  put(st, &["a"], Item::Dir);
  put(st, &["a", "b"], Item::Dir);
  put(st, &["c d"], Item::Dir);
  put(st, &["f.bin"], Item::File(content(1, 11)));
  put(st, &["a", "x.txt"], Item::File(content(2, 5)));
}
fn session(c: &Case) -> Outcome {
  let mut s = lend(false, c.how)?;
  let mut st = Store::default();
  prepare(&s, &mut st, &[]);
  let res = (|| -> Result<Stats, String> {
    let mut cl = vec![];
    for i in 0..c.clients.max(1) {
      cl.push(Client::new(&s, vec![], i as usize, if i == 0 { c.cuts.clone() } else { vec![] })?);
    }
    let k = cl.len();
    for (i, (who, o)) in c.ops.iter().enumerate() {
      let w = *who as usize % k;
      cl[w].act(&mut st, o).map_err(|e| format!("operation {i} of client {w}: {e}"))?;
      if let Some(d) = tree_diff(&st.tree(), &snapshot(&s.root())) {
        return Err(format!("operation {i} of client {w}, {o:?}: {d} in the directory, against the replies so far"));
      }
    }
    for c in cl.iter_mut() {
      c.complete(&mut st)?;
    }
    let mut t = Stats::default();
    for c in &cl {
      t.stored += c.stats.stored;
      t.fetched += c.stats.fetched;
      t.failed += c.stats.failed;
      t.changed += c.stats.changed;
    }
    Ok(t)
  })();
  let alive = s.alive();
  let after = snapshot(&s.root());
  give_back(false, c.how, s);
  let t = res?;
  ensure!(alive, "the server has ended");
  if let Some(d) = tree_diff(&st.tree(), &after) {
    return Err(format!("at the end {d} in the directory, against the replies"));
  }
  let lab = format!("{} client{}{}{}", c.clients.max(1), if c.clients > 1 { "s" } else { "" }, if t.stored > 0 { ", stored" } else { "" }, if t.fetched > 0 { ", fetched" } else { "" });
  Ok(if t.stored + t.changed > 0 { nontrivial(lab) } else { trivial(lab) })
}
fn arg() -> impl Strategy<Value = Arg> {
  let seg = prop_oneof![12 => 0u8..4, 5 => 0u8..12, 1 => Just(195u8), 2 => Just(201u8)];
  (prop::bool::weighted(0.3), prop::collection::vec(seg, 1..4)).prop_map(|(abs, segs)| Arg { abs, segs })
}
fn any_arg() -> impl Strategy<Value = Arg> {
  prop_oneof![9 => arg(), 1 => any::<bool>().prop_map(|abs| Arg { abs, segs: vec![] })]
}
fn mode() -> impl Strategy<Value = Mode> {
  prop_oneof![3 => Just(Mode::Pasv), 2 => Just(Mode::Epsv), 2 => Just(Mode::Port)]
}
fn plain_op() -> impl Strategy<Value = Op> {
  prop_oneof![
    4 => any_arg().prop_map(Op::Cwd),
    2 => Just(Op::Cdup),
    2 => Just(Op::Pwd),
    4 => arg().prop_map(Op::Mkd),
    2 => arg().prop_map(Op::Rmd),
    3 => arg().prop_map(Op::Dele),
    1 => (0u8..8).prop_map(Op::Free),
    2 => (0u8..22).prop_map(Op::Bad),
  ]
}
fn op() -> impl Strategy<Value = Op> {
  let piece = prop_oneof![1 => 1u16..40, 3 => 500u16..60000];
  prop_oneof![
    18 => plain_op(),
    10 => (arg(), mode(), any::<u64>(), 0u8..16, piece).prop_map(|(a, m, s, k, p)| Op::Stor(a, m, s, if p < 40 { k % 10 } else { k }, p)),
    3 => (arg(), mode(), any::<u64>(), 0u8..16).prop_map(|(a, m, s, k)| Op::Half(a, m, s, k)),
    1 => (arg(), mode(), any::<u64>(), 0u8..16).prop_map(|(a, m, s, k)| Op::Broken(a, m, s, k)),
    10 => (any_arg(), mode()).prop_map(|(a, m)| Op::Retr(a, m)),
    1 => (any_arg(), mode()).prop_map(|(a, m)| Op::Dropped(a, m)),
    5 => (prop::option::of(any_arg()), mode()).prop_map(|(a, m)| Op::List(a, m)),
    4 => (0u8..10, mode()).prop_map(|(k, m)| Op::Nlst(k, m)),
    1 => (0u8..4, arg()).prop_map(|(k, a)| Op::NoData(k, a)),
    1 => (arg(), any::<bool>(), any::<bool>()).prop_map(|(a, x, y)| Op::Twice(a, x, y)),
    1 => (0u8..4, arg()).prop_map(|(k, a)| Op::Unreachable(k, a)),
    2 => prop::collection::vec(plain_op(), 2..7).prop_map(Op::Burst),
    1 => any::<bool>().prop_map(Op::Again),
  ]
}
fn how() -> impl Strategy<Value = Spelling> {
  prop_oneof![4 => Just(Spelling::Absolute), 1 => Just(Spelling::Relative), 1 => Just(Spelling::Slash), 1 => Just(Spelling::Linked)]
}
fn case() -> impl Strategy<Value = Case> {
  (how(), 1u8..4, prop::collection::vec((0u8..6, op()), 1..24), prop::collection::vec(0u8..12, 0..4)).prop_map(|(how, clients, ops, cuts)| Case { how, clients, ops, cuts })
}

// ---- clients at the same time, each in its own directory ----------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Par {
  how: Spelling,
  ops: Vec<Vec<Op>>,
}
fn parallel(c: &Par) -> Outcome {
  let mut s = lend(false, c.how)?;
  let mut all = Store::default();
  let bases: Vec<Path> = (0..c.ops.len()).map(|i| vec![format!("t{i}")]).collect();
  for b in &bases {
    s.scratch.dir(format!("outer/root/{}", b[0]));
    all.items.insert(b.clone(), Item::Dir);
    prepare(&s, &mut all, b);
  }
  let done = Mutex::new(vec![]);
  let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
    let h: Vec<_> = c
      .ops
      .iter()
      .enumerate()
      .map(|(i, ops)| {
        let (s, b, done) = (&s, bases[i].clone(), &done);
        let mut st = Store { items: all.items.iter().filter(|(k, _)| k.starts_with(&b)).map(|(k, v)| (k.clone(), v.clone())).collect() };
        sc.spawn(move || {
          let mut cl = Client::new(s, b, i, vec![])?;
          for (n, o) in ops.iter().enumerate() {
            cl.act(&mut st, o).map_err(|e| format!("operation {n} of parallel client {i}: {e}"))?;
          }
          cl.complete(&mut st)?;
          done.lock().unwrap().push((st, cl.stats.clone()));
          Ok(())
        })
      })
      .collect();
    h.into_iter().map(|h| h.join().unwrap_or(Err("client thread".into()))).collect()
  });
  let alive = s.alive();
  let after = snapshot(&s.root());
  give_back(false, c.how, s);
  for r in res {
    r?;
  }
  ensure!(alive, "the server has ended");
  let mut t = Tree::new();
  let mut busy = 0;
  for (st, x) in done.into_inner().unwrap() {
    t.extend(st.tree());
    busy += (x.stored + x.changed > 0) as usize;
  }
  if let Some(d) = tree_diff(&t, &after) {
    return Err(format!("after parallel sessions {d} in the directory, against the replies"));
  }
  let lab = format!("{} clients, {} of them changed something", c.ops.len(), busy);
  Ok(if busy > 1 { nontrivial(lab) } else { trivial(lab) })
}
fn par() -> impl Strategy<Value = Par> {
  (how(), prop::collection::vec(prop::collection::vec(op(), 1..14), 2..5)).prop_map(|(how, ops)| Par { how, ops })
}

// ---- big files and clients that give up ---------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Big {
  seed: u64,
  len: u32,
  mode: Mode,
  piece: u32,
  read: u32,
}
fn big(c: &Big) -> Outcome {
  let mut s = lend(false, Spelling::Absolute)?;
  let mut r = Rng::new(c.seed);
  let word = r.bytes(10_007);
  let data: Vec<u8> = (0..c.len as usize).map(|i| word[i % word.len()] ^ (i / 50_000) as u8).collect();
  let res = (|| -> Result<(), String> {
    let mut ctl = Ctl::new(s.at)?;
    ctl.login("bob", "secret")?;
    let r = store(&mut ctl, "STOR big", c.mode, &data, c.piece as usize)?;
    ensure!(r.good(), "STOR of {} bytes: {r:?}", data.len());
    let on_disk = std::fs::read(s.root().join("big")).map_err(|e| e.to_string())?;
    ensure!(on_disk == data, "{} bytes were stored as {} other bytes", data.len(), on_disk.len());
    // a client that stops reading
    let d = Data::open(&mut ctl, c.mode)?;
    ctl.send(b"RETR big\r\n")?;
    let r = ctl.reply()?;
    ensure!(r.code < 200, "RETR: {r:?}");
    let mut st = d.stream()?;
    let mut b = vec![0u8; c.read as usize];
    st.read_exact(&mut b).map_err(|e| e.to_string())?;
    ensure!(b == data[..b.len()], "RETR starts with other bytes");
    drop(st);
    let r = ctl.last().map_err(|e| format!("RETR given up after {} of {} bytes: {e}", c.read, c.len))?;
    // more than what all buffers can hold
    if data.len() - b.len() > 24 << 20 {
      ensure!(!r.good(), "RETR given up after {} of {} bytes: {r:?}", c.read, c.len);
    }
    ctl.in_step()?;
    let (r, d) = fetch(&mut ctl, "RETR big", c.mode)?;
    ensure!(r.good() && d.as_deref() == Some(&data[..]), "RETR of {} bytes: {r:?} and {:?} bytes", data.len(), d.map(|d| d.len()));
    ctl.in_step()?;
    let (r, d) = fetch(&mut ctl, "LIST big", c.mode)?;
    ensure!(r.good() && String::from_utf8_lossy(&d.unwrap_or_default()).contains(&format!(" {} ", data.len())), "LIST of the file: {r:?}");
    Ok(())
  })();
  let alive = s.alive();
  give_back(false, Spelling::Absolute, s);
  res?;
  ensure!(alive, "the server has ended");
  Ok(nontrivial(if c.len > 24 << 20 { "beyond the buffers" } else { "megabytes" }))
}
fn big_case() -> impl Strategy<Value = Big> {
  (any::<u64>(), prop_oneof![3 => 1_000_000u32..8_000_000, 1 => 26_000_000u32..30_000_000], mode(), 1000u32..200_000, 1u32..300_000).prop_map(|(seed, len, mode, piece, read)| Big { seed, len, mode, piece, read })
}

// ---- the program's own server, which converts ---------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Upload {
  stem: u8,
  ext: u8,
  /// None: damaged
  good: Option<Good>,
  kind: u8,
  mode: Mode,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
  keep: Option<bool>,
  out: u8,
  ups: Vec<Upload>,
}
const STEMS: [&str; 5] = ["IMG_1", "a.b", "sp ace", "\u{e4}", "IMG_2"];
const EXTS: [&str; 8] = ["NEF", "cr2", "Arw", "dng", "jpg", "txt", "", "DNG"];
fn conversion(c: &Conv) -> Outcome {
  let sc = Scratch::new();
  sc.dir("out");
  let out = match c.out % 4 {
    0 => "out".to_string(),
    1 => sc.0.join("out").to_string_lossy().into_owned(),
    2 => "./out/".into(),
    _ => {
      sc.link("alias", "out");
      "alias".into()
    }
  };
  let mut args = vec![];
  if let Some(k) = c.keep {
    args.extend(["--keep-original", if k { "true" } else { "false" }]);
  }
  let keep = c.keep.unwrap_or(true);
  let p = Program::start(&sc, &out, &args)?;
  let mut ctl = Ctl::new(p.at)?;
  ctl.login("anonymous", "x@y")?;
  // name -> what must be there
  enum Want {
    Bytes(Vec<u8>),
    Dng(Good, Vec<u8>),
  }
  let mut want: BTreeMap<String, Want> = BTreeMap::new();
  let (mut conv, mut failed) = (0, 0);
  for (i, u) in c.ups.iter().enumerate() {
    let (stem, ext) = (STEMS[u.stem as usize % STEMS.len()], EXTS[u.ext as usize % EXTS.len()]);
    let name = if ext.is_empty() { stem.to_string() } else { format!("{stem}.{ext}") };
    // "a.b" without extension has one all the same, which is no raw one
    let raw = ["NEF", "CR2", "ARW", "DNG"].contains(&ext.to_uppercase().as_str());
    let data = match &u.good {
      Some(g) => g.file(),
      None => damaged(u.kind, u.kind as u64),
    };
    let what = format!("upload {i} of {name:?}");
    let r = store(&mut ctl, format!("STOR {name}"), u.mode, &data, 4000).map_err(|e| format!("{what}: {e}"))?;
    ctl.in_step().map_err(|e| format!("{what}: {e}"))?;
    if !raw {
      ensure!(r.good(), "{what}: {r:?}");
      want.insert(name, Want::Bytes(data));
    } else if let Some(g) = &u.good {
      ensure!(r.good(), "{what}, a raw file: {r:?}");
      want.insert(format!("{stem}.dng"), Want::Dng(g.clone(), data.clone()));
      if keep {
        want.insert(name, Want::Bytes(data));
      }
      conv += 1;
    } else {
      ensure!(!r.good(), "{what}, no raw file: {r:?}");
      failed += 1;
    }
    let tree = snapshot(&sc.0.join("out"));
    for (n, w) in &want {
      let Some(Node::File(b)) = tree.get(n) else { return Err(format!("{what}: then {n:?} is not there")) };
      match w {
        Want::Bytes(d) => ensure!(b == d, "{what}: then {n:?} is not what was uploaded"),
        Want::Dng(g, orig) => {
          let d = read_dng(b).map_err(|e| format!("{what}: then {n:?}: {e}"))?;
          ensure!(d.px == g.pixels(), "{what}: then {n:?} has other pixels");
          if let Some(o) = embedded(&d)? {
            ensure!(o == *orig, "{what}: then {n:?} embeds another file");
          }
        }
      }
    }
    if let Some(n) = tree.keys().find(|k| !want.contains_key(*k)) {
      return Err(format!("{what}: then there is {n:?}, which is nothing that was uploaded or converted"));
    }
  }
  for (n, w) in &want {
    let (r, d) = fetch(&mut ctl, format!("RETR {n}"), Mode::Pasv)?;
    ensure!(r.good(), "RETR {n}: {r:?}");
    if let Want::Bytes(b) = w {
      ensure!(d.as_ref() == Some(b), "RETR {n}: other bytes");
    }
  }
  let lab = format!("{}{}", if conv > 0 { "converted" } else { "nothing converted" }, if failed > 0 { ", damaged" } else { "" });
  Ok(if conv + failed > 0 { nontrivial(lab) } else { trivial(lab) })
}
fn conv() -> impl Strategy<Value = Conv> {
  let up = (0u8..5, 0u8..8, prop::option::weighted(0.7, good()), 0u8..4, mode()).prop_map(|(stem, ext, good, kind, mode)| Upload { stem, ext, good, kind, mode });
  (prop::option::of(any::<bool>()), 0u8..4, prop::collection::vec(up, 1..6)).prop_map(|(keep, out, ups)| Conv { keep, out, ups })
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(String::as_str) == Some("--ftp-serve") {
    serve_main(&args[2..]);
  }
  main_with("C20", "a case is non-trivial when a command changed the store (session), two clients did (parallel), megabytes went both ways (big) or a raw file was converted or refused (conversion)", |r| {
    r.assume("names have no quotes, line ends, leading dash or trailing slash; arguments that leave the root belong to C19");
    r.assume("removing a directory with entries may be refused or done; storing through a parent reference may be refused");
    let n = r.scale(16_000, 200_000);
    r.check("session", n, case, session);
    let n = r.scale(5_000, 60_000);
    r.check("parallel", n, par, parallel);
    let n = r.scale(120, 2_000);
    r.check("big", n, big_case, big);
    let n = r.scale(600, 10_000);
    r.check("conversion", n, conv, conversion);
    end_all();
    cleanup();
  })
}
