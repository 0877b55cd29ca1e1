//! The FTP server in processes of its own (unprivileged user, scratch root) and a client for it.
use crate::cli::{Scratch, UID};
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WAIT: Duration = Duration::from_secs(20);

// ---- server -------------------------------------------------------------

#[derive(Clone)]
struct Plain;
impl embedftp::config::FtpCallback for Plain {}

/// `--ftp-serve DIR ROOT ANONYMOUS`: never returns.
pub fn serve_main(args: &[String]) -> ! {
  let (dir, root, anon) = (&args[0], PathBuf::from(&args[1]), args[2] == "1");
  // many addresses: connections which were closed keep their port for a minute
  let addr: std::net::Ipv4Addr = args[3].parse().expect("address");
  std::env::set_current_dir(dir).expect("directory");
  drop_privileges();
  let parent = unsafe { libc::getppid() };
  std::thread::spawn(move || {
    while unsafe { libc::getppid() } == parent {
      std::thread::sleep(Duration::from_millis(200));
    }
    std::process::exit(0);
  });
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
  rt.block_on(async move {
    for _ in 0..50 {
      let port = TcpListener::bind((addr, 0)).and_then(|l| l.local_addr()).expect("port").port();
      let mut c = embedftp::config::Config::new("x").expect("config");
      c.server_port = port;
      c.server_addr = addr.into();
      c.anonymous = anon;
      c.users = vec![
        embedftp::config::User { name: "bob".into(), password: "secret".into() },
        embedftp::config::User { name: "open".into(), password: "".into() },
      ];
      tokio::spawn(async move {
        for _ in 0..2000 {
          if tokio::net::TcpStream::connect((addr, port)).await.is_ok() {
            println!("{port}");
            return;
          }
          tokio::time::sleep(Duration::from_millis(2)).await;
        }
      });
      let _ = embedftp::server::serve(tokio::runtime::Handle::current(), root.clone(), c, Plain).await;
    }
  });
  std::process::exit(3);
}
fn drop_privileges() {
  unsafe {
    libc::setgroups(0, std::ptr::null());
    if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
      panic!("cannot become the unprivileged user");
    }
    libc::umask(0o022);
    let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &l);
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &l);
  }
}

/// How the root directory is spelled for the server.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Spelling {
  Absolute,
  Relative,
  Slash,
  Linked,
}
pub struct Server {
  child: Child,
  pub at: SocketAddrV4,
  pub scratch: Scratch,
}
/// An address of the loopback network that no other server of this process uses.
fn address() -> Ipv4Addr {
  static HOST: AtomicU32 = AtomicU32::new(2);
  let n = HOST.fetch_add(1, Ordering::SeqCst);
  let a = Ipv4Addr::new(127, (n / 62_500 % 250) as u8, (n / 250 % 250) as u8, (n % 250) as u8 + 1);
  if TcpListener::bind((a, 0)).is_ok() { a } else { Ipv4Addr::LOCALHOST }
}
impl Server {
  /// Serves `outer/root` below a new scratch directory.
  pub fn start(anon: bool, how: Spelling) -> Result<Server, String> {
    let s = Scratch::new();
    s.dir("outer/root");
    s.link("alias", "outer");
    let abs = s.0.join("outer/root");
    let root = match how {
      Spelling::Absolute => abs.to_string_lossy().into_owned(),
      Spelling::Relative => "outer/root".into(),
      Spelling::Slash => format!("{}/", abs.display()),
      Spelling::Linked => s.0.join("alias/root").to_string_lossy().into_owned(),
    };
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.args(["--ftp-serve", &s.0.to_string_lossy(), &root, if anon { "1" } else { "0" }]);
    let addr = address();
    c.arg(addr.to_string());
    let (child, port) = spawn(c)?;
    Ok(Server { child, at: SocketAddrV4::new(addr, port), scratch: s })
  }
  pub fn root(&self) -> PathBuf {
    self.scratch.0.join("outer/root")
  }
  pub fn outer(&self) -> PathBuf {
    self.scratch.0.join("outer")
  }
  pub fn alive(&mut self) -> bool {
    matches!(self.child.try_wait(), Ok(None))
  }
}
/// Servers waiting for their next case.
static IDLE: Mutex<BTreeMap<(bool, Spelling), Vec<Server>>> = Mutex::new(BTreeMap::new());

/// A server with an empty root; it goes back to the pool only after `Lent::keep`.
pub fn lend(anon: bool, how: Spelling) -> Result<Server, String> {
  let idle = IDLE.lock().unwrap().entry((anon, how)).or_default().pop();
  let mut s = match idle {
    Some(s) => s,
    None => Server::start(anon, how)?,
  };
  if !s.alive() {
    s = Server::start(anon, how)?;
  }
  s.wipe();
  Ok(s)
}
pub fn give_back(anon: bool, how: Spelling, s: Server) {
  IDLE.lock().unwrap().entry((anon, how)).or_default().push(s);
}
/// Ends all servers.
pub fn end_all() {
  IDLE.lock().unwrap().clear();
}
impl Server {
  /// Leaves nothing but an empty root.
  fn wipe(&self) {
    let outer = self.outer();
    for e in std::fs::read_dir(&outer).into_iter().flatten().flatten() {
      if e.file_name() != "root" {
        remove(&e.path());
      }
    }
    let root = self.root();
    if !exists_dir(&root) {
      self.scratch.dir("outer/root");
    }
    for e in std::fs::read_dir(&root).into_iter().flatten().flatten() {
      remove(&e.path());
    }
  }
}
fn remove(p: &Path) {
  let _ = if exists_dir(p) { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
}
fn spawn(mut c: Command) -> Result<(Child, u16), String> {
  c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("RUST_LOG");
  let mut child = c.spawn().map_err(|e| format!("cannot start the server: {e}"))?;
  let mut out = child.stdout.take().unwrap();
  let mut text = vec![];
  let mut b = [0u8; 1];
  while !text.ends_with(b"\n") {
    match out.read(&mut b) {
      Ok(1) => text.push(b[0]),
      _ => {
        let _ = child.kill();
        let _ = child.wait();
        return Err("the server ended at once".into());
      }
    }
  }
  // keep the pipe open: the server may print
  std::thread::spawn(move || {
    let mut v = vec![0u8; 4096];
    while matches!(out.read(&mut v), Ok(n) if n > 0) {}
  });
  let port = String::from_utf8_lossy(&text).trim().parse().map_err(|e| format!("port: {e}"))?;
  Ok((child, port))
}
impl Drop for Server {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}

// ---- client -------------------------------------------------------------

fn quick(s: &TcpStream) {
  let one: libc::c_int = 1;
  unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4) };
}
/// Closing resets the connection, so that it leaves no trace; an orderly end needs `shutdown`.
fn no_wait(s: &TcpStream) {
  let l = libc::linger { l_onoff: 1, l_linger: 0 };
  unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
}
pub fn connect(at: SocketAddrV4) -> Result<TcpStream, String> {
  let s = TcpStream::connect(at).map_err(|e| format!("cannot connect: {e}"))?;
  let _ = s.set_nodelay(true);
  let _ = s.set_read_timeout(Some(WAIT));
  let _ = s.set_write_timeout(Some(WAIT));
  quick(&s);
  no_wait(&s);
  Ok(s)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reply {
  pub code: u32,
  pub text: String,
}
impl Reply {
  pub fn good(&self) -> bool {
    (200..400).contains(&self.code)
  }
}
pub struct Ctl {
  s: TcpStream,
  buf: Vec<u8>,
  at: SocketAddrV4,
  /// everything the server has said
  pub heard: Vec<u8>,
}
impl Ctl {
  pub fn new(at: SocketAddrV4) -> Result<Ctl, String> {
    let mut c = Ctl { s: connect(at)?, buf: vec![], at, heard: vec![] };
    let r = c.reply()?;
    if r.code != 220 {
      return Err(format!("greeting {r:?}"));
    }
    Ok(c)
  }
  pub fn send(&mut self, b: &[u8]) -> Result<(), String> {
    self.s.write_all(b).map_err(|e| format!("control connection: {e}"))
  }
  /// Sends in pieces.
  pub fn send_split(&mut self, b: &[u8], cuts: &[u8]) -> Result<(), String> {
    let mut rest = b;
    for c in cuts {
      let n = (*c as usize + 1).min(rest.len());
      let (a, r) = rest.split_at(n);
      self.send(a)?;
      rest = r;
      if rest.is_empty() {
        break;
      }
      std::thread::yield_now();
    }
    self.send(rest)
  }
  fn line(&mut self) -> Result<String, String> {
    loop {
      if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
        let l: Vec<u8> = self.buf.drain(..i + 2).collect();
        return Ok(String::from_utf8_lossy(&l[..i]).into_owned());
      }
      let mut b = [0u8; 4096];
      match self.s.read(&mut b) {
        Ok(0) => return Err("the server has closed the connection".into()),
        Ok(n) => {
          self.heard.extend(&b[..n]);
          self.buf.extend(&b[..n]);
        }
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return Err("no reply".into()),
        Err(e) => return Err(format!("control connection: {e}")),
      }
      quick(&self.s);
    }
  }
  /// One reply, which can have several lines.
  pub fn reply(&mut self) -> Result<Reply, String> {
    let l = self.line()?;
    let code: u32 = l.get(..3).and_then(|c| c.parse().ok()).ok_or(format!("no reply code in {l:?}"))?;
    let mut text = l.get(3..).unwrap_or("").trim_start_matches(['-', ' ']).to_string();
    if l.as_bytes().get(3) == Some(&b'-') {
      loop {
        let m = self.line()?;
        let end = m.starts_with(&format!("{code} "));
        text.push('\n');
        text.push_str(&m);
        if end {
          break;
        }
      }
    }
    Ok(Reply { code, text })
  }
  /// The first reply that is no announcement.
  pub fn last(&mut self) -> Result<Reply, String> {
    loop {
      let r = self.reply()?;
      if r.code >= 200 {
        return Ok(r);
      }
    }
  }
  pub fn ask(&mut self, line: &str) -> Result<Reply, String> {
    self.send(format!("{line}\r\n").as_bytes())?;
    self.last().map_err(|e| format!("{line:?}: {e}"))
  }
  /// Nothing else may be waiting.
  pub fn in_step(&mut self) -> Result<(), String> {
    self.send(b"NOOP\r\n")?;
    let r = self.reply()?;
    if r.code != 200 || !r.text.starts_with("Doing nothing") {
      return Err(format!("a second reply: {} {}", r.code, r.text));
    }
    Ok(())
  }
  pub fn login(&mut self, user: &str, pass: &str) -> Result<(), String> {
    let mut r = self.ask(&format!("USER {user}"))?;
    if r.code == 331 {
      r = self.ask(&format!("PASS {pass}"))?;
    }
    if r.code != 230 {
      return Err(format!("login as {user}: {r:?}"));
    }
    Ok(())
  }
  /// The server must end the connection.
  pub fn ends(&mut self) -> Result<(), String> {
    let t = Instant::now();
    let mut b = [0u8; 256];
    match self.s.read(&mut b) {
      Ok(0) => Ok(()),
      Ok(n) => Err(format!("more after the farewell: {:?}", String::from_utf8_lossy(&b[..n]))),
      Err(_) if t.elapsed() < WAIT => Ok(()),
      Err(e) => Err(format!("connection stays open: {e}")),
    }
  }
}

#[derive(Debug, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mode {
  Pasv,
  Epsv,
  Port,
}
pub enum Data {
  Open(TcpStream),
  Waiting(TcpListener),
}
impl Data {
  pub fn open(c: &mut Ctl, m: Mode) -> Result<Data, String> {
    match m {
      Mode::Pasv => {
        let r = c.ask("PASV")?;
        let n: Vec<u32> = r.text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
        if r.code != 227 || n.len() < 6 {
          return Err(format!("PASV: {r:?}"));
        }
        let port = n[n.len() - 2] * 256 + n[n.len() - 1];
        let host: Vec<u32> = c.at.ip().octets().iter().map(|b| *b as u32).collect();
        if n.len() != 6 || n[..4] != host[..] || port > 65535 {
          return Err(format!("PASV: {r:?} from {}", c.at));
        }
        Ok(Data::Open(connect(SocketAddrV4::new(*c.at.ip(), port as u16))?))
      }
      Mode::Epsv => {
        let r = c.ask("EPSV")?;
        let n: Option<u16> = r.text.split('|').rev().nth(1).and_then(|s| s.parse().ok());
        match (r.code, n) {
          (229, Some(n)) => Ok(Data::Open(connect(SocketAddrV4::new(*c.at.ip(), n))?)),
          _ => Err(format!("EPSV: {r:?}")),
        }
      }
      Mode::Port => {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        let p = l.local_addr().map_err(|e| e.to_string())?.port();
        let r = c.ask(&format!("PORT 127,0,0,1,{},{}", p >> 8, p & 255))?;
        if r.code != 200 {
          return Err(format!("PORT: {r:?}"));
        }
        Ok(Data::Waiting(l))
      }
    }
  }
  /// The connection, once the server has announced the transfer.
  pub fn stream(self) -> Result<TcpStream, String> {
    match self {
      Data::Open(s) => Ok(s),
      Data::Waiting(l) => {
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        let t = Instant::now();
        loop {
          match l.accept() {
            Ok((s, _)) => {
              let _ = s.set_nonblocking(false);
              no_wait(&s);
              let _ = s.set_read_timeout(Some(WAIT));
              let _ = s.set_write_timeout(Some(WAIT));
              return Ok(s);
            }
            Err(_) if t.elapsed() < WAIT => std::thread::sleep(Duration::from_micros(200)),
            Err(e) => return Err(format!("the server does not connect: {e}")),
          }
        }
      }
    }
  }
}
pub fn read_all(s: &mut TcpStream) -> Result<Vec<u8>, String> {
  let mut v = vec![];
  s.read_to_end(&mut v).map_err(|e| format!("data connection: {e}"))?;
  Ok(v)
}
/// A command that sends data to the client: the announcement tells whether data comes.
pub fn fetch(c: &mut Ctl, line: impl AsRef<[u8]>, m: Mode) -> Result<(Reply, Option<Vec<u8>>), String> {
  let d = Data::open(c, m)?;
  c.send(&[line.as_ref(), b"\r\n"].concat())?;
  let r = c.reply()?;
  if r.code >= 200 {
    return Ok((r, None));
  }
  let data = read_all(&mut d.stream()?)?;
  Ok((c.last()?, Some(data)))
}
/// A command that takes data, written in pieces of `piece` bytes.
pub fn store(c: &mut Ctl, line: impl AsRef<[u8]>, m: Mode, data: &[u8], piece: usize) -> Result<Reply, String> {
  let d = Data::open(c, m)?;
  c.send(&[line.as_ref(), b"\r\n"].concat())?;
  let r = c.reply()?;
  if r.code >= 200 {
    return Ok(r);
  }
  let mut s = d.stream()?;
  for p in data.chunks(piece.max(1)) {
    // the server may give up early
    if s.write_all(p).is_err() {
      break;
    }
  }
  let _ = s.shutdown(std::net::Shutdown::Write);
  c.last()
}
pub fn exists_dir(p: &Path) -> bool {
  std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir())
}

// ---- the real program's server ------------------------------------------

/// `dnglab ftpserver` on some port, serving `out` (a path relative to the scratch directory).
pub struct Program {
  child: Child,
  pub at: SocketAddrV4,
}
impl Program {
  pub fn start(s: &Scratch, out: &str, args: &[&str]) -> Result<Program, String> {
    use std::os::unix::process::CommandExt;
    for _ in 0..10 {
      let addr = address();
      let port = TcpListener::bind((addr, 0)).and_then(|l| l.local_addr()).map_err(|e| e.to_string())?.port();
      let mut c = Command::new(crate::cli::program());
      c.args(["ftpserver", "--port", &port.to_string(), "--listen", &addr.to_string()]).args(args).arg(out);
      c.current_dir(&s.0).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("RUST_LOG").env("HOME", &s.0).env("RAYON_NUM_THREADS", "2").env("TOKIO_WORKER_THREADS", "2");
      unsafe {
        c.pre_exec(|| {
          libc::setgroups(0, std::ptr::null());
          if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
            return Err(std::io::Error::last_os_error());
          }
          libc::umask(0o022);
          let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
          libc::setrlimit(libc::RLIMIT_AS, &l);
          libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
          Ok(())
        });
      }
      let mut child = c.spawn().map_err(|e| format!("cannot start the program: {e}"))?;
      let t = Instant::now();
      while t.elapsed() < WAIT {
        if let Ok(Some(_)) = child.try_wait() {
          break;
        }
        if TcpStream::connect((addr, port)).is_ok() {
          return Ok(Program { child, at: SocketAddrV4::new(addr, port) });
        }
        std::thread::sleep(Duration::from_millis(3));
      }
      let _ = child.kill();
      let _ = child.wait();
    }
    Err("the program does not serve".into())
  }
}
impl Drop for Program {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
