//! A separate process that feeds bytes to the code under test. Aborts, stack
//! overflows, exhausted memory and endless loops end the worker, not the check.
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rawler::decoders::RawDecodeParams;
use rawler::rawsource::RawSource;
use rawler::RawImageData;

/// address space of a worker
const MEMORY: u64 = 3 << 30;

pub const DECODE: u8 = 1;
pub const DUMMY: u8 = 2;
pub const DECODER: u8 = 4;
pub const UNWRAPPED: u8 = 8;
pub const PARSERS: u8 = 16;
pub const CONVERT: u8 = 32;
pub const ORIGINAL: u8 = 64;
pub const DETAILS: u8 = 128;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Report {
  pub op: String,
  /// "ok", "err" or "panic"
  pub end: String,
  pub text: String,
  pub ms: u64,
}

static LAST: Mutex<String> = Mutex::new(String::new());

fn guarded(op: &str, out: &mut Vec<Report>, f: impl FnOnce() -> Result<String, String>) {
  LAST.lock().unwrap().clear();
  let t = Instant::now();
  let r = catch_unwind(AssertUnwindSafe(f));
  let ms = t.elapsed().as_millis() as u64;
  let (end, text) = match r {
    Ok(Ok(t)) => ("ok", t),
    Ok(Err(e)) => ("err", {
      let mut e = e.chars().take(300).collect::<String>();
      let p = LAST.lock().unwrap().clone();
      if !p.is_empty() {
        e += &format!(" [panic inside: {p}]");
      }
      e
    }),
    Err(_) => ("panic", LAST.lock().unwrap().clone()),
  };
  out.push(Report { op: op.into(), end: end.into(), text, ms });
}

fn image_check(i: &rawler::RawImage, dummy: bool) -> Result<(), String> {
  let n = match &i.data {
    RawImageData::Integer(v) => v.len(),
    RawImageData::Float(v) => v.len(),
  };
  if !dummy && n as u128 != i.width as u128 * i.height as u128 * i.cpp as u128 {
    return Err(format!("{n} samples in an image of {}x{}x{}", i.width, i.height, i.cpp));
  }
  Ok(())
}

fn run_ops(ops: u8, b: &[u8]) -> Vec<Report> {
  let mut out = vec![];
  // samples of the decoded image
  let mut pixels = 0u64;
  let src = RawSource::new_from_slice(b);
  let p = RawDecodeParams::default();
  let e = |e: rawler::RawlerError| format!("{e}");
  if ops & PARSERS != 0 {
    guarded("tiff", &mut out, || rawler::formats::tiff::reader::GenericTiffReader::new_with_buffer(b, 0, 0, None).map(|_| String::new()).map_err(|e| e.to_string()));
    guarded("bmff", &mut out, || rawler::formats::bmff::parse_buffer(b).map(|_| String::new()).map_err(|e| e.to_string()));
    guarded("ciff", &mut out, || rawler::formats::ciff::CiffIFD::new(b, 0, b.len(), 0).map(|_| String::new()));
    guarded("jfif", &mut out, || rawler::formats::jfif::Jfif::parse(std::io::Cursor::new(b)).map(|_| String::new()).map_err(|e| e.to_string()));
  }
  if ops & DECODER != 0 {
    guarded("identify", &mut out, || rawler::get_decoder(&src).map(|d| format!("{:?}", d.format_hint())).map_err(e));
  }
  if ops & DECODE != 0 {
    let mut bad = None;
    guarded("decode", &mut out, || {
      let i = rawler::decode(&src, &p).map_err(e)?;
      bad = image_check(&i, false).err();
      pixels = i.width as u64 * i.height as u64 * i.cpp as u64;
      Ok(format!("{}x{}x{}", i.width, i.height, i.cpp))
    });
    if let Some(m) = bad {
      out.push(Report { op: "decode".into(), end: "wrong".into(), text: m, ms: 0 });
    }
  }
  if ops & DUMMY != 0 {
    guarded("decode_dummy", &mut out, || {
      let i = rawler::decode_dummy(&src).map_err(e)?;
      Ok(format!("{}x{}x{}", i.width, i.height, i.cpp))
    });
  }
  if ops & UNWRAPPED != 0 {
    guarded("decode_unwrapped", &mut out, || rawler::decode_unwrapped(&src).map(|_| String::new()).map_err(e));
  }
  if ops & DETAILS != 0 {
    let d = catch_unwind(AssertUnwindSafe(|| rawler::get_decoder(&src)));
    if let Ok(Ok(d)) = d {
      guarded("metadata", &mut out, || d.raw_metadata(&src, &p).map(|_| String::new()).map_err(e));
      guarded("count", &mut out, || d.raw_image_count().map(|_| String::new()).map_err(e));
      guarded("xpacket", &mut out, || d.xpacket(&src, &p).map(|_| String::new()).map_err(e));
      guarded("thumbnail", &mut out, || d.thumbnail_image(&src, &p).map(|_| String::new()).map_err(e));
      guarded("preview", &mut out, || d.preview_image(&src, &p).map(|_| String::new()).map_err(e));
      guarded("full", &mut out, || d.full_image(&src, &p).map(|_| String::new()).map_err(e));
    }
  }
  // converting takes memory in proportion to the image, which a small file may declare
  if ops & CONVERT != 0 && pixels <= 1 << 22 {
    guarded("convert", &mut out, || {
      let mut dng = std::io::Cursor::new(vec![]);
      rawler::dng::convert::convert_raw_source(&src, &mut dng, "a.raw", &rawler::dng::convert::ConvertParams::default()).map(|_| String::new()).map_err(e)
    });
  }
  if ops & ORIGINAL != 0 {
    guarded("original", &mut out, || {
      let o = rawler::dng::original::OriginalCompressed::new(&mut std::io::Cursor::new(b), None).map_err(|e| e.to_string())?;
      let mut sink = std::io::Cursor::new(vec![]);
      o.decompress(&mut sink, false).map(|n| n.to_string()).map_err(|e| e.to_string())
    });
  }
  out
}

/// Development aid: one input in this process.
pub fn run_file(ops: u8, b: &[u8]) -> ! {
  limits();
  let _ = rayon::ThreadPoolBuilder::new().num_threads(2).build_global();
  for r in run_ops(ops, b) {
    println!("{} {} {} ms {}", r.op, r.end, r.ms, r.text.replace('\n', " "));
  }
  std::process::exit(0)
}

fn limits() {
  unsafe {
    let l = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
    if std::env::var("VH_ASAN").is_err() {
      libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &c);
  }
}

/// The worker process: never returns.
pub fn worker_main() -> ! {
  limits();
  let out_fd = unsafe { libc::dup(1) };
  unsafe { libc::dup2(2, 1) };
  let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(out_fd) };
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
    let mut l = LAST.lock().unwrap_or_else(|e| e.into_inner());
    if l.is_empty() {
      *l = format!("{} ({loc})", msg.chars().take(200).collect::<String>());
    }
  }));
  // a worker that hangs must not outlive the check
  let parent = unsafe { libc::getppid() };
  std::thread::spawn(move || loop {
    std::thread::sleep(std::time::Duration::from_secs(2));
    if unsafe { libc::getppid() } != parent {
      std::process::exit(0);
    }
  });
  let _ = rayon::ThreadPoolBuilder::new().num_threads(2).build_global();
  rawler::force_initialization();
  let mut inp = std::io::stdin().lock();
  loop {
    let mut h = [0u8; 5];
    if inp.read_exact(&mut h).is_err() {
      std::process::exit(0);
    }
    let n = u32::from_le_bytes(h[1..].try_into().unwrap()) as usize;
    let mut b = vec![0; n];
    if inp.read_exact(&mut b).is_err() {
      std::process::exit(0);
    }
    // 8 MiB like the main thread of a program
    let ops = h[0];
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run_ops(ops, &b)).unwrap().join().unwrap_or_default();
    let js = serde_json::to_vec(&r).unwrap();
    let _ = out.write_all(&(js.len() as u32).to_le_bytes());
    let _ = out.write_all(&js);
    let _ = out.flush();
  }
}

pub struct Worker {
  child: Child,
  err: std::path::PathBuf,
  served: u32,
}

impl Drop for Worker {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
    let _ = std::fs::remove_file(&self.err);
  }
}

impl Worker {
  pub fn start() -> Worker {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = std::env::var("VH_JOURNAL").unwrap_or_else(|_| "/tmp".into());
    let err = std::path::Path::new(&dir).join(format!("worker-{}-{}.err", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let exe = std::env::var("VH_WORKER").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap());
    let child = Command::new(exe)
      .arg("--worker")
      .env("RUST_BACKTRACE", "0")
      .env("RUST_LOG", "off")
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .stderr(std::fs::File::create(&err).map(Stdio::from).unwrap_or(Stdio::null()))
      .spawn()
      .expect("worker");
    Worker { child, err, served: 0 }
  }

  fn read(&mut self, buf: &mut [u8], end: Instant) -> Result<(), String> {
    let out = self.child.stdout.as_mut().unwrap();
    let fd = out.as_raw_fd();
    let mut got = 0;
    while got < buf.len() {
      let left = end.saturating_duration_since(Instant::now());
      if left.is_zero() {
        return Err("timeout".into());
      }
      let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
      let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
      if r > 0 {
        match out.read(&mut buf[got..]) {
          Ok(0) => return Err("closed".into()),
          Ok(n) => got += n,
          Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
          Err(_) => return Err("closed".into()),
        }
      }
    }
    Ok(())
  }

  fn call(&mut self, ops: u8, b: &[u8], limit: Duration) -> Result<Vec<Report>, String> {
    let inp = self.child.stdin.as_mut().unwrap();
    let mut h = vec![ops];
    h.extend((b.len() as u32).to_le_bytes());
    h.extend(b);
    inp.write_all(&h).and_then(|_| inp.flush()).map_err(|_| "closed".to_string())?;
    let end = Instant::now() + limit;
    let mut l = [0; 4];
    self.read(&mut l, end)?;
    let mut js = vec![0; u32::from_le_bytes(l) as usize];
    self.read(&mut js, end)?;
    self.served += 1;
    serde_json::from_slice(&js).map_err(|e| format!("harness: {e}"))
  }
}

thread_local! {
  static WORKER: std::cell::RefCell<Option<Worker>> = const { std::cell::RefCell::new(None) };
}

/// Runs the operations in this thread's worker. Err: how the worker ended.
pub fn call(ops: u8, b: &[u8], limit: Duration) -> Result<Vec<Report>, String> {
  WORKER.with(|w| {
    let mut w = w.borrow_mut();
    if w.as_ref().is_some_and(|w| w.served > 2000) {
      *w = None;
    }
    let wk = w.get_or_insert_with(Worker::start);
    match wk.call(ops, b, limit) {
      Ok(r) => Ok(r),
      Err(m) => {
        let m = if m == "timeout" {
          format!("no answer within {} s", limit.as_secs())
        } else {
          let st = wk.child.wait().map(|s| s.to_string()).unwrap_or_default();
          let e = std::fs::read(&wk.err).unwrap_or_default();
          let e = String::from_utf8_lossy(&e).to_string();
          let lines: Vec<&str> = e.lines().filter(|l| l.contains("ERROR:") || l.contains("overflow") || l.contains("allocat") || l.contains("SUMMARY")).take(4).collect();
          format!("the process ended: {st}; {}", lines.join(" | "))
        };
        *w = None;
        Err(m)
      }
    }
  })
}
