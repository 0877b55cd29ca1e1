use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Classification of one executed case.
#[derive(Clone, Debug)]
pub struct Cls {
  pub nontrivial: bool,
  pub label: String,
}
pub fn nontrivial(label: impl Into<String>) -> Cls {
  Cls { nontrivial: true, label: label.into() }
}
pub fn trivial(label: impl Into<String>) -> Cls {
  Cls { nontrivial: false, label: label.into() }
}
pub type Outcome = Result<Cls, String>;

pub struct Violation {
  pub sub: String,
  pub msg: String,
  pub case: Value,
}

#[derive(Default)]
struct SubStat {
  evaluations: u64,
  nontrivial: u64,
  labels: BTreeMap<String, u64>,
  exhaustive: bool,
  wall_s: f64,
}

pub struct Runner {
  pub prop: &'static str,
  pub rule: &'static str,
  pub thorough: bool,
  pub seed: u64,
  pub threads: usize,
  replay: Option<(String, Value)>,
  replay_hit: bool,
  start: Instant,
  subs: BTreeMap<String, SubStat>,
  distinct: HashSet<u64>,
  samples: Vec<Value>,
  violations: Vec<Violation>,
  known: Vec<KnownFinding>,
  known_hit: BTreeMap<String, String>,
  assumptions: Vec<String>,
  level: &'static str,
  journal: PathBuf,
  only: Option<String>,
}

#[derive(Clone, serde::Deserialize)]
struct KnownFinding {
  status: String,
  property: String,
  #[serde(default)]
  signature: String,
  #[serde(default)]
  what: String,
}

pub fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn hash64<T: Hash>(t: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

const CASE_LIMIT_S: u64 = 60;

struct Watch {
  slots: Vec<AtomicU64>, // start millis + 1, 0 = idle
  base: Instant,
}

static LIMIT_MS: AtomicU64 = AtomicU64::new(CASE_LIMIT_S * 1000);

/// Installs a per-case time limit for the current check (milliseconds).
pub fn set_case_limit_ms(ms: u64) {
  LIMIT_MS.store(ms, Ordering::SeqCst);
}

impl Runner {
  fn load_known(prop: &str) -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
      .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
      .filter_map(|l| serde_json::from_str::<KnownFinding>(l).ok())
      .filter(|k| k.property == prop && k.status == "open")
      .collect()
  }

  pub fn scale(&self, quick: u32, thorough: u32) -> u32 {
    if self.thorough {
      thorough
    } else {
      quick
    }
  }

  pub fn assume(&mut self, s: impl Into<String>) {
    self.assumptions.push(s.into());
  }
  pub fn set_level(&mut self, l: &'static str) {
    self.level = l;
  }

  fn skip(&self, name: &str) -> bool {
    self.only.as_ref().is_some_and(|o| o != name)
  }

  fn record(&mut self, name: &str, evals: u64, results: Vec<(u64, Cls, Value)>, wall: f64) {
    let st = self.subs.entry(name.to_string()).or_default();
    st.evaluations += evals;
    st.wall_s += wall;
    let mut taken = 0;
    for (h, c, v) in results {
      *st.labels.entry(c.label.clone()).or_insert(0) += 1;
      if c.nontrivial {
        if self.distinct.insert(h) {
          st.nontrivial += 1;
          if taken < 2 && v != Value::Null {
            taken += 1;
            self.samples.push(json!({"sub": name, "class": c.label, "case": v}));
          }
        }
      }
    }
  }

  fn violate(&mut self, name: &str, msg: String, case: Value) {
    // A finding is identified by "<sub>:<text>" where text must occur in the message.
    for k in &self.known {
      if let Some((sub, text)) = k.signature.split_once(':') {
        if sub == name && msg.contains(text) {
          self.known_hit.insert(k.signature.clone(), k.what.clone());
          return;
        }
      }
    }
    self.violations.push(Violation { sub: name.to_string(), msg, case });
  }

  /// Runs `n` generated cases of `strat` through `test`, in parallel shards with
  /// independent deterministic seeds, shrinking the first failure.
  pub fn check<C, S>(&mut self, name: &str, n: u32, strat: impl Fn() -> S + Sync, test: impl Fn(&C) -> Outcome + Sync)
  where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    S: Strategy<Value = C>,
  {
    self.check_sharded(name, n, self.threads, strat, test)
  }

  pub fn check_sharded<C, S>(&mut self, name: &str, n: u32, shards: usize, strat: impl Fn() -> S + Sync, test: impl Fn(&C) -> Outcome + Sync)
  where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    S: Strategy<Value = C>,
  {
    if let Some((sub, case)) = self.replay.clone() {
      if sub == name {
        self.replay_one::<C>(name, case, &test);
      }
      return;
    }
    if self.skip(name) {
      return;
    }
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let shards = shards.max(1).min(n.max(1) as usize);
    let results: Mutex<Vec<(u64, Cls, Value)>> = Mutex::new(vec![]);
    let fails: Mutex<BTreeMap<usize, (String, Value)>> = Mutex::new(BTreeMap::new());
    let watch = Watch { slots: (0..shards).map(|_| AtomicU64::new(0)).collect(), base: Instant::now() };
    let done = AtomicBool::new(false);
    let journal = self.journal.clone();
    let seed = self.seed;
    let known: Vec<(String, String)> = self
      .known
      .iter()
      .filter_map(|k| k.signature.split_once(':').filter(|(s, _)| *s == name).map(|(_, t)| (k.signature.clone(), t.to_string())))
      .collect();
    let known_hit: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    std::thread::scope(|scope| {
      let (known, known_hit) = (&known, &known_hit);
      let watch = &watch;
      let done = &done;
      let jn = &journal;
      scope.spawn(move || {
        while !done.load(Ordering::SeqCst) {
          std::thread::sleep(Duration::from_millis(50));
          let now = watch.base.elapsed().as_millis() as u64 + 1;
          for (i, s) in watch.slots.iter().enumerate() {
            let b = s.load(Ordering::SeqCst);
            if b != 0 && now.saturating_sub(b) > LIMIT_MS.load(Ordering::SeqCst) {
              let _ = std::fs::write(jn.join("hang"), format!("{i}"));
              unsafe { libc::_exit(77) }
            }
          }
        }
      });
      let handles: Vec<_> = (0..shards)
        .map(|sh| {
          let (stop, evals, results, fails, strat, test, journal) = (&stop, &evals, &results, &fails, &strat, &test, &journal);
          std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(scope, move || {
              let cases = n / shards as u32 + u32::from((n as usize % shards) > sh);
              let mut sd = [0u8; 32];
              sd[..8].copy_from_slice(&seed.to_le_bytes());
              sd[8..16].copy_from_slice(&hash64(&name).to_le_bytes());
              sd[16..24].copy_from_slice(&(sh as u64).to_le_bytes());
              let cfg = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 4096,
                max_shrink_time: 60_000,
                max_local_rejects: 1 << 20,
                max_global_rejects: 1 << 20,
                ..Config::default()
              };
              let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
              let jf = journal.join(format!("slot{sh}"));
              let mut local: Vec<(u64, Cls, Value)> = vec![];
              let local_cell = std::cell::RefCell::new(&mut local);
              let failed = std::cell::Cell::new(false);
              let res = runner.run(&strat(), |case| {
                if stop.load(Ordering::Relaxed) && !failed.get() {
                  return Ok(());
                }
                let js = serde_json::to_string(&case).unwrap_or_else(|_| "null".into());
                let _ = std::fs::write(&jf, format!("{{\"sub\":{},\"case\":{}}}", json!(name), js));
                watch.slots[sh].store(watch.base.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let mut r = run_guarded(|| test(&case));
                watch.slots[sh].store(0, Ordering::SeqCst);
                // listed findings do not end the search for other failures
                if let Err(m) = &r {
                  if let Some((sig, _)) = known.iter().find(|(_, t)| m.contains(t.as_str())) {
                    known_hit.lock().unwrap().insert(sig.clone());
                    r = Ok(trivial("listed finding"));
                  }
                }
                if !failed.get() {
                  evals.fetch_add(1, Ordering::Relaxed);
                }
                match r {
                  Ok(c) => {
                    if !failed.get() {
                      let keep = c.nontrivial && local_cell.borrow().len() < 4;
                      let h = hash64(&(name, &js));
                      let v = if keep && js.len() < 4000 { serde_json::from_str(&js).unwrap_or(Value::Null) } else { Value::Null };
                      local_cell.borrow_mut().push((h, c, v));
                    }
                    Ok(())
                  }
                  Err(m) => {
                    failed.set(true);
                    Err(TestCaseError::fail(m))
                  }
                }
              });
              match res {
                Ok(()) => {}
                Err(TestError::Fail(reason, case)) => {
                  stop.store(true, Ordering::Relaxed);
                  let v = serde_json::to_value(&case).unwrap_or(Value::Null);
                  fails.lock().unwrap().insert(sh, (reason.message().to_string(), v));
                }
                Err(TestError::Abort(r)) => {
                  eprintln!("generator gave up in {name}: {r}");
                  unsafe { libc::_exit(3) }
                }
              }
              results.lock().unwrap().append(&mut local);
            })
            .expect("spawn")
        })
        .collect();
      for h in handles {
        if h.join().is_err() {
          eprintln!("harness thread panicked in {name}");
          unsafe { libc::_exit(3) }
        }
      }
      done.store(true, Ordering::SeqCst);
    });
    for sig in known_hit.into_inner().unwrap() {
      if let Some(k) = self.known.iter().find(|k| k.signature == sig) {
        self.known_hit.insert(sig, k.what.clone());
      }
    }
    let res = results.into_inner().unwrap();
    self.record(name, evals.load(Ordering::SeqCst), res, t0.elapsed().as_secs_f64());
    if std::env::var("VH_VERBOSE").is_ok() {
      eprintln!("[{}] {}: {} cases in {:.1}s", self.prop, name, evals.load(Ordering::SeqCst), t0.elapsed().as_secs_f64());
    }
    let f = fails.into_inner().unwrap();
    if let Some((_, (m, v))) = f.into_iter().next() {
      self.violate(name, m, v);
    }
  }

  /// Runs an explicit finite list of cases (enumeration).
  pub fn enumerate<C>(&mut self, name: &str, cases: Vec<C>, exhaustive: bool, test: impl Fn(&C) -> Outcome + Sync)
  where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
  {
    if let Some((sub, case)) = self.replay.clone() {
      if sub == name {
        self.replay_one::<C>(name, case, &test);
      }
      return;
    }
    if self.skip(name) {
      return;
    }
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let results: Mutex<Vec<(u64, Cls, Value)>> = Mutex::new(vec![]);
    let fails: Mutex<BTreeMap<usize, (String, Value)>> = Mutex::new(BTreeMap::new());
    let threads = self.threads.min(cases.len().max(1));
    let journal = self.journal.clone();
    std::thread::scope(|scope| {
      for t in 0..threads {
        let (next, results, fails, cases, test, journal) = (&next, &results, &fails, &cases, &test, &journal);
        let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, move || {
          let jf = journal.join(format!("slot{t}"));
          loop {
            let i = next.fetch_add(1, Ordering::SeqCst) as usize;
            if i >= cases.len() {
              break;
            }
            let js = serde_json::to_string(&cases[i]).unwrap_or_default();
            let _ = std::fs::write(&jf, format!("{{\"sub\":{},\"case\":{}}}", json!(name), js));
            match run_guarded(|| test(&cases[i])) {
              Ok(c) => {
                let v = if i < 2 { serde_json::to_value(&cases[i]).unwrap_or(Value::Null) } else { Value::Null };
                results.lock().unwrap().push((hash64(&(name, &js)), c, v));
              }
              Err(m) => {
                fails.lock().unwrap().insert(i, (m, serde_json::to_value(&cases[i]).unwrap_or(Value::Null)));
              }
            }
          }
        });
      }
    });
    let res = results.into_inner().unwrap();
    self.record(name, cases.len() as u64, res, t0.elapsed().as_secs_f64());
    if let Some(s) = self.subs.get_mut(name) {
      s.exhaustive = exhaustive;
    }
    if std::env::var("VH_VERBOSE").is_ok() {
      eprintln!("[{}] {}: {} cases in {:.1}s", self.prop, name, cases.len(), t0.elapsed().as_secs_f64());
    }
    let f = fails.into_inner().unwrap();
    let mut reported = false;
    for (_, (m, v)) in f {
      let before = self.violations.len();
      if reported {
        // further failures only matter if they are not listed findings
        self.violate(name, m, v);
        if self.violations.len() > before {
          self.violations.truncate(before);
        }
      } else {
        self.violate(name, m, v);
        reported = self.violations.len() > before;
      }
    }
  }

  fn replay_one<C: DeserializeOwned + Debug>(&mut self, name: &str, case: Value, test: &dyn Fn(&C) -> Outcome) {
    self.replay_hit = true;
    let c: C = match serde_json::from_value(case.clone()) {
      Ok(c) => c,
      Err(e) => {
        eprintln!("replay file does not fit {name}: {e}");
        std::process::exit(3);
      }
    };
    match run_guarded(|| test(&c)) {
      Ok(k) => eprintln!("replay {name}: holds ({})", k.label),
      Err(m) => self.violations.push(Violation { sub: name.into(), msg: m, case }),
    }
  }

  fn finish(mut self) -> i32 {
    if self.replay.is_some() {
      if !self.replay_hit {
        eprintln!("no sub-check matches the replay file");
        return 3;
      }
      if let Some(v) = self.violations.first() {
        println!("REPRODUCED property={} {}: {}", self.prop, v.sub, v.msg);
        return 1;
      }
      return 0;
    }
    let mut code = 0;
    let vdir = verif_dir();
    for (sig, what) in &self.known_hit {
      println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, sig);
    }
    let known_n = self.known_hit.len();
    for v in &self.violations {
      let path = write_replay(&vdir, self.prop, &v.sub, &v.msg, &v.case, self.seed);
      println!("{}: {}", v.sub, v.msg);
      println!("VIOLATION property={} replay={}", self.prop, path.display());
      code = 1;
    }
    let evals: u64 = self.subs.values().map(|s| s.evaluations).sum();
    let subs: BTreeMap<String, Value> = self
      .subs
      .iter()
      .map(|(k, s)| {
        let mut l: Vec<_> = s.labels.iter().collect();
        l.sort_by(|a, b| b.1.cmp(a.1));
        let labels: BTreeMap<_, _> = l.into_iter().take(40).collect();
        (
          k.clone(),
          json!({"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial, "classes": labels, "exhaustive": s.exhaustive, "wall_s": s.wall_s}),
        )
      })
      .collect();
    self.samples.truncate(40);
    let ev = json!({
      "property": self.prop,
      "tier": if self.thorough {"thorough"} else {"quick"},
      "seed": self.seed,
      "level": self.level,
      "coverage": {
        "evaluations": evals,
        "distinct_nontrivial": self.distinct.len(),
        "rule": self.rule,
        "samples": self.samples,
        "sub_checks": subs,
        "known_findings_hit": known_n,
      },
      "assumptions": self.assumptions,
      "wall_s": self.start.elapsed().as_secs_f64(),
      "violations": self.violations.len(),
    });
    if self.only.is_none() {
      let _ = std::fs::create_dir_all(vdir.join("evidence"));
      if let Err(e) = std::fs::write(vdir.join("evidence").join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
      }
    }
    println!(
      "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
      self.prop,
      if code == 0 { "held" } else { "VIOLATED" },
      evals,
      self.distinct.len(),
      self.start.elapsed().as_secs_f64()
    );
    code
  }
}

thread_local! {
  static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Runs one case; a panic is a failure of the case.
pub fn run_guarded(f: impl FnOnce() -> Outcome) -> Outcome {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(r) => r,
    Err(_) => {
      let mut m = PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()));
      if m.is_empty() {
        m = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
      }
      Err(format!("panic: {m}"))
    }
  }
}

fn install_quiet_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let full = format!("{msg} ({loc})");
    if std::env::var("VH_PANICS").is_ok() {
      eprintln!("panic: {full}");
    }
    PANIC_MSG.with(|p| *p.borrow_mut() = full.clone());
    if let Ok(mut g) = LAST_PANIC.lock() {
      *g = full;
    }
  }));
}

fn write_replay(vdir: &Path, prop: &str, sub: &str, msg: &str, case: &Value, seed: u64) -> PathBuf {
  let dir = vdir.join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let body = json!({"property": prop, "sub": sub, "message": msg, "seed": seed, "case": case,
    "how": format!("/verif/check {prop} --replay <this file>")});
  let h = hash64(&case.to_string());
  let p = dir.join(format!("{prop}-{sub}-{:08x}.json", h as u32));
  let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
  p
}

/// Entry point of every check binary. The work is done in a child process, so
/// that an abort, a stack overflow or a hang of the code under test is turned
/// into a report on the case that was running.
pub fn main_with(prop: &'static str, rule: &'static str, body: impl FnOnce(&mut Runner)) -> ! {
  let args: Vec<String> = std::env::args().collect();
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let replay_file = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1).cloned());
  let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1).cloned());
  if std::env::var("VH_CHILD").is_err() {
    std::process::exit(supervise(prop, &args, seed, replay_file.is_some(), tier == "thorough"));
  }
  install_quiet_panic_hook();
  let replay = replay_file.map(|f| {
    let s = std::fs::read_to_string(&f).unwrap_or_else(|e| {
      eprintln!("{f}: {e}");
      std::process::exit(3)
    });
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    (v["sub"].as_str().unwrap_or("").to_string(), v["case"].clone())
  });
  let journal = PathBuf::from(std::env::var("VH_JOURNAL").unwrap_or_else(|_| "/tmp".into()));
  let mut r = Runner {
    prop,
    rule,
    thorough: tier == "thorough",
    seed,
    threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8).max(1),
    replay,
    replay_hit: false,
    start: Instant::now(),
    subs: BTreeMap::new(),
    distinct: HashSet::new(),
    samples: vec![],
    violations: vec![],
    known: Runner::load_known(prop),
    known_hit: BTreeMap::new(),
    assumptions: vec![],
    level: "exploration",
    journal,
    only,
  };
  // Fixed shard count: results do not depend on the machine.
  r.threads = 8;
  body(&mut r);
  let code = r.finish();
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(code)
}

fn spawn_child(args: &[String], journal: &Path, limit: Duration) -> Result<std::process::ExitStatus, ()> {
  let mut child = std::process::Command::new(std::env::current_exe().expect("exe"))
    .args(&args[1..])
    .env("VH_CHILD", "1")
    .env("VH_JOURNAL", journal)
    .spawn()
    .expect("spawn child");
  let t0 = Instant::now();
  loop {
    match child.try_wait() {
      Ok(Some(s)) => return Ok(s),
      Ok(None) => {}
      Err(_) => return Err(()),
    }
    if t0.elapsed() > limit {
      let _ = child.kill();
      let _ = child.wait();
      return Err(());
    }
    std::thread::sleep(Duration::from_millis(20));
  }
}

fn supervise(prop: &str, args: &[String], seed: u64, is_replay: bool, thorough: bool) -> i32 {
  let journal = verif_dir().join("target").join("journal").join(format!("{prop}-{}", std::process::id()));
  let _ = std::fs::create_dir_all(&journal);
  let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 820 });
  let res = spawn_child(args, &journal, limit);
  let code = match res {
    Ok(s) => match s.code() {
      Some(c @ (0 | 1)) => c,
      Some(77) => after_crash(prop, args, seed, &journal, is_replay, "does not terminate"),
      Some(c) => {
        eprintln!("check process ended with code {c}");
        c.max(2)
      }
      None => {
        use std::os::unix::process::ExitStatusExt;
        after_crash(prop, args, seed, &journal, is_replay, &format!("process killed by signal {}", s.signal().unwrap_or(0)))
      }
    },
    Err(()) => {
      eprintln!("check exceeded its total time limit");
      4
    }
  };
  let _ = std::fs::remove_dir_all(&journal);
  code
}

fn after_crash(prop: &str, args: &[String], seed: u64, journal: &Path, is_replay: bool, what: &str) -> i32 {
  if is_replay {
    println!("REPRODUCED property={prop} {what}");
    return 1;
  }
  let hung: Option<String> = std::fs::read_to_string(journal.join("hang")).ok();
  let mut slots: Vec<PathBuf> = std::fs::read_dir(journal)
    .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.file_name().is_some_and(|f| f.to_string_lossy().starts_with("slot"))).collect())
    .unwrap_or_default();
  slots.sort();
  if let Some(h) = hung {
    slots.retain(|p| p.ends_with(format!("slot{}", h.trim())));
  }
  for s in slots {
    let Ok(txt) = std::fs::read_to_string(&s) else { continue };
    let Ok(v) = serde_json::from_str::<Value>(&txt) else { continue };
    let sub = v["sub"].as_str().unwrap_or("").to_string();
    let msg = format!("{what} on this case, confirmed by running it alone");
    let rp = write_replay(&verif_dir(), prop, &sub, &msg, &v["case"], seed);
    let a = vec![args[0].clone(), "--replay".to_string(), rp.display().to_string()];
    let sub_journal = journal.join("confirm");
    let _ = std::fs::create_dir_all(&sub_journal);
    let r = spawn_child(&a, &sub_journal, Duration::from_secs(90));
    let bad = match r {
      Err(()) => true,
      Ok(st) => st.code().is_none() || st.code() == Some(77) || st.code() == Some(1),
    };
    if bad {
      let known = Runner::load_known(prop);
      if let Some(k) = known.iter().find(|k| k.signature.split_once(':').is_some_and(|(a, b)| a == sub && msg.contains(b))) {
        println!("KNOWN-FINDING: property={} {} [{}]", prop, k.what, k.signature);
        return 0;
      }
      let ev = json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()), "seed": seed,
        "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended early: the sample case crashes or hangs the code under test", "samples": [v]},
        "wall_s": 0.0, "violations": 1});
      let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
      let _ = std::fs::write(verif_dir().join("evidence").join(format!("{prop}.json")), ev.to_string());
      println!("{sub}: {msg}");
      println!("VIOLATION property={} replay={}", prop, rp.display());
      return 1;
    }
    let _ = std::fs::remove_file(&rp);
  }
  eprintln!("check process ended abnormally ({what}) but no single case reproduces it");
  5
}
