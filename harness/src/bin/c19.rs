//! C19: nothing outside the root of the FTP server is reached, and nothing happens before a login.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vh::cli::*;
use vh::fill::Rng;
use vh::ftp::*;
use vh::*;

const MARK: &str = "KEPTSECRET";

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Op {
  verb: u8,
  mode: Mode,
  /// how the argument starts
  lead: u8,
  segs: Vec<u8>,
  /// separators: plain, doubled, with "./"
  sep: u8,
  tail: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  how: Spelling,
  tree: u64,
  ops: Vec<Op>,
}
const VERBS: [&str; 16] = ["CWD", "CWD", "CWD", "LIST", "NLST", "RETR", "RETR", "STOR", "STOR", "MKD", "RMD", "RMD", "DELE", "CDUP", "PWD", "NLST"];
const SEGS: [&str; 40] = [
  "..", "..", "..", "..", "..", ".", "a", "b", "f.bin", "lout", "lfile", "labs", "ldang", "ldangdir", "lin", "linf", "lself", "lup", "lroot", "lthere", "root", "root2", "secret", "s.txt", "d", "new1", "new2", "sp ace", "[x]", "*",
  "%2e%2e", "..\\..", "...", "~", " ..", ".. ", "\u{ff0e}\u{ff0e}", "..\u{0}", "t-KEPTSECRET", "outer",
];

fn setup(s: &Server, seed: u64) {
  let mut r = Rng::new(seed);
  let sc = &s.scratch;
  let secret = |n: u64| format!("{MARK} {n} {}", "x".repeat((n % 50) as usize)).into_bytes();
  for p in ["outer/secret/s.txt", "outer/secret/d/t-KEPTSECRET", "outer/secret/f.bin", "outer/root2/s.txt", "outer/root2/f.bin", "outer/f.bin", "outer/s.txt", "outer/root2/a/b/f.bin"] {
    let n = r.next();
    sc.file(p, &secret(n));
  }
  for p in ["f.bin", "a/f.bin", "a/b/f.bin", "sp ace/s.txt", "[x]/f.bin", "secret/d/ok", "root/f.bin", "outer/f.bin"] {
    if r.below(5) > 0 {
      let n = r.below(40) as usize;
      sc.file(format!("outer/root/{p}"), &r.bytes(n));
    }
  }
  sc.dir("outer/root/a/b");
  let abs = s.outer().join("secret");
  let abs = abs.to_string_lossy().into_owned();
  let links: [(&str, String); 16] = [
    ("lout", "../secret".into()),
    ("lfile", "../secret/s.txt".into()),
    ("labs", abs.clone()),
    ("ldang", "../new1".into()),
    ("ldangdir", "../nodir/new2".into()),
    ("lin", "a".into()),
    ("linf", "a/f.bin".into()),
    ("lself", "lself".into()),
    ("lup", "..".into()),
    ("lroot", ".".into()),
    ("lthere", "../root/a".into()),
    ("a/lup", "../..".into()),
    ("a/lroot", "..".into()),
    ("a/lfile", "../../f.bin".into()),
    ("a/b/lout", format!("{abs}/d")),
    ("a/b/ldang", format!("{abs}/new1")),
  ];
  for (n, t) in links {
    if r.below(4) > 0 {
      sc.link(format!("outer/root/{n}"), t);
    }
  }
}
fn arg(o: &Op, s: &Server) -> Vec<u8> {
  let mut v: Vec<u8> = match o.lead % 8 {
    0 | 1 | 2 => vec![],
    3 | 4 => b"/".to_vec(),
    5 => b"//".to_vec(),
    6 => s.outer().as_os_str().as_bytes().iter().copied().chain(*b"/").collect(),
    _ => s.root().as_os_str().as_bytes().iter().copied().chain(*b"/").collect(),
  };
  let sep: &[u8] = match o.sep % 5 {
    0 | 1 | 2 => b"/",
    3 => b"//",
    _ => b"/./",
  };
  for (i, g) in o.segs.iter().enumerate() {
    if i > 0 {
      v.extend(sep);
    }
    let g = SEGS[*g as usize % SEGS.len()];
    // the client may not make the secret name itself
    let makes = matches!(VERBS[o.verb as usize % VERBS.len()], "STOR" | "MKD");
    v.extend(if makes && g.contains(MARK) { "new1" } else { g }.as_bytes());
  }
  match o.tail {
    0 => v.push(b'/'),
    1 => v.extend(b"/."),
    2 => v.extend([0xff, 0xfe]),
    3 => v.extend(b"/*"),
    _ => {}
  }
  v.retain(|b| *b != b'\r' && *b != b'\n');
  v
}
/// Where the argument leads: through the real tree, as the system resolves it.
fn leads(root: &Path, cwd: &Path, a: &[u8]) -> Option<PathBuf> {
  let text = std::str::from_utf8(a).ok()?;
  if text.contains('\0') {
    return None;
  }
  let p = Path::new(text);
  let rel: PathBuf = if p.has_root() { p.iter().skip(1).collect() } else { cwd.iter().skip(1).collect::<PathBuf>().join(p) };
  let full = root.join(rel);
  if let Ok(c) = std::fs::canonicalize(&full) {
    return Some(c);
  }
  // something new, or a dangling link
  let (parent, name) = (full.parent()?, full.file_name()?);
  let at = std::fs::canonicalize(parent).ok()?.join(name);
  match std::fs::read_link(&at) {
    Ok(t) => {
      let t = at.parent()?.join(t);
      // the nearest existing directory tells the side
      let mut up = t.as_path();
      while let Some(q) = up.parent() {
        if let Ok(c) = std::fs::canonicalize(q) {
          return Some(c.join("?"));
        }
        up = q;
      }
      None
    }
    Err(_) => Some(at),
  }
}
fn outside(s: &Server) -> Tree {
  let mut t = snapshot(&s.outer());
  t.retain(|k, _| k != "root" && !k.starts_with("root/"));
  t
}
fn secretive(b: &[u8]) -> bool {
  b.windows(MARK.len()).any(|w| w == MARK.as_bytes())
}

fn contained(c: &Case) -> Outcome {
  let mut s = lend(false, c.how)?;
  setup(&s, c.tree);
  let before = outside(&s);
  let (mut hostile, mut refused) = (0, 0);
  let res = (|| -> Result<(), String> {
    let root = std::fs::canonicalize(s.root()).map_err(|e| e.to_string())?;
    let mut ctl = Ctl::new(s.at)?;
    ctl.login("bob", "secret")?;
    let mut cwd = PathBuf::from("/");
    for (i, o) in c.ops.iter().enumerate() {
      let verb = VERBS[o.verb as usize % VERBS.len()];
      let a = arg(o, &s);
      let what = format!("operation {i}, {verb} {:?} in {}", String::from_utf8_lossy(&a), cwd.display());
      let mut line = format!("{verb} ").into_bytes();
      line.extend(&a);
      let to = leads(&root, &cwd, &a);
      let out = to.as_ref().is_some_and(|t| !t.starts_with(&root));
      let mut seen = vec![];
      let reply = match verb {
        "LIST" | "NLST" | "RETR" => {
          let (r, d) = fetch(&mut ctl, &line, o.mode).map_err(|e| format!("{what}: {e}"))?;
          seen = d.unwrap_or_default();
          r
        }
        "STOR" => store(&mut ctl, &line, o.mode, format!("stored by operation {i}").as_bytes(), 7).map_err(|e| format!("{what}: {e}"))?,
        "CDUP" | "PWD" => ctl.ask(verb)?,
        _ => {
          line.extend(b"\r\n");
          ctl.send(&line)?;
          ctl.last().map_err(|e| format!("{what}: {e}"))?
        }
      };
      ensure!(exists_dir(&s.root()), "{what}: the root is gone");
      if let Some(d) = tree_diff(&before, &outside(&s)) {
        return Err(format!("{what}: outside of the root {d}"));
      }
      // an argument that names the secret itself comes back in error messages
      let named = secretive(&a) || cwd.to_string_lossy().contains(MARK);
      ensure!(!secretive(&seen), "{what}: data from outside of the root: {:?}", String::from_utf8_lossy(&seen));
      ensure!(named || !secretive(reply.text.as_bytes()), "{what}: reply with data from outside of the root: {reply:?}");
      if out && !matches!(verb, "CDUP" | "PWD" | "NLST") {
        hostile += 1;
        ensure!(!reply.good(), "{what}: leads to {}, but the answer is {reply:?}", to.unwrap().display());
      }
      if verb == "RMD" && to.as_ref() == Some(&root) {
        ensure!(!reply.good(), "{what}: the root is said to be removed");
      }
      if !reply.good() {
        refused += 1;
      }
      if verb == "CWD" && reply.good() || verb == "CDUP" {
        let r = ctl.ask("PWD")?;
        let p = r.text.split('"').nth(1).unwrap_or("").to_string();
        ensure!(r.code == 257 && p.starts_with('/'), "{what}: then PWD says {r:?}");
        cwd = p.into();
        // the directory can be gone
        if let Ok(real) = std::fs::canonicalize(root.join(cwd.iter().skip(1).collect::<PathBuf>())) {
          ensure!(real.starts_with(&root), "{what}: the current directory is {}", real.display());
        }
      }
    }
    Ok(())
  })();
  ensure!(s.alive(), "the server has ended");
  let after = outside(&s);
  give_back(false, c.how, s);
  if let Some(d) = tree_diff(&before, &after) {
    return Err(format!("at the end, outside of the root {d}"));
  }
  res?;
  let lab = format!("{:?} {}{}", c.how, if hostile > 2 { "many escapes tried" } else if hostile > 0 { "escape tried" } else { "harmless" }, if refused < c.ops.len() { "" } else { ", all refused" });
  Ok(if hostile > 0 { nontrivial(lab) } else { trivial(lab) })
}
fn op() -> impl Strategy<Value = Op> {
  (0u8..16, prop_oneof![3 => Just(Mode::Pasv), 1 => Just(Mode::Epsv), 1 => Just(Mode::Port)], 0u8..8, prop::collection::vec(prop_oneof![3 => 0u8..30, 1 => 0u8..40], 0..6), 0u8..5, 0u8..14)
    .prop_map(|(verb, mode, lead, segs, sep, tail)| Op { verb, mode, lead, segs, sep, tail })
}
fn how() -> impl Strategy<Value = Spelling> {
  prop_oneof![4 => Just(Spelling::Absolute), 1 => Just(Spelling::Relative), 1 => Just(Spelling::Slash), 1 => Just(Spelling::Linked)]
}
fn case() -> impl Strategy<Value = Case> {
  (how(), any::<u64>(), prop::collection::vec(op(), 1..16)).prop_map(|(how, tree, ops)| Case { how, tree, ops })
}

// ---- before a login -----------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
  User(u8),
  Pass(u8),
  File(u8),
  Free(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Login {
  anon: bool,
  steps: Vec<Step>,
  lower: bool,
}
const USERS: [&str; 10] = ["bob", "bob", "open", "anonymous", "", "Bob", "bob ", "root", "bo", "bobby"];
const PASSES: [&str; 9] = ["secret", "secret", "", "Secret", "secret ", "secre", "secret1", "anonymous@example.com", "x"];
const FILES: [&str; 20] = [
  "CWD /a", "CWD a", "LIST", "LIST /", "NLST", "NLST *", "RETR f.bin", "RETR /f.bin", "STOR new1", "STOR f.bin", "MKD new2", "RMD a", "DELE f.bin", "CDUP", "PWD", "PASV", "EPSV", "PORT 127,0,0,1,200,200", "DELE /f.bin", "RMD /",
];
const FREE: [&str; 6] = ["NOOP", "SYST", "FEAT", "TYPE I", "AUTH TLS", "HELP"];

fn login(c: &Login) -> Outcome {
  let how = Spelling::Absolute;
  let mut s = lend(c.anon, how)?;
  setup(&s, 7);
  s.scratch.file("outer/root/f.bin", MARK.as_bytes());
  let before = snapshot(&s.outer());
  let (mut denied, mut ins, mut refused) = (0, 0, 0);
  let res = (|| -> Result<(), String> {
    let mut ctl = Ctl::new(s.at)?;
    // name that waits for its password
    let mut waiting: Option<&str> = None;
    let mut inside = false;
    for (i, st) in c.steps.iter().enumerate() {
      let line = match st {
        Step::User(u) => format!("USER {}", USERS[*u as usize % USERS.len()]),
        Step::Pass(p) => format!("PASS {}", PASSES[*p as usize % PASSES.len()]),
        Step::File(f) => FILES[*f as usize % FILES.len()].into(),
        Step::Free(f) => FREE[*f as usize % FREE.len()].into(),
      };
      let line = if c.lower { line.split_once(' ').map_or(line.to_lowercase(), |(a, b)| format!("{} {b}", a.to_lowercase())) } else { line };
      // file commands are only sent to see them refused
      if inside && matches!(st, Step::File(_)) {
        continue;
      }
      let what = format!("step {i}, {line:?}");
      ctl.send(format!("{line}\r\n").as_bytes())?;
      let r = ctl.reply().map_err(|e| format!("{what}: {e}"))?;
      match st {
        Step::File(_) => {
          denied += 1;
          ensure!(r.code == 530, "{what} before the login: {r:?}");
        }
        Step::User(u) => {
          let u = USERS[*u as usize % USERS.len()];
          let known = u == "bob" || u == "open" || u == "anonymous" && c.anon;
          if !known {
            ensure!(r.code >= 500, "{what}: {r:?}");
            refused += 1;
            // how the earlier name fares is not told
            if waiting.is_some() || inside {
              return Ok(());
            }
          } else if u == "open" {
            ensure!(r.code == 230, "{what}: {r:?}");
            inside = true;
            waiting = None;
          } else {
            ensure!(r.code == 331, "{what}: {r:?}");
            inside = false;
            waiting = Some(u);
          }
        }
        Step::Pass(p) => {
          let p = PASSES[*p as usize % PASSES.len()];
          let right = match waiting {
            Some("bob") => p == "secret",
            Some(_) => true,
            None => false,
          };
          // with anonymous access every name gets what anonymous gets
          if c.anon && waiting.is_some() && !right {
            return Ok(());
          }
          ensure!((r.code == 230) == right, "{what} for {waiting:?}: {r:?}");
          if right {
            inside = true;
            ins += 1;
            waiting = None;
          } else {
            ensure!(r.code >= 500, "{what}: {r:?}");
            refused += 1;
          }
        }
        Step::Free(_) => ensure!((200..600).contains(&r.code), "{what}: {r:?}"),
      }
      ctl.in_step().map_err(|e| format!("{what}: {e}"))?;
      ensure!(!secretive(&ctl.heard), "{what}: file data on the control connection");
    }
    if inside {
      let (r, d) = fetch(&mut ctl, "RETR f.bin", Mode::Pasv)?;
      ensure!(r.good() && d.as_deref() == Some(MARK.as_bytes()), "after the login: {r:?}");
    } else {
      let r = ctl.ask("RETR f.bin")?;
      ensure!(r.code == 530, "RETR without login: {r:?}");
    }
    Ok(())
  })();
  ensure!(s.alive(), "the server has ended");
  let after = snapshot(&s.outer());
  give_back(c.anon, how, s);
  if let Some(d) = tree_diff(&before, &after) {
    return Err(format!("{d} although no command may change anything"));
  }
  res?;
  let lab = format!("{}{}{}", if denied > 0 { "denied" } else { "no file command" }, if refused > 0 { ", wrong login" } else { "" }, if ins > 0 { ", login" } else { "" });
  Ok(if denied > 0 { nontrivial(lab) } else { trivial(lab) })
}
fn login_case() -> impl Strategy<Value = Login> {
  let step = prop_oneof![3 => (0u8..10).prop_map(Step::User), 3 => (0u8..9).prop_map(Step::Pass), 5 => (0u8..20).prop_map(Step::File), 1 => (0u8..6).prop_map(Step::Free)];
  (prop::bool::weighted(0.3), prop::collection::vec(step, 1..14), any::<bool>()).prop_map(|(anon, steps, lower)| Login { anon, steps, lower })
}

// ---- conversion next to links -------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
  out: bool,
  keep: bool,
  good: Good,
  /// what the link with the name of the result leads to
  to: u8,
  ext: u8,
  raw: bool,
}
/// The program writes the DNG beside the uploaded file, under a name the client did not give.
fn conversion(c: &Conv) -> Outcome {
  let sc = Scratch::new();
  sc.dir("outer/root/sub");
  for p in ["outer/secret/s.txt", "outer/FOO.dng"] {
    sc.file(p, MARK.as_bytes());
  }
  let target = match c.to % 6 {
    0 => "../secret/s.txt".to_string(),
    1 => "../new.dng".into(),
    2 => sc.0.join("outer/secret/new.dng").to_string_lossy().into_owned(),
    3 => "../FOO.dng".into(),
    4 => "sub/../../secret/other".into(),
    _ => "../secret".into(),
  };
  let ext = ["NEF", "cr2", "ARW", "dng"][c.ext as usize % 4];
  // the link stands where the DNG goes, or where the original goes
  sc.link(if c.raw { format!("outer/root/FOO.{ext}") } else { "outer/root/FOO.dng".into() }, target);
  let tree = |sc: &Scratch| {
    let mut t = snapshot(&sc.0.join("outer"));
    t.retain(|k, _| k != "root" && !k.starts_with("root/"));
    t
  };
  let before = tree(&sc);
  let out = if c.out { sc.0.join("outer/root").to_string_lossy().into_owned() } else { "outer/root".into() };
  let p = Program::start(&sc, &out, &["--keep-original", if c.keep { "true" } else { "false" }])?;
  let mut ctl = Ctl::new(p.at)?;
  ctl.login("anonymous", "x")?;
  for name in [format!("FOO.{ext}"), format!("/FOO.{ext}"), "BAR.NEF".into()] {
    store(&mut ctl, format!("STOR {name}"), Mode::Pasv, &c.good.file(), 5000).map_err(|e| format!("STOR {name}: {e}"))?;
    if let Some(d) = tree_diff(&before, &tree(&sc)) {
      return Err(format!("conversion of {name}: outside of the root {d}"));
    }
  }
  ensure!(sc.0.join("outer/root/BAR.dng").is_file(), "a harmless upload is not converted");
  Ok(nontrivial("conversion beside a link"))
}
fn conv_case() -> impl Strategy<Value = Conv> {
  (any::<bool>(), any::<bool>(), good(), 0u8..6, 0u8..4, prop::bool::weighted(0.3)).prop_map(|(out, keep, good, to, ext, raw)| Conv { out, keep, good, to, ext, raw })
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(String::as_str) == Some("--ftp-serve") {
    serve_main(&args[2..]);
  }
  main_with("C19", "a case is non-trivial when a command with an argument that leads out of the root (contained) or a file command before the login (login) was sent", |r| {
    r.assume("the servers run as an unprivileged user which owns nothing but its scratch tree; absolute paths name only that tree");
    r.assume("links do not change while a command runs");
    r.assume("the size and kind LIST shows for a link may be those of its target");
    let n = r.scale(12_000, 200_000);
    r.check("contained", n, case, contained);
    let n = r.scale(6_000, 60_000);
    r.check("login", n, login_case, login);
    let n = r.scale(300, 5_000);
    r.check("conversion", n, conv_case, conversion);
    end_all();
    cleanup();
  })
}
