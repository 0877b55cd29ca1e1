//! C11: damaged or hostile input never takes the process down.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vh::fill::{fill, Rng};
use vh::foreign;
use vh::mutate::{any_mut, apply, Mut};
use vh::rw2::{self, Rw2};
use vh::vendor::{self, Vc};
use vh::vfile;
use vh::worker::{self, *};
use vh::*;

const LIMIT: Duration = Duration::from_secs(30);

fn md5_short(b: &[u8]) -> String {
  format!("{:x}", md5::compute(b))[..8].to_string()
}

/// May unwind on damaged input: no barrier is promised here, only that the
/// process survives.
const DETAIL_OPS: [&str; 6] = ["metadata", "count", "xpacket", "thumbnail", "preview", "full"];

/// Sends the bytes to the worker and judges what came back.
fn judge(ops: u8, b: &[u8]) -> Outcome {
  let rep = match worker::call(ops, b, LIMIT) {
    Ok(r) => r,
    Err(first) => match worker::call(ops, b, LIMIT) {
      // a fresh process must fail the same way, alone
      Err(m) => {
        if let Ok(f) = std::env::var("VH_SURVEY") {
          use std::io::Write;
          let _ = writeln!(std::fs::OpenOptions::new().create(true).append(true).open(&f).unwrap(), "DEATH {m}");
          let _ = std::fs::write(format!("{f}.death.{}.{}", if m.starts_with("no answer") { "hang" } else { "abort" }, md5_short(b)), [&[ops], b].concat());
          return Ok(trivial("dead"));
        }
        return Err(format!("{m} ({} bytes)", b.len()));
      }
      Ok(_) if first.starts_with("no answer") => return Ok(trivial("slow once")),
      Ok(r) => {
        // depends on what came before: still a crash, but not from this input alone
        eprintln!("worker ended once: {first}");
        r
      }
    },
  };
  survey(&rep, b);
  if std::env::var("VH_SURVEY").is_ok() {
    return Ok(trivial("survey"));
  }
  for r in &rep {
    match r.end.as_str() {
      "wrong" => return Err(format!("{}: {}", r.op, r.text)),
      "panic" if !DETAIL_OPS.contains(&r.op.as_str()) => return Err(format!("{}: panic {}", r.op, r.text)),
      _ => {}
    }
  }
  let at = |op: &str| rep.iter().find(|r| r.op == op);
  let ok = |op: &str| at(op).is_some_and(|r| r.end == "ok");
  let last = ["convert", "decode_unwrapped", "original", "decode", "decode_dummy"].iter().find(|o| ok(o));
  Ok(match last {
    Some(o) => nontrivial(format!("passes {o}")),
    None if at("decode_unwrapped").is_some() || at("original").is_some() => nontrivial("codec refuses"),
    None if ok("identify") => nontrivial(format!("{} refused", at("identify").unwrap().text)),
    None if ok("tiff") || ok("bmff") || ok("ciff") || ok("jfif") => nontrivial("container parsed"),
    None => trivial("unknown"),
  })
}

/// Development aid: VH_SURVEY=FILE appends every panic place.
fn survey(rep: &[Report], b: &[u8]) {
  if let Ok(f) = std::env::var("VH_SURVEY") {
    use std::io::Write;
    let mut o = std::fs::OpenOptions::new().create(true).append(true).open(&f).unwrap();
    for r in rep {
      if r.end == "panic" || r.text.contains("[panic inside") || r.ms > 2000 || r.end == "wrong" {
        let _ = writeln!(o, "{} {} {} {}", r.op, r.end, if r.ms > 2000 { "SLOW" } else { "" }, r.text.replace('\n', " "));
      }
    }
    let _ = b;
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Damaged<S> {
  seed: S,
  muts: Vec<Mut>,
}
fn damaged<S: Clone + std::fmt::Debug + 'static>(s: impl Strategy<Value = S> + 'static) -> BoxedStrategy<Damaged<S>> {
  (s, prop::collection::vec(any_mut(), 0..6)).prop_map(|(seed, muts)| Damaged { seed, muts }).boxed()
}
impl<S> Damaged<S> {
  fn bytes(&self, build: impl Fn(&S) -> Vec<u8>) -> Vec<u8> {
    let mut b = build(&self.seed);
    for m in &self.muts {
      apply(&mut b, m);
    }
    b
  }
}

fn rw2_case() -> impl Strategy<Value = Rw2> {
  (3..=8u16, any::<bool>(), 1..=6usize, 1..=6usize, fill(), any::<u64>(), (1..=3u8, 1..=3u8)).prop_map(|(format, b, packets, h, fill, seed, strips)| Rw2 {
    format,
    bps: if b && format > 4 { 14 } else { 12 },
    packets,
    h,
    fill,
    seed,
    strips,
  })
}
fn rw2_bytes(c: &Rw2) -> Vec<u8> {
  if c.format == 8 {
    rw2::build_strips(c).file
  } else {
    rw2::build(c).0
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Noise {
  magic: u8,
  len: u16,
  seed: u64,
  sparse: bool,
  muts: Vec<Mut>,
}
const MAGICS: [&[u8]; 20] = [
  b"",
  b"II*\0\x08\0\0\0\x05\0",
  b"MM\0*\0\0\0\x08\0\x05",
  b"II+\0",
  b"\0MRM\0\0\0\x40\0PRD",
  b"FUJIFILMCCD-RAW ",
  b"ARRI\x12\x34\x56\x78",
  b"qktk\0\0\0\x08",
  b"qktn\0\0\0\x08",
  b"II\x1a\0\0\0HEAPCCDR",
  b"\xff\xd8\xff\xe1\0\x40Exif\0\0II*\0\x08\0\0\0",
  b"\xff\xd8\xff\xe0\0\x10JFIF\0",
  b"FOVb\0\0\x02\0",
  b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom\0\0\0\x40moov",
  b"IIU\0\x08\0\0\0\x05\0",
  b"IIRO\x08\0\0\0\x05\0",
  b"IIRS\x08\0\0\0\x05\0",
  b"II*\0\x10\0\0\0CR\x02\0",
  b"\0\0\0\x01",
  b"IIII\x08\0\0\0",
];
fn noise() -> impl Strategy<Value = Noise> {
  (0..MAGICS.len() as u8, prop_oneof![0..64u16, 0..4096u16], any::<u64>(), any::<bool>(), prop::collection::vec(any_mut(), 0..3)).prop_map(|(magic, len, seed, sparse, muts)| Noise { magic, len, seed, sparse, muts })
}
fn noise_bytes(c: &Noise) -> Vec<u8> {
  let mut r = Rng::new(c.seed);
  let mut b = MAGICS[c.magic as usize % MAGICS.len()].to_vec();
  if c.sparse {
    for _ in 0..c.len {
      b.push(if r.below(5) == 0 { [1, 2, 4, 8, 0xff, 0x10, 0x40, 0x80][r.below(8) as usize] } else { 0 });
    }
  } else {
    b.extend(r.bytes(c.len as usize));
  }
  for m in &c.muts {
    apply(&mut b, m);
  }
  b
}

/// A chain of blocks behind a header, as in MRW files: name, size word, content.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Blocks {
  header: u32,
  /// name, size (see `size`), bytes there
  blocks: Vec<(u8, u8, u8)>,
  body: VFileBody,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct VFileBody {
  cam: u16,
  w: u8,
  h: u8,
  seed: u64,
}
fn blocks() -> impl Strategy<Value = Blocks> {
  (
    prop_oneof![Just(0u32), any::<u32>(), 0..2000u32],
    prop::collection::vec((any::<u8>(), prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0..80u8), 1..6),
    (any::<u16>(), 1..9u8, 1..9u8, any::<u64>()).prop_map(|(cam, w, h, seed)| VFileBody { cam, w, h, seed }),
  )
    .prop_map(|(header, blocks, body)| Blocks { header, blocks, body })
}
fn blocks_bytes(c: &Blocks) -> Vec<u8> {
  let whole = vfile::build(&vfile::VFile { fmt: 1, cam: c.body.cam, variant: 0, w: c.body.w as usize, h: c.body.h as usize, fill: vh::fill::Fill::Zero, seed: c.body.seed, pic: None }).file;
  let mut r = Rng::new(c.body.seed);
  let mut out = b"\0MRM\0\0\0\0".to_vec();
  for (name, size, n) in &c.blocks {
    out.extend([&b"\0PRD"[..], b"\0TTW", b"\0WBG", b"\0RIF", b"\0PAD"][*name as usize % 5]);
    let k = *size as u32;
    let v = match k % 4 {
      0 => *n as u32,
      1 => 0u32.wrapping_sub(k / 4),
      2 => 0x8000_0000u32.wrapping_sub(k / 4),
      _ => (*n as u32).wrapping_sub(k / 4),
    };
    out.extend(v.to_be_bytes());
    out.extend(r.bytes(*n as usize));
  }
  out.extend(&whole[8..]);
  let size = if c.header == 0 { BE32(&whole) + out.len() as u32 } else { c.header };
  out[4..8].copy_from_slice(&size.to_be_bytes());
  out
}
#[allow(non_snake_case)]
fn BE32(b: &[u8]) -> u32 {
  u32::from_be_bytes(b[4..8].try_into().unwrap())
}

fn main() {
  if std::env::args().nth(1).as_deref() == Some("--worker") {
    worker::worker_main();
  }
  if std::env::args().nth(1).as_deref() == Some("--run-file") {
    // first byte: operations, rest: input
    let b = std::fs::read(std::env::args().nth(2).unwrap()).unwrap();
    worker::run_file(b[0], &b[1..]);
  }
  vh::runner::set_case_limit_ms(200_000);
  main_with(
    "C11",
    "cases: generated valid files of every container the generators know with random damage (bytes, words, TIFF entry fields, directory links, truncation, block moves), headerless codec streams and noise behind each container's magic, given to a separate process with limited memory and time; non-trivial: at least one container parser accepts the input, or a headerless codec ran; distinct by full case description",
    |r| {
      r.assume("memory limit of the worker process is 3 GiB of address space; a case must be answered within 30 s, twice");
      let n = r.scale(10000, 400000);
      r.check("dng", n, || damaged(foreign::case()), |c| judge(PARSERS | DECODER | DECODE | DUMMY | DETAILS | CONVERT, &c.bytes(|s| foreign::build(s).0)));
      let n = r.scale(30000, 800000);
      r.check("codecs", n, || damaged((prop::sample::select(vendor::CODECS.to_vec()), 1..=16usize, 1..=8usize, fill(), any::<u64>()).prop_map(|(codec, w, h, fill, seed)| Vc { codec, w, h, fill, seed })), |c| judge(UNWRAPPED, &c.bytes(|s| vendor::build(s).0)));
      let n = r.scale(6000, 300000);
      r.check("rw2", n, || damaged(rw2_case()), |c| judge(PARSERS | DECODER | DECODE | DUMMY | DETAILS, &c.bytes(rw2_bytes)));
      let n = r.scale(24000, 500000);
      r.check("vendor_files", n, || damaged(vfile::case()), |c| judge(PARSERS | DECODER | DECODE | DUMMY | DETAILS | if c.muts.len() % 3 == 0 { CONVERT } else { 0 }, &c.bytes(|s| vfile::build(s).file)));
      let n = r.scale(6000, 60000);
      r.check("blocks", n, blocks, |c| judge(PARSERS | DECODER | DECODE | DUMMY | DETAILS, &blocks_bytes(c)));
      let n = r.scale(30000, 800000);
      r.check("noise", n, noise, |c| judge(PARSERS | DECODER | DECODE | DUMMY | DETAILS, &noise_bytes(c)));
    },
  )
}
