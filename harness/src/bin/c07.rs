//! C07: TIFF structures written are well-formed and read back unchanged.
use proptest::prelude::*;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{DirectoryWriter, GenericTiffReader, Rational, SRational, TiffAscii, TiffWriter, Value, IFD};
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use vh::fill::Rng;
use vh::tiffmini::{self, Dir, Layout, PDir, Val};
use vh::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Item {
  tag: u16,
  typ: u16,
  count: u16,
  seed: u64,
  mode: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tree {
  items: Vec<Item>,
  sub: Vec<Tree>,
  exif: Option<Box<Tree>>,
  gps: Option<Box<Tree>>,
  data: Vec<u16>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  trees: Vec<Tree>,
  big: bool,
  shuffle: u64,
  gaps: bool,
  base: u16,
}

const POINTERS: [u16; 9] = [330, 34665, 34853, 34675, 273, 279, 324, 325, 513];

fn item() -> impl Strategy<Value = Item> {
  (
    prop_oneof![2 => 254..=400u16, 1 => 33400..=52600u16, 1 => any::<u16>()].prop_filter("pointer tags are generated separately", |t| !POINTERS.contains(t)),
    1..=12u16,
    prop_oneof![3 => 1..=5u16, 2 => 1..=40u16, 1 => 1..=700u16],
    any::<u64>(),
    0..5u8,
  )
    .prop_map(|(tag, typ, count, seed, mode)| Item { tag, typ, count, seed, mode })
}
fn leaf() -> impl Strategy<Value = Tree> {
  (prop::collection::vec(item(), 1..14), prop::collection::vec(0..300u16, 0..3)).prop_map(|(items, data)| Tree { items, sub: vec![], exif: None, gps: None, data })
}
fn tree() -> impl Strategy<Value = Tree> {
  (leaf(), prop::collection::vec(leaf(), 0..4), prop::option::of(leaf()), prop::option::of(leaf())).prop_map(|(t, sub, exif, gps)| Tree { sub, exif: exif.map(Box::new), gps: gps.map(Box::new), ..t })
}

fn raw_bytes(it: &Item) -> Vec<u8> {
  let n = it.count as usize * tiffmini::elem_size(it.typ);
  let mut r = Rng::new(it.seed);
  match it.mode {
    0 => vec![0; n],
    1 => vec![0xff; n],
    2 => (0..n).map(|i| (i as u8).wrapping_mul(3).wrapping_add(0x81)).collect(),
    _ => r.bytes(n),
  }
}
/// The text of an ASCII item: printable, `count` bytes with its NUL.
fn text(it: &Item) -> String {
  let mut r = Rng::new(it.seed);
  let n = it.count as usize - 1;
  match it.mode {
    0 => "\u{e4}".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" },
    _ => (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect(),
  }
}
fn val(it: &Item) -> Val {
  if it.typ == 2 {
    return Val::ascii(&text(it));
  }
  Val::raw(it.typ, raw_bytes(it))
}
/// The same value in the code under test's own type.
fn value(it: &Item) -> Value {
  let b = raw_bytes(it);
  let u32s = || b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()));
  match it.typ {
    1 => Value::Byte(b),
    2 => Value::Ascii(TiffAscii::new(text(it))),
    3 => Value::Short(b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()),
    4 => Value::Long(u32s().collect()),
    5 => Value::Rational(u32s().collect::<Vec<_>>().chunks(2).map(|c| Rational::new(c[0], c[1])).collect()),
    6 => Value::SByte(b.iter().map(|x| *x as i8).collect()),
    7 => Value::Undefined(b),
    8 => Value::SShort(b.chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()),
    9 => Value::SLong(u32s().map(|x| x as i32).collect()),
    10 => Value::SRational(u32s().collect::<Vec<_>>().chunks(2).map(|c| SRational::new(c[0] as i32, c[1] as i32)).collect()),
    11 => Value::Float(u32s().map(f32::from_bits).collect()),
    _ => Value::Double(b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()),
  }
}
/// Back from the code's type; bit exact.
fn from_value(v: &Value) -> Val {
  match v {
    Value::Byte(x) => Val::byte(x),
    Value::Ascii(a) => {
      let raw = a.as_bytes();
      Val::raw(2, if raw.is_empty() { a.as_vec_with_nul() } else { raw.clone() })
    }
    Value::Short(x) => Val::short(x),
    Value::Long(x) => Val::long(x),
    Value::Rational(x) => Val::rational(&x.iter().map(|r| (r.n, r.d)).collect::<Vec<_>>()),
    Value::SByte(x) => Val::raw(6, x.iter().map(|b| *b as u8).collect()),
    Value::Undefined(x) => Val::undefined(x),
    Value::SShort(x) => Val::sshort(x),
    Value::SLong(x) => Val::slong(x),
    Value::SRational(x) => Val::srational(&x.iter().map(|r| (r.n, r.d)).collect::<Vec<_>>()),
    Value::Float(x) => Val::raw(11, x.iter().flat_map(|f| f.to_bits().to_le_bytes()).collect()),
    Value::Double(x) => Val::raw(12, x.iter().flat_map(|f| f.to_bits().to_le_bytes()).collect()),
    Value::Unknown(t, x) => Val { typ: *t, count: x.len() as u32, data: x.clone() },
  }
}

fn model(t: &Tree) -> Dir {
  let mut d = Dir::new();
  for it in &t.items {
    d.set(it.tag, val(it));
  }
  if !t.sub.is_empty() {
    d.subs.push((330, t.sub.iter().map(model).collect()));
  }
  if let Some(e) = &t.exif {
    d.subs.push((34665, vec![model(e)]));
  }
  if let Some(e) = &t.gps {
    d.subs.push((34853, vec![model(e)]));
  }
  if !t.data.is_empty() {
    d.blobs.push((273, 279, t.data.iter().map(|n| Rng::new(*n as u64).bytes(*n as usize)).collect()));
  }
  d
}

fn write_dir<W: std::io::Write + std::io::Seek>(w: &mut TiffWriter<W>, t: &Tree) -> Result<DirectoryWriter, String> {
  let e = |x: rawler::formats::tiff::TiffError| format!("writer: {x}");
  let mut d = w.new_directory();
  let mut sub = vec![];
  for s in &t.sub {
    let x = write_dir(w, s)?;
    sub.push(x.build(w).map_err(e)?);
  }
  if !sub.is_empty() {
    d.add_untyped_tag(330, &sub);
  }
  for (tag, s) in [(34665u16, &t.exif), (34853, &t.gps)] {
    if let Some(s) = s {
      let x = write_dir(w, s)?;
      let o = x.build(w).map_err(e)?;
      d.add_untyped_tag(tag, o);
    }
  }
  if !t.data.is_empty() {
    let mut offs = vec![];
    for (i, n) in t.data.iter().enumerate() {
      let data = Rng::new(*n as u64).bytes(*n as usize);
      let o = if n % 4 == 0 && i % 2 == 1 {
        // the typed data writers
        if n % 8 == 0 {
          w.write_data_f32_le(&data.chunks(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect::<Vec<_>>())
        } else {
          w.write_data_u16_le(&data.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>())
        }
      } else {
        w.write_data(&data)
      };
      offs.push(o.map_err(e)?);
    }
    d.add_untyped_tag(273, &offs);
    d.add_untyped_tag(279, &t.data.iter().map(|n| *n as u32).collect::<Vec<_>>());
  }
  for it in &t.items {
    d.add_untyped_tag(it.tag, value(it));
  }
  Ok(d)
}

fn cmp_indep(want: &Dir, got: &PDir, file: &[u8], path: &str) -> Result<(), String> {
  let mut n = want.entries.len();
  for (tag, v) in &want.entries {
    let g = got.get(*tag).ok_or_else(|| format!("{path}: tag {tag} missing"))?;
    if g != v {
      return Err(format!("{path}: tag {tag} (type {}, count {}) is stored as type {}, count {}, data {:02x?} instead of {:02x?}", v.typ, v.count, g.typ, g.count, &g.data[..g.data.len().min(16)], &v.data[..v.data.len().min(16)]));
    }
  }
  for (tag, l) in &want.subs {
    n += 1;
    let s = got.subs.get(tag).ok_or_else(|| format!("{path}: no sub directories under {tag}"))?;
    ensure_eq!(s.len(), l.len(), "{path}: sub directories under {tag}");
    for (i, (a, b)) in l.iter().zip(s).enumerate() {
      cmp_indep(a, b, file, &format!("{path}/{tag}[{i}]"))?;
    }
  }
  for (ot, ct, chunks) in &want.blobs {
    n += 2;
    let (o, c) = (got.req(*ot)?, got.req(*ct)?);
    ensure_eq!(o.count as usize, chunks.len(), "{path}: data chunks");
    for (i, ch) in chunks.iter().enumerate() {
      let (a, l) = (o.uint(i) as usize, c.uint(i) as usize);
      ensure!(file.get(a..a + l) == Some(&ch[..]), "{path}: data chunk {i} differs");
    }
  }
  ensure_eq!(got.entries.len(), n, "{path}: number of entries");
  Ok(())
}
fn cmp_project(want: &Dir, got: &IFD, file: &[u8], path: &str, top: bool) -> Result<(), String> {
  let mut n = want.entries.len();
  for (tag, v) in &want.entries {
    let e = got.get_entry(*tag).ok_or_else(|| format!("{path}: reader does not find tag {tag}"))?;
    ensure_eq!((e.value_type(), e.count(), e.tag), (v.typ, if v.typ == 2 { e.count() } else { v.count }, *tag), "{path}: tag {tag} type/count");
    let g = from_value(&e.value);
    ensure!(&g == v, "{path}: reader delivers tag {tag} (type {}) as {:02x?} instead of {:02x?}", v.typ, &g.data[..g.data.len().min(16)], &v.data[..v.data.len().min(16)]);
    if v.typ == 2 {
      ensure_eq!(e.value.as_string().cloned(), Some(v.text()), "{path}: text of tag {tag}");
    } else if v.typ != 7 {
      // numeric access, element by element
      for i in [0, v.count as usize / 2, v.count as usize - 1] {
        let x = v.num(i);
        if let Ok(Some(f)) = e.value.get_f32(i) {
          // the quotient of a rational is computed in f32
          let close = (f as f64 - x).abs() <= x.abs() * 1e-6 + 1e-30 || (x.is_nan() && f.is_nan()) || (x as f32 == f) || x.abs() > 3e38;
          ensure!(close, "{path}: tag {tag}[{i}] as float is {f} instead of {x}");
        } else {
          return Err(format!("{path}: tag {tag}[{i}] has no float value"));
        }
        if !matches!(v.typ, 5 | 10 | 11 | 12) {
          match e.value.get_u32(i) {
            Ok(Some(u)) => ensure!(u as f64 == x, "{path}: tag {tag}[{i}] as u32 is {u} instead of {x}"),
            Ok(None) => return Err(format!("{path}: tag {tag}[{i}] not found")),
            Err(_) => ensure!(x < 0.0, "{path}: tag {tag}[{i}] = {x} is refused as u32"),
          }
          match e.value.get_i16(i) {
            Ok(Some(u)) => ensure!(u as f64 == x, "{path}: tag {tag}[{i}] as i16 is {u} instead of {x}"),
            Ok(None) => return Err(format!("{path}: tag {tag}[{i}] not found")),
            Err(_) => ensure!(!(-32768.0..=32767.0).contains(&x), "{path}: tag {tag}[{i}] = {x} is refused as i16"),
          }
        }
      }
      ensure!(matches!(e.value.get_u32(v.count as usize), Ok(None)), "{path}: tag {tag} has a value beyond its count");
    }
  }
  if top {
    for (tag, l) in &want.subs {
      n += 1;
      let s = got.get_sub_ifd_all(*tag).ok_or_else(|| format!("{path}: reader has no sub directories under {tag}"))?;
      ensure_eq!(s.len(), l.len(), "{path}: sub directories under {tag}");
      for (i, (a, b)) in l.iter().zip(s).enumerate() {
        cmp_project(a, b, file, &format!("{path}/{tag}[{i}]"), false)?;
      }
    }
  }
  for (_, _, chunks) in &want.blobs {
    n += 2;
    let src = rawler::rawsource::RawSource::new_from_slice(file);
    // the caller shifts the file by `base` bytes
    if got.base == 0 {
      let (views, all) = got.strip_data(&src).map_err(|e| format!("{path}: strip data: {e}"))?;
      ensure!(views.len() == chunks.len() && views.iter().zip(chunks).all(|(a, b)| a == b), "{path}: strip data differs");
      if let Some(a) = all {
        ensure!(a == chunks.concat(), "{path}: contiguous strip data differs");
      }
    }
  }
  ensure_eq!(got.entries.len(), n, "{path}: number of entries the reader finds");
  Ok(())
}

fn label(c: &Case) -> Cls {
  let t = &c.trees[0];
  let l = format!("{} dirs, {}", c.trees.len(), if t.sub.is_empty() && t.exif.is_none() && t.gps.is_none() { "flat" } else { "nested" });
  if t.items.len() > 1 {
    nontrivial(l)
  } else {
    trivial(l)
  }
}

fn run_write(c: &Case) -> Outcome {
  let t = &c.trees[0];
  let mut buf = Cursor::new(vec![]);
  {
    let mut w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
    let d = write_dir(&mut w, t)?;
    w.build(d).map_err(|e| e.to_string())?;
  }
  let file = buf.into_inner();
  let p = tiffmini::parse(&file).map_err(|e| format!("not a valid TIFF file: {e}"))?;
  p.check_overlap()?;
  ensure_eq!(p.chain.len(), 1, "directories in the chain");
  let want = model(t);
  cmp_indep(&want, p.root(), &file, "root")?;
  let r = GenericTiffReader::new_with_buffer(&file, 0, 0, None).map_err(|e| format!("own reader: {e}"))?;
  ensure_eq!(r.chains().len(), 1, "directories");
  cmp_project(&want, r.root_ifd(), &file, "root", true)?;
  Ok(label(c))
}

fn run_read(c: &Case) -> Outcome {
  let dirs: Vec<Dir> = c.trees.iter().map(model).collect();
  let file = tiffmini::build(&dirs, Layout { big: c.big, magic: 42, shuffle: c.shuffle, gaps: c.gaps });
  let p = tiffmini::parse(&file).map_err(|e| format!("harness: {e}"))?;
  for (a, b) in dirs.iter().zip(&p.chain) {
    cmp_indep(a, b, &file, "harness").map_err(|e| format!("harness: {e}"))?;
  }
  let mut shifted = vec![0x55u8; c.base as usize];
  shifted.extend(&file);
  let r = GenericTiffReader::new_with_buffer(&shifted, c.base as u32, 0, None).map_err(|e| format!("valid file rejected: {e}"))?;
  ensure_eq!(r.chains().len(), dirs.len(), "directories in the chain");
  for (i, d) in dirs.iter().enumerate() {
    cmp_project(d, &r.chains()[i], &shifted, &format!("dir{i}"), true)?;
  }
  ensure_eq!(r.little_endian(), !c.big, "byte order");
  let root = IFD::new_root(&mut Cursor::new(&shifted), c.base as u32).map_err(|e| format!("IFD::new_root: {e}"))?;
  ensure_eq!(root.chain.len(), dirs.len() - 1, "chained directories of IFD::new_root");
  let mut flat = dirs[0].clone();
  let ptrs: Vec<u16> = flat.subs.iter().map(|s| s.0).collect();
  flat.subs.clear();
  let mut ifd = root.clone();
  for p in ptrs {
    ifd.entries.remove(&p);
  }
  cmp_project(&flat, &ifd, &shifted, "root ifd", true)?;
  Ok(label(c))
}

fn case(n: usize) -> impl Strategy<Value = Case> {
  (prop::collection::vec(tree(), 1..=n), any::<bool>(), any::<u64>(), any::<bool>(), prop_oneof![2 => Just(0u16), 1 => 0..2000u16]).prop_map(|(trees, big, shuffle, gaps, base)| Case { trees, big, shuffle, gaps, base })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lzw {
  w: usize,
  h: usize,
  cpp: usize,
  strip: usize,
  fill: vh::fill::Fill,
}
/// Reference TIFF LZW decoder.
fn unlzw(src: &[u8]) -> Result<Vec<u8>, String> {
  let mut out: Vec<u8> = vec![];
  let mut table: Vec<(usize, usize)> = vec![]; // (start, len) in out
  let mut width = 9;
  let (mut acc, mut n, mut pos) = (0u32, 0, 0);
  let mut prev: Option<(usize, usize)> = None;
  loop {
    while n < width {
      acc = acc << 8 | *src.get(pos).ok_or("no end code")? as u32;
      pos += 1;
      n += 8;
    }
    let code = (acc >> (n - width)) & ((1 << width) - 1);
    n -= width;
    acc &= (1 << n) - 1;
    match code {
      256 => {
        table.clear();
        width = 9;
        prev = None;
      }
      257 => return Ok(out),
      c => {
        let start = out.len();
        if c < 256 {
          out.push(c as u8);
        } else {
          let k = c as usize - 258;
          let (s, l) = if k < table.len() {
            table[k]
          } else if k == table.len() {
            let (s, l) = prev.ok_or("bad code")?;
            (s, l + 1)
          } else {
            return Err(format!("code {c} undefined"));
          };
          for i in 0..l {
            let b = out[s + i];
            out.push(b);
          }
        }
        let cur = (start, out.len() - start);
        if let Some((s, l)) = prev {
          table.push((s, l + 1));
        }
        prev = Some(cur);
        // width switches one code early
        let next = 258 + table.len();
        width = if next >= 2047 { 12 } else if next >= 1023 { 11 } else if next >= 511 { 10 } else { 9 };
      }
    }
  }
}
fn run_lzw(c: &Lzw) -> Outcome {
  let data = c.fill.u16s(c.w * c.h * c.cpp, 0xffff);
  let mut buf = Cursor::new(vec![]);
  let mut w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
  let (lines, strips) = w.write_strips_lzw(&data, c.cpp, rawler::imgop::Dim2::new(c.w, c.h), c.strip).map_err(|e| e.to_string())?;
  let file = buf.into_inner();
  let want_lines = if c.strip == 0 { if c.h > 256 { 256 } else { c.h } } else { c.strip };
  ensure_eq!(lines as usize, want_lines, "rows per strip");
  ensure_eq!(strips.len(), c.h.div_ceil(want_lines), "number of strips");
  let mut out: Vec<u8> = vec![];
  for (i, (o, l)) in strips.iter().enumerate() {
    let s = file.get(*o as usize..(*o + *l) as usize).ok_or("strip outside the file")?;
    let d = unlzw(s).map_err(|e| format!("strip {i}: {e}"))?;
    let rows = if i + 1 == strips.len() { c.h - i * want_lines } else { want_lines };
    ensure_eq!(d.len(), rows * c.w * c.cpp * 2, "bytes in strip {i}");
    out.extend(d);
  }
  let want: Vec<u8> = data.iter().flat_map(|v| v.to_le_bytes()).collect();
  ensure!(out == want, "LZW strips decode to other samples");
  Ok(nontrivial("lzw"))
}

fn main() {
  main_with(
    "C07",
    "cases: generated trees of directories with values of all 12 types (1-700 elements), written by the code under test and read by an independent strict parser and by the code's own reader; or built by the independent builder in either byte order, with shuffled placement, gaps, chains and a base offset, and read by the code's reader; non-trivial: at least two tags in the first directory; distinct by full case description",
    |r| {
      r.assume("tag values have at least one element (TIFF cannot express empty values)");
      let n = r.scale(12000, 200000);
      r.check("write", n, || case(1), run_write);
      let n = r.scale(12000, 200000);
      r.check("read", n, || case(3), run_read);
      let n = r.scale(400, 6000);
      r.check("lzw", n, || (1..=70usize, prop_oneof![1..=40usize, 250..=300usize], 1..=3usize, prop_oneof![Just(0usize), 1..=20usize], vh::fill::fill()).prop_map(|(w, h, cpp, strip, fill)| Lzw { w, h, cpp, strip, fill }), run_lzw);
    },
  )
}
