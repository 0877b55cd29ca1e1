//! Independent, strict TIFF parser and flexible TIFF builder.
use crate::fill::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A tag value: type, count and the element bytes in little endian order.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Val {
  pub typ: u16,
  pub count: u32,
  pub data: Vec<u8>,
}

pub fn elem_size(typ: u16) -> usize {
  match typ {
    3 | 8 => 2,
    4 | 9 | 11 | 13 => 4,
    5 | 10 | 12 => 8,
    _ => 1,
  }
}
/// Size of the unit that is byte swapped.
fn word_size(typ: u16) -> usize {
  match typ {
    3 | 8 => 2,
    4 | 9 | 11 | 13 | 5 | 10 => 4,
    12 => 8,
    _ => 1,
  }
}
pub fn swapped(data: &[u8], typ: u16, big: bool) -> Vec<u8> {
  let mut v = data.to_vec();
  let w = word_size(typ);
  if big && w > 1 {
    for c in v.chunks_exact_mut(w) {
      c.reverse();
    }
  }
  v
}

impl Val {
  pub fn raw(typ: u16, data: Vec<u8>) -> Val {
    Val { typ, count: (data.len() / elem_size(typ)) as u32, data }
  }
  pub fn byte(v: &[u8]) -> Val {
    Val::raw(1, v.to_vec())
  }
  pub fn ascii(s: &str) -> Val {
    let mut d = s.as_bytes().to_vec();
    d.push(0);
    Val::raw(2, d)
  }
  pub fn short(v: &[u16]) -> Val {
    Val::raw(3, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  pub fn long(v: &[u32]) -> Val {
    Val::raw(4, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  pub fn rational(v: &[(u32, u32)]) -> Val {
    Val::raw(5, v.iter().flat_map(|x| [x.0.to_le_bytes(), x.1.to_le_bytes()].concat()).collect())
  }
  pub fn undefined(v: &[u8]) -> Val {
    Val::raw(7, v.to_vec())
  }
  pub fn srational(v: &[(i32, i32)]) -> Val {
    Val::raw(10, v.iter().flat_map(|x| [x.0.to_le_bytes(), x.1.to_le_bytes()].concat()).collect())
  }
  pub fn sshort(v: &[i16]) -> Val {
    Val::raw(8, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  pub fn slong(v: &[i32]) -> Val {
    Val::raw(9, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  pub fn float(v: &[f32]) -> Val {
    Val::raw(11, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  pub fn double(v: &[f64]) -> Val {
    Val::raw(12, v.iter().flat_map(|x| x.to_le_bytes()).collect())
  }
  /// Numeric value of element `i` (rationals as quotient).
  pub fn num(&self, i: usize) -> f64 {
    let u32at = |o: usize| u32::from_le_bytes(self.data[o..o + 4].try_into().unwrap());
    match self.typ {
      1 | 2 | 7 => self.data[i] as f64,
      6 => self.data[i] as i8 as f64,
      3 => u16::from_le_bytes([self.data[2 * i], self.data[2 * i + 1]]) as f64,
      8 => i16::from_le_bytes([self.data[2 * i], self.data[2 * i + 1]]) as f64,
      4 | 13 => u32at(4 * i) as f64,
      9 => u32at(4 * i) as i32 as f64,
      11 => f32::from_bits(u32at(4 * i)) as f64,
      5 => u32at(8 * i) as f64 / u32at(8 * i + 4) as f64,
      10 => u32at(8 * i) as i32 as f64 / u32at(8 * i + 4) as i32 as f64,
      12 => f64::from_le_bytes(self.data[8 * i..8 * i + 8].try_into().unwrap()),
      _ => f64::NAN,
    }
  }
  pub fn nums(&self) -> Vec<f64> {
    (0..self.count as usize).map(|i| self.num(i)).collect()
  }
  pub fn uint(&self, i: usize) -> u32 {
    self.num(i) as u32
  }
  pub fn uints(&self) -> Vec<u32> {
    self.nums().into_iter().map(|v| v as u32).collect()
  }
  /// Text up to the first NUL.
  pub fn text(&self) -> String {
    let e = self.data.iter().position(|b| *b == 0).unwrap_or(self.data.len());
    String::from_utf8_lossy(&self.data[..e]).into_owned()
  }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Dir {
  pub entries: Vec<(u16, Val)>,
  /// sub directories: the pointer tag gets their offsets (type LONG)
  pub subs: Vec<(u16, Vec<Dir>)>,
  /// image data: (offset tag, byte count tag, chunks)
  pub blobs: Vec<(u16, u16, Vec<Vec<u8>>)>,
  /// write offsets (bit 0) and byte counts (bit 1) as SHORT where they fit
  #[serde(default)]
  pub short: u8,
}
impl Dir {
  pub fn new() -> Dir {
    Dir::default()
  }
  pub fn set(&mut self, tag: u16, v: Val) -> &mut Self {
    self.entries.retain(|(t, _)| *t != tag);
    self.entries.push((tag, v));
    self
  }
  pub fn get(&self, tag: u16) -> Option<&Val> {
    self.entries.iter().find(|(t, _)| *t == tag).map(|(_, v)| v)
  }
}

pub struct Layout {
  pub big: bool,
  pub magic: u16,
  /// 0: values, then directories; other: random order and gaps of junk
  pub shuffle: u64,
  pub gaps: bool,
}
impl Default for Layout {
  fn default() -> Self {
    Layout { big: false, magic: 42, shuffle: 0, gaps: false }
  }
}

pub struct Builder {
  pub out: Vec<u8>,
  lay: Layout,
  rng: Rng,
}
impl Builder {
  fn p16(&mut self, v: u16) {
    let b = if self.lay.big { v.to_be_bytes() } else { v.to_le_bytes() };
    self.out.extend(b);
  }
  fn p32(&mut self, v: u32) {
    let b = if self.lay.big { v.to_be_bytes() } else { v.to_le_bytes() };
    self.out.extend(b);
  }
  fn align(&mut self) {
    if self.lay.gaps {
      let n = self.rng.below(9) as usize;
      let b = self.rng.bytes(n);
      self.out.extend(b);
    }
    if self.out.len() % 2 == 1 {
      self.out.push(0);
    }
  }
  fn put_dir(&mut self, d: &Dir, next: u32) -> u32 {
    let mut es: BTreeMap<u16, Val> = d.entries.iter().cloned().collect();
    // the order of the parts in the file is free
    let mut order: Vec<usize> = (0..d.subs.len() + d.blobs.len()).collect();
    if self.lay.shuffle != 0 {
      for i in (1..order.len()).rev() {
        let j = self.rng.below(i as u64 + 1) as usize;
        order.swap(i, j);
      }
    }
    for k in order {
      if k < d.subs.len() {
        let (tag, list) = &d.subs[k];
        let offs: Vec<u32> = list.iter().map(|s| self.put_dir(s, 0)).collect();
        es.insert(*tag, Val::long(&offs));
      } else {
        let (ot, ct, chunks) = &d.blobs[k - d.subs.len()];
        let mut idx: Vec<usize> = (0..chunks.len()).collect();
        if self.lay.shuffle % 3 == 1 {
          for i in (1..idx.len()).rev() {
            let j = self.rng.below(i as u64 + 1) as usize;
            idx.swap(i, j);
          }
        }
        let mut offs = vec![0u32; chunks.len()];
        for i in idx {
          self.align();
          offs[i] = self.out.len() as u32;
          self.out.extend(&chunks[i]);
        }
        let num = |v: Vec<u32>, bit: u8| if d.short & bit != 0 && v.iter().all(|x| *x < 65536) { Val::short(&v.iter().map(|x| *x as u16).collect::<Vec<_>>()) } else { Val::long(&v) };
        es.insert(*ot, num(offs, 1));
        es.insert(*ct, num(chunks.iter().map(|c| c.len() as u32).collect(), 2));
      }
    }
    let before = self.lay.shuffle % 2 == 0;
    let mut fields: Vec<(u16, Val, [u8; 4])> = vec![];
    let big = self.lay.big;
    let mut late: Vec<usize> = vec![];
    for (tag, v) in es {
      let raw = swapped(&v.data, v.typ, big);
      let mut f = [0u8; 4];
      if raw.len() <= 4 {
        f[..raw.len()].copy_from_slice(&raw);
      } else if before {
        self.align();
        let o = self.out.len() as u32;
        self.out.extend(&raw);
        f = if big { o.to_be_bytes() } else { o.to_le_bytes() };
      } else {
        late.push(fields.len());
      }
      fields.push((tag, v, f));
    }
    self.align();
    let at = self.out.len();
    self.p16(fields.len() as u16);
    for (tag, v, f) in &fields {
      self.p16(*tag);
      self.p16(v.typ);
      self.p32(v.count);
      self.out.extend(f);
    }
    self.p32(next);
    for i in late {
      self.align();
      let o = self.out.len() as u32;
      let raw = swapped(&fields[i].1.data, fields[i].1.typ, big);
      self.out.extend(&raw);
      let f = if big { o.to_be_bytes() } else { o.to_le_bytes() };
      self.out[at + 2 + 12 * i + 8..at + 2 + 12 * i + 12].copy_from_slice(&f);
    }
    at as u32
  }
}

pub fn build(chain: &[Dir], lay: Layout) -> Vec<u8> {
  build_at(chain, lay, vec![])
}
/// `reserve` bytes follow the 8 byte header (vendor headers).
pub fn build_at(chain: &[Dir], lay: Layout, reserve: Vec<u8>) -> Vec<u8> {
  let seed = lay.shuffle;
  let mut b = Builder { out: vec![], lay, rng: Rng::new(seed) };
  let c = if b.lay.big { b'M' } else { b'I' };
  b.out.extend([c, c]);
  let m = b.lay.magic;
  b.p16(m);
  b.p32(0);
  b.out.extend(&reserve);
  let mut next = 0;
  for d in chain.iter().rev() {
    next = b.put_dir(d, next);
  }
  let f = if b.lay.big { next.to_be_bytes() } else { next.to_le_bytes() };
  b.out[4..8].copy_from_slice(&f);
  b.out
}

// ---- parser ------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct PDir {
  pub offset: u32,
  pub entries: BTreeMap<u16, Val>,
  pub subs: BTreeMap<u16, Vec<PDir>>,
}
impl PDir {
  pub fn get(&self, tag: u16) -> Option<&Val> {
    self.entries.get(&tag)
  }
  pub fn req(&self, tag: u16) -> Result<&Val, String> {
    self.entries.get(&tag).ok_or_else(|| format!("tag {tag} ({tag:#x}) missing"))
  }
  pub fn uint(&self, tag: u16, default: u32) -> u32 {
    self.get(tag).map_or(default, |v| v.uint(0))
  }
}
pub struct Parsed {
  pub big: bool,
  pub chain: Vec<PDir>,
  /// all byte ranges in use, for the overlap test
  pub regions: Vec<(usize, usize, String)>,
}

struct P<'a> {
  b: &'a [u8],
  big: bool,
  regions: Vec<(usize, usize, String)>,
  depth: usize,
  sub_tags: Vec<u16>,
}
impl<'a> P<'a> {
  fn u16(&self, o: usize) -> Result<u16, String> {
    let s = self.b.get(o..o + 2).ok_or_else(|| format!("offset {o} outside the file"))?;
    Ok(if self.big { u16::from_be_bytes(s.try_into().unwrap()) } else { u16::from_le_bytes(s.try_into().unwrap()) })
  }
  fn u32(&self, o: usize) -> Result<u32, String> {
    let s = self.b.get(o..o + 4).ok_or_else(|| format!("offset {o} outside the file"))?;
    Ok(if self.big { u32::from_be_bytes(s.try_into().unwrap()) } else { u32::from_le_bytes(s.try_into().unwrap()) })
  }
  fn dir(&mut self, off: u32) -> Result<(PDir, u32), String> {
    self.depth += 1;
    if self.depth > 200 {
      return Err("more than 200 directories".into());
    }
    let o = off as usize;
    if o % 2 != 0 || o < 8 {
      return Err(format!("directory at odd or invalid offset {o}"));
    }
    let n = self.u16(o)? as usize;
    if n == 0 {
      return Err(format!("empty directory at {o}"));
    }
    self.regions.push((o, o + 2 + 12 * n + 4, format!("directory {o}")));
    let next = self.u32(o + 2 + 12 * n)?;
    let mut entries = BTreeMap::new();
    let mut last: i64 = -1;
    for i in 0..n {
      let e = o + 2 + 12 * i;
      let (tag, typ, count) = (self.u16(e)?, self.u16(e + 2)?, self.u32(e + 4)?);
      if tag as i64 <= last {
        return Err(format!("tags not in ascending order in directory {o}: {tag} after {last}"));
      }
      last = tag as i64;
      if !(1..=13).contains(&typ) {
        return Err(format!("tag {tag}: type {typ}"));
      }
      if count == 0 {
        return Err(format!("tag {tag}: no values"));
      }
      let size = count as usize * elem_size(typ);
      let at = if size <= 4 {
        e + 8
      } else {
        let p = self.u32(e + 8)? as usize;
        if p % 2 != 0 {
          return Err(format!("tag {tag}: value at odd offset {p}"));
        }
        self.regions.push((p, p + size, format!("value of tag {tag}")));
        p
      };
      let data = self.b.get(at..at + size).ok_or_else(|| format!("tag {tag}: value at {at}+{size} outside the file of {} bytes", self.b.len()))?;
      if typ == 2 && data.last() != Some(&0) {
        return Err(format!("tag {tag}: text without NUL"));
      }
      entries.insert(tag, Val { typ, count, data: swapped(data, typ, self.big) });
    }
    let mut subs = BTreeMap::new();
    for t in self.sub_tags.clone() {
      if let Some(v) = entries.get(&t) {
        if v.typ == 4 || v.typ == 13 {
          let offs = v.uints();
          let mut l = vec![];
          for s in offs {
            let (d, _) = self.dir(s).map_err(|e| format!("sub directory of tag {t}: {e}"))?;
            l.push(d);
          }
          subs.insert(t, l);
        }
      }
    }
    for (ot, ct) in [(273u16, 279u16), (324, 325), (513, 514)] {
      if let (Some(a), Some(c)) = (entries.get(&ot), entries.get(&ct)) {
        if a.count != c.count {
          return Err(format!("{} offsets but {} byte counts", a.count, c.count));
        }
        for (p, l) in a.uints().into_iter().zip(c.uints()) {
          let end = p as usize + l as usize;
          if end > self.b.len() {
            return Err(format!("image data {p}+{l} outside the file of {} bytes", self.b.len()));
          }
          self.regions.push((p as usize, end, format!("image data {p}")));
        }
      }
    }
    Ok((PDir { offset: off, entries, subs }, next))
  }
}

pub const SUBS: [u16; 3] = [330, 34665, 34853];

pub fn parse_with(b: &[u8], sub_tags: &[u16]) -> Result<Parsed, String> {
  let big = match b.get(0..2) {
    Some(b"II") => false,
    Some(b"MM") => true,
    _ => return Err("no TIFF byte order mark".into()),
  };
  let mut p = P { b, big, regions: vec![(0, 8, "header".into())], depth: 0, sub_tags: sub_tags.to_vec() };
  let magic = p.u16(2)?;
  if !matches!(magic, 42 | 85) {
    return Err(format!("magic {magic}"));
  }
  let mut next = p.u32(4)?;
  if next == 0 {
    return Err("no directory".into());
  }
  let mut chain = vec![];
  while next != 0 {
    let (d, n) = p.dir(next)?;
    chain.push(d);
    next = n;
  }
  let mut regions = p.regions;
  regions.sort();
  Ok(Parsed { big, chain, regions })
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
  parse_with(b, &SUBS)
}

impl Parsed {
  pub fn root(&self) -> &PDir {
    &self.chain[0]
  }
  pub fn check_overlap(&self) -> Result<(), String> {
    for w in self.regions.windows(2) {
      if w[0].1 > w[1].0 && w[0].1 > w[0].0 && w[1].1 > w[1].0 {
        return Err(format!("{} ({}..{}) overlaps {} ({}..{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
      }
    }
    Ok(())
  }
}
