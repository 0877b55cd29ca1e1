//! Byte and structure level damage to files.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::fill::Rng;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mut {
  /// byte at a position (fraction of the file)
  Byte(u32, u8),
  /// same, but near the start
  Head(u16, u8),
  Bit(u32, u8),
  /// 16/32/64 bit interesting value, big endian or not
  Word(u32, u8, bool, u8),
  Truncate(u32),
  Extend(u16, u8),
  /// cut out
  Cut(u32, u16),
  /// copy a block over another place
  Copy(u32, u32, u16),
  Fill(u32, u16, u8),
  /// one field of the nth TIFF entry: 0 tag 1 type 2 count 3 value
  Entry(u16, u8, u8, u32),
  /// pointer to the next directory
  Next(u8, u8),
  /// two entries exchange their values
  Swap(u16, u16),
  /// entry removed (tag becomes private)
  Drop(u16),
  Noise(u64, u16),
}

const WORDS: [u64; 27] = [
  0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fff4, 0xffff_fff8, 0xffff_fffe, 0xffff_ffff, 0x7fff_ffff_ffff_ffff, u64::MAX,
];

fn at(frac: u32, n: usize) -> usize {
  if n == 0 {
    0
  } else {
    (frac as u64 * n as u64 >> 32) as usize
  }
}

pub fn any_mut() -> BoxedStrategy<Mut> {
  prop_oneof![
    2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mut::Byte(a, b)),
    2 => (0..600u16, any::<u8>()).prop_map(|(a, b)| Mut::Head(a, b)),
    1 => (any::<u32>(), 0..8u8).prop_map(|(a, b)| Mut::Bit(a, b)),
    2 => (any::<u32>(), 0..27u8, any::<bool>(), 1..4u8).prop_map(|(a, b, c, d)| Mut::Word(a, b, c, d)),
    1 => any::<u32>().prop_map(Mut::Truncate),
    1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Extend(a % 600, b)),
    1 => (any::<u32>(), any::<u16>()).prop_map(|(a, b)| Mut::Cut(a, b % 64)),
    1 => (any::<u32>(), any::<u32>(), any::<u16>()).prop_map(|(a, b, c)| Mut::Copy(a, b, c % 200)),
    1 => (any::<u32>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Fill(a, b % 300, c)),
    8 => (any::<u16>(), 0..4u8, 0..40u8, any::<u32>()).prop_map(|(a, b, c, d)| Mut::Entry(a, b, c, d)),
    1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::Next(a, b)),
    1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Swap(a, b)),
    2 => any::<u16>().prop_map(Mut::Drop),
    1 => (any::<u64>(), any::<u16>()).prop_map(|(a, b)| Mut::Noise(a, b % 400)),
  ]
  .boxed()
}

/// (offset of entry, is a directory start, big endian) of every entry that can
/// be reached, tolerant of damage.
fn walk(b: &[u8], start: usize, big: bool, dirs: &mut Vec<usize>, entries: &mut Vec<usize>) {
  let g16 = |o: usize| -> Option<u16> { b.get(o..o + 2).map(|s| if big { u16::from_be_bytes(s.try_into().unwrap()) } else { u16::from_le_bytes(s.try_into().unwrap()) }) };
  let g32 = |o: usize| -> Option<u32> { b.get(o..o + 4).map(|s| if big { u32::from_be_bytes(s.try_into().unwrap()) } else { u32::from_le_bytes(s.try_into().unwrap()) }) };
  let mut todo = vec![start];
  while let Some(o) = todo.pop() {
    if dirs.contains(&o) || dirs.len() > 64 {
      continue;
    }
    let Some(n) = g16(o) else { continue };
    if n > 512 {
      continue;
    }
    dirs.push(o);
    for i in 0..n as usize {
      let e = o + 2 + 12 * i;
      let (Some(tag), Some(count), Some(val)) = (g16(e), g32(e + 4), g32(e + 8)) else { break };
      entries.push(e);
      if matches!(tag, 0x8769 | 0x014a | 0x8825 | 0xa005 | 0x2010 | 0x2020 | 0x2040 | 0x2050 | 0x8290) {
        if count == 1 {
          todo.push(val as usize);
        } else {
          for k in 0..count.min(8) as usize {
            if let Some(v) = g32(val as usize + 4 * k) {
              todo.push(v as usize);
            }
          }
        }
      }
      if tag == 0x927c {
        // a maker note: its directory follows some header
        let plausible = |o: usize| g16(o).is_some_and(|n| n > 0 && n <= 64) && g16(o + 4).is_some_and(|t| t > 0 && t <= 13) && g32(o + 6).is_some_and(|c| c < 1 << 16);
        if let Some(o) = (0..24).map(|k| val as usize + k).find(|o| plausible(*o)) {
          todo.push(o);
        }
      }
    }
    if let Some(nx) = g32(o + 2 + 12 * n as usize) {
      if nx != 0 {
        todo.push(nx as usize);
      }
    }
  }
}

/// Directories and entries of a TIFF structured file, plus the endianness.
pub fn tiff_map(b: &[u8]) -> Option<(Vec<usize>, Vec<usize>, bool)> {
  let big = match b.get(..2)? {
    b"MM" => true,
    b"II" => false,
    _ => return None,
  };
  let s: [u8; 4] = b.get(4..8)?.try_into().ok()?;
  let start = if big { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) };
  let (mut d, mut e) = (vec![], vec![]);
  walk(b, start as usize, big, &mut d, &mut e);
  (!e.is_empty()).then_some((d, e, big))
}

fn put(b: &mut [u8], o: usize, n: usize, v: u64, big: bool) {
  for k in 0..n {
    if let Some(x) = b.get_mut(o + k) {
      *x = if big { (v >> (8 * (n - 1 - k))) as u8 } else { (v >> (8 * k)) as u8 };
    }
  }
}

pub fn apply(b: &mut Vec<u8>, m: &Mut) {
  let n = b.len();
  match *m {
    Mut::Byte(p, v) => {
      if n > 0 {
        b[at(p, n)] = v
      }
    }
    Mut::Head(p, v) => {
      if (p as usize) < n {
        b[p as usize] = v
      }
    }
    Mut::Bit(p, k) => {
      if n > 0 {
        b[at(p, n)] ^= 1 << k
      }
    }
    Mut::Word(p, w, big, size) => put(b, at(p, n), 1 << size, WORDS[w as usize % 24], big),
    Mut::Truncate(p) => b.truncate(at(p, n)),
    Mut::Extend(k, v) => b.extend(std::iter::repeat(v).take(k as usize)),
    Mut::Cut(p, k) => {
      let s = at(p, n);
      b.drain(s..(s + k as usize).min(n));
    }
    Mut::Copy(s, d, k) => {
      let (s, d) = (at(s, n), at(d, n));
      let k = (k as usize).min(n - s).min(n - d);
      b.copy_within(s..s + k, d);
    }
    Mut::Fill(p, k, v) => {
      let s = at(p, n);
      let e = (s + k as usize).min(n);
      b[s..e].fill(v);
    }
    Mut::Noise(seed, k) => {
      let mut r = Rng::new(seed);
      for _ in 0..k {
        if n > 0 {
          let p = r.below(n as u64) as usize;
          b[p] = r.next() as u8;
        }
      }
    }
    Mut::Entry(i, field, w, x) => {
      let Some((_, e, big)) = tiff_map(b) else { return };
      let o = e[i as usize % e.len()];
      let v = match w {
        0..24 => WORDS[w as usize],
        24..28 => x as u64,
        28..32 => x as u64 % (n as u64 + 16),
        32..36 => x as u64 % 40,
        _ => x as u64 % 5000,
      };
      match field {
        0 => {
          let t = if w < 24 { v } else { u16_at(b, e[v as usize % e.len()], big) as u64 };
          put(b, o, 2, t, big)
        }
        1 => put(b, o + 2, 2, v % 20, big),
        2 => put(b, o + 4, 4, v, big),
        _ => {
          // inline shorts sit at the start of the field
          let typ = u16_at(b, o + 2, big);
          let count = u32_at(b, o + 4, big);
          let size = match typ {
            1 | 2 | 6 | 7 => 1,
            3 | 8 => 2,
            _ => 4,
          };
          if size as u64 * count as u64 <= 4 {
            put(b, o + 8, size, v, big)
          } else if w % 3 == 0 {
            put(b, o + 8, 4, v, big)
          } else {
            // one element of the array pointed to
            let base = u32_at(b, o + 8, big) as usize;
            let k = (x as usize >> 8) % count.max(1).min(64) as usize;
            put(b, base.saturating_add(k * size), size, v, big)
          }
        }
      }
    }
    Mut::Next(d, t) => {
      let Some((ds, _, big)) = tiff_map(b) else { return };
      let o = ds[d as usize % ds.len()];
      let cnt = u16_at(b, o, big) as usize;
      let target = ds[t as usize % ds.len()];
      put(b, o + 2 + 12 * cnt, 4, target as u64, big);
    }
    Mut::Swap(i, j) => {
      let Some((_, e, _)) = tiff_map(b) else { return };
      let (x, y) = (e[i as usize % e.len()], e[j as usize % e.len()]);
      for k in 2..12 {
        if x + k < b.len() && y + k < b.len() {
          b.swap(x + k, y + k);
        }
      }
    }
    Mut::Drop(i) => {
      let Some((_, e, big)) = tiff_map(b) else { return };
      let o = e[i as usize % e.len()];
      put(b, o, 2, 0xfdfd, big);
    }
  }
  b.truncate(1 << 22);
}

fn u16_at(b: &[u8], o: usize, big: bool) -> u16 {
  b.get(o..o + 2).map_or(0, |s| if big { u16::from_be_bytes(s.try_into().unwrap()) } else { u16::from_le_bytes(s.try_into().unwrap()) })
}
fn u32_at(b: &[u8], o: usize, big: bool) -> u32 {
  b.get(o..o + 4).map_or(0, |s| if big { u32::from_be_bytes(s.try_into().unwrap()) } else { u32::from_le_bytes(s.try_into().unwrap()) })
}
