//! Reference packers of plain sample layouts.
use crate::fill::Rng;

pub fn pack_msb(samples: &[u16], bits: u32) -> Vec<u8> {
  let mut out = vec![];
  let (mut acc, mut n) = (0u32, 0u32);
  for s in samples {
    for b in (0..bits).rev() {
      acc = acc << 1 | ((*s as u32 >> b) & 1);
      n += 1;
      if n == 8 {
        out.push(acc as u8);
        acc = 0;
        n = 0;
      }
    }
  }
  if n > 0 {
    out.push((acc << (8 - n)) as u8);
  }
  out
}
pub fn pack_lsb(samples: &[u16], bits: u32) -> Vec<u8> {
  let mut out = vec![];
  let (mut acc, mut n) = (0u32, 0u32);
  for s in samples {
    for b in 0..bits {
      acc |= ((*s as u32 >> b) & 1) << n;
      n += 1;
      if n == 8 {
        out.push(acc as u8);
        acc = 0;
        n = 0;
      }
    }
  }
  if n > 0 {
    out.push(acc as u8);
  }
  out
}
pub fn swap(mut v: Vec<u8>, word: usize) -> Vec<u8> {
  while v.len() % word != 0 {
    v.push(0);
  }
  for c in v.chunks_exact_mut(word) {
    c.reverse();
  }
  v
}
pub fn control(v: Vec<u8>, seed: u64) -> Vec<u8> {
  let mut r = Rng::new(seed);
  let mut out = vec![];
  for c in v.chunks(15) {
    out.extend(c);
    out.push(r.next() as u8);
  }
  out
}

