//! Compact, shrinkable descriptions of sample data.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 { 0 } else { self.next() % n }
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as u64) as i64
  }
  pub fn bool(&mut self) -> bool {
    self.next() & 1 == 1
  }
  pub fn f32(&mut self) -> f32 {
    (self.next() >> 40) as f32 / (1u32 << 24) as f32
  }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    (0..n).map(|_| (self.next() >> 13) as u8).collect()
  }
}

/// How an image is filled; `max` is supplied at materialisation.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Fill {
  Zero,
  Const(u16),
  Index,
  Random(u64),
  Extremes(u64),
  Walk(u64, u16),
  Spike(u64),
}

impl Fill {
  pub fn u16s(&self, n: usize, max: u16) -> Vec<u16> {
    let m = max as u64 + 1;
    match self {
      Fill::Zero => vec![0; n],
      Fill::Const(c) => vec![(*c as u64 % m) as u16; n],
      Fill::Index => (0..n).map(|i| ((i as u64 + 1) % m) as u16).collect(),
      Fill::Random(s) => {
        let mut r = Rng::new(*s);
        (0..n).map(|_| r.below(m) as u16).collect()
      }
      Fill::Extremes(s) => {
        let mut r = Rng::new(*s);
        (0..n)
          .map(|_| match r.below(6) {
            0 | 1 => 0,
            2 | 3 => max,
            4 => max / 2,
            _ => r.below(m) as u16,
          })
          .collect()
      }
      Fill::Walk(s, step) => {
        let mut r = Rng::new(*s);
        let st = (*step).max(1) as i64;
        let mut v = r.below(m) as i64;
        (0..n)
          .map(|_| {
            v = (v + r.range(-st, st)).clamp(0, max as i64);
            v as u16
          })
          .collect()
      }
      Fill::Spike(s) => {
        let mut r = Rng::new(*s);
        let base = r.below(m) as u16;
        let mut v = vec![base; n];
        for _ in 0..(n / 16).max(1) {
          let p = r.below(n as u64) as usize;
          if n > 0 {
            v[p] = r.below(m) as u16;
          }
        }
        v
      }
    }
  }
  pub fn bytes(&self, n: usize) -> Vec<u8> {
    self.u16s(n, 255).into_iter().map(|v| v as u8).collect()
  }
  pub fn is_flat(&self) -> bool {
    matches!(self, Fill::Zero | Fill::Const(_))
  }
}

pub fn fill() -> BoxedStrategy<Fill> {
  prop_oneof![
    1 => Just(Fill::Zero),
    1 => any::<u16>().prop_map(Fill::Const),
    1 => Just(Fill::Index),
    6 => any::<u64>().prop_map(Fill::Random),
    3 => any::<u64>().prop_map(Fill::Extremes),
    4 => (any::<u64>(), prop_oneof![Just(1u16), Just(3), Just(20), Just(300), Just(4000)]).prop_map(|(a, b)| Fill::Walk(a, b)),
    2 => any::<u64>().prop_map(Fill::Spike),
  ]
  .boxed()
}
