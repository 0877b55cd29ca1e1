//! Builder of DNG files in the storage layouts other programs use.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use crate::fill::{fill, Fill, Rng};
use crate::ljref::{self, EncOpts};
use crate::rawgen::{dim, frac_rect, FracRect, Kind, ILLUMINANTS};
use crate::tiffmini::{self, Dir, Layout, Val};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Comp {
  None,
  /// components layout: 0 = one per sample, 1 = two of half width, 2 = two, two rows in one
  Ljpeg(u8),
  Deflate(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
  pub kind: Kind,
  pub w: usize,
  pub h: usize,
  /// integer bits, or float bits when `float`
  pub bits: u32,
  pub float: bool,
  pub comp: Comp,
  /// tile size in units of 16, or rows per strip
  pub tile: Option<(u8, u8)>,
  pub rows: usize,
  pub fill: Fill,
  pub big: bool,
  pub shuffle: u64,
  pub gaps: bool,
  pub predictor: u8,
  pub table_seed: u64,
  pub lin: Option<(u16, u64)>,
  pub interleave: bool,
  pub short_offsets: u8,
  pub sub: bool,
  pub active: Option<FracRect>,
  pub crop: Option<(FracRect, u8)>,
  pub black: Option<(u8, u8, u64)>,
  pub white: Option<(u8, u32)>,
  pub neutral: bool,
  pub mats: Vec<(u8, u64)>,
  pub orientation: Option<u16>,
  pub extra: bool,
}

pub fn case() -> impl Strategy<Value = Case> {
  (
    (
      prop_oneof![4 => (0..4u8).prop_map(Kind::Bayer), 2 => (0..36u8).prop_map(Kind::XTrans), 3 => Just(Kind::Linear3), 2 => Just(Kind::Mono), 1 => Just(Kind::Linear1)],
      prop_oneof![3 => 1usize..70, 1 => dim()],
      prop_oneof![3 => 1usize..70, 1 => dim()],
      8..=16u32,
      prop::bool::weighted(0.25),
      0..12u8,
      prop::option::weighted(0.55, (1..6u8, 1..6u8)),
      1usize..80,
      fill(),
    ),
    (any::<bool>(), any::<u64>(), any::<bool>(), 1..=7u8, any::<u64>(), prop::option::weighted(0.15, (any::<u16>(), any::<u64>())), prop::bool::weighted(0.12), 0..8u8, any::<bool>()),
    (
      prop::option::of(frac_rect()),
      prop::option::of((frac_rect(), 0..3u8)),
      prop::option::of((0..3u8, 0..3u8, any::<u64>())),
      prop::option::of((0..3u8, 1..=65535u32)),
      any::<bool>(),
      prop::collection::vec((0..20u8, any::<u64>()), 0..3),
      prop::option::of(1..=8u16),
      any::<bool>(),
    ),
  )
    .prop_map(|((kind, w, h, bits, float, comp, tile, rows, fill), (big, shuffle, gaps, predictor, table_seed, lin, interleave, short_offsets, sub), (active, crop, black, white, neutral, mats, orientation, extra))| {
      let mut c = Case { kind, w, h, bits, float, comp: Comp::None, tile, rows, fill, big, shuffle, gaps, predictor, table_seed, lin, interleave, short_offsets, sub, active, crop, black, white, neutral, mats, orientation, extra };
      c.comp = match comp {
        0..=4 => Comp::None,
        5..=8 => Comp::Ljpeg(comp % 3),
        _ => Comp::Ljpeg(2 * (comp % 2)),
      };
      if c.float {
        c.bits = [16, 24, 32][bits as usize % 3];
        c.comp = if comp % 2 == 0 { Comp::Deflate(comp % 3) } else { Comp::None };
        if let Comp::Deflate(_) = c.comp {
          c.tile = c.tile.or(Some((2, 2)));
        }
        c.lin = None;
        c.interleave = false;
      }
      if let Comp::Ljpeg(m) = c.comp {
        c.bits = c.bits.max(10);
        // two components per line need an even width, two rows in one an even height
        let spp = c.kind.cpp();
        if spp == 3 || (c.tile.is_none() && (m > 0 && c.w % 2 == 1)) {
          c.comp = Comp::Ljpeg(0);
        }
        if c.tile.is_none() && m == 2 {
          c.rows += c.rows % 2;
          c.h += c.h % 2;
        }
      }
      if c.interleave {
        if c.kind.cpp() == 1 {
          c.kind = Kind::Bayer(0);
        }
        if c.comp == Comp::Ljpeg(2) {
          c.comp = Comp::Ljpeg(0);
        }
      }
      if c.lin.is_some() {
        // the dithering of the lookup is seeded from the first two samples
        c.w = c.w.max(2);
      }
      if c.comp == Comp::None && !c.float && c.tile.is_none() {
        // rows that fill whole bytes (and whole pixel groups)
        let g = match c.bits {
          8 | 16 => 1,
          10 | 14 => 4,
          12 => 2,
          _ => 8,
        };
        c.w = c.w.div_ceil(g) * g;
      }
      c
    })
}

impl Case {
  pub fn spp(&self) -> usize {
    self.kind.cpp()
  }
  pub fn max(&self) -> u16 {
    ((1u32 << self.bits) - 1) as u16
  }
  pub fn ints(&self) -> Vec<u16> {
    self.fill.u16s(self.w * self.h * self.spp(), self.max())
  }
  /// stored bit patterns of float samples
  pub fn fbits(&self) -> Vec<u32> {
    let n = self.w * self.h * self.spp();
    let m = if self.bits == 32 { u32::MAX } else { (1 << self.bits) - 1 };
    match &self.fill {
      Fill::Random(s) => {
        let mut r = Rng::new(*s);
        (0..n).map(|_| r.next() as u32 & m).collect()
      }
      f => f.u16s(n, 65535).into_iter().enumerate().map(|(i, v)| if self.bits == 16 { v as u32 } else { ((v as u32) << (self.bits - 16)) | (i as u32 & 0xff) }).collect(),
    }
  }
  pub fn table(&self) -> Option<Vec<u16>> {
    let (len, seed) = self.lin?;
    let mut r = Rng::new(seed);
    let full = 1usize << self.bits;
    let n = match r.below(3) {
      0 => full,
      1 => 2 + len as usize % full.min(300),
      _ => 2 + len as usize % (full - 1),
    };
    let mode = r.below(3);
    let mut v: Vec<u16> = match mode {
      0 => (0..n).map(|i| (i * 65535 / (n - 1)) as u16).collect(),
      1 => (0..n).map(|i| ((i * i) as f64 / ((n - 1) * (n - 1)) as f64 * 65535.0) as u16).collect(),
      _ => (0..n).map(|_| r.next() as u16).collect(),
    };
    v.sort();
    Some(v)
  }
}

/// Value of a narrow IEEE float with the given exponent and fraction widths.
pub fn widen(v: u32, ebits: u32, fbits: u32) -> f64 {
  let s = if v >> (ebits + fbits) & 1 == 1 { -1.0 } else { 1.0 };
  let e = (v >> fbits) & ((1 << ebits) - 1);
  let f = (v & ((1u32 << fbits) - 1)) as f64 / 2f64.powi(fbits as i32);
  let bias = (1i32 << (ebits - 1)) - 1;
  if e == (1 << ebits) - 1 {
    if f == 0.0 {
      s * f64::INFINITY
    } else {
      f64::NAN
    }
  } else if e == 0 {
    s * f * 2f64.powi(1 - bias)
  } else {
    s * (1.0 + f) * 2f64.powi(e as i32 - bias)
  }
}
pub fn fval(v: u32, bits: u32) -> f64 {
  match bits {
    16 => widen(v, 5, 10),
    24 => widen(v, 7, 16),
    _ => widen(v, 8, 23),
  }
}

pub fn pack_row(row: &[u16], bits: u32, big: bool) -> Vec<u8> {
  if bits == 16 {
    return row.iter().flat_map(|v| if big { v.to_be_bytes() } else { v.to_le_bytes() }).collect();
  }
  let mut out = vec![];
  let (mut acc, mut n) = (0u32, 0);
  for v in row {
    acc = (acc << bits) | *v as u32;
    n += bits;
    while n >= 8 {
      out.push((acc >> (n - 8)) as u8);
      n -= 8;
    }
    acc &= (1 << n) - 1;
  }
  if n > 0 {
    out.push((acc << (8 - n)) as u8);
  }
  out
}

/// One strip or tile; `get(x, y)` with x in samples.
pub fn chunk_int(c: &Case, cw: usize, rows: usize, v: &[u16]) -> Vec<u8> {
  let lw = cw * c.spp();
  match c.comp {
    Comp::None => v.chunks(lw).flat_map(|r| pack_row(r, c.bits, c.big)).collect(),
    Comp::Ljpeg(m) => {
      let (jw, jh, n) = match (c.spp(), m) {
        (1, 1) => (cw / 2, rows, 2),
        (1, 2) => (cw, rows / 2, 2),
        (s, _) => (cw, rows, s),
      };
      let o = EncOpts { predictor: c.predictor, precision: c.bits, table_seed: c.table_seed, shared_table: c.shuffle % 2 == 0, id_base: (c.shuffle % 3) as u8, extra_segments: 0, dng_bug: false, pad_ones: c.gaps };
      ljref::encode(v, jw, jh, n, &o)
    }
    Comp::Deflate(_) => unreachable!(),
  }
}
pub fn chunk_float(c: &Case, cw: usize, v: &[u32]) -> Vec<u8> {
  let nb = c.bits as usize / 8;
  let lw = cw * c.spp();
  match c.comp {
    Comp::Deflate(p) => {
      let factor = c.spp() * [1, 2, 4][p as usize % 3];
      let mut raw = vec![];
      for row in v.chunks(lw) {
        let mut b: Vec<u8> = vec![];
        for k in 0..nb {
          b.extend(row.iter().map(|x| (x >> (8 * (nb - 1 - k))) as u8));
        }
        for i in (factor..b.len()).rev() {
          b[i] = b[i].wrapping_sub(b[i - factor]);
        }
        raw.extend(b);
      }
      let mut e = libflate::zlib::Encoder::new(vec![]).unwrap();
      e.write_all(&raw).unwrap();
      e.finish().into_result().unwrap()
    }
    _ => v
      .iter()
      .flat_map(|x| {
        let b = x.to_le_bytes();
        let mut s = b[..nb].to_vec();
        if c.big {
          s.reverse();
        }
        s
      })
      .collect(),
  }
}

pub fn cut<T: Copy + Default>(c: &Case, data: &[T], enc: impl Fn(usize, usize, &[T]) -> Vec<u8>) -> (Vec<Vec<u8>>, usize, usize) {
  let spp = c.spp();
  let lw = c.w * spp;
  let mut out = vec![];
  let mut pad = Rng::new(c.shuffle);
  match c.tile {
    Some((a, b)) => {
      let (tw, th) = (a as usize * 16, b as usize * 16);
      for ty in 0..c.h.div_ceil(th) {
        for tx in 0..c.w.div_ceil(tw) {
          let mut t = vec![T::default(); tw * th * spp];
          for y in 0..th {
            for x in 0..tw * spp {
              let (sx, sy) = (tx * tw * spp + x, ty * th + y);
              // padding repeats some stored sample: its value must not matter
              t[y * tw * spp + x] = if sx < lw && sy < c.h { data[sy * lw + sx] } else { data[pad.below(data.len() as u64) as usize] };
            }
          }
          out.push(enc(tw, th, &t));
        }
      }
      (out, tw, th)
    }
    None => {
      let rps = c.rows.min(c.h.max(1)).max(1);
      for s in data.chunks(rps * lw) {
        out.push(enc(c.w, s.len() / lw, s));
      }
      (out, c.w, rps)
    }
  }
}

pub fn build(c: &Case) -> (Vec<u8>, Expect) {
  let (root, e) = build_root(c);
  (file_of(c, root), e)
}
pub fn file_of(c: &Case, root: Dir) -> Vec<u8> {
  tiffmini::build(&[root], Layout { big: c.big, magic: 42, shuffle: c.shuffle, gaps: c.gaps })
}
/// The directory that holds the raw image, within the tree of `build_root`.
pub fn raw_dir_mut(root: &mut Dir) -> &mut Dir {
  if root.subs.iter().any(|(t, _)| *t == 330) {
    let list = &mut root.subs.iter_mut().find(|(t, _)| *t == 330).unwrap().1;
    list.iter_mut().find(|d| d.get(254).is_some_and(|v| v.uint(0) == 0)).unwrap()
  } else {
    root
  }
}
pub fn build_root(c: &Case) -> (Dir, Expect) {
  let spp = c.spp();
  let mut d = Dir::new();
  let (chunks, cw, ch) = if c.float {
    cut(c, &c.fbits(), |w, _, v| chunk_float(c, w, v))
  } else {
    let data = c.ints();
    let data = if c.interleave {
      // the four fields of the image, stored side by side
      let mut o = vec![0u16; data.len()];
      for y in 0..c.h {
        for x in 0..c.w {
          // the first fields are the larger ones
          let to = (y / 2 + (y % 2) * c.h.div_ceil(2)) * c.w + x / 2 + (x % 2) * c.w.div_ceil(2);
          let n = c.kind.cpp();
          o[to * n..to * n + n].copy_from_slice(&data[(y * c.w + x) * n..(y * c.w + x) * n + n]);
        }
      }
      o
    } else {
      data
    };
    cut(c, &data, |w, h, v| chunk_int(c, w, h, v))
  };
  d.set(254, Val::long(&[0]));
  d.short = c.short_offsets >> 1;
  let wide = c.short_offsets & 1 == 0;
  let num = |v: usize| if wide { Val::long(&[v as u32]) } else { Val::short(&[v as u16]) };
  d.set(256, num(c.w)).set(257, num(c.h));
  d.set(258, Val::short(&vec![c.bits as u16; spp]));
  d.set(277, Val::short(&[spp as u16]));
  d.set(284, Val::short(&[1]));
  if c.float {
    d.set(339, Val::short(&vec![3; spp]));
  } else if c.extra {
    d.set(339, Val::short(&vec![1; spp]));
  }
  d.set(
    259,
    Val::short(&[match c.comp {
      Comp::None => 1,
      Comp::Ljpeg(_) => 7,
      Comp::Deflate(_) => 8,
    }]),
  );
  if let Comp::Deflate(p) = c.comp {
    d.set(317, Val::short(&[[3, 34894, 34895][p as usize % 3]]));
  }
  if c.tile.is_some() {
    d.set(322, num(cw)).set(323, num(ch));
    d.blobs.push((324, 325, chunks));
  } else {
    if ch < c.h || c.extra {
      d.set(278, num(ch));
    }
    d.blobs.push((273, 279, chunks));
  }
  if let Some(t) = c.table() {
    d.set(50712, Val::short(&t));
  }
  if c.interleave {
    d.set(50975, Val::short(&[2])).set(52547, Val::short(&[2]));
  }
  d.set(
    262,
    Val::short(&[match c.kind {
      Kind::Mono => 1,
      Kind::Linear1 | Kind::Linear3 => 34892,
      _ => 32803,
    }]),
  );
  let mut e = Expect { active: None, crop: None, blacks: None, white: vec![if c.float { 1 } else { ((1u64 << c.bits) - 1) as u32 }; spp] };
  if let Some(f) = c.active {
    let r = f.within(0, 0, c.w, c.h);
    let v = [r.1, r.0, r.1 + r.3, r.0 + r.2];
    d.set(50829, if wide { Val::long(&v.map(|x| x as u32)) } else { Val::short(&v.map(|x| x as u16)) });
    e.active = Some(r);
  }
  let a = e.active.unwrap_or((0, 0, c.w, c.h));
  if let Some((f, t)) = c.crop {
    let k = f.within(a.0, a.1, a.2, a.3);
    let enc = |v: [usize; 2]| match t {
      0 => Val::short(&v.map(|x| x as u16)),
      1 => Val::long(&v.map(|x| x as u32)),
      _ => Val::rational(&v.map(|x| (x as u32, 1))),
    };
    d.set(50719, enc([k.0 - a.0, k.1 - a.1])).set(50720, enc([k.2, k.3]));
    e.crop = Some(k);
  }
  if let Some((shape, typ, seed)) = c.black {
    let (bw, bh) = match shape {
      0 => (1, 1),
      1 => (2, 2),
      _ => c.kind.pat_dim(),
    };
    let mut r = Rng::new(seed);
    let n = bw * bh * spp;
    let vals: Vec<(u32, u32)> = (0..n).map(|_| match typ {
      0 => (r.below(65536) as u32, 1),
      1 => (r.below(1 << 24) as u32, 1),
      _ => (r.below(100_000) as u32, 1 + r.below(300) as u32),
    }).collect();
    if bw * bh > 1 || c.extra {
      d.set(50713, Val::short(&[bh as u16, bw as u16]));
    }
    d.set(50714, match typ {
      0 => Val::short(&vals.iter().map(|v| v.0 as u16).collect::<Vec<_>>()),
      1 => Val::long(&vals.iter().map(|v| v.0).collect::<Vec<_>>()),
      _ => Val::rational(&vals),
    });
    e.blacks = Some((bw, bh, vals.iter().map(|v| v.0 as f64 / v.1 as f64).collect()));
  }
  if let Some((m, v)) = c.white {
    e.white = if m == 2 || spp == 1 { vec![v; spp] } else { (0..spp).map(|i| (v + 77 * i as u32) & 0xffff).collect() };
    let vs: Vec<u32> = if m == 2 { vec![v] } else { e.white.clone() };
    d.set(50717, if m == 1 { Val::long(&vs) } else { Val::short(&vs.iter().map(|x| *x as u16).collect::<Vec<_>>()) });
  }
  if c.kind.pattern().is_some() {
    let (pw, ph) = c.kind.pat_dim();
    let mut pat = vec![];
    for y in 0..ph {
      for x in 0..pw {
        pat.push(c.kind.color_at(a.0 + x, a.1 + y));
      }
    }
    d.set(33421, Val::short(&[ph as u16, pw as u16])).set(33422, Val::byte(&pat));
    d.set(50710, Val::byte(&[0, 1, 2]));
  }
  // root
  let mut root = if c.sub { Dir::new() } else { d.clone() };
  root.set(50706, Val::byte(&[1, 4, 0, 0])).set(50707, Val::byte(&[1, 1, 0, 0]));
  root.set(271, Val::ascii("Other Make")).set(272, Val::ascii("Other Model")).set(50708, Val::ascii("Other Make Model"));
  if let Some(o) = c.orientation {
    root.set(274, Val::short(&[o]));
  }
  if c.neutral {
    root.set(50728, Val::rational(&[(473, 1000), (1, 1), (625, 1000)]));
  }
  for (k, (i, s)) in c.mats.iter().enumerate().take(2) {
    let code = ILLUMINANTS[*i as usize % 20];
    root.set(50778 + k as u16, Val::short(&[code]));
    root.set(50721 + k as u16, Val::srational(&mat(*s).map(|v| (v, 10000))));
  }
  if c.sub {
    root.set(254, Val::long(&[1])).set(256, Val::long(&[8])).set(257, Val::long(&[4])).set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3])).set(278, Val::long(&[4]));
    root.blobs.push((273, 279, vec![vec![9u8; 96]]));
    let mut list = vec![d];
    if c.extra {
      // a reduced resolution copy before or after the main image
      let mut p = Dir::new();
      p.set(254, Val::long(&[1])).set(256, Val::long(&[8])).set(257, Val::long(&[4])).set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3])).set(278, Val::long(&[4]));
      p.blobs.push((273, 279, vec![vec![3u8; 96]]));
      list.insert((c.shuffle % 2) as usize, p);
      // transparency mask, depth map, enhanced image, semantic mask, alternative preview
      let mut s = Rng::new(c.shuffle ^ 0x5eed);
      for _ in 0..s.below(3) {
        let (kind, ph) = [(4u32, 4u16), (8, 51177), (16, 34892), (0x10004, 52527), (0x10001, 2), (5, 4)][s.below(6) as usize];
        let spp: u16 = if ph == 2 { 3 } else { 1 };
        let mut m = Dir::new();
        m.set(254, Val::long(&[kind])).set(256, Val::long(&[8])).set(257, Val::long(&[4])).set(258, Val::short(&vec![8; spp as usize])).set(259, Val::short(&[1])).set(262, Val::short(&[ph])).set(277, Val::short(&[spp])).set(278, Val::long(&[4]));
        m.blobs.push((273, 279, vec![vec![5u8; 32 * spp as usize]]));
        list.insert(s.below(list.len() as u64 + 1) as usize, m);
      }
    }
    root.subs.push((330, list));
  }
  (root, e)
}
pub fn mat(s: u64) -> [i32; 9] {
  let mut r = Rng::new(s);
  std::array::from_fn(|_| r.range(-20000, 20000) as i32)
}
pub struct Expect {
  pub active: Option<(usize, usize, usize, usize)>,
  pub crop: Option<(usize, usize, usize, usize)>,
  pub blacks: Option<(usize, usize, Vec<f64>)>,
  pub white: Vec<u32>,
}

