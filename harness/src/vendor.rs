//! Encoders for the camera vendors' compressed sample formats, written from the public
//! descriptions of the formats, used as oracle for the vendor decoders. Everything is wrapped
//! in the headerless form accepted by `decode_unwrapped`.
use crate::fill::{Fill, Rng};
use crate::ljref;
use serde::{Deserialize, Serialize};

/// Bits most significant first.
#[derive(Default, Clone)]
pub struct Bits {
  pub b: Vec<bool>,
}
impl Bits {
  pub fn put(&mut self, n: u32, v: u32) {
    for i in (0..n).rev() {
      self.b.push(v >> i & 1 == 1);
    }
  }
  pub fn code(&mut self, c: (u32, u32)) {
    self.put(c.0, c.1)
  }
  pub fn len(&self) -> usize {
    self.b.len()
  }
  pub fn is_empty(&self) -> bool {
    self.b.is_empty()
  }
  pub fn msb(&self) -> Vec<u8> {
    self.b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << (7 - i))).collect()
  }
  /// Little endian 32 bit words, most significant bit first.
  pub fn msb32(&self) -> Vec<u8> {
    let mut v = self.msb();
    while v.len() % 4 != 0 {
      v.push(0);
    }
    for c in v.chunks_exact_mut(4) {
      c.reverse();
    }
    v
  }
}
/// Fields packed from the least significant bit.
#[derive(Default)]
pub struct Lsb {
  pub b: Vec<bool>,
}
impl Lsb {
  pub fn put(&mut self, n: u32, v: u32) {
    for i in 0..n {
      self.b.push(v >> i & 1 == 1);
    }
  }
  pub fn bytes(&self) -> Vec<u8> {
    self.b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)).collect()
  }
}

fn bitlen(v: i32) -> u32 {
  32 - v.unsigned_abs().leading_zeros()
}
/// JPEG style magnitude bits of `d` in category `n`.
fn mag(d: i32, n: u32) -> u32 {
  (if d < 0 { d + (1 << n) - 1 } else { d }) as u32
}
/// Canonical Huffman codes: (length, code) per position of the value list.
pub fn canonical(counts: &[u8]) -> Vec<(u32, u32)> {
  let mut out = vec![];
  let mut code = 0u32;
  for (i, n) in counts.iter().enumerate() {
    for _ in 0..*n {
      out.push((i as u32 + 1, code));
      code += 1;
    }
    code <<= 1;
  }
  out
}

/// The range of values a dithered curve lookup may give for index `i`: a quarter of the
/// distance between the neighbouring curve points to both sides.
pub fn dither_range(curve: &[u16], i: usize) -> (u16, u16) {
  let c = curve[i];
  let lo = if i > 0 { curve[i - 1] } else { c };
  let hi = if i + 1 < curve.len() { curve[i + 1] } else { c };
  let delta = hi as u32 - lo as u32;
  let base = if c == 0 { 0 } else { (c as u32).saturating_sub((delta + 2) / 4) };
  (base as u16, (base + ((delta * 2047 + 1024) >> 12)).min(65535) as u16)
}

pub type Expect = Vec<(u16, u16)>;
fn exact(v: impl IntoIterator<Item = u16>) -> Expect {
  v.into_iter().map(|v| (v, v)).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Vc {
  pub codec: u16,
  pub w: usize,
  pub h: usize,
  pub fill: Fill,
  pub seed: u64,
}

/// Codecs and the widths/heights they are defined for.
pub const CODECS: [u16; 27] = [21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 48, 49, 50, 51, 52];

/// Rounds the dimensions to what the codec is defined for.
pub fn shape(codec: u16, w: usize, h: usize) -> (usize, usize) {
  let (w, h) = (w.clamp(1, 64), h.clamp(1, 64));
  let even = |x: usize| ((x + 1) / 2 * 2).min(64);
  match codec {
    21 => (w, even(h)),
    22 => (if w > 32 { 64 } else { 32 }, h),
    23 => (even(w).min(50), h.min(48)),
    24 | 26 | 36 | 37 | 38 | 45 | 46 | 52 => (even(w), h),
    25 => (even(w).max(16), even(h)),
    27 => (((w + 15) / 16 * 16).min(64), h),
    29 | 30 => (((w + 13) / 14 * 14).min(56), h),
    31 => (((w + 3) / 4 * 4).min(64), h),
    39..=44 => match w % 4 {
      0 => (64, h),
      1 => (32, even(h)),
      2 => (16, ((h + 3) / 4 * 4).min(64)),
      _ => (if w > 32 { 48 } else { 8 }, ((h + 7) / 8 * 8).min(64)),
    },
    48..=51 => (even(w), h),
    _ => (w, h),
  }
}

pub fn build(c: &Vc) -> (Vec<u8>, Expect) {
  let (w, h) = shape(c.codec, c.w, c.h);
  let mut r = Rng::new(c.seed);
  let (mut data, expect) = match c.codec {
    21 => arw1(w, h, &c.fill, &mut r),
    22 => arw2(w, h, &c.fill, &mut r),
    23 => srf(w, h, &c.fill, &mut r),
    24 => orf(w, h, &c.fill, &mut r),
    25 => srw1(w, h, &c.fill, &mut r),
    26 => srw2(w, h, &c.fill, &mut r),
    27 => srw3(w, h, &c.fill, &mut r),
    28 => dc120(w, h, &c.fill, &mut r),
    29 => {
      let (p, e) = pana4(w, h, &c.fill, &mut r);
      (pana_blocks(&p, false), e)
    }
    30 => {
      let (p, e) = pana4(w, h, &c.fill, &mut r);
      (pana_blocks(&p, true), e)
    }
    31 => kodak65000(w, h, &c.fill, &mut r),
    36 => pef(w, h, &c.fill, &mut r, None),
    37 => pef(w, h, &c.fill, &mut r, Some(false)),
    38 => pef(w, h, &c.fill, &mut r, Some(true)),
    39..=44 => {
      let (file, e) = crw(w, h, &c.fill, &mut r, c.codec >= 42, ((c.codec - 39) % 3) as usize);
      (file[6..].to_vec(), e)
    }
    45 => leaf(w, h, &c.fill, &mut r, false),
    46 => leaf(w, h, &c.fill, &mut r, true),
    48 => nef(w, h, &c.fill, &mut r, false, 12),
    49 => nef(w, h, &c.fill, &mut r, false, 14),
    50 => nef(w, h, &c.fill, &mut r, true, 12),
    51 => nef(w, h, &c.fill, &mut r, true, 14),
    52 => snef(w, h, &c.fill, &mut r),
    _ => unreachable!(),
  };
  let mut out = vec![];
  for v in [c.codec, w as u16, h as u16] {
    out.extend(v.to_le_bytes());
  }
  out.append(&mut data);
  out.extend([0u8; 16]);
  (out, expect)
}

// ---- Sony ---------------------------------------------------------------

fn arw1(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let px = f.u16s(w * h, if r.below(4) == 0 { 65535 } else { 4095 });
  let mut b = Bits::default();
  let mut sum = 0i32;
  for col in (0..w).rev() {
    for row in (0..h).step_by(2).chain((1..h).step_by(2)) {
      let d = px[row * w + col] as i32 - sum;
      sum += d;
      let n = bitlen(d);
      match n {
        0 => b.put(3, 0b011),
        1 => b.put(2, 0b11),
        2 => b.put(2, 0b10),
        3 => b.put(3, 0b010),
        n => {
          b.put(2 + n - 4, 0);
          if n < 17 {
            b.put(1, 1);
          }
        }
      }
      b.put(n, mag(d, n));
    }
  }
  let mut out = b.msb();
  out.extend([0; 8]);
  (out, exact(px))
}

fn arw2(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let mut cp: Vec<u16> = (0..4).map(|_| r.below(4096) as u16).collect();
  cp.sort();
  if r.below(8) == 0 {
    cp[1] = cp[0];
  }
  let mut curve = vec![0u16; 4096];
  let knots = [0, cp[0] as usize, cp[1] as usize, cp[2] as usize, cp[3] as usize, 4095];
  for s in 0..5 {
    for j in knots[s] + 1..=knots[s + 1] {
      curve[j] = curve[j - 1] + (1 << s);
    }
  }
  let mut out: Vec<u8> = cp.iter().flat_map(|c| (c | (r.below(16) as u16) << 12).to_le_bytes()).collect();
  let src = f.u16s(w * h, 2047);
  let mut e = vec![(0, 0); w * h];
  for row in 0..h {
    for block in 0..w / 32 {
      for parity in 0..2 {
        let at = |i: usize| row * w + block * 32 + parity + 2 * i;
        let want: Vec<u32> = (0..16).map(|i| src[at(i)] as u32).collect();
        let (mut lo, mut hi) = (0, 0);
        for i in 0..16 {
          if want[i] > want[hi] {
            hi = i;
          }
          if want[i] < want[lo] {
            lo = i;
          }
        }
        if hi == lo {
          lo = (hi + 1) % 16;
        }
        let (max, min) = (want[hi], want[lo]);
        let mut sh = 0;
        while sh < 4 && (0x80 << sh) <= max - min {
          sh += 1;
        }
        let mut l = Lsb::default();
        l.put(11, max);
        l.put(11, min);
        l.put(4, hi as u32);
        l.put(4, lo as u32);
        for i in 0..16 {
          let v = if i == hi {
            max
          } else if i == lo {
            min
          } else {
            let q = (want[i] - min) >> sh;
            l.put(7, q);
            (min + (q << sh)).min(0x7ff)
          };
          e[at(i)] = dither_range(&curve, (v as usize) << 1);
        }
        assert_eq!(l.b.len(), 128);
        out.extend(l.bytes());
      }
    }
  }
  (out, e)
}

/// Key stream of the Sony cipher, as 32 bit little endian words.
pub fn sony_pad(key: u32, n: usize) -> Vec<u32> {
  let mut k = key;
  let mut pad = vec![];
  for _ in 0..4 {
    k = k.wrapping_mul(48828125).wrapping_add(1);
    pad.push(k);
  }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for p in 4..127 {
    let v = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31;
    pad.push(v);
  }
  let mut pad: Vec<u32> = pad.into_iter().map(|v| v.swap_bytes()).collect();
  pad.push(0);
  let mut out = vec![];
  for i in 0..n {
    let p = 127 + i;
    pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127];
    out.push(pad[p & 127]);
  }
  out
}
fn srf(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let px = f.u16s(w * h, 65535);
  let key = r.next() as u32;
  let mut plain: Vec<u8> = px.iter().flat_map(|v| v.to_be_bytes()).collect();
  let n = plain.len();
  let pad = sony_pad(key, n / 4);
  for (c, k) in plain.chunks_exact_mut(4).zip(pad) {
    for (b, x) in c.iter_mut().zip(k.to_le_bytes()) {
      *b ^= x;
    }
  }
  let mut out = key.to_le_bytes().to_vec();
  out.extend((n as u16).to_le_bytes());
  out.extend(r.bytes(4));
  out.extend(plain);
  (out, exact(px))
}

// ---- Olympus ------------------------------------------------------------

fn orf(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let px = f.u16s(w * h, 4095);
  let at = |row: usize, col: usize| px[row * w + col] as i32;
  let mut b = Bits::default();
  for row in 0..h {
    let mut acarry = [[0i32; 3]; 2];
    for col in 0..w {
      let a = &mut acarry[col & 1];
      let i = if a[2] < 3 { 2 } else { 0 };
      let mut nbits = 2 + i;
      while ((a[0] as u16) as u32 >> (nbits + i)) != 0 {
        nbits += 1;
      }
      let pred = match (row < 2, col < 2) {
        (true, true) => 0,
        (true, false) => at(row, col - 2),
        (false, true) => at(row - 2, col),
        _ => {
          let (wp, n, nw) = (at(row, col - 2), at(row - 2, col), at(row - 2, col - 2));
          if (wp < nw && nw < n) || (n < nw && nw < wp) {
            if (wp - nw).abs() > 32 || (n - nw).abs() > 32 { wp + n - nw } else { (wp + n) >> 1 }
          } else if (wp - nw).abs() > (n - nw).abs() {
            wp
          } else {
            n
          }
        }
      };
      let d = at(row, col) - pred;
      let (low, diff) = ((d & 3) as u32, d >> 2);
      let x = diff - a[1];
      let sign = (x < 0) as u32;
      let m = if x < 0 { !x } else { x };
      b.put(1, sign);
      b.put(2, low);
      let high = m >> nbits;
      if high < 12 {
        b.put(high as u32 + 1, 1);
      } else {
        assert!(high < 1 << (15 - nbits));
        b.put(12, 0);
        b.put(16 - nbits as u32, (high as u32) << 1 | r.below(2) as u32);
      }
      b.put(nbits as u32, (m & ((1 << nbits) - 1)) as u32);
      a[0] = m;
      a[1] = (diff * 3 + a[1]) >> 5;
      a[2] = if m > 16 { 0 } else { a[2] + 1 };
    }
  }
  // the stream begins 7 bytes into the buffer, which has a 6 byte header
  let mut out = vec![r.next() as u8];
  out.extend(b.msb());
  out.extend([0; 8]);
  (out, exact(px))
}

// ---- Samsung ------------------------------------------------------------

fn srw1(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let want = f.u16s(w * h, if r.below(3) == 0 { 16383 } else { 4095 });
  let mut px = vec![0u16; w * h];
  let mut rows = vec![];
  for row in 0..h {
    let mut b = Bits::default();
    let mut len = [if row < 2 { 7i32 } else { 4 }; 4];
    for col in (0..w).step_by(16) {
      let dir = row >= 2 && r.bool();
      b.put(1, dir as u32);
      let pred = |px: &[u16], c: usize| -> i32 {
        if dir {
          px[(row - if c % 2 == 0 { 1 } else { 2 }) * w + (col + c).min(w - 1)] as i32
        } else if col == 0 {
          128
        } else {
          px[row * w + col - 2 + (c & 1)] as i32
        }
      };
      // the length that would fit each group
      let mut ops = [0u32; 4];
      let mut explicit = [0i32; 4];
      for g in 0..4 {
        let par = g >> 1;
        let need = (0..4)
          .map(|k| (g & 1) * 8 + 2 * k + par)
          .filter(|c| col + c < w && !(dir && par == 0 && false))
          .map(|c| {
            let d = want[row * w + col + c] as i32 - if dir { px[(row - if c % 2 == 0 { 1 } else { 2 }) * w + col + c] as i32 } else { pred(&px, c) };
            let mut n = 0;
            while n < 15 && !(d >= -(1 << n >> 1) && d < (1 << n >> 1).max(if n == 0 { 1 } else { 0 })) {
              n += 1;
            }
            n
          })
          .max()
          .unwrap_or(0);
        explicit[g] = match r.below(8) {
          0 => r.below(16) as i32,
          _ => need.min(15),
        };
        ops[g] = match explicit[g] - len[g] {
          0 if r.below(4) > 0 => 0,
          1 if r.below(4) > 0 => 1,
          -1 if r.below(4) > 0 => 2,
          _ => 3,
        };
        if r.below(6) == 0 {
          ops[g] = match r.below(3) {
            0 => 0,
            1 if len[g] < 15 => 1,
            2 if len[g] > 0 => 2,
            _ => 0,
          };
          explicit[g] = len[g] + [0, 1, -1][ops[g] as usize];
        }
      }
      for o in ops {
        b.put(2, o);
      }
      for g in 0..4 {
        if ops[g] == 3 {
          b.put(4, explicit[g] as u32);
        }
        len[g] = explicit[g];
      }
      for c in (0..16).step_by(2).chain((1..16).step_by(2)) {
        let l = len[(c & 1) << 1 | c >> 3] as u32;
        if col + c >= w {
          b.put(l, r.next() as u32);
          continue;
        }
        let p = pred(&px, c);
        let d = want[row * w + col + c] as i32 - p;
        let d = if l == 0 { 0 } else { d.clamp(-(1 << (l - 1)), (1 << (l - 1)) - 1) };
        b.put(l, (d & ((1 << l) - 1)) as u32);
        px[row * w + col + c] = (p + d) as u16;
      }
    }
    rows.push(b.msb32());
  }
  // rows may lie anywhere
  let mut order: Vec<usize> = (0..h).collect();
  if r.bool() {
    for i in (1..h).rev() {
      order.swap(i, r.below(i as u64 + 1) as usize);
    }
  }
  let mut offs = vec![0u32; h];
  let mut body = vec![];
  for k in order {
    let n = r.below(5) as usize;
    body.extend(r.bytes(n));
    offs[k] = body.len() as u32;
    body.extend(&rows[k]);
  }
  body.extend([0; 16]);
  let mut out: Vec<u8> = offs.iter().flat_map(|o| o.to_le_bytes()).collect();
  out.extend(body);
  for row in (0..h).step_by(2) {
    for col in (0..w).step_by(2) {
      px.swap(row * w + col + 1, (row + 1) * w + col);
    }
  }
  (out, exact(px))
}

fn srw2(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let px = f.u16s(w * h, if r.bool() { 4095 } else { 8191 });
  // code lengths and the magnitudes they announce, in code order
  let tab = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
  let mut code = [(0u32, 0u32); 14];
  let mut next = 0u32; // in units of 2^-10
  for (bits, len) in tab {
    code[len] = (bits, next >> (10 - bits));
    next += 1024 >> bits;
  }
  let mut b = Bits::default();
  for row in 0..h {
    for col in 0..w {
      let pred = match (col < 2, row < 2) {
        (true, true) => 0,
        (true, false) => px[(row - 2) * w + col],
        _ => px[row * w + col - 2],
      } as i32;
      let d = px[row * w + col] as i32 - pred;
      let n = bitlen(d);
      b.code(code[n as usize]);
      b.put(n, mag(d, n));
    }
  }
  let mut out = b.msb();
  out.extend([0; 8]);
  (out, exact(px))
}

fn srw3(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let depth = *[8u32, 10, 12, 14][r.below(4) as usize..].first().unwrap();
  let top = (1i32 << depth) - 1;
  let want = f.u16s(w * h, top as u16);
  let opt = r.below(8) as u32;
  let init = r.below(top as u64 + 1) as u32 & 0x3fff;
  let mut b = Bits::default();
  b.put(16, r.next() as u32);
  b.put(4, r.next() as u32);
  b.put(4, depth - 1);
  b.put(4, r.next() as u32);
  b.put(4, r.next() as u32);
  b.put(16, w as u32);
  b.put(16, h as u32);
  b.put(16, r.next() as u32);
  b.put(4, 0);
  b.put(4, opt);
  b.put(8, 0);
  b.put(8, 0);
  b.put(8, 0);
  b.put(2, 0);
  b.put(14, init);
  let mut out = b.msb32();
  assert_eq!(out.len(), 16);
  let mut px = vec![0i32; w * h];
  for row in 0..h {
    let mut b = Bits::default();
    let mut scale = 0i32;
    let mut motion = 7usize;
    let mut modes = [[if row < 2 { 7i32 } else { 4 }; 2]; 3];
    for col in (0..w).step_by(16) {
      if opt & 4 == 0 && col % 64 == 0 {
        match r.below(6) {
          0 => {
            let v = r.below(40) as i32;
            b.put(2, 3);
            b.put(12, v as u32);
            scale = v;
          }
          1 if scale >= 2 => {
            b.put(2, 1);
            scale -= 2;
          }
          2 => {
            b.put(2, 2);
            scale += 2;
          }
          _ => b.put(2, 0),
        }
      }
      // reference modes that stay within the row
      let allowed: Vec<usize> = if row < 2 {
        vec![7]
      } else {
        let first = col == 0;
        let last = col + 16 == w;
        (0..8)
          .filter(|m| match m {
            3 | 7 => true,
            0 | 1 | 2 => !first,
            _ => !last,
          })
          .collect()
      };
      if opt & 2 != 0 {
        let m = if row >= 2 && r.bool() { 3 } else { 7 };
        b.put(1, (m == 3) as u32);
        motion = m;
      } else if allowed.contains(&motion) && r.bool() {
        b.put(1, 1);
      } else {
        motion = allowed[r.below(allowed.len() as u64) as usize];
        b.put(1, 0);
        b.put(3, motion as u32);
      }
      let pred: Vec<i32> = (0..16)
        .map(|i| {
          let x = col + i;
          if motion == 7 {
            if col == 0 { init as i32 } else { px[row * w + col - 2 + i % 2] }
          } else {
            let o1 = [-4i64, -2, -2, 0, 0, 2, 4][motion];
            let o2 = [-4i64, -2, 0, 0, 2, 2, 4][motion];
            // green comes from the row above, shifted to its green, the others from two rows above
            let (base, x) = if (row + i) % 2 == 0 { ((row - 1) * w, x as i64 + if i % 2 == 0 { 1 } else { -1 }) } else { ((row - 2) * w, x as i64) };
            let at = |o: i64| px[base + (x + o) as usize];
            if o1 == o2 { at(o1) } else { (at(o1) + at(o2) + 1) >> 1 }
          }
        })
        .collect();
      let pos = |k: usize| ((k & 7) << 1) + if row % 2 != 0 { 1 - (k >> 3) } else { k >> 3 };
      let delta = |k: usize| -> i32 {
        let d = want[row * w + col + pos(k)] as i32 - pred[pos(k)] - scale;
        let s = scale * 2 + 1;
        (d as f64 / s as f64).round() as i32
      };
      let mut len = [0i32; 4];
      if opt & 1 == 0 {
        if r.below(6) == 0 {
          b.put(1, 1);
        } else {
          b.put(1, 0);
          len = [1; 4];
        }
      } else {
        len = [1; 4];
      }
      if len[0] == 1 {
        let mut flags = [0u32; 4];
        for g in 0..4 {
          let color = if row % 2 != 0 { g >> 1 } else { ((g >> 1) + 2) % 3 };
          let need = (0..4)
            .map(|k| {
              let d = delta(g * 4 + k);
              (0..).find(|n: &i32| *n > 0 && d >= -(1 << (n - 1)) && d < 1 << (n - 1) || *n == 0 && d == 0).unwrap()
            })
            .max()
            .unwrap()
            .min(depth as i32 + 1)
            .min(15);
          let l = if r.below(10) == 0 { r.below(depth as u64 + 1) as i32 } else { need };
          flags[g] = match l - modes[color][0] {
            0 if r.below(5) > 0 => 0,
            1 if r.below(5) > 0 => 1,
            -1 if r.below(5) > 0 => 2,
            _ => 3,
          };
          len[g] = l;
          modes[color] = [modes[color][1], l];
        }
        for f in flags {
          b.put(2, f);
        }
        for g in 0..4 {
          if flags[g] == 3 {
            b.put(4, len[g] as u32);
          }
        }
      }
      for k in 0..16 {
        let l = len[k >> 2] as u32;
        let d = if l == 0 { 0 } else { delta(k).clamp(-(1 << (l - 1)), (1 << (l - 1)) - 1) };
        b.put(l, (d & ((1 << l) - 1)) as u32);
        px[row * w + col + pos(k)] = (pred[pos(k)] + d * (scale * 2 + 1) + scale).clamp(0, top);
      }
    }
    let mut v = b.msb32();
    while v.len() % 16 != 0 {
      v.push(0);
    }
    // alignment is by consumed bits
    v.truncate((b.len() + 127) / 128 * 16);
    out.extend(v);
  }
  out.extend([0; 32]);
  (out, exact(px.into_iter().map(|v| v as u16)))
}

// ---- Kodak --------------------------------------------------------------

fn dc120(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  // real rows have 848 columns
  let bytes = f.u16s((h - 1) * w + 848, 255);
  let mul = [162, 192, 187, 92];
  let add = [0, 636, 424, 212];
  let mut px = vec![];
  for row in 0..h {
    let shift = row * mul[row & 3] + add[row & 3];
    for col in 0..w {
      px.push(bytes[row * w + (col + shift) % 848]);
    }
  }
  let _ = r;
  (bytes.into_iter().map(|v| v as u8).collect(), exact(px))
}

fn kodak65000(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let step = [1u64, 4, 60][r.below(3) as usize];
  let mut acc = 0u64;
  let table: Vec<u16> = (0..1024)
    .map(|_| {
      acc = (acc + r.below(step + 1)).min(65535);
      acc as u16
    })
    .collect();
  let px = f.u16s(w * h, 1023);
  let mut out: Vec<u8> = table.iter().flat_map(|v| v.to_le_bytes()).collect();
  for row in px.chunks(w) {
    for seg in row.chunks(256) {
      let mut pred = [0i32; 2];
      let mut lens = vec![];
      let mut stream: Vec<bool> = vec![];
      let mut have = if seg.len() & 7 == 4 { 16 } else { 0 };
      let mut total = have;
      for (i, v) in seg.iter().enumerate() {
        let d = *v as i32 - pred[i & 1];
        pred[i & 1] = *v as i32;
        let n = bitlen(d);
        lens.push(n as u8);
        let m = mag(d, n);
        for k in 0..n {
          stream.push(m >> k & 1 == 1);
        }
        if have < n {
          have += 32;
          total += 32;
        }
        have -= n;
      }
      for p in lens.chunks(2) {
        out.push(p[0] | p[1] << 4);
      }
      stream.resize(total as usize, r.bool());
      for word in stream.chunks(16) {
        let v = word.iter().enumerate().fold(0u16, |a, (i, b)| a | (*b as u16) << i);
        out.extend(v.to_be_bytes());
      }
    }
  }
  out.extend([0; 8]);
  (out, px.iter().map(|v| dither_range(&table, *v as usize)).collect())
}

// ---- Panasonic ----------------------------------------------------------

/// 14 pixel packets of 16 bytes.
pub fn pana4(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let want = f.u16s(w * h, 4095);
  let mut out = vec![];
  let mut e = vec![];
  let wild = r.below(3) == 0;
  for pk in want.chunks(14) {
    let mut b = Bits::default();
    let mut pred = [0i32; 2];
    let mut nonz = [0i32; 2];
    let mut sh = 0;
    for i in 0..14 {
      let p = i & 1;
      if i % 3 == 2 {
        let code = if wild { r.below(4) as u32 } else { [0, 1, 2, 3][((pk[i] as i32 - pred[p]).unsigned_abs() / 120).min(3) as usize] };
        b.put(2, code);
        sh = [0, 1, 2, 4][code as usize];
      }
      if nonz[p] != 0 {
        // j = 0 keeps the value
        let base = {
          let mut v = pred[p] - (0x80 << sh);
          if v < 0 || sh == 4 {
            v &= (1 << sh) - 1;
          }
          v
        };
        let j = if wild { r.below(256) as i32 } else { ((pk[i] as i32 - base) >> sh).clamp(0, 255) };
        let j = if base + (j << sh) > 4095 { 0 } else { j };
        b.put(8, j as u32);
        if j != 0 {
          pred[p] = base + (j << sh);
        }
      } else {
        let hi = if wild && r.below(4) == 0 { 0 } else { (pk[i] >> 4) as i32 };
        nonz[p] = hi;
        b.put(8, hi as u32);
        if hi != 0 || i > 11 {
          b.put(4, pk[i] as u32 & 15);
          pred[p] = hi << 4 | (pk[i] & 15) as i32;
        }
      }
      e.push(pred[p] as u16);
    }
    assert_eq!(b.len(), 128);
    let mut v = b.msb();
    v.reverse();
    out.extend(v);
  }
  (out, exact(e))
}
/// Distributes packets over 16 KiB blocks; with `split` each block is stored with its last
/// 0x1ff8 bytes first.
pub fn pana_blocks(packets: &[u8], split: bool) -> Vec<u8> {
  let mut out = vec![];
  for b in packets.chunks(0x4000) {
    let mut b = b.to_vec();
    b.resize(0x4000, 0);
    if split {
      b.rotate_left(0x2008);
    }
    out.extend(b);
  }
  out
}
/// The same with the split of the later generation.
pub fn pana_blocks5(packets: &[u8]) -> Vec<u8> {
  let mut out = vec![];
  for b in packets.chunks(0x4000) {
    let mut b = b.to_vec();
    b.resize(0x4000, 0);
    b.rotate_left(0x4000 - 0x1ff8);
    out.extend(b);
  }
  out
}
/// Packets of ten 12 bit or nine 14 bit samples.
pub fn pana_plain(px: &[u16], bps: u32) -> Vec<u8> {
  let n = if bps == 12 { 10 } else { 9 };
  let mut out = vec![];
  for p in px.chunks(n) {
    let mut l = Lsb::default();
    for v in p {
      l.put(bps, *v as u32);
    }
    let mut v = l.bytes();
    v.resize(16, 0);
    out.extend(v);
  }
  out
}
/// Packets of 14 (12 bit) or 11 (14 bit) samples; samples that cannot be represented are
/// replaced by a close one. Returns packets and samples.
pub fn pana6(want: &[u16], bps: u32, r: &mut Rng) -> (Vec<u8>, Vec<u16>) {
  let (n, first, small, pb0, pbc) = if bps == 12 { (14, 12, 8, 0x80i32, 0x800i32) } else { (11, 14, 10, 0x200, 0x2000) };
  let (mut out, mut e) = (vec![], vec![]);
  let wild = r.below(4) == 0;
  let top = (1i32 << bps) - 1;
  for pk in want.chunks(n) {
    // the packet holds fields from its most significant end
    let mut b = Bits::default();
    let mut odd = [0i32; 2];
    let mut nonz = [0i32; 2];
    let (mut base, mut mul) = (0, 1);
    for i in 0..n {
      let p = i & 1;
      if i % 3 == 2 {
        // scale for this and the two next samples
        let far = (i..(i + 3).min(n)).map(|k| (pk[k] as i32 + 15 - nonz[k & 1]).abs()).max().unwrap();
        let code = if wild { r.below(4) as u32 } else { (0..4u32).find(|c| far < pb0 << [0, 1, 2, 4][*c as usize]).unwrap_or(3) };
        b.put(2, code);
        let sh = [0, 1, 2, 4][code as usize];
        base = pb0 << sh;
        mul = 1 << sh;
      }
      let bits = if i < 2 { first } else { small };
      let lim = (1i32 << bits) - 1;
      let target = (pk[i] as i32 + 15).min(top);
      let value;
      if odd[p] != 0 {
        let add = if base < pbc && nonz[p] > base { nonz[p] - base } else { 0 };
        let mut q = if wild { r.below(lim as u64 + 1) as i32 } else { ((target - add) / mul).clamp(0, lim) };
        while q > 0 && q * mul + add > top {
          q /= 2;
        }
        b.put(bits, q as u32);
        value = q * mul + add;
        nonz[p] = value;
      } else {
        let q = if wild && r.below(4) == 0 { 0 } else { target.min(lim) };
        b.put(bits, q as u32);
        odd[p] = q;
        if q != 0 {
          nonz[p] = q;
          value = q;
        } else {
          value = nonz[p];
        }
      }
      e.push((value - 15).max(0) as u16);
    }
    let used = b.len() as u32;
    b.put(128 - used, r.next() as u32);
    let mut v = b.msb();
    v.reverse();
    out.extend(v);
  }
  (out, e)
}

// ---- Pentax -------------------------------------------------------------

fn pef(w: usize, h: usize, f: &Fill, r: &mut Rng, infile: Option<bool>) -> (Vec<u8>, Expect) {
  let mut out = vec![];
  let mut code = [(0u32, 0u32); 16];
  let top;
  match infile {
    None => {
      let vals = [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
      for (k, c) in canonical(&[0, 2, 3, 1, 1, 1, 1, 1, 1, 2]).into_iter().enumerate() {
        code[vals[k]] = c;
      }
      top = 4095;
    }
    Some(big) => {
      let depth = 2 + r.below(14) as usize;
      top = if depth == 2 { 1 } else { (1u32 << (depth - 1)) - 1 };
      // random complete or incomplete prefix code with lengths up to 12
      let mut leaves = vec![1u32, 1];
      let extra = r.below(2) as usize;
      while leaves.len() < depth + extra {
        let c: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < 12).collect();
        let i = if r.bool() { *c.iter().max_by_key(|i| leaves[**i]).unwrap() } else { c[r.below(c.len() as u64) as usize] };
        leaves[i] += 1;
        leaves.push(leaves[i]);
      }
      leaves.sort();
      leaves.truncate(depth);
      let mut counts = [0u8; 12];
      for l in &leaves {
        counts[*l as usize - 1] += 1;
      }
      let mut order: Vec<usize> = (0..depth).collect();
      for i in (1..depth).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
      }
      for (k, c) in canonical(&counts).into_iter().enumerate() {
        code[order[k]] = c;
      }
      let p16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
      out.extend(p16(((depth + 4) & 15) as u16 | (r.below(4096) as u16) << 4));
      out.extend(r.bytes(12));
      for s in 0..depth {
        out.extend(p16((code[s].1 << (12 - code[s].0)) as u16));
      }
      for s in 0..depth {
        out.push(code[s].0 as u8);
      }
      out.resize(64, 0);
    }
  }
  let px = f.u16s(w * h, top as u16);
  let mut b = Bits::default();
  for row in 0..h {
    for col in 0..w {
      let pred = match (col < 2, row < 2) {
        (true, true) => 0,
        (true, false) => px[(row - 2) * w + col],
        _ => px[row * w + col - 2],
      } as i32;
      let d = px[row * w + col] as i32 - pred;
      let n = bitlen(d);
      b.code(code[n as usize]);
      b.put(n, mag(d, n));
    }
  }
  out.extend(b.msb());
  out.extend([0; 8]);
  (out, exact(px))
}

// ---- Canon CRW ----------------------------------------------------------

include!("crw_trees.rs");

/// Whole file (the stream position is relative to the file).
fn crw(w: usize, h: usize, f: &Fill, r: &mut Rng, lowbits: bool, table: usize) -> (Vec<u8>, Expect) {
  let px = f.u16s(w * h, 1023);
  let mut first = [(0u32, 0u32); 256];
  let t = &CRW_FIRST[table];
  for (k, c) in canonical(&t[..16]).into_iter().enumerate() {
    first[t[16 + k] as usize] = c;
  }
  let mut second = [(0u32, 0u32); 256];
  let t = &CRW_SECOND[table];
  for (k, c) in canonical(&t[..16]).into_iter().enumerate() {
    if second[t[16 + k] as usize].0 == 0 {
      second[t[16 + k] as usize] = c;
    }
  }
  let mut b = Bits::default();
  let mut carry = 0i32;
  let mut base = [512i32; 2];
  for (blk, block) in px.chunks_exact(64).enumerate() {
    let mut diffs = [0i32; 64];
    for i in 0..64 {
      if (blk * 64 + i) % w == 0 {
        base = [512; 2];
      }
      diffs[i] = block[i] as i32 - base[i & 1];
      base[i & 1] = block[i] as i32;
    }
    let d0 = diffs[0];
    let d = d0 - carry;
    carry = d0;
    let n = bitlen(d);
    b.code(first[n as usize]);
    b.put(n, mag(d, n));
    let mut i = 1;
    while i < 64 {
      let run = diffs[i..].iter().take_while(|d| **d == 0).count();
      if i + run == 64 {
        // either the end code or runs of 16 zeros as far as they go
        let mut left = run;
        while left >= 16 && r.below(3) == 0 {
          b.code(second[0xf0]);
          left -= 16;
        }
        if left > 0 {
          b.code(second[0]);
        }
        break;
      }
      let mut k = run;
      while k >= 16 {
        b.code(second[0xf0]);
        k -= 16;
      }
      i += run;
      let n = bitlen(diffs[i]);
      assert!(n <= 10 && second[k << 4 | n as usize].0 > 0);
      b.code(second[k << 4 | n as usize]);
      b.put(n, mag(diffs[i], n));
      i += 1;
    }
  }
  let mut file = r.bytes(26);
  let mut e = px.clone();
  if lowbits {
    let low = r.bytes(w * h / 4);
    for (i, v) in e.iter_mut().enumerate() {
      *v = *v << 2 | (low[i / 4] >> (2 * (i % 4))) as u16 & 3;
    }
    file.extend(low);
  }
  let junk = r.bytes(540 - 26);
  file.extend(junk);
  for v in b.msb() {
    file.push(v);
    if v == 0xff {
      file.push(0);
    }
  }
  file.extend([0; 32]);
  (file, exact(e))
}

// ---- Leaf ---------------------------------------------------------------

fn leaf(w: usize, h: usize, f: &Fill, r: &mut Rng, interlaced: bool) -> (Vec<u8>, Expect) {
  let prec = 10 + r.below(7) as u32;
  let px = f.u16s(w * h, ((1u32 << prec) - 1) as u16);
  let o = ljref::EncOpts {
    predictor: 1,
    precision: prec,
    table_seed: r.below(5),
    shared_table: r.bool(),
    id_base: 0,
    extra_segments: r.below(8) as u8,
    dng_bug: true,
    pad_ones: r.bool(),
  };
  let out = ljref::encode_leaf(&px, w, h, &o);
  let mut e = px.clone();
  if interlaced {
    for k in 0..h {
      let row = if k % 2 == 1 { h - 1 - k / 2 } else { k / 2 };
      e[row * w..(row + 1) * w].copy_from_slice(&px[k * w..(k + 1) * w]);
    }
  }
  (out, exact(e))
}

// ---- Nikon --------------------------------------------------------------

/// Code length counts and (bits, shift) per symbol.
fn nikon_tree(sel: usize) -> (Vec<u8>, Vec<(u32, u32)>) {
  let plain = |v: &[u32]| v.iter().map(|x| (*x, 0)).collect::<Vec<_>>();
  // symbols after the split hold total length and shift in their nibbles
  let mixed = |v: &[u32]| v.iter().map(|x| ((x & 15) - (x >> 4), x >> 4)).collect::<Vec<_>>();
  match sel {
    0 => (vec![0, 1, 5, 1, 1, 1, 1, 1, 1, 2], plain(&[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12])),
    1 => (vec![0, 1, 5, 1, 1, 1, 1, 1, 1, 2], mixed(&[0x39, 0x5a, 0x38, 0x27, 0x16, 5, 4, 3, 2, 1, 0, 11, 12, 12])),
    2 => (vec![0, 1, 4, 2, 3, 1, 2], plain(&[5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12])),
    3 => (vec![0, 1, 4, 3, 1, 1, 1, 1, 1, 2], plain(&[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14])),
    4 => (vec![0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2], mixed(&[8, 0x5c, 0x4b, 0x3a, 0x29, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14])),
    _ => (vec![0, 1, 4, 2, 2, 3, 1, 2], plain(&[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14])),
  }
}
/// The difference announced by a symbol and its extra bits.
fn nikon_diff(sym: (u32, u32), x: u32) -> i32 {
  let len = sym.0 + sym.1;
  if len == 0 {
    return 0;
  }
  let d = (((x << 1) + 1) << sym.1 >> 1) as i32;
  if d & (1 << (len - 1)) == 0 { d - (1 << len) + (sym.1 == 0) as i32 } else { d }
}
fn nef(w: usize, h: usize, f: &Fill, r: &mut Rng, big: bool, bps: u32) -> (Vec<u8>, Expect) {
  let p16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
  let kind = r.below(5);
  let mut meta = vec![];
  let mut real = bps;
  let mut sel = if bps == 14 { 3 } else { 0 };
  let mut split = 0usize;
  let mut curve: Vec<u16>;
  let preds: [u16; 4] = if r.bool() { [2048; 4] } else { [0; 4].map(|_| r.below(1 << bps) as u16) };
  match kind {
    // lossless
    0 | 1 => {
      sel += 2;
      meta.extend([70, [48u8, 48, 48, 32, 64][r.below(5) as usize]]);
      curve = (0..1u32 << bps).map(|v| v as u16).collect();
      for p in preds {
        meta.extend(p16(p));
      }
      meta.extend(p16(r.next() as u16));
    }
    // lossy with interpolated curve and a second tree after a row
    2 | 3 => {
      let v1 = if r.bool() { 32u8 } else { 64 };
      if v1 == 64 {
        real = bps - 2;
      }
      let max = 1usize << real;
      let segs = 1usize << (1 + r.below(8));
      let csize = segs + 1;
      let step = max / segs;
      meta.extend([68, v1]);
      for p in preds {
        meta.extend(p16(p));
      }
      meta.extend(p16(csize as u16));
      let mut acc = 0u64;
      let slope = [1u64, 2, 4][r.below(3) as usize] * 16384 / segs as u64;
      let pts: Vec<u16> = (0..csize)
        .map(|_| {
          let v = acc.min(65535) as u16;
          acc += r.below(slope + 1);
          v
        })
        .collect();
      for p in &pts {
        meta.extend(p16(*p));
      }
      curve = (0..max).map(|i| ((step - i % step) as u64 * pts[i / step] as u64 + (i % step) as u64 * pts[i / step + 1] as u64) as f64 / step as f64).map(|v| v.floor() as u16).collect();
      split = r.below(h as u64 + 4) as usize;
      meta.resize(562, 0);
      meta.extend(p16(split as u16));
    }
    // plain curve table
    _ => {
      let skip = r.bool();
      meta.extend(if skip { if r.bool() { [73, 88] } else { [68, 88] } } else { [68, 16] });
      if skip {
        let junk = r.bytes(2110);
        meta.extend(junk);
      }
      for p in preds {
        meta.extend(p16(p));
      }
      if r.below(4) == 0 {
        meta.extend(p16(0x4002 + r.below(1000) as u16));
        curve = (0..1u32 << bps).map(|v| v as u16).collect();
      } else {
        let csize = 2 + r.below(if skip { 980 } else { 2030 }) as usize;
        meta.extend(p16(csize as u16));
        let mut acc = 0u64;
        curve = (0..csize)
          .map(|_| {
            acc = (acc + r.below(30)).min(65535);
            acc as u16
          })
          .collect();
        for p in &curve {
          meta.extend(p16(*p));
        }
      }
    }
  }
  let junk = r.bytes(4096usize.saturating_sub(meta.len()));
  meta.extend(junk);
  if curve.is_empty() {
    curve = vec![0];
  }
  let top = (curve.len() as i32 - 1).min((1 << real) - 1);
  let want = f.u16s(w * h, top as u16);
  // vertical predictors: two first columns, per row parity
  let mut vert = [[preds[0] as i32, preds[2] as i32], [preds[1] as i32, preds[3] as i32]];
  let mut b = Bits::default();
  let mut px = vec![0i32; w * h];
  let wild = r.below(3) == 0;
  let mut tree = nikon_tree(sel);
  let mut codes = canonical(&tree.0);
  for row in 0..h {
    if split > 0 && row == split {
      tree = nikon_tree(sel + 1);
      codes = canonical(&tree.0);
    }
    let mut left = vert[row & 1];
    for col in 0..w {
      let pred = left[col & 1];
      let d = want[row * w + col] as i32 - pred;
      // the closest difference this table can express
      let mut best: Option<(i32, usize, u32)> = None;
      let from = if wild { r.below(tree.1.len() as u64) as usize } else { 0 };
      for k in 0..tree.1.len() {
        let k = (k + from) % tree.1.len();
        let s = tree.1[k];
        let len = s.0 + s.1;
        let m = if d > 0 || len == 0 { d } else { d + (1 << len) - (s.1 == 0) as i32 };
        let x = (m >> s.1).clamp(0, (1 << s.0) - 1) as u32;
        let v = nikon_diff(s, x);
        let got = pred + v;
        if got >= 0 && got <= top && best.is_none_or(|(e, ..)| (v - d).abs() < e) {
          best = Some(((v - d).abs(), k, x));
          if wild && k == from {
            break;
          }
        }
      }
      let (_, k, x) = best.unwrap_or_else(|| {
        // out of range predictor: move towards the range as fast as possible
        let mut b = (i32::MAX, 0, 0);
        for (k, s) in tree.1.iter().enumerate() {
          for x in [0, (1u32 << s.0) - 1] {
            let e = (nikon_diff(*s, x) - d).abs();
            if e < b.0 {
              b = (e, k, x);
            }
          }
        }
        b
      });
      let v = nikon_diff(tree.1[k], x);
      b.code(codes[k]);
      b.put(tree.1[k].0, x);
      left[col & 1] = pred + v;
      px[row * w + col] = pred + v;
      if col < 2 {
        vert[row & 1][col] = pred + v;
      }
    }
  }
  meta.extend(b.msb());
  meta.extend([0; 8]);
  (meta, px.into_iter().map(|v| dither_range(&curve, v.clamp(0, top) as usize)).collect())
}

fn snef(w: usize, h: usize, f: &Fill, r: &mut Rng) -> (Vec<u8>, Expect) {
  let coeffs = [0.5 + r.f32() * 3.0, 1.0, 0.5 + r.f32() * 3.0, 1.0];
  let mut out: Vec<u8> = coeffs.iter().flat_map(|c| c.to_le_bytes()).collect();
  let v = f.u16s(w * h * 2, 4095);
  let neutral = r.bool();
  let curve: Vec<u16> = (0..4096)
    .map(|i| {
      let v = i as f64 / 4095.0;
      let l = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
      (l * 65535.0 * 4.0).clamp(0.0, 65535.0) as u16
    })
    .collect();
  let mut e = vec![];
  for p in v.chunks_exact(4) {
    let (y1, y2) = (p[0], p[1]);
    let (cb, cr) = if neutral { (2048, 2048) } else { (1024 + p[2] / 2, 1024 + p[3] / 2) };
    for (a, b) in [(y1, y2), (cb, cr)] {
      out.extend([a as u8, (a >> 8 | b << 4) as u8, (b >> 4) as u8]);
    }
    let (cb, cr) = (cb as f64 - 2048.0, cr as f64 - 2048.0);
    for y in [y1, y2] {
      let y = y as f64;
      let rgb = [y + 1.370705 * cr, y - 0.337633 * cb - 0.698001 * cr, y + 1.732446 * cb];
      for (k, v) in rgb.into_iter().enumerate() {
        let idx = |v: f64| v.clamp(0.0, 4095.0) as usize;
        let lo = dither_range(&curve, idx(v - 0.01)).0.saturating_sub(1);
        let hi = dither_range(&curve, idx(v + 0.01)).1.saturating_add(1);
        e.push(if k == 1 {
          (lo, hi)
        } else {
          let inv = (1024.0 / coeffs[k]) as u64;
          let s = |v: u16| ((inv * v as u64 + 512) >> 10).min(32767) as u16;
          (s(lo), s(hi))
        });
      }
    }
  }
  (out, e)
}
