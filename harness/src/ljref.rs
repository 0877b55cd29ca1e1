//! Independent lossless JPEG (ITU T.81 process 14) codec, written from the
//! standard, used as oracle for the encoder and decoder under test.
use crate::fill::Rng;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub struct Decoded {
  pub w: usize,
  pub h: usize,
  pub ncomp: usize,
  pub precision: u32,
  pub predictor: u8,
  pub pt: u8,
  /// interleaved samples
  pub data: Vec<u16>,
  pub max_code_len: usize,
}

fn predict(pred: u8, a: i32, b: i32, c: i32) -> i32 {
  match pred {
    1 => a,
    2 => b,
    3 => c,
    4 => a + b - c,
    5 => a + ((b - c) >> 1),
    6 => b + ((a - c) >> 1),
    7 => (a + b) >> 1,
    _ => unreachable!(),
  }
}

fn prediction(pred: u8, data: &dyn Fn(usize, usize) -> i32, row: usize, col: usize, init: i32) -> i32 {
  if row == 0 && col == 0 {
    init
  } else if row == 0 {
    data(0, col - 1)
  } else if col == 0 {
    data(row - 1, 0)
  } else {
    predict(pred, data(row, col - 1), data(row - 1, col), data(row - 1, col - 1))
  }
}

/// Strict decoder: every structural requirement of the standard is checked.
pub fn decode(src: &[u8]) -> Result<Decoded, String> {
  let mut p = 0usize;
  let u8at = |p: usize| -> Result<u8, String> { src.get(p).copied().ok_or_else(|| "truncated".to_string()) };
  let u16at = |p: usize| -> Result<usize, String> { Ok(((u8at(p)? as usize) << 8) | u8at(p + 1)? as usize) };
  if u16at(0)? != 0xffd8 {
    return Err("no SOI".into());
  }
  p += 2;
  let mut frame: Option<(u32, usize, usize, Vec<u8>)> = None;
  let mut tables: HashMap<u8, (HashMap<(usize, u32), u8>, usize)> = HashMap::new();
  let (pred, pt, sel);
  loop {
    let m = u16at(p)?;
    if m < 0xff01 || m == 0xffff {
      return Err(format!("expected marker at {p}, got {m:04x}"));
    }
    let len = u16at(p + 2)?;
    if len < 2 || p + 2 + len > src.len() {
      return Err("bad segment length".into());
    }
    let body = &src[p + 4..p + 2 + len];
    p += 2 + len;
    match m & 0xff {
      0xc3 => {
        if frame.is_some() {
          return Err("two SOF".into());
        }
        if body.len() < 6 || body.len() != 6 + 3 * body[5] as usize {
          return Err("SOF length".into());
        }
        let prec = body[0] as u32;
        let h = (body[1] as usize) << 8 | body[2] as usize;
        let w = (body[3] as usize) << 8 | body[4] as usize;
        let n = body[5] as usize;
        let mut ids = vec![];
        for i in 0..n {
          ids.push(body[6 + 3 * i]);
          if body[7 + 3 * i] != 0x11 {
            return Err("subsampling".into());
          }
        }
        for i in 0..n {
          for j in 0..i {
            if ids[i] == ids[j] {
              return Err("duplicate component id".into());
            }
          }
        }
        if !(2..=16).contains(&prec) || n < 1 || n > 4 || w == 0 || h == 0 {
          return Err(format!("SOF fields prec={prec} n={n} {w}x{h}"));
        }
        frame = Some((prec, h, w, ids));
      }
      0xc4 => {
        let mut b = body;
        while !b.is_empty() {
          if b.len() < 17 {
            return Err("DHT short".into());
          }
          if b[0] >> 4 != 0 || b[0] & 15 > 3 {
            return Err("DHT class/id".into());
          }
          let id = b[0] & 15;
          let total: usize = b[1..17].iter().map(|x| *x as usize).sum();
          if b.len() < 17 + total {
            return Err("DHT values".into());
          }
          let mut code = 0u32;
          let mut k = 0;
          let mut map = HashMap::new();
          let mut maxl = 0;
          let mut seen = [false; 256];
          for l in 1..=16usize {
            for _ in 0..b[l] {
              let v = b[17 + k];
              if v > 16 {
                return Err(format!("SSSS value {v}"));
              }
              if seen[v as usize] {
                return Err(format!("symbol {v} twice"));
              }
              seen[v as usize] = true;
              if code >= (1 << l) {
                return Err("over-subscribed Huffman code".into());
              }
              if code == (1 << l) - 1 {
                return Err("all-ones code word".into());
              }
              map.insert((l, code), v);
              maxl = l;
              code += 1;
              k += 1;
            }
            code <<= 1;
          }
          if map.is_empty() {
            return Err("empty Huffman table".into());
          }
          tables.insert(id, (map, maxl));
          b = &b[17 + total..];
        }
      }
      0xda => {
        let Some((_, _, _, ids)) = &frame else { return Err("SOS before SOF".into()) };
        let n = ids.len();
        if body.len() != 4 + 2 * n || body[0] as usize != n {
          return Err("SOS length".into());
        }
        let mut s = vec![];
        for i in 0..n {
          if body[1 + 2 * i] != ids[i] {
            return Err("SOS component order".into());
          }
          let t = body[2 + 2 * i];
          if t & 15 != 0 {
            return Err("Ta".into());
          }
          s.push(t >> 4);
        }
        pred = body[1 + 2 * n];
        if !(1..=7).contains(&pred) {
          return Err("predictor".into());
        }
        if body[2 + 2 * n] != 0 || body[3 + 2 * n] >> 4 != 0 {
          return Err("Se/Ah".into());
        }
        pt = body[3 + 2 * n] & 15;
        sel = s;
        break;
      }
      0xe0..=0xef | 0xfe => {}
      other => return Err(format!("unexpected marker {other:02x}")),
    }
  }
  let (prec, h, w, ids) = frame.ok_or("no frame")?;
  let n = ids.len();
  // entropy coded segment: unstuff up to the next marker
  let mut ecs = vec![];
  loop {
    let b = u8at(p)?;
    if b == 0xff {
      let c = u8at(p + 1)?;
      if c == 0 {
        ecs.push(0xff);
        p += 2;
        continue;
      }
      break;
    }
    ecs.push(b);
    p += 1;
  }
  if u16at(p)? != 0xffd9 {
    return Err("entropy coded data not followed by EOI".into());
  }
  if p + 2 != src.len() {
    return Err("data after EOI".into());
  }
  let mut bitpos = 0usize;
  let total = ecs.len() * 8;
  let mut bit = || -> Result<u32, String> {
    if bitpos >= total {
      return Err("entropy coded data exhausted".into());
    }
    let b = (ecs[bitpos / 8] >> (7 - bitpos % 8)) & 1;
    bitpos += 1;
    Ok(b as u32)
  };
  let mut data = vec![0u16; w * h * n];
  let init = 1i32 << (prec - pt as u32 - 1);
  for row in 0..h {
    for col in 0..w {
      for c in 0..n {
        let (map, maxl) = tables.get(&sel[c]).ok_or("missing table")?;
        let mut code = 0u32;
        let mut l = 0;
        let ssss = loop {
          code = code << 1 | bit()?;
          l += 1;
          if l > *maxl {
            return Err("invalid code".into());
          }
          if let Some(v) = map.get(&(l, code)) {
            break *v as u32;
          }
        };
        let diff: i32 = match ssss {
          0 => 0,
          16 => 32768,
          s => {
            let mut v = 0i32;
            for _ in 0..s {
              v = v << 1 | bit()? as i32;
            }
            if v < 1 << (s - 1) { v - (1 << s) + 1 } else { v }
          }
        };
        let px = {
          let d = &data;
          prediction(pred, &|r, k| d[(r * w + k) * n + c] as i32, row, col, init)
        };
        data[(row * w + col) * n + c] = (px + diff) as u16;
      }
    }
  }
  if total - bitpos >= 8 {
    return Err("surplus bytes in entropy coded data".into());
  }
  let maxl = sel.iter().map(|s| tables[s].1).max().unwrap_or(0);
  Ok(Decoded { w, h, ncomp: n, precision: prec, predictor: pred, pt, data, max_code_len: maxl })
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct EncOpts {
  pub predictor: u8,
  pub precision: u32,
  /// seed of the Huffman code shapes; 0 = balanced code over 17 symbols
  pub table_seed: u64,
  pub shared_table: bool,
  pub id_base: u8,
  pub extra_segments: u8,
  pub dng_bug: bool,
  /// pad the final byte with ones instead of zeros
  pub pad_ones: bool,
}

struct Tbl {
  bits: [u8; 17],
  vals: Vec<u8>,
  code: [(u8, u32); 17],
}

fn mk_table(seed: u64, syms: &[u8], max_depth: u8) -> Tbl {
  let mut r = Rng::new(seed);
  let n = syms.len();
  let mut leaves: Vec<u8> = vec![0];
  while leaves.len() < n + 1 {
    let i = if seed == 0 {
      let m = *leaves.iter().min().unwrap();
      leaves.iter().position(|l| *l == m).unwrap()
    } else if r.below(3) > 0 {
      // prefer deep leaves: skewed tables
      let m = leaves.iter().copied().filter(|l| *l < max_depth).max().unwrap();
      leaves.iter().position(|l| *l == m).unwrap()
    } else {
      let c: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < max_depth).collect();
      c[r.below(c.len() as u64) as usize]
    };
    let d = leaves[i];
    leaves[i] = d + 1;
    leaves.push(d + 1);
  }
  leaves.sort();
  leaves.pop();
  let mut order: Vec<u8> = syms.to_vec();
  if seed != 0 {
    for i in (1..order.len()).rev() {
      order.swap(i, r.below(i as u64 + 1) as usize);
    }
  }
  let mut bits = [0u8; 17];
  let mut code = [(0u8, 0u32); 17];
  let mut c = 0u32;
  let mut prev = leaves[0];
  for (k, l) in leaves.iter().enumerate() {
    c <<= l - prev;
    prev = *l;
    bits[*l as usize] += 1;
    code[order[k] as usize] = (*l, c);
    c += 1;
  }
  Tbl { bits, vals: order, code }
}

struct Bw {
  out: Vec<u8>,
  acc: u64,
  n: u32,
}
impl Bw {
  fn put(&mut self, bits: u32, v: u32) {
    for i in (0..bits).rev() {
      self.acc = self.acc << 1 | ((v >> i) & 1) as u64;
      self.n += 1;
      if self.n == 8 {
        let b = self.acc as u8;
        self.out.push(b);
        if b == 0xff {
          self.out.push(0);
        }
        self.acc = 0;
        self.n = 0;
      }
    }
  }
  fn flush(&mut self, ones: bool) {
    while self.n != 0 {
      self.put(1, ones as u32);
    }
  }
}

fn ssss_of(diff: i32) -> u32 {
  32 - diff.unsigned_abs().leading_zeros()
}

/// Header with the given sampling factors; the caller appends the scan data.
fn header(w: usize, h: usize, n: usize, o: &EncOpts, tables: &[Tbl], samp0: u8) -> Vec<u8> {
  let mut out = vec![0xff, 0xd8];
  let seg = |out: &mut Vec<u8>, m: u8, body: &[u8]| {
    out.extend([0xff, m]);
    out.extend(((body.len() + 2) as u16).to_be_bytes());
    out.extend(body);
  };
  if o.extra_segments & 1 != 0 {
    seg(&mut out, 0xe0, b"JFIFlike");
  }
  let dht = |out: &mut Vec<u8>| {
    if o.extra_segments & 2 != 0 {
      let mut b = vec![];
      for (i, t) in tables.iter().enumerate() {
        b.push(i as u8);
        b.extend(&t.bits[1..]);
        b.extend(&t.vals);
      }
      seg(out, 0xc4, &b);
    } else {
      for (i, t) in tables.iter().enumerate() {
        let mut b = vec![i as u8];
        b.extend(&t.bits[1..]);
        b.extend(&t.vals);
        seg(out, 0xc4, &b);
      }
    }
  };
  if o.extra_segments & 4 != 0 {
    dht(&mut out);
  }
  let mut b = vec![o.precision as u8];
  b.extend((h as u16).to_be_bytes());
  b.extend((w as u16).to_be_bytes());
  b.push(n as u8);
  for c in 0..n {
    b.extend([o.id_base + c as u8, if c == 0 { samp0 } else { 0x11 }, 0]);
  }
  seg(&mut out, 0xc3, &b);
  if o.extra_segments & 4 == 0 {
    dht(&mut out);
  }
  let mut b = vec![n as u8];
  for c in 0..n {
    b.extend([o.id_base + c as u8, ((c % tables.len()) as u8) << 4]);
  }
  b.extend([o.predictor, 0, 0]);
  seg(&mut out, 0xda, &b);
  out
}

fn tables_for(o: &EncOpts, n: usize) -> Vec<Tbl> {
  let syms: Vec<u8> = (0..=16).collect();
  (0..if o.shared_table { 1 } else { n })
    .map(|i| mk_table(if o.table_seed == 0 { 0 } else { o.table_seed.wrapping_add(i as u64 * 77) | 1 }, &syms, 16))
    .collect()
}

fn put_diff(bw: &mut Bw, t: &Tbl, diff16: i32, dng_bug: bool) {
  // diff16 is in -32768..=32767 (modulo 2^16)
  let s = if diff16 == -32768 { 16 } else { ssss_of(diff16) };
  let (l, c) = t.code[s as usize];
  bw.put(l as u32, c);
  if s == 16 {
    if dng_bug {
      bw.put(16, 0);
    }
  } else if s > 0 {
    let v = if diff16 < 0 { diff16 - 1 } else { diff16 };
    bw.put(s, (v & ((1 << s) - 1)) as u32);
  }
}

/// Encodes interleaved samples.
pub fn encode(data: &[u16], w: usize, h: usize, n: usize, o: &EncOpts) -> Vec<u8> {
  let tables = tables_for(o, n);
  let out = header(w, h, n, o, &tables, 0x11);
  let mut bw = Bw { out, acc: 0, n: 0 };
  let init = 1i32 << (o.precision - 1);
  for row in 0..h {
    for col in 0..w {
      for c in 0..n {
        let px = prediction(o.predictor, &|r, k| data[(r * w + k) * n + c] as i32, row, col, init);
        let d = (data[(row * w + col) * n + c] as i32 - px) as i16 as i32;
        put_diff(&mut bw, &tables[c % tables.len()], d, o.dng_bug);
      }
    }
  }
  bw.flush(o.pad_ones);
  let mut out = bw.out;
  out.extend([0xff, 0xd9]);
  out
}

/// Encodes YCbCr with chroma subsampling (as sRAW files do): `y` is w*h, `cb`/`cr`
/// hold one value per block. `v` = 1 for 4:2:2 and 2 for 4:2:0.
/// Prediction: previous luma sample in coding order, at the start of a block row
/// the first sample of the block row above.
pub fn encode_ycc(y: &[u16], cb: &[u16], cr: &[u16], w: usize, h: usize, v: usize, o: &EncOpts) -> Vec<u8> {
  let tables = tables_for(o, 3);
  let out = header(w, h, 3, o, &tables, if v == 2 { 0x22 } else { 0x21 });
  let mut bw = Bw { out, acc: 0, n: 0 };
  let init = 1i32 << (o.precision - 1);
  let bwid = w / 2;
  let bh = h / v;
  let t = |c: usize| &tables[c % tables.len()];
  for br in 0..bh {
    let (mut py, mut pb, mut pr) = if br == 0 {
      (init, init, init)
    } else {
      let i = (br - 1) * bwid;
      (y[(br - 1) * v * w] as i32, cb[i] as i32, cr[i] as i32)
    };
    for bc in 0..bwid {
      for vy in 0..v {
        for vx in 0..2 {
          let s = y[(br * v + vy) * w + bc * 2 + vx] as i32;
          put_diff(&mut bw, t(0), (s - py) as i16 as i32, o.dng_bug);
          py = s;
        }
      }
      let i = br * bwid + bc;
      put_diff(&mut bw, t(1), (cb[i] as i32 - pb) as i16 as i32, o.dng_bug);
      put_diff(&mut bw, t(2), (cr[i] as i32 - pr) as i16 as i32, o.dng_bug);
      pb = cb[i] as i32;
      pr = cr[i] as i32;
    }
  }
  bw.flush(o.pad_ones);
  let mut out = bw.out;
  out.extend([0xff, 0xd9]);
  out
}

/// Leaf's variant: two components, one sample pair per step, strips of eight rows that start
/// over and are separated by markers. Component ids of the scan header are garbage.
pub fn encode_leaf(data: &[u16], w: usize, h: usize, o: &EncOpts) -> Vec<u8> {
  let tables = tables_for(o, 2);
  let mut out = header(w / 2, h, 2, o, &tables, 0x11);
  // selectors: the header ends with ns, (id, table)*2, predictor, 0, 0
  let n = out.len();
  if o.pad_ones {
    out[n - 7] = 77;
    out[n - 5] = 77;
  }
  let init = 1i32 << (o.precision - 1);
  for (s, strip) in data.chunks(8 * w).enumerate() {
    if s > 0 {
      out.extend([0xff, 0xd0 + ((s - 1) % 8) as u8]);
    }
    let mut bw = Bw { out, acc: 0, n: 0 };
    for (i, v) in strip.iter().enumerate() {
      let (row, col) = (i / w, i % w);
      let px = match (row, col) {
        (0, 0 | 1) => init,
        (_, 0 | 1) => strip[(row - 1) * w + col] as i32,
        _ => strip[i - 2] as i32,
      };
      put_diff(&mut bw, &tables[col % 2 % tables.len()], (*v as i32 - px) as i16 as i32, o.dng_bug);
    }
    bw.flush(o.pad_ones);
    out = bw.out;
  }
  out.extend([0xff, 0xd9]);
  out
}
