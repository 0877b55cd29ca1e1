//! Whole Panasonic files.
use crate::fill::{Fill, Rng};
use crate::tiffmini::{self, Dir, Layout, Val};
use crate::vendor::{self, Bits};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rw2 {
  pub format: u16,
  pub bps: u32,
  pub packets: usize,
  pub h: usize,
  pub fill: Fill,
  pub seed: u64,
  #[serde(default)]
  pub strips: (u8, u8),
}
fn rw2_dir(c: &Rw2, w: usize, h: usize) -> Dir {
  let mut d = Dir::new();
  let mut r = Rng::new(c.seed ^ 77);
  d.set(0x0001, Val::raw(7, b"0431".to_vec()));
  d.set(0x0002, Val::short(&[w as u16]));
  d.set(0x0003, Val::short(&[h as u16]));
  d.set(0x0009, Val::short(&[1 + r.below(4) as u16]));
  d.set(0x000a, Val::short(&[c.bps as u16]));
  d.set(0x0024, Val::short(&[512 + r.below(99) as u16]));
  d.set(0x0025, Val::short(&[256]));
  d.set(0x0026, Val::short(&[400 + r.below(99) as u16]));
  d.set(0x002d, Val::short(&[c.format]));
  d.set(0x010f, Val::ascii("Panasonic"));
  d.set(0x0110, Val::ascii("DC-GH6"));
  d
}
pub fn build(c: &Rw2) -> (Vec<u8>, usize, usize, Vec<(u16, u16)>) {
  let per = match (c.format, c.bps) {
    (3 | 4, _) => 14,
    (5 | 7, 12) => 10,
    (5 | 7, _) => 9,
    (6, 12) => 14,
    _ => 11,
  };
  let (w, h) = (per * c.packets, c.h);
  let mut r = Rng::new(c.seed);
  let top = ((1u32 << c.bps) - 1) as u16;
  let (data, expect) = match c.format {
    3 | 4 => {
      let (p, e) = vendor::pana4(w, h, &c.fill, &mut r);
      (vendor::pana_blocks(&p, true), e)
    }
    5 => {
      let px = c.fill.u16s(w * h, top);
      (vendor::pana_blocks5(&vendor::pana_plain(&px, c.bps)), px.into_iter().map(|v| (v, v)).collect())
    }
    6 => {
      let (p, e) = vendor::pana6(&c.fill.u16s(w * h, top - 15), c.bps, &mut r);
      (p, e.into_iter().map(|v| (v, v)).collect())
    }
    _ => {
      let px = c.fill.u16s(w * h, top);
      (vendor::pana_plain(&px, c.bps), px.into_iter().map(|v| (v, v)).collect())
    }
  };
  let mut d = rw2_dir(c, w, h);
  d.blobs.push((0x0118, 0x0117, vec![data]));
  let file = tiffmini::build(&[d], Layout { magic: 0x55, ..Layout::default() });
  (file, w, h, expect)
}

pub struct Strips {
  pub file: Vec<u8>,
  pub w: usize,
  pub h: usize,
  pub expect: Vec<(u16, u16)>,
  pub clipped: bool,
  pub linear: bool,
}
/// Format 8: strips with their own bit streams and a Huffman table in the file.
pub fn build_strips(c: &Rw2) -> Strips {
  let mut r = Rng::new(c.seed);
  let (sx, sy) = (c.strips.0 as usize, c.strips.1 as usize);
  let widths: Vec<usize> = (0..sx).map(|_| 2 * (1 + r.below(12) as usize)).collect();
  let heights: Vec<usize> = (0..sy).map(|_| 2 * (1 + r.below(8) as usize)).collect();
  let (w, h) = (widths.iter().sum::<usize>(), heights.iter().sum::<usize>());
  let top = [4095u16, 16383, 65535][r.below(3) as usize];
  let px = c.fill.u16s(w * h, top);
  // prefix code over the 17 magnitudes
  let mut leaves = vec![1u32, 1];
  while leaves.len() < 17 {
    let cand: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < 16).collect();
    let i = if r.bool() { *cand.iter().max_by_key(|i| leaves[**i]).unwrap() } else { cand[r.below(cand.len() as u64) as usize] };
    leaves[i] += 1;
    leaves.push(leaves[i]);
  }
  leaves.sort();
  let mut counts = [0u8; 16];
  for l in &leaves {
    counts[*l as usize - 1] += 1;
  }
  let mut order: Vec<usize> = (0..17).collect();
  for i in (1..17).rev() {
    order.swap(i, r.below(i as u64 + 1) as usize);
  }
  let mut code = [(0u32, 0u32); 17];
  for (k, cd) in vendor::canonical(&counts).into_iter().enumerate() {
    code[order[k]] = cd;
  }
  let init: Vec<u16> = (0..4).map(|_| r.below(top as u64 + 1) as u16).collect();
  // strips in row major order
  let (mut streams, mut lineoffs, mut sw, mut sh) = (vec![], vec![], vec![], vec![]);
  let mut y0 = 0;
  for hh in &heights {
    let mut x0 = 0;
    for ww in &widths {
      let mut b = Bits::default();
      let mut line: [i32; 4] = [0, 1, 2, 3].map(|k| init[k] as i32);
      for row in (0..*hh).step_by(2) {
        let mut cur = line;
        for col in (0..*ww).step_by(2) {
          // group: two samples of the upper row, two of the lower
          let g: [i32; 4] = [(0, 0), (0, 1), (1, 0), (1, 1)].map(|(dy, dx)| px[(y0 + row + dy) * w + x0 + col + dx] as i32);
          for k in [0, 2, 1, 3] {
            let d = g[k] - cur[k];
            let n = 32 - d.unsigned_abs().leading_zeros();
            b.code(code[n as usize]);
            b.put(n, (if d < 0 { d + (1 << n) - 1 } else { d }) as u32);
          }
          cur = g;
          if col == 0 {
            line = g;
          }
        }
      }
      // bits of every byte reversed
      let bytes: Vec<u8> = b.msb().into_iter().map(|v| v.reverse_bits()).collect();
      streams.push((bytes, b.len() as u32));
      lineoffs.push((x0 as u16, y0 as u16));
      sw.push(*ww as u16);
      sh.push(*hh as u16);
      x0 += ww;
    }
    y0 += hh;
  }
  let n = streams.len();
  let mut data = vec![];
  let mut offs = vec![];
  let mut idx: Vec<usize> = (0..n).collect();
  if r.bool() {
    idx.reverse();
  }
  offs.resize(n, 0u32);
  for k in idx {
    let j = r.below(9) as usize;
    data.extend(r.bytes(j));
    offs[k] = data.len() as u32;
    data.extend(&streams[k].0);
    // the reader looks ahead; in a file other data follows
    data.extend([0; 8]);
  }
  let clip = if r.below(4) == 0 { (top as u32 * 3 / 4) as u16 } else { top.max(1) };
  let linear = r.bool();
  // gamma: six segments; shift or scale per segment
  let (points, slopes): (Vec<u32>, Vec<u32>) = if linear {
    (vec![65536; 6], vec![0; 6])
  } else {
    let mut x = 0u32;
    let mut y = 0u32;
    let (mut p, mut s) = (vec![], vec![]);
    for _ in 0..6 {
      s.push(y << 16 | x);
      let k = r.below(4) as u32;
      let up = r.below(4) == 0;
      p.push(65536 | if up { 0x10 | 1 } else { k });
      let step = 1 + r.below(9000) as u32;
      x = (x + step).min(0xffff);
      y = (y + if up { step * 2 } else { step >> k }).min(0xffff);
    }
    (p, s)
  };
  let gamma = |v: u16| -> u16 {
    if linear {
      return v;
    }
    let x = v as u32;
    let seg = (0..6).rev().find(|i| *i == 0 || x >= slopes[*i] & 0xffff && (1..*i).all(|k| x >= slopes[k] & 0xffff)).unwrap();
    let t = x.wrapping_sub(slopes[seg] & 0xffff);
    let k = points[seg] & 31;
    let t = if k & 16 != 0 { t << (k & 15) } else if k > 0 { (t + (1 << (k - 1))) >> k } else { t };
    ((t + (slopes[seg] >> 16)) as u16).min(clip)
  };
  let u16s = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
  let u32s = |v: &[u32]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
  let tab = |n: usize, b: Vec<u8>| Val::undefined(&[(n as u16).to_le_bytes().to_vec(), b].concat());
  let mk = |base: u32| {
    let mut d = rw2_dir(c, w, h);
    d.set(0x0037, Val::long(&[h as u32]));
    d.set(0x0039, tab(6, u32s(&points)));
    d.set(0x003a, tab(6, u32s(&slopes)));
    d.set(0x003b, Val::short(&[clip]));
    for k in 0..4 {
      d.set(0x003c + k as u16, Val::short(&[init[k]]));
    }
    d.set(0x0040, tab(17, code.iter().flat_map(|(l, v)| u16s(&[*l as u16, *v as u16])).collect()));
    d.set(0x0041, tab(17, u16s(&[0; 17])));
    d.set(0x0042, Val::short(&[sx as u16]));
    d.set(0x0043, Val::short(&[sy as u16]));
    d.set(0x0044, tab(n, u32s(&offs.iter().map(|o| o + base).collect::<Vec<_>>())));
    d.set(0x0045, tab(n, lineoffs.iter().flat_map(|(x, y)| u16s(&[*x, *y])).collect()));
    d.set(0x0046, tab(n, u32s(&streams.iter().map(|s| s.1).collect::<Vec<_>>())));
    d.set(0x0047, tab(n, u16s(&sw)));
    d.set(0x0048, tab(n, u16s(&sh)));
    d.set(0x0064, Val::long(&[w as u32]));
    d.blobs.push((0x0118, 0x0117, vec![data.clone()]));
    tiffmini::build(&[d], Layout { magic: 0x55, ..Layout::default() })
  };
  let probe = mk(0);
  let base = tiffmini::parse(&probe).expect("own file").chain[0].get(0x0118).unwrap().uint(0);
  let file = mk(base);
  // values above the limit are clipped; the predictor uses the clipped ones
  let clipped = px.iter().any(|v| *v > clip);
  let expect: Vec<(u16, u16)> = px.iter().map(|v| (gamma(*v), gamma(*v))).collect();
  Strips { file, w, h, expect, clipped, linear }
}
