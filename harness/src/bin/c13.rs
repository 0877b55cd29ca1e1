//! C13: demosaicing keeps measured samples and flat fields.
use proptest::prelude::*;
use rawler::cfa::PlaneColor;
use rawler::imgop::sensor::bayer::bilinear::Bilinear4Channel;
use rawler::imgop::sensor::bayer::ppg::PPGDemosaic;
use rawler::imgop::sensor::bayer::superpixel::{Superpixel3Channel, Superpixel4Channel};
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::sensor::xtrans::markesteijn::XTransMarkesteijnDemosaic;
use rawler::imgop::sensor::Demosaic;
use rawler::pixarray::{Color2D, PixF32};
use rawler::CFA;
use serde::{Deserialize, Serialize};
use vh::fill::*;
use vh::rawgen::*;
use vh::*;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Method {
  Ppg,
  Bilinear4,
  Super3,
  Super4,
  XBilinear,
  Mark1,
  Mark3,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Content {
  Samples(Fill),
  /// one value per colour
  Flat([u16; 4]),
  /// smooth ramp (dx, dy)
  Ramp(u8, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  method: Method,
  pat: u8,
  w: usize,
  h: usize,
  roi: FracRect,
  whole: bool,
  content: Content,
}

const FOUR: [(&str, &str); 8] =
  [("RGEB", "RGBE"), ("GMYC", "GMCY"), ("CYGM", "CYGM"), ("MGCY", "GMCY"), ("EBRG", "RGBE"), ("GRBE", "RGBE"), ("YCMG", "CMYG"), ("BERG", "EBGR")];

fn letter(c: char) -> usize {
  match c {
    'R' => 0,
    'G' => 1,
    'B' => 2,
    'C' | 'E' => 3,
    'M' => 4,
    _ => 5,
  }
}

impl Case {
  fn pattern(&self) -> (String, String) {
    match self.method {
      Method::Ppg | Method::Super3 => (BAYER[self.pat as usize % 4].into(), "RGB".into()),
      Method::Bilinear4 | Method::Super4 => {
        let f = FOUR[self.pat as usize % FOUR.len()];
        (f.0.into(), f.1.into())
      }
      _ => (Kind::XTrans(self.pat % 36).pattern().unwrap(), "RGB".into()),
    }
  }
  fn roi(&self) -> (usize, usize, usize, usize) {
    let min = match self.method {
      Method::Ppg | Method::XBilinear => 1,
      Method::Bilinear4 | Method::Super3 | Method::Super4 => 2,
      _ => 6,
    };
    let (w, h) = self.size();
    if self.whole {
      return (0, 0, w, h);
    }
    let (x, y, rw, rh) = self.roi.within(0, 0, w, h);
    let rw = rw.max(min);
    let rh = rh.max(min);
    (x.min(w - rw), y.min(h - rh), rw, rh)
  }
  fn size(&self) -> (usize, usize) {
    let min = match self.method {
      Method::Ppg | Method::XBilinear => 1,
      Method::Bilinear4 | Method::Super3 | Method::Super4 => 2,
      _ => 6,
    };
    (self.w.max(min), self.h.max(min))
  }
}

/// plane number at an absolute position, computed from the pattern text
struct Mosaic {
  pat: Vec<usize>,
  n: usize,
  planes: Vec<usize>,
}
impl Mosaic {
  fn new(pat: &str, planes: &str) -> Self {
    let pat: Vec<usize> = pat.chars().map(letter).collect();
    let n = if pat.len() == 36 { 6 } else { 2 };
    Mosaic { pat, n, planes: planes.chars().map(letter).collect() }
  }
  fn plane(&self, y: usize, x: usize) -> usize {
    let c = self.pat[(y % self.n) * self.n + x % self.n];
    self.planes.iter().position(|p| *p == c).unwrap()
  }
}

fn samples(c: &Case, m: &Mosaic) -> Vec<f32> {
  let (w, h) = c.size();
  match &c.content {
    // multiples of 2^-12 below 1, so that the sums below are exact
    Content::Samples(f) => f.u16s(w * h, 4095).into_iter().map(|v| v as f32 / 4096.0).collect(),
    Content::Flat(v) => (0..w * h).map(|i| (v[m.plane(i / w, i % w)] % 4096) as f32 / 4096.0).collect(),
    Content::Ramp(dx, dy) => (0..w * h).map(|i| ((i % w) * *dx as usize + (i / w) * *dy as usize) as f32 / 4096.0).collect(),
  }
}

fn demosaic(method: Method, px: &PixF32, cfa: &CFA, pc: &PlaneColor, roi: (usize, usize, usize, usize)) -> (usize, usize, Vec<Vec<f32>>) {
  fn out<const N: usize>(c: Color2D<f32, N>) -> (usize, usize, Vec<Vec<f32>>) {
    (c.width, c.height, c.data.iter().map(|p| p.to_vec()).collect())
  }
  let roi = rect(roi);
  match method {
    Method::Ppg => out(PPGDemosaic::new().demosaic(px, cfa, pc, roi)),
    Method::Bilinear4 => out(Bilinear4Channel::new().demosaic(px, cfa, pc, roi)),
    Method::Super3 => out(Superpixel3Channel::new().demosaic(px, cfa, pc, roi)),
    Method::Super4 => out(Superpixel4Channel::new().demosaic(px, cfa, pc, roi)),
    Method::XBilinear => out(XTransBilinearDemosaic::new().demosaic(px, cfa, pc, roi)),
    Method::Mark1 => out(XTransMarkesteijnDemosaic::new_pass_1().demosaic(px, cfa, pc, roi)),
    Method::Mark3 => out(XTransMarkesteijnDemosaic::new_pass_3().demosaic(px, cfa, pc, roi)),
  }
}

fn hue(l1: f64, l2: f64, l3: f64, v1: f64, v3: f64) -> f64 {
  if (l1 < l2 && l2 < l3) || (l1 > l2 && l2 > l3) {
    v1 + (v3 - v1) * (l2 - l1) / (l3 - l1)
  } else {
    (v1 + v3) / 2.0 + (2.0 * l2 - l1 - l3) / 4.0
  }
}

/// Patterned pixel grouping as published by Chuan-kai Lin, with averaged
/// neighbours in a frame of three pixels.
fn ppg_ref(w: usize, h: usize, at: &dyn Fn(usize, usize) -> f64, ch: &dyn Fn(usize, usize) -> usize) -> Vec<Vec<f64>> {
  let inner = |y: usize, x: usize| y >= 3 && x >= 3 && y + 3 < h && x + 3 < w;
  let mut green = vec![0.0; w * h];
  let mut out = vec![vec![0.0; 3]; w * h];
  for y in 0..h {
    for x in 0..w {
      let c = ch(y, x);
      let o = &mut out[y * w + x];
      o[c] = at(y, x);
      if !inner(y, x) {
        let mut sum = [(0.0, 0.0); 3];
        for yy in y.saturating_sub(1)..(y + 2).min(h) {
          for xx in x.saturating_sub(1)..(x + 2).min(w) {
            sum[ch(yy, xx)].0 += at(yy, xx);
            sum[ch(yy, xx)].1 += 1.0;
          }
        }
        for k in 0..3 {
          if k != c && sum[k].1 > 0.0 {
            o[k] = sum[k].0 / sum[k].1;
          }
        }
      } else if c != 1 {
        let v = at(y, x);
        let (n, s, e, wst) = (at(y - 1, x), at(y + 1, x), at(y, x + 1), at(y, x - 1));
        let cand = [
          ((v - at(y - 2, x)).abs() * 2.0 + (n - s).abs(), (n * 3.0 + s + v - at(y - 2, x)) / 4.0),
          ((v - at(y, x + 2)).abs() * 2.0 + (wst - e).abs(), (e * 3.0 + wst + v - at(y, x + 2)) / 4.0),
          ((v - at(y, x - 2)).abs() * 2.0 + (wst - e).abs(), (wst * 3.0 + e + v - at(y, x - 2)) / 4.0),
          ((v - at(y + 2, x)).abs() * 2.0 + (n - s).abs(), (s * 3.0 + n + v - at(y + 2, x)) / 4.0),
        ];
        let mut best = cand[0];
        for k in &cand[1..] {
          if k.0 < best.0 {
            best = *k;
          }
        }
        o[1] = best.1;
      }
      green[y * w + x] = o[1];
    }
  }
  let g = |y: usize, x: usize| green[y * w + x];
  for y in 0..h {
    for x in 0..w {
      if !inner(y, x) {
        continue;
      }
      let c = ch(y, x);
      if c == 1 {
        out[y * w + x][ch(y, x + 1)] = hue(g(y, x - 1), g(y, x), g(y, x + 1), at(y, x - 1), at(y, x + 1));
        out[y * w + x][ch(y + 1, x)] = hue(g(y - 1, x), g(y, x), g(y + 1, x), at(y - 1, x), at(y + 1, x));
      } else {
        let o = 2 - c;
        let grad = |d: isize| {
          let p = |k: isize| ((y as isize - k) as usize, (x as isize + d * k) as usize);
          let (a, b, a2, b2) = (p(1), p(-1), p(2), p(-2));
          (
            (at(a.0, a.1) - at(b.0, b.1)).abs()
              + (at(a2.0, a2.1) - at(y, x)).abs()
              + (at(y, x) - at(b2.0, b2.1)).abs()
              + (g(a.0, a.1) - g(y, x)).abs()
              + (g(y, x) - g(b.0, b.1)).abs(),
            hue(g(a.0, a.1), g(y, x), g(b.0, b.1), at(a.0, a.1), at(b.0, b.1)),
          )
        };
        let (ne, nw) = (grad(1), grad(-1));
        out[y * w + x][o] = if ne.0 < nw.0 { ne.1 } else { nw.1 };
      }
    }
  }
  out
}

fn close(a: f32, b: f64) -> bool {
  (a as f64 - b).abs() <= 2e-5 * (1.0 + b.abs())
}

fn run(c: &Case) -> Outcome {
  let (pat, planes) = c.pattern();
  let m = Mosaic::new(&pat, &planes);
  let (w, h) = c.size();
  let data = samples(c, &m);
  let px = PixF32::new_with(data.clone(), w, h);
  let cfa = CFA::new(&pat);
  let pc = PlaneColor::new(&planes);
  let roi = c.roi();
  let (ow, oh, out) = demosaic(c.method, &px, &cfa, &pc, roi);
  let sup = matches!(c.method, Method::Super3 | Method::Super4);
  let want = if sup { (roi.2 / 2, roi.3 / 2) } else { (roi.2, roi.3) };
  ensure_eq!((ow, oh), want, "size of the result for region {roi:?}");
  ensure_eq!(out.len(), ow * oh, "pixel count");
  let at = |y: usize, x: usize| data[(roi.1 + y) * w + roi.0 + x] as f64;
  let ch = |y: usize, x: usize| m.plane(roi.1 + y, roi.0 + x);
  let n = planes.len();
  let mean = |y: usize, x: usize, d: usize| -> [f64; 3] {
    let mut s = [(0.0, 0.0); 3];
    for yy in y.saturating_sub(d)..(y + d + 1).min(oh) {
      for xx in x.saturating_sub(d)..(x + d + 1).min(ow) {
        s[ch(yy, xx)].0 += at(yy, xx);
        s[ch(yy, xx)].1 += 1.0;
      }
    }
    s.map(|s| if s.1 > 0.0 { s.0 / s.1 } else { 0.0 })
  };
  match c.method {
    Method::Ppg => {
      let r = ppg_ref(roi.2, roi.3, &at, &ch);
      for i in 0..ow * oh {
        for k in 0..3 {
          ensure!(close(out[i][k], r[i][k]), "channel {k} at ({},{}) is {} instead of {}", i % ow, i / ow, out[i][k], r[i][k]);
        }
      }
    }
    Method::Bilinear4 => {
      for y in 0..oh {
        for x in 0..ow {
          // neighbours of each colour in reach, mirrored choice at the frame
          let rows = |same: bool| -> Vec<usize> {
            if same {
              vec![y]
            } else if y == 0 {
              vec![1]
            } else if y == oh - 1 {
              vec![oh - 2]
            } else {
              vec![y - 1, y + 1]
            }
          };
          let cols = |same: bool| -> Vec<usize> {
            if same {
              vec![x]
            } else if x == 0 {
              vec![1]
            } else if x == ow - 1 {
              vec![ow - 2]
            } else {
              vec![x - 1, x + 1]
            }
          };
          for (sy, sx) in [(true, true), (true, false), (false, true), (false, false)] {
            let (rs, cs) = (rows(sy), cols(sx));
            let k = ch(rs[0], cs[0]);
            let mut s = 0.0;
            for &yy in &rs {
              for &xx in &cs {
                s += at(yy, xx);
              }
            }
            s /= (rs.len() * cs.len()) as f64;
            ensure!(close(out[y * ow + x][k], s), "channel {k} at ({x},{y}) is {} instead of {s}", out[y * ow + x][k]);
          }
        }
      }
    }
    Method::Super3 | Method::Super4 => {
      for y in 0..oh {
        for x in 0..ow {
          for k in 0..n {
            let mut s = (0.0, 0.0);
            for (dy, dx) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
              if ch(2 * y + dy, 2 * x + dx) == k {
                s.0 += at(2 * y + dy, 2 * x + dx);
                s.1 += 1.0;
              }
            }
            ensure!(close(out[y * ow + x][k], s.0 / s.1), "channel {k} at ({x},{y}) is {} instead of {}", out[y * ow + x][k], s.0 / s.1);
          }
        }
      }
    }
    Method::XBilinear => {
      for y in 0..oh {
        for x in 0..ow {
          let s = mean(y, x, 2);
          for k in 0..3 {
            ensure!(close(out[y * ow + x][k], s[k]), "channel {k} at ({x},{y}) is {} instead of {}", out[y * ow + x][k], s[k]);
          }
        }
      }
    }
    Method::Mark1 | Method::Mark3 => {
      for i in 0..ow * oh {
        ensure!(out[i].iter().all(|v| v.is_finite()), "value at ({},{}) is not finite: {:?}", i % ow, i / ow, out[i]);
      }
      // a frame of averaged neighbours, inside it every measured sample is kept
      let f = if c.method == Method::Mark1 { 12 } else { 17 };
      for y in 0..oh {
        for x in 0..ow {
          let o = &out[y * ow + x];
          if y >= f && x >= f && y + f < oh && x + f < ow {
            let k = ch(y, x);
            if let Content::Ramp(dx, dy) = &c.content {
              // a grey ramp is reproduced by linear interpolation in any direction
              for j in 0..3 {
                ensure!((o[j] as f64 - at(y, x)).abs() < 1e-4 + 0.15 * (*dx as f64 + *dy as f64) / 4096.0, "grey ramp: channel {j} at ({x},{y}) is {} instead of {}", o[j], at(y, x));
              }
            }
            ensure!(close(o[k], at(y, x)), "measured channel {k} at ({x},{y}) is {} instead of {}", o[k], at(y, x));
          } else {
            let s = mean(y, x, 1);
            for k in 0..3 {
              ensure!(close(o[k], s[k]), "frame: channel {k} at ({x},{y}) is {} instead of {}", o[k], s[k]);
            }
          }
        }
      }
    }
  }
  if let Content::Flat(v) = &c.content {
    if ow >= 3 && oh >= 3 {
      for i in 0..ow * oh {
        for k in 0..n {
          let want = (v[k] % 4096) as f64 / 4096.0;
          // at the frame of a mosaic with 6x6 cells, a colour may not be in reach
          let (x, y) = (i % ow, i / ow);
          if m.n == 6 && (x < 2 || y < 2 || x + 2 >= ow || y + 2 >= oh) {
            continue;
          }
          ensure!((out[i][k] as f64 - want).abs() < 1e-4, "flat field: channel {k} at ({},{}) is {} instead of {want}", i % ow, i / ow, out[i][k]);
        }
      }
    }
  }
  // demosaicing a region equals demosaicing the cut out region
  let cut: Vec<f32> = (0..roi.2 * roi.3).map(|i| at(i / roi.2, i % roi.2) as f32).collect();
  let shifted: String = {
    let p: Vec<char> = pat.chars().collect();
    (0..p.len()).map(|i| p[((i / m.n + roi.1) % m.n) * m.n + (i % m.n + roi.0) % m.n]).collect()
  };
  let alone = demosaic(c.method, &PixF32::new_with(cut, roi.2, roi.3), &CFA::new(&shifted), &pc, (0, 0, roi.2, roi.3));
  ensure!((alone.0, alone.1) == (ow, oh), "size of the cut out region");
  for i in 0..ow * oh {
    ensure!(alone.2[i] == out[i], "region {roi:?} of the image and the cut out region differ at ({},{}): {:?} / {:?}", i % ow, i / ow, out[i], alone.2[i]);
  }
  let flat = match &c.content {
    Content::Samples(f) => f.is_flat(),
    Content::Ramp(a, b) => *a == 0 && *b == 0,
    _ => false,
  };
  let tag = format!("{:?}{}", c.method, if roi.0 % m.n != 0 || roi.1 % m.n != 0 { "/phase" } else { "" });
  if flat || ow * oh < 4 {
    Ok(trivial(tag))
  } else {
    Ok(nontrivial(tag))
  }
}

fn content() -> BoxedStrategy<Content> {
  prop_oneof![4 => fill().prop_map(Content::Samples), 2 => prop::array::uniform4(0..4096u16).prop_map(Content::Flat), 1 => (0..20u8, 0..20u8).prop_map(|(a, b)| Content::Ramp(a, b))].boxed()
}

fn main() {
  main_with(
    "C13",
    "cases: method, colour pattern phase, image size, region and content generated; result compared with a reference of the method (Markesteijn: measured samples, flat fields, region relation); non-trivial: content not constant and at least 4 result pixels; distinct by full case description",
    |r| {
      r.assume("regions hold at least one pattern cell for the methods that need one (2x2 for the 4 channel and superpixel methods, 6x6 for Markesteijn)");
      let small = || prop_oneof![3 => 1usize..14, 2 => 14usize..40];
      let mk = |method: Method, big: bool| {
        let d = if big { (6usize..150).boxed() } else { small().boxed() };
        let d2 = if big { (6usize..150).boxed() } else { small().boxed() };
        (any::<u8>(), d, d2, frac_rect(), prop::bool::weighted(0.25), content()).prop_map(move |(pat, w, h, roi, whole, content)| Case { method, pat, w, h, roi, whole, content })
      };
      for (name, method, q, t, big) in [
        ("ppg", Method::Ppg, 25000, 200000, false),
        ("bilinear4", Method::Bilinear4, 8000, 80000, false),
        ("superpixel3", Method::Super3, 3000, 60000, false),
        ("superpixel4", Method::Super4, 3000, 60000, false),
        ("xtrans_bilinear", Method::XBilinear, 8000, 80000, false),
        ("markesteijn1", Method::Mark1, 3000, 20000, true),
        ("markesteijn3", Method::Mark3, 2000, 15000, true),
      ] {
        let n = r.scale(q, t);
        r.check(name, n, || mk(method, big), run);
      }
    },
  )
}
