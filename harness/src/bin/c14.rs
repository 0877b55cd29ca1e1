//! C14: colour and tone mathematics follow their definitions.
use proptest::prelude::*;
use rawler::imgop::chromatic_adaption::{adapt_bradford, bradford_adaption_matrix};
use rawler::imgop::cielab::{lab_to_XYZ, lab_to_XYZ_inplace, XYZ_to_lab, XYZ_to_lab_inplace};
use rawler::imgop::develop::{Intermediate, ProcessingStep as S, RawDevelop};
use rawler::imgop::gamma::{apply_gamma, invert_gamma};
use rawler::imgop::matrix::*;
use rawler::imgop::raw::{clip_euclidean_norm_avg, clip_negative, clip_overflow, clip_range, mul_invert_array};
use rawler::imgop::spline::Spline;
use rawler::imgop::srgb::*;
use rawler::imgop::xyz::*;
use rawler::imgop::yuv::{interpolate_yuv, ycbcr_to_rgb};
use rawler::imgop::{
  clip, convert_from_f32_scaled_u16, convert_from_f32_unscaled_u16, convert_to_f32_scaled, convert_to_f32_unscaled, scale_double_to_u16, scale_double_to_u8,
  scale_u16_to_double, scale_u8_to_double, Point,
};
use rawler::rawimage::{BlackLevel, RawPhotometricInterpretation, WhiteLevel};
use rawler::{RawImage, RawImageData};
use serde::{Deserialize, Serialize};
use vh::fill::{fill, Fill, Rng};
use vh::rawgen::*;
use vh::*;

type M3 = [[f64; 3]; 3];

fn close(a: f64, b: f64, tol: f64) -> bool {
  (a - b).abs() <= tol
}
fn mul64<const A: usize>(a: &[[f64; 3]; A], b: &M3) -> [[f64; 3]; A] {
  let mut r = [[0.0; 3]; A];
  for i in 0..A {
    for j in 0..3 {
      for k in 0..3 {
        r[i][j] += a[i][k] * b[k][j];
      }
    }
  }
  r
}
fn up<const A: usize, const B: usize>(m: &[[f32; B]; A]) -> [[f64; B]; A] {
  m.map(|r| r.map(|v| v as f64))
}
fn inv3(m: &M3) -> Option<M3> {
  let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
    + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  if d.abs() < 1e-12 {
    return None;
  }
  let c = |a: usize, b: usize, c: usize, e: usize| m[a][b] * m[c][e];
  Some([
    [(c(1, 1, 2, 2) - c(1, 2, 2, 1)) / d, (c(0, 2, 2, 1) - c(0, 1, 2, 2)) / d, (c(0, 1, 1, 2) - c(0, 2, 1, 1)) / d],
    [(c(1, 2, 2, 0) - c(1, 0, 2, 2)) / d, (c(0, 0, 2, 2) - c(0, 2, 2, 0)) / d, (c(0, 2, 1, 0) - c(0, 0, 1, 2)) / d],
    [(c(1, 0, 2, 1) - c(1, 1, 2, 0)) / d, (c(0, 1, 2, 0) - c(0, 0, 2, 1)) / d, (c(0, 0, 1, 1) - c(0, 1, 1, 0)) / d],
  ])
}
fn maxabs(m: &[[f64; 3]]) -> f64 {
  m.iter().flatten().fold(0.0, |a: f64, v| a.max(v.abs()))
}
/// (MᵀM)⁻¹ and the product of its size with that of MᵀM, a bound for the condition
fn gram<const N: usize>(m: &[[f64; 3]; N]) -> Option<(M3, f64)> {
  let mut g = [[0.0; 3]; 3];
  for i in 0..3 {
    for j in 0..3 {
      g[i][j] = m.iter().map(|r| r[i] * r[j]).sum();
    }
  }
  let gi = inv3(&g)?;
  Some((gi, 9.0 * maxabs(&g) * maxabs(&gi)))
}
fn pinv64<const N: usize>(m: &[[f64; 3]; N]) -> Option<([[f64; N]; 3], f64)> {
  let (gi, cond) = gram(m)?;
  let mut r = [[0.0; N]; 3];
  for i in 0..3 {
    for n in 0..N {
      r[i][n] = (0..3).map(|k| gi[i][k] * m[n][k]).sum();
    }
  }
  Some((r, cond))
}

/// A camera matrix: every row mostly sees one primary.
fn cam_matrix(seed: u64, rows: usize) -> Vec<f32> {
  let mut r = Rng::new(seed);
  let mut v: Vec<f32> = (0..rows * 3).map(|_| r.f32() * 0.7 - 0.3).collect();
  for i in 0..rows {
    v[i * 3 + i % 3] += 0.7;
  }
  v.iter().map(|x| (x * 10000.0).round() / 10000.0).collect()
}

// ---------------------------------------------------------------- matrices

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lin {
  a: Vec<f32>,
  b: Vec<f32>,
}
fn small() -> impl Strategy<Value = f32> {
  prop_oneof![4 => -2.0f32..2.0, 1 => Just(0.0f32), 1 => Just(1.0f32), 1 => -1000.0f32..1000.0]
}
fn lin() -> impl Strategy<Value = Lin> {
  (prop::collection::vec(small(), 12), prop::collection::vec(small(), 12)).prop_map(|(a, b)| Lin { a, b })
}
fn arr<const R: usize, const C: usize>(v: &[f32]) -> [[f32; C]; R] {
  let mut r = [[0.0; C]; R];
  for i in 0..R * C {
    r[i / C][i % C] = v[i];
  }
  r
}
fn t_lin(c: &Lin) -> Outcome {
  let a: [[f32; 3]; 4] = arr(&c.a);
  let b: [[f32; 3]; 3] = arr(&c.b);
  let want = mul64(&up(&a), &up(&b));
  let got = multiply(&a, &b);
  let scale: f64 = 1.0 + c.a.iter().fold(0.0f32, |x, y| x.max(y.abs())) as f64 * c.b.iter().fold(0.0f32, |x, y| x.max(y.abs())) as f64;
  for i in 0..4 {
    for j in 0..3 {
      ensure!(close(got[i][j] as f64, want[i][j], 1e-5 * scale), "multiply: element {i},{j} is {} and not {}", got[i][j], want[i][j]);
    }
  }
  let v = [c.b[9], c.b[10], c.b[11]];
  let col: [[f32; 1]; 3] = [[v[0]], [v[1]], [v[2]]];
  let a3: [[f32; 3]; 3] = arr(&c.a);
  let (p, q) = (multiply(&a3, &col), multiply_row1(&a3, &v));
  for i in 0..3 {
    ensure!(close(p[i][0] as f64, q[i] as f64, 1e-5 * scale), "multiply_row1: component {i} is {} and not {}", q[i], p[i][0]);
  }
  let t: [[f32; 4]; 3] = transpose(&a);
  for i in 0..4 {
    for j in 0..3 {
      ensure!(t[j][i].to_bits() == a[i][j].to_bits(), "transpose: element {j},{i}");
    }
  }
  ensure_eq!(transpose(&t), a, "transpose twice");
  ensure_eq!(transform_2d(&a), c.a.clone(), "transform_2d");
  ensure_eq!(transform_1d::<4, 3>(&c.a), Some(a), "transform_1d 4x3");
  ensure_eq!(transform_1d::<3, 4>(&c.a), Some(arr(&c.a)), "transform_1d 3x4");
  ensure!(transform_1d::<3, 3>(&c.a).is_none(), "transform_1d of 12 values into 3x3");
  let n = normalize(a);
  for i in 0..4 {
    let sum: f64 = a[i].iter().map(|v| *v as f64).sum();
    let mag: f64 = a[i].iter().map(|v| v.abs() as f64).sum();
    if sum.abs() > 1e-3 * (1.0 + mag) {
      for j in 0..3 {
        ensure!(
          close(n[i][j] as f64, a[i][j] as f64 / sum, 1e-4 * (1.0 + mag / sum.abs()).powi(2)),
          "normalize: element {i},{j} is {} and not {}",
          n[i][j],
          a[i][j] as f64 / sum
        );
      }
    }
    if a[i] == [0.0; 3] {
      ensure_eq!(n[i], [0.0; 3], "normalize of a row of zeros");
    }
  }
  Ok(if want.iter().flatten().any(|v| *v != 0.0) { nontrivial("matrices") } else { trivial("zero") })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Inv {
  seed: u64,
}
fn t_inv(c: &Inv) -> Outcome {
  fn one<const N: usize>(seed: u64) -> std::result::Result<bool, String> {
    let m: [[f32; 3]; N] = arr(&cam_matrix(seed, N));
    let Some((want, cond)) = pinv64(&up(&m)) else { return Ok(false) };
    if cond > 3e3 {
      return Ok(false);
    }
    let got = pseudo_inverse(m);
    let big = want.iter().flatten().fold(0.0f64, |a, v| a.max(v.abs()));
    let tol = 1e-6 * cond * big + 1e-5;
    for i in 0..3 {
      for j in 0..N {
        ensure!(close(got[i][j] as f64, want[i][j], tol), "pseudo inverse of a {N}x3 matrix: element {i},{j} is {} and not {}", got[i][j], want[i][j]);
      }
    }
    let p = multiply(&got, &m);
    for i in 0..3 {
      for j in 0..3 {
        ensure!(close(p[i][j] as f64, f64::from(u8::from(i == j)), 4.0 * tol), "pseudo inverse times {N}x3 matrix: element {i},{j} is {}", p[i][j]);
      }
    }
    Ok(true)
  }
  let a = one::<3>(c.seed)?;
  let b = one::<4>(c.seed)?;
  Ok(if a || b { nontrivial("inverted") } else { trivial("ill-conditioned") })
}

// ---------------------------------------------------------------- tone curves

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Curve {
  v: Vec<f32>,
  gamma: f32,
}
fn unit() -> impl Strategy<Value = f32> {
  prop_oneof![5 => 0.0f32..1.0, 3 => 0.0f32..0.01, 1 => Just(0.0f32), 1 => Just(1.0f32), 2 => 0.0029f32..0.0033, 2 => 0.0385f32..0.041]
}
fn curve() -> impl Strategy<Value = Curve> {
  (prop::collection::vec(unit(), 1..12), 0.4f32..3.0).prop_map(|(v, gamma)| Curve { v, gamma })
}
fn t_curve(c: &Curve) -> Outcome {
  let fwd = |v: f64| if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 };
  let inv = |v: f64| if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
  let mut s = c.v.clone();
  s.sort_by(f32::total_cmp);
  let (mut pf, mut pi) = (-1.0f32, -1.0f32);
  for &v in &s {
    let (f, i) = (srgb_apply_gamma(v), srgb_invert_gamma(v));
    ensure!(close(f as f64, fwd(v as f64), 4e-5), "sRGB curve of {v} is {f}, defined as {}", fwd(v as f64));
    ensure!(close(i as f64, inv(v as f64), 4e-5), "inverse sRGB curve of {v} is {i}, defined as {}", inv(v as f64));
    let (fi, rf) = (srgb_invert_gamma(f), srgb_apply_gamma(i));
    ensure!(close(fi as f64, v as f64, 5e-6), "sRGB there and back of {v} is {fi}");
    ensure!(close(rf as f64, v as f64, 3e-5), "sRGB back and there of {v} is {rf}");
    ensure!(f >= pf - 1e-6, "sRGB curve is not monotone at {v}");
    ensure!(i >= pi - 3e-6, "inverse sRGB curve is not monotone at {v}");
    (pf, pi) = (f, i);
    let (g, h) = (apply_gamma(v, c.gamma), invert_gamma(v, c.gamma));
    ensure!(close(g as f64, (v as f64).powf(1.0 / c.gamma as f64), 1e-5), "gamma {} of {v} is {g}", c.gamma);
    ensure!(close(h as f64, (v as f64).powf(c.gamma as f64), 1e-5), "inverse gamma {} of {v} is {h}", c.gamma);
    ensure!(close(invert_gamma(g, c.gamma) as f64, v as f64, 1e-4), "gamma {} there and back of {v}", c.gamma);
  }
  ensure!(srgb_apply_gamma(0.0) == 0.0 && srgb_invert_gamma(0.0) == 0.0, "sRGB of zero");
  ensure!(close(srgb_apply_gamma(1.0) as f64, 1.0, 1e-6) && close(srgb_invert_gamma(1.0) as f64, 1.0, 1e-6), "sRGB of one");
  // whole buffers
  let (mut a, mut b) = (c.v.clone(), c.v.clone());
  srgb_apply_gamma_inplace(&mut a);
  srgb_invert_gamma_inplace(&mut b);
  for (k, v) in c.v.iter().enumerate() {
    ensure!(close(a[k] as f64, srgb_apply_gamma(*v) as f64, 1e-6), "buffer sRGB at {k}");
    ensure!(close(b[k] as f64, srgb_invert_gamma(*v) as f64, 1e-6), "buffer inverse sRGB at {k}");
    let n = srgb_apply_gamma_n([*v, 0.0, 1.0 - *v]);
    ensure!(close(n[0] as f64, a[k] as f64, 1e-6) && n[1] == 0.0 && close(n[2] as f64, srgb_apply_gamma(1.0 - *v) as f64, 1e-6), "pixel sRGB");
  }
  Ok(if c.v.iter().any(|v| *v > 0.0 && *v < 1.0) { nontrivial("curve") } else { trivial("ends only") })
}

// ---------------------------------------------------------------- sample conversion

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Samples {
  fill: Fill,
  n: usize,
  black: u16,
  white: u16,
  weird: u8,
}
fn samples() -> impl Strategy<Value = Samples> {
  (fill(), 1usize..200, prop_oneof![Just(0u16), 1..5000u16], prop_oneof![Just(65535u16), 6000..=65535u16], any::<u8>())
    .prop_map(|(fill, n, black, white, weird)| Samples { fill, n, black, white, weird })
}
fn t_samples(c: &Samples) -> Outcome {
  let v = c.fill.u16s(c.n, 65535);
  let u = convert_to_f32_unscaled(&v);
  ensure_eq!(u.len(), v.len(), "number of samples");
  let back = convert_from_f32_unscaled_u16(&u);
  ensure_eq!(back, v, "16 bit to float and back, unscaled");
  let above: Vec<u16> = v.iter().map(|x| (*x).max(c.black)).collect();
  let s = convert_to_f32_scaled(&above, c.black, c.white);
  for (k, x) in above.iter().enumerate() {
    let want = (*x as f64 - c.black as f64) / (c.white as f64 - c.black as f64);
    ensure!(close(s[k] as f64, want, 1e-6 * (1.0 + want)), "sample {x} scaled by black {} and white {} is {}, not {want}", c.black, c.white, s[k]);
  }
  let inr: Vec<u16> = above.iter().map(|x| (*x).min(c.white)).collect();
  let back = convert_from_f32_scaled_u16(&convert_to_f32_scaled(&inr, c.black, c.white), c.black, c.white);
  for (k, x) in inr.iter().enumerate() {
    ensure!((back[k] as i32 - *x as i32).abs() <= 1, "{x} scaled by black {} white {} and back is {}", c.black, c.white, back[k]);
  }
  ensure_eq!(convert_from_f32_scaled_u16(&[0.0, 1.0], c.black, c.white), vec![c.black, c.white], "ends of the scaled range");
  // floats to 16 bit: saturation, order
  let weird = [-1.0f32, -0.0, 0.25, 0.5, 1.0, 1.5, 70000.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
  let w = convert_from_f32_scaled_u16(&weird, 0, 65535);
  ensure_eq!((w[0], w[1], w[4], w[5], w[6], w[7], w[8], w[9]), (0, 0, 65535, 65535, 65535, 65535, 0, 0), "saturation");
  ensure!((16383..=16384).contains(&w[2]) && (32767..=32768).contains(&w[3]), "quarter and half");
  let f: Vec<f32> = {
    let mut r = Rng::new(c.weird as u64 | (c.n as u64) << 8);
    (0..c.n).map(|_| r.f32()).collect()
  };
  let g = convert_from_f32_scaled_u16(&f, 0, c.white);
  for (k, x) in f.iter().enumerate() {
    let want = *x as f64 * c.white as f64;
    ensure!(close(g[k] as f64, want, 1.01), "{x} scaled to {} is {}, not {want}", c.white, g[k]);
    let (a, b) = (scale_double_to_u16(*x), scale_double_to_u8(*x));
    ensure!(close(a as f64, *x as f64 * 65535.0, 1.01), "scale_double_to_u16({x}) is {a}");
    ensure!(close(b as f64, *x as f64 * 255.0, 1.01), "scale_double_to_u8({x}) is {b}");
  }
  for x in &v {
    let a = scale_u16_to_double(*x);
    ensure!(close(a as f64, *x as f64 / 65535.0, 1e-6), "scale_u16_to_double({x}) is {a}");
    ensure!((scale_double_to_u16(a) as i32 - *x as i32).abs() <= 1, "{x} to double and back");
    let y = (*x >> 8) as u8;
    let a = scale_u8_to_double(y);
    ensure!(close(a as f64, y as f64 / 255.0, 1e-6), "scale_u8_to_double({y}) is {a}");
    ensure!((scale_double_to_u8(a) as i32 - y as i32).abs() <= 1, "{y} to double and back");
  }
  let z = clip((c.black as f32 - 2000.0) / 1000.0, 0.0, 1.0);
  ensure!((0.0..=1.0).contains(&z) && clip_nan(), "clip");
  Ok(if v.iter().any(|x| *x != 0) { nontrivial("samples") } else { trivial("zero") })
}
fn clip_nan() -> bool {
  clip(f32::NAN, 0.25, 1.0) == 0.25 && clip(7.0, 0.25, 1.0) == 1.0
}

// ---------------------------------------------------------------- white adaption

const SUPPORTED: [u16; 9] = [1, 4, 17, 18, 19, 20, 21, 22, 23];
fn white(code: u16) -> [f64; 3] {
  // CIE 1931 2° tristimulus values; daylight as D65, flash as D55
  match code {
    17 => [1.0985, 1.0, 0.35585],
    18 => [0.99072, 1.0, 0.85223],
    19 => [0.98074, 1.0, 1.18232],
    23 => [0.96422, 1.0, 0.82521],
    4 | 20 => [0.95682, 1.0, 0.92149],
    1 | 21 => [0.95047, 1.0, 1.08883],
    _ => [0.94972, 1.0, 1.22638],
  }
}
const BRADFORD: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
fn app(m: &M3, v: &[f64; 3]) -> [f64; 3] {
  [0, 1, 2].map(|i| (0..3).map(|k| m[i][k] * v[k]).sum())
}
/// adaption of XYZ values from one white to another
fn bradford64(src: u16, dst: u16) -> M3 {
  let (s, d) = (app(&BRADFORD, &white(src)), app(&BRADFORD, &white(dst)));
  let mut g = [[0.0; 3]; 3];
  for i in 0..3 {
    g[i][i] = d[i] / s[i];
  }
  mul64(&mul64(&inv3(&BRADFORD).unwrap(), &g), &BRADFORD)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Adapt {
  src: u16,
  dst: u16,
  seed: u64,
}
fn adapt() -> impl Strategy<Value = Adapt> {
  (prop::sample::select(SUPPORTED.to_vec()), prop::sample::select(SUPPORTED.to_vec()), any::<u64>()).prop_map(|(src, dst, seed)| Adapt { src, dst, seed })
}
fn t_adapt(c: &Adapt) -> Outcome {
  let (s, d) = (illuminant(c.src), illuminant(c.dst));
  let m = up(&bradford_adaption_matrix(&s, &d));
  let want = bradford64(c.src, c.dst);
  for i in 0..3 {
    for j in 0..3 {
      ensure!(close(m[i][j], want[i][j], 2e-5), "adaption {s:?} to {d:?}: element {i},{j} is {} and not {}", m[i][j], want[i][j]);
    }
  }
  let w = app(&m, &white(c.src));
  for i in 0..3 {
    ensure!(close(w[i], white(c.dst)[i], 2e-5), "adaption maps the white of {s:?} to {w:?} and not to that of {d:?}");
  }
  let back = mul64(&up(&bradford_adaption_matrix(&d, &s)), &m);
  for i in 0..3 {
    for j in 0..3 {
      ensure!(close(back[i][j], f64::from(u8::from(i == j)), 2e-4), "adaption {s:?} to {d:?} and back is not the identity");
    }
  }
  // A camera matrix for another illuminant: white still gives the same camera values.
  let cm: [[f32; 3]; 3] = arr(&cam_matrix(c.seed, 3));
  let am = adapt_bradford(&s, &d, &cm);
  let (a, b) = (app(&up(&cm), &white(c.src)), app(&up(&am), &white(c.dst)));
  let full = mul64(&up(&cm), &bradford64(c.dst, c.src));
  for i in 0..3 {
    ensure!(close(a[i], b[i], 2e-4), "camera sees the white of {s:?} as {a:?} but with the matrix adapted to {d:?} the white of {d:?} as {b:?}");
    for j in 0..3 {
      ensure!(close(am[i][j] as f64, full[i][j], 2e-4), "adapted camera matrix {s:?} to {d:?}: element {i},{j} is {} and not {}", am[i][j], full[i][j]);
    }
  }
  Ok(if white(c.src) != white(c.dst) { nontrivial("two whites") } else { trivial("same white") })
}

// ---------------------------------------------------------------- CIELAB, xyY

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lab {
  xyz: [f32; 3],
  white: u16,
  x: f32,
  y: f32,
  seed: u64,
}
fn lab() -> impl Strategy<Value = Lab> {
  let v = || prop_oneof![6 => 0.0f32..1.2, 3 => 0.0f32..0.02, 1 => Just(0.0f32), 1 => 0.0085f32..0.0092];
  ((v(), v(), v()), prop::sample::select(SUPPORTED.to_vec()), 0.05f32..0.7, 0.05f32..0.7, any::<u64>()).prop_map(|((a, b, c), white, x, y, seed)| Lab {
    xyz: [a, b, c],
    white,
    x,
    y,
    seed,
  })
}
fn t_lab(c: &Lab) -> Outcome {
  let w64 = white(c.white);
  let w = w64.map(|v| v as f32);
  let f = |t: f64| if t > 216.0 / 24389.0 { t.cbrt() } else { (24389.0 / 27.0 * t + 16.0) / 116.0 };
  let [fx, fy, fz] = [0, 1, 2].map(|i| f(c.xyz[i] as f64 / w64[i]));
  let want = [116.0 * fy - 16.0, 500.0 * (fx - fy), 200.0 * (fy - fz)];
  let got = XYZ_to_lab(&c.xyz, &w);
  for i in 0..3 {
    ensure!(close(got[i] as f64, want[i], 2e-3), "CIELAB of {:?} is {got:?}, defined as {want:?}", c.xyz);
  }
  let back = lab_to_XYZ(&got, &w);
  for i in 0..3 {
    ensure!(close(back[i] as f64, c.xyz[i] as f64, 1e-5), "XYZ {:?} to CIELAB and back is {back:?}", c.xyz);
  }
  let g = |t: f64| if t.powi(3) > 216.0 / 24389.0 { t.powi(3) } else { (116.0 * t - 16.0) / (24389.0 / 27.0) };
  let (yr, a, b) = ((want[0] + 16.0) / 116.0, want[1], want[2]);
  let want = [g(a / 500.0 + yr) * w64[0], g(yr) * w64[1], g(yr - b / 200.0) * w64[2]];
  for i in 0..3 {
    ensure!(close(back[i] as f64, want[i], 1e-4), "XYZ of CIELAB {got:?} is {back:?}, defined as {want:?}");
  }
  let mut p = c.xyz;
  XYZ_to_lab_inplace(&mut p, &w);
  ensure!((0..3).all(|i| close(p[i] as f64, got[i] as f64, 1e-4)), "in place CIELAB");
  lab_to_XYZ_inplace(&mut p, &w);
  ensure!((0..3).all(|i| close(p[i] as f64, back[i] as f64, 1e-4)), "in place XYZ");
  let wl = XYZ_to_lab(&w, &w);
  ensure!(close(wl[0] as f64, 100.0, 1e-3) && close(wl[1] as f64, 0.0, 1e-3) && close(wl[2] as f64, 0.0, 1e-3), "white is {wl:?}");
  // xyY and white balance from a white point
  let (x, y, yy) = (c.x as f64, c.y as f64, c.xyz[1]);
  let t = xyY_to_XYZ(c.x, c.y, yy);
  let want = [x * yy as f64 / y, yy as f64, (1.0 - x - y) * yy as f64 / y];
  for i in 0..3 {
    ensure!(close(t[i] as f64, want[i], 1e-4 * (1.0 + want[i].abs())), "XYZ of xyY {x} {y} {yy} is {t:?} and not {want:?}");
  }
  let sum: f64 = t.iter().map(|v| *v as f64).sum();
  if sum > 1e-3 {
    ensure!(close(t[0] as f64 / sum, x, 1e-3) && close(t[1] as f64 / sum, y, 1e-3), "chromaticity of {t:?} is not {x}, {y}");
  }
  let cm: [[f32; 3]; 3] = arr(&cam_matrix(c.seed, 3));
  let wb = xy_whitepoint_to_wb_coeff(c.x, c.y, &cm);
  let seen = app(&up(&cm), &[x / y, 1.0, (1.0 - x - y) / y]);
  for i in 0..3 {
    if seen[i] > 1e-2 {
      ensure!(close(wb[i] as f64 * seen[i], 1.0, 1e-3), "white balance {wb:?} does not neutralise the white point {x}, {y} seen as {seen:?}");
    } else if seen[i] < -1e-3 {
      ensure!(wb[i] == 0.0, "white balance of an unseen channel is {}", wb[i]);
    }
  }
  let q = [1.5f32, c.x, 0.25 + c.y, 4.0];
  let inv = mul_invert_array(&q);
  ensure!((0..4).all(|i| close(inv[i] as f64 * q[i] as f64, 1.0, 1e-5)), "reciprocal of {q:?} is {inv:?}");
  Ok(nontrivial(if c.xyz.iter().any(|v| *v < 0.0089) { "linear part" } else { "cube root part" }))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Illu {
  code: u16,
}
const NAMES: [(u16, &str); 20] = [
  (0, "Unknown"), (1, "Daylight"), (2, "Fluorescent"), (3, "Tungsten"), (4, "Flash"), (9, "FineWeather"), (10, "CloudyWeather"), (11, "Shade"),
  (12, "DaylightFluorescent"), (13, "DaylightWhiteFluorescent"), (14, "CoolWhiteFluorescent"), (15, "WhiteFluorescent"), (17, "A"), (18, "B"),
  (19, "C"), (20, "D55"), (21, "D65"), (22, "D75"), (23, "D50"), (24, "IsoStudioTungsten"),
];
fn t_illu(c: &Illu) -> Outcome {
  match (NAMES.iter().find(|n| n.0 == c.code), Illuminant::try_from(c.code)) {
    (Some((_, name)), Ok(i)) => {
      ensure_eq!(u16::from(i), c.code, "code of {i:?}");
      ensure_eq!(Illuminant::new_from_str(name), Ok(i), "illuminant named {name}");
      Ok(nontrivial("known"))
    }
    (None, Err(_)) => Ok(trivial("unknown code")),
    (a, b) => Err(format!("illuminant code {}: expected {a:?}, got {b:?}", c.code)),
  }
}

// ---------------------------------------------------------------- clipping

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Clip {
  p: [f32; 4],
  lo: f32,
  hi: f32,
}
fn clips() -> impl Strategy<Value = Clip> {
  let v = || prop_oneof![4 => -0.5f32..2.5, 3 => 0.0f32..1.0, 1 => Just(0.0f32), 1 => Just(1.0f32)];
  ((v(), v(), v(), v()), -0.5f32..0.4, 0.4f32..1.5).prop_map(|(p, lo, hi)| Clip { p: [p.0, p.1, p.2, p.3], lo, hi })
}
/// the documented three steps
fn norm_avg(p: &[f64; 3]) -> [f64; 3] {
  let p = p.map(|v| v.max(0.0));
  let m = p.iter().cloned().fold(0.0, f64::max);
  if m <= 1.0 {
    return p;
  }
  let e = (p.iter().map(|v| v * v).sum::<f64>() / 3.0).sqrt();
  p.map(|v| (v / m + e) / 2.0)
}
fn t_clip(c: &Clip) -> Outcome {
  for i in 0..4 {
    let p = c.p[i];
    ensure_eq!(clip_negative(&c.p)[i], p.max(0.0), "clip_negative");
    ensure_eq!(clip_overflow(&c.p)[i], p.min(1.0), "clip_overflow");
    ensure_eq!(rawler::imgop::raw::clip(&c.p)[i], p.clamp(0.0, 1.0), "clip");
    ensure_eq!(clip_range(&c.p, c.lo, c.hi)[i], p.clamp(c.lo, c.hi), "clip_range");
  }
  let q = [c.p[0], c.p[1], c.p[2]];
  let got = clip_euclidean_norm_avg(&q);
  let want = norm_avg(&q.map(f64::from));
  for i in 0..3 {
    ensure!(close(got[i] as f64, want[i], 1e-5), "highlight clipping of {q:?} is {got:?} and not {want:?}");
  }
  Ok(nontrivial(if q.iter().any(|v| *v > 1.0) { "highlight" } else if q.iter().any(|v| *v < 0.0) { "negative" } else { "inside" }))
}

// ---------------------------------------------------------------- calibration

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Calib {
  cpp4: bool,
  w: usize,
  h: usize,
  data: u64,
  /// 0: around grey, 1: whole range, 2: the white
  range: u8,
  /// illuminant codes and seeds of their matrices
  mats: Vec<(u16, u64)>,
  wb: Option<[f32; 4]>,
  wb_step: bool,
  srgb: bool,
}
fn calib() -> impl Strategy<Value = Calib> {
  (
    prop::bool::weighted(0.3),
    1usize..12,
    1usize..12,
    any::<u64>(),
    0..3u8,
    prop::collection::vec((prop::sample::select(SUPPORTED.to_vec()), any::<u64>()), 0..4),
    prop::option::weighted(0.8, (0.3f32..3.0, 0.3f32..3.0, 0.3f32..3.0, 0.3f32..3.0).prop_map(|(a, b, c, d)| [a, b, c, d])),
    any::<bool>(),
    prop::bool::weighted(0.3),
  )
    .prop_map(|(cpp4, w, h, data, range, mats, wb, wb_step, srgb)| Calib { cpp4, w, h, data, range, mats, wb, wb_step, srgb })
}
const SRGB64: M3 = [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]];
const ORDER: [u16; 9] = [21, 17, 18, 19, 23, 20, 22, 1, 4];

fn t_calib(c: &Calib) -> Outcome {
  let n = if c.cpp4 { 4 } else { 3 };
  let mut mats: Vec<(u16, u64)> = vec![];
  for m in &c.mats {
    if !mats.iter().any(|x| x.0 == m.0) {
      mats.push(*m);
    }
  }
  // four channel calibration knows no adaption and no identity matrix
  if c.cpp4 && !mats.iter().any(|m| m.0 == 21) {
    mats.push((21, c.data ^ 5));
  }
  let mut r = Rng::new(c.data);
  let mut px: Vec<f32> = (0..c.w * c.h * n)
    .map(|_| match c.range {
      0 => 0.3 + 0.2 * r.f32(),
      1 => r.f32(),
      _ => 1.0,
    })
    .collect();
  let wb = c.wb.map(|w| if n == 3 { [w[0], w[1], w[2], f32::NAN] } else { w });
  let wbe: [f64; 4] = match (wb, c.wb_step) {
    (Some(w), true) => w.map(f64::from),
    _ => [1.0; 4],
  };
  if c.range == 2 {
    // what the camera sees of a white surface
    for (i, v) in px.iter_mut().enumerate() {
      *v = (1.0 / wbe[i % n]) as f32;
    }
  }
  let cam = Pix { kind: Kind::Linear3, w: c.w, h: c.h, bps: 16, float: true, fill: Fill::Const(0) }.camera();
  let mut img = RawImage::new_with_data(
    cam,
    RawImageData::Float(px.clone()),
    c.w * n,
    c.h,
    n,
    wb.unwrap_or([f32::NAN; 4]),
    RawPhotometricInterpretation::LinearRaw,
    Some(BlackLevel::zero(1, 1, n)),
    Some(WhiteLevel(vec![1; n])),
    false,
  );
  img.color_matrix = mats.iter().map(|(k, s)| (illuminant(*k), cam_matrix(*s, n))).collect();
  let mut steps = vec![S::Calibrate];
  if c.wb_step {
    steps.push(S::WhiteBalance);
  }
  if c.srgb {
    steps.push(S::SRgb);
  }
  let best = ORDER.iter().find_map(|o| mats.iter().find(|m| m.0 == *o));
  // reference
  let (c2r, cond): (Vec<Vec<f64>>, f64) = if n == 4 {
    let m: [[f32; 3]; 4] = arr(&cam_matrix(best.unwrap().1, 4));
    let mut p = mul64(&up(&m), &SRGB64);
    p.iter_mut().for_each(|row| {
      let s: f64 = row.iter().sum();
      row.iter_mut().for_each(|v| *v /= s)
    });
    let Some((q, k)) = pinv64(&p) else { return Ok(trivial("singular")) };
    (q.iter().map(|r| r.to_vec()).collect(), k)
  } else {
    let mut m: M3 = match best {
      Some((_, s)) => up(&arr(&cam_matrix(*s, 3))),
      None => [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    };
    if let Some((code, _)) = best {
      if *code != 21 {
        m = mul64(&m, &bradford64(21, *code));
      }
    }
    let mut p = mul64(&m, &SRGB64);
    p.iter_mut().for_each(|row| {
      let s: f64 = row.iter().sum();
      row.iter_mut().for_each(|v| *v /= s)
    });
    let (Some(q), Some((_, k))) = (inv3(&p), gram(&p)) else { return Ok(trivial("singular")) };
    (q.iter().map(|r| r.to_vec()).collect(), k)
  };
  if cond.is_nan() || cond > 2e3 {
    return Ok(trivial("ill-conditioned"));
  }
  let out = RawDevelop::new_with(&steps).develop_intermediate(&img).map_err(|e| format!("develop failed: {e}"))?;
  let Intermediate::ThreeColor(out) = out else { return Err("the result has not three colours".into()) };
  ensure_eq!((out.width, out.height), (c.w, c.h), "dimension");
  let big = c2r.iter().flatten().fold(1.0f64, |a, v| a.max(v.abs()));
  for (k, got) in out.pixels().iter().enumerate() {
    let lin: [f64; 3] = [0, 1, 2].map(|i| (0..n).map(|j| c2r[i][j] * px[k * n + j] as f64 * wbe[j]).sum());
    let mx = lin.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    let tol = 3e-6 * cond * big * (1.0 + mx) + 1e-4;
    if !c.srgb {
      // the clipping has a jump where the largest component reaches one
      let top = lin.iter().cloned().fold(0.0, f64::max);
      if (top - 1.0).abs() > tol {
        let want = norm_avg(&lin);
        for i in 0..3 {
          ensure!(close(got[i] as f64, want[i], tol), "pixel {k} ({:?}) becomes {got:?} and not {want:?} (matrix of {:?})", &px[k * n..k * n + n], best.map(|b| illuminant(b.0)));
        }
      }
    } else {
      let top = lin.iter().cloned().fold(0.0, f64::max);
      if (top - 1.0).abs() > tol {
        let f = |v: f64| if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 };
        let want = norm_avg(&lin);
        for i in 0..3 {
          let (lo, hi) = (f((want[i] - tol).max(0.0)), f(want[i] + tol));
          ensure!(got[i] as f64 >= lo - 5e-5 && got[i] as f64 <= hi + 5e-5, "sRGB pixel {k} is {got:?} and not {:?}", want.map(f));
        }
      }
    }
    if c.range == 2 {
      for i in 0..3 {
        ensure!(close(got[i] as f64, 1.0, 2.0 * tol + 1e-3), "white becomes {got:?}");
      }
    }
  }
  Ok(nontrivial(match best {
    None => "no matrix",
    Some((21, _)) if n == 4 => "D65 four channels",
    Some((21, _)) => "D65",
    _ => "adapted",
  }))
}

// ---------------------------------------------------------------- YCbCr

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Yuv {
  w: usize,
  h: usize,
  sh: usize,
  sv: usize,
  fill: Fill,
}
fn yuv() -> impl Strategy<Value = Yuv> {
  (1usize..20, 1usize..14, prop_oneof![Just((1usize, 1usize)), Just((2, 1)), Just((2, 2))], fill()).prop_map(|(w, h, (sh, sv), fill)| Yuv { w: w * 2, h: h * 2, sh, sv, fill })
}
/// As the decoders leave it: chroma of a block repeated for its pixels.
fn subsampled(c: &Yuv) -> Vec<u16> {
  let v = c.fill.u16s(c.w * c.h * 3, 32767);
  let mut o = v.clone();
  for y in 0..c.h {
    for x in 0..c.w {
      let (bx, by) = (x / c.sh * c.sh, y / c.sv * c.sv);
      for k in 1..3 {
        o[(y * c.w + x) * 3 + k] = v[(by * c.w + bx) * 3 + k];
      }
    }
  }
  o
}
fn full_chroma(c: &Yuv, src: &[u16], x: usize, y: usize, k: usize) -> u16 {
  let at = |x: usize, y: usize| src[(y * c.w + x) * 3 + k] as u32;
  let row = |y: usize| {
    if c.sh == 2 && x % 2 == 1 && x + 1 < c.w {
      (at(x - 1, y) + at(x + 1, y) + 1) / 2
    } else {
      at(x, y)
    }
  };
  (if c.sv == 2 && y % 2 == 1 && y + 1 < c.h { (row(y - 1) + row(y + 1) + 1) / 2 } else { row(y) }) as u16
}
/// The listed finding: rows are taken in groups of three and the middle one is replaced.
fn chunk_chroma(c: &Yuv, src: &[u16], x: usize, y: usize, k: usize) -> u16 {
  let flat = Yuv { sv: 1, ..c.clone() };
  let row = |y: usize| full_chroma(&flat, src, x, y, k) as u32;
  (if y % 3 == 1 && y + 1 < c.h { (row(y - 1) + row(y + 1) + 1) / 2 } else { row(y) }) as u16
}
fn t_yuv(c: &Yuv) -> Outcome {
  let src = subsampled(c);
  let mut got = src.clone();
  interpolate_yuv(c.sh, c.sv, c.w * 3, c.h, &mut got);
  for y in 0..c.h {
    for x in 0..c.w {
      let i = (y * c.w + x) * 3;
      ensure_eq!(got[i], src[i], "luma at {x},{y} is changed");
      for k in 1..3 {
        let want = full_chroma(c, &src, x, y, k);
        if c.sv == 2 && y >= 3 {
          // Listed finding of yuv_420: the listed result or the correct one.
          let listed = chunk_chroma(c, &src, x, y, k);
          ensure!(got[i + k] == want || got[i + k] == listed, "chroma {k} at {x},{y} is {} and not {want} (nor {listed})", got[i + k]);
        } else {
          ensure!(got[i + k] == want, "chroma {k} at {x},{y} is {} and not {want}", got[i + k]);
        }
      }
    }
  }
  Ok(if c.sh == 1 || c.w < 3 || c.fill.is_flat() { trivial("nothing to interpolate") } else { nontrivial(format!("{}x{}", c.sh, c.sv)) })
}
fn t_yuv420(c: &Yuv) -> Outcome {
  let src = subsampled(c);
  let mut got = src.clone();
  interpolate_yuv(c.sh, c.sv, c.w * 3, c.h, &mut got);
  for y in 0..c.h {
    for x in 0..c.w {
      for k in 1..3 {
        let i = (y * c.w + x) * 3 + k;
        let want = full_chroma(c, &src, x, y, k);
        if got[i] != want {
          return Err(format!("4:2:0 chroma from row {y} is not interpolated between its neighbours ({} and not {want})", got[i]));
        }
      }
    }
  }
  Ok(nontrivial("4:2:0"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ycc {
  px: Vec<[u16; 3]>,
}
fn t_ycc(c: &Ycc) -> Outcome {
  let mut b: Vec<u16> = c.px.iter().flatten().copied().collect();
  ycbcr_to_rgb(&mut b);
  let mut grey = false;
  for (k, p) in c.px.iter().enumerate() {
    let (y, cb, cr) = (p[0] as f64, p[1] as f64 - 16383.0, p[2] as f64 - 16383.0);
    let want = [y + 1.4 * cr, y - 0.343 * cb - 0.711 * cr, y + 1.765 * cb];
    for i in 0..3 {
      ensure!(close(b[k * 3 + i] as f64, want[i].clamp(0.0, 65535.0), 1.05), "YCbCr {p:?} becomes {:?} and not {want:?}", &b[k * 3..k * 3 + 3]);
    }
    if p[1] == 16383 && p[2] == 16383 {
      grey = true;
      ensure_eq!(&b[k * 3..k * 3 + 3], &[p[0]; 3][..], "a pixel without chroma is not grey");
    }
  }
  Ok(nontrivial(if grey { "with grey" } else { "chroma" }))
}

// ---------------------------------------------------------------- spline

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Spl {
  pts: Vec<(u16, u16)>,
}
fn t_spline(c: &Spl) -> Outcome {
  let mut xs: Vec<(u16, u16)> = c.pts.clone();
  xs.sort();
  xs.dedup_by_key(|p| p.0);
  if xs[0].0 != 0 {
    xs.insert(0, (0, 3));
  }
  if xs.last().unwrap().0 != 65535 {
    xs.push((65535, 60000));
  }
  // well separated control points, as curves of cameras have
  let mut pts = vec![xs[0]];
  for p in &xs[1..xs.len() - 1] {
    if p.0 - pts.last().unwrap().0 > 1000 && 65535 - p.0 > 1000 {
      pts.push(*p);
    }
  }
  pts.push(*xs.last().unwrap());
  let cp: Vec<Point> = pts.iter().map(|p| Point::new(p.0 as usize, p.1 as usize)).collect();
  let curve = Spline::new(&cp).calculate_curve();
  ensure_eq!(curve.len(), 65536, "entries of the curve");
  for p in &pts {
    ensure!((curve[p.0 as usize] as i32 - p.1 as i32).abs() <= 8, "the curve misses its control point {p:?}: {}", curve[p.0 as usize]);
  }
  if pts.len() == 2 {
    for x in (0..65536usize).step_by(257) {
      let want = pts[0].1 as f64 + (pts[1].1 as f64 - pts[0].1 as f64) * x as f64 / 65535.0;
      ensure!(close(curve[x] as f64, want, 2.0), "line between two points at {x}: {} and not {want}", curve[x]);
    }
  }
  Ok(if pts.len() > 2 { nontrivial("curve") } else { nontrivial("line") })
}

fn main() {
  main_with("C14", "a case is non-trivial when the values are not all at the trivial ends (zero, identity, flat, ill-conditioned and therefore not judged)", |r| {
    r.check("matrix", r.scale(20000, 400000), lin, t_lin);
    r.check("inverse", r.scale(20000, 400000), || any::<u64>().prop_map(|seed| Inv { seed }), t_inv);
    r.check("curve", r.scale(20000, 400000), curve, t_curve);
    r.check("samples", r.scale(5000, 100000), samples, t_samples);
    let mut all = vec![];
    for src in SUPPORTED {
      for dst in SUPPORTED {
        all.push(Adapt { src, dst, seed: (src * 100 + dst) as u64 });
      }
    }
    r.enumerate("adapt_pairs", all, true, t_adapt);
    r.check("adapt", r.scale(10000, 200000), adapt, t_adapt);
    r.enumerate("illuminants", (0..=65535u16).map(|code| Illu { code }).collect(), true, t_illu);
    r.check("lab", r.scale(20000, 400000), lab, t_lab);
    r.check("clip", r.scale(20000, 400000), clips, t_clip);
    r.check("calibrate", r.scale(6000, 150000), calib, t_calib);
    r.check("yuv", r.scale(4000, 80000), yuv, t_yuv);
    r.enumerate("yuv_420", (0..16).map(|i| Yuv { w: 4 + 2 * (i % 3), h: 6 + 2 * i, sh: 2, sv: 2, fill: Fill::Random(i as u64) }).collect(), false, t_yuv420);
    r.check(
      "ycbcr",
      r.scale(10000, 200000),
      || prop::collection::vec((any::<u16>(), prop_oneof![Just(16383u16), any::<u16>()], prop_oneof![Just(16383u16), any::<u16>()]).prop_map(|(a, b, c)| [a, b, c]), 1..20).prop_map(|px| Ycc { px }),
      t_ycc,
    );
    r.check("spline", r.scale(600, 20000), || prop::collection::vec((any::<u16>(), any::<u16>()), 1..9).prop_map(|pts| Spl { pts }), t_spline);
    r.assume("floating point results are compared with double precision references within a tolerance scaled by the condition of the input");
    r.assume("illuminants without tristimulus values in the code (fluorescent etc.) are outside of the adaption check");
  })
}
