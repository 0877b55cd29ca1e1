//! Generated raw images, described compactly and shrinkably.
use crate::fill::{fill, Fill, Rng};
use proptest::prelude::*;
use rawler::cfa::PlaneColor;
use rawler::decoders::Camera;
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawimage::{BlackLevel, CFAConfig, RawPhotometricInterpretation, WhiteLevel};
use rawler::{RawImage, RawImageData, CFA};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
  Bayer(u8),
  XTrans(u8),
  Rgbe,
  Cygm,
  Linear3,
  Linear1,
  Mono,
}
pub const BAYER: [&str; 4] = ["RGGB", "GRBG", "GBRG", "BGGR"];
pub const XTRANS: &str = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";

impl Kind {
  pub fn pattern(&self) -> Option<String> {
    Some(match self {
      Kind::Bayer(i) => BAYER[*i as usize % 4].to_string(),
      Kind::XTrans(s) => {
        // a shifted pattern, computed here and not by the code under test
        let p: Vec<char> = XTRANS.chars().collect();
        let (dx, dy) = (*s as usize % 6, (*s as usize / 6) % 6);
        (0..36).map(|i| p[((i / 6 + dy) % 6) * 6 + (i % 6 + dx) % 6]).collect()
      }
      Kind::Rgbe => "RGEB".into(),
      Kind::Cygm => "GMYC".into(),
      _ => return None,
    })
  }
  pub fn pat_dim(&self) -> (usize, usize) {
    match self {
      Kind::XTrans(_) => (6, 6),
      Kind::Bayer(_) | Kind::Cygm | Kind::Rgbe => (2, 2),
      _ => (1, 1),
    }
  }
  pub fn cpp(&self) -> usize {
    if matches!(self, Kind::Linear3) {
      3
    } else {
      1
    }
  }
  /// Colour number (DNG numbering) at a photosite of the full image.
  pub fn color_at(&self, x: usize, y: usize) -> u8 {
    let (w, h) = self.pat_dim();
    let c = self.pattern().unwrap().chars().nth((y % h) * w + x % w).unwrap();
    match c {
      'R' => 0,
      'G' => 1,
      'B' => 2,
      'C' | 'E' => 3,
      'M' => 4,
      _ => 5,
    }
  }
  pub fn colors(&self) -> usize {
    match self {
      Kind::Cygm | Kind::Rgbe => 4,
      Kind::Mono | Kind::Linear1 => 1,
      _ => 3,
    }
  }
}

pub fn kind() -> BoxedStrategy<Kind> {
  prop_oneof![
    6 => (0..4u8).prop_map(Kind::Bayer),
    3 => (0..36u8).prop_map(Kind::XTrans),
    1 => Just(Kind::Rgbe),
    1 => Just(Kind::Cygm),
    3 => Just(Kind::Linear3),
    1 => Just(Kind::Linear1),
    2 => Just(Kind::Mono),
  ]
  .boxed()
}

pub fn illuminant(code: u16) -> Illuminant {
  Illuminant::try_from(code).expect("illuminant code")
}
pub const ILLUMINANTS: [u16; 20] = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24];

pub fn dim() -> BoxedStrategy<usize> {
  prop_oneof![
    4 => 1usize..40,
    2 => 40usize..140,
    3 => prop_oneof![Just(99usize), Just(100), Just(101), Just(102), Just(254), Just(255), Just(256), Just(257), Just(258), Just(300)],
    1 => prop_oneof![Just(511usize), Just(512), Just(513), Just(514), Just(600)],
  ]
  .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pix {
  pub kind: Kind,
  pub w: usize,
  pub h: usize,
  pub bps: u32,
  pub float: bool,
  pub fill: Fill,
}
pub fn pix() -> BoxedStrategy<Pix> {
  (kind(), dim(), dim(), prop_oneof![3 => 10..=16u32, 2 => Just(16u32), 1 => Just(14u32), 1 => 2..=9u32], prop::bool::weighted(0.12), fill())
    .prop_map(|(kind, w, h, bps, float, fill)| Pix { kind, w, h, bps, float, fill })
    .boxed()
}
impl Pix {
  pub fn ints(&self) -> Vec<u16> {
    self.fill.u16s(self.w * self.h * self.kind.cpp(), ((1u32 << self.bps) - 1) as u16)
  }
  pub fn floats(&self) -> Vec<f32> {
    let n = self.w * self.h * self.kind.cpp();
    match &self.fill {
      Fill::Random(s) => {
        let mut r = Rng::new(*s);
        (0..n)
          .map(|_| {
            let f = f32::from_bits(r.next() as u32);
            if f.is_nan() {
              0.5
            } else {
              f
            }
          })
          .collect()
      }
      f => f.u16s(n, 65535).into_iter().map(|v| v as f32 / 65535.0).collect(),
    }
  }
  pub fn camera(&self) -> Camera {
    let mut cam = Camera::default();
    cam.make = "Verif Make".into();
    cam.model = "Verif Model".into();
    cam.clean_make = "Verif".into();
    cam.clean_model = "Model 1".into();
    cam.real_bps = self.bps as usize;
    if let Some(p) = self.kind.pattern() {
      cam.cfa = CFA::new(&p);
      cam.plane_color = PlaneColor::new(match self.kind {
        Kind::Cygm => "GMCY",
        Kind::Rgbe => "RGBE",
        _ => "RGB",
      });
    }
    cam
  }
  pub fn photometric(&self) -> RawPhotometricInterpretation {
    match self.kind {
      Kind::Mono => RawPhotometricInterpretation::BlackIsZero,
      Kind::Linear1 | Kind::Linear3 => RawPhotometricInterpretation::LinearRaw,
      _ => RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&self.camera())),
    }
  }
  pub fn image(&self) -> RawImage {
    let data = if self.float { RawImageData::Float(self.floats()) } else { RawImageData::Integer(self.ints()) };
    let cpp = self.kind.cpp();
    RawImage::new_with_data(
      self.camera(),
      data,
      self.w * cpp,
      self.h,
      cpp,
      [2.0, 1.0, 1.5, 1.0],
      self.photometric(),
      Some(BlackLevel::zero(1, 1, cpp)),
      Some(WhiteLevel::new_bits(self.bps, cpp)),
      false,
    )
  }
}

/// A rectangle by fractions, materialised inside a given one.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct FracRect {
  pub l: u16,
  pub t: u16,
  pub r: u16,
  pub b: u16,
}
pub fn frac_rect() -> BoxedStrategy<FracRect> {
  let e = || prop_oneof![2 => 0..9u16, 1 => any::<u16>()];
  (e(), e(), e(), e()).prop_map(|(l, t, r, b)| FracRect { l, t, r, b }).boxed()
}
impl FracRect {
  /// x, y, w, h inside the outer rectangle, never empty
  pub fn within(&self, ox: usize, oy: usize, ow: usize, oh: usize) -> (usize, usize, usize, usize) {
    let l = self.l as usize % ow;
    let t = self.t as usize % oh;
    let w = (ow - l) - self.r as usize % (ow - l);
    let h = (oh - t) - self.b as usize % (oh - t);
    (ox + l, oy + t, w, h)
  }
}
pub fn rect(r: (usize, usize, usize, usize)) -> Rect {
  Rect::new(Point::new(r.0, r.1), Dim2::new(r.2, r.3))
}
