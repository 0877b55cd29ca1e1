//! Pictures inside raw files: previews and thumbnails.
use crate::fill::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pic {
  pub w: u32,
  pub h: u32,
  /// JPEG or plain samples, where the container has both
  pub jpeg: bool,
  pub gray: bool,
  /// smooth gradients instead of noise
  pub smooth: bool,
  pub seed: u64,
}
pub fn pic() -> impl Strategy<Value = Pic> {
  let side = || prop_oneof![4 => 1..=40u32, 4 => 20..=320u32];
  let size = prop_oneof![12 => (side(), side()), 1 => (1000..=1400u32, 8..=60u32), 1 => (1..=40u32, 700..=1100u32)];
  (size, prop::bool::weighted(0.7), prop::bool::weighted(0.15), prop::bool::weighted(0.8), any::<u64>()).prop_map(|((w, h), jpeg, gray, smooth, seed)| Pic { w, h, jpeg, gray, smooth, seed })
}

/// Size, samples per pixel and samples of a picture.
#[derive(Debug, Clone, PartialEq)]
pub struct Shown {
  pub w: usize,
  pub h: usize,
  pub spp: usize,
  pub px: Vec<u8>,
}
impl Shown {
  pub fn rgb(&self, x: usize, y: usize) -> [u8; 3] {
    let i = (y * self.w + x) * self.spp;
    if self.spp == 1 { [self.px[i]; 3] } else { [self.px[i], self.px[i + 1], self.px[i + 2]] }
  }
  pub fn cut(&self, x0: usize, y0: usize, w: usize, h: usize) -> Shown {
    let mut px = vec![];
    for y in y0..y0 + h {
      px.extend(&self.px[(y * self.w + x0) * self.spp..(y * self.w + x0 + w) * self.spp]);
    }
    Shown { w, h, spp: self.spp, px }
  }
}

impl Pic {
  pub fn samples(&self, gray: bool) -> Shown {
    let (w, h) = (self.w as usize, self.h as usize);
    let mut r = Rng::new(self.seed);
    let spp = if gray { 1 } else { 3 };
    if !self.smooth {
      return Shown { w, h, spp, px: r.bytes(w * h * spp) };
    }
    let (b, fx, fy) = (r.below(256) as i64, r.bool(), r.bool());
    let ramp = |i: usize, n: usize, back: bool| {
      // small pictures must be smooth too
      let top = 255.min(6 * n as i64);
      let v = i as i64 * top / (n as i64 - 1).max(1);
      if back { top - v } else { v }
    };
    let mut px = vec![];
    for y in 0..h {
      for x in 0..w {
        let v = [ramp(x, w, fx), ramp(y, h, fy), b];
        if gray { px.push(((v[0] + v[1]) / 2) as u8) } else { px.extend(v.map(|v| v as u8)) }
      }
    }
    Shown { w, h, spp, px }
  }
  /// The coded picture and what it shows.
  pub fn coded(&self) -> (Vec<u8>, Shown) {
    let s = self.samples(self.gray);
    let q = 50 + (self.seed >> 20) as u8 % 50;
    let mut out = vec![];
    let kind = if self.gray { image::ExtendedColorType::L8 } else { image::ExtendedColorType::Rgb8 };
    image::codecs::jpeg::JpegEncoder::new_with_quality(&mut out, q).encode(&s.px, s.w as u32, s.h as u32, kind).expect("JPEG");
    let d = image::load_from_memory_with_format(&out, image::ImageFormat::Jpeg).expect("JPEG");
    (out, shown(&d).expect("8 bit"))
  }
}

/// 8 bit pictures only.
pub fn shown(d: &image::DynamicImage) -> Option<Shown> {
  let (w, h) = (d.width() as usize, d.height() as usize);
  match d {
    image::DynamicImage::ImageLuma8(i) => Some(Shown { w, h, spp: 1, px: i.as_raw().clone() }),
    image::DynamicImage::ImageRgb8(i) => Some(Shown { w, h, spp: 3, px: i.as_raw().clone() }),
    _ => None,
  }
}
