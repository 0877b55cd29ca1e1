//! C15: image geometry operations move pixels, never change them.
use proptest::prelude::*;
use rawler::cfa::{CFAColor, PlaneColor};
use rawler::formats::tiff::Value;
use rawler::imgop::develop::{Intermediate, ProcessingStep as S, RawDevelop};
use rawler::imgop::raw::rotate_90;
use rawler::imgop::{crop, Dim2, Point, Rect};
use rawler::pixarray::{Color2D, Pix2D};
use rawler::rawimage::BlackLevel;
use rawler::tiles::{ImageTiler, TilesMut};
use rawler::{Orientation, CFA};
use serde::{Deserialize, Serialize};
use vh::fill::{Fill, Rng};
use vh::rawgen::*;
use vh::*;

/// A value that tells where it comes from.
fn mark(x: usize, y: usize, c: usize) -> u16 {
  ((x * 7 + y * 641 + c * 12343) % 65521) as u16
}
fn edge() -> impl Strategy<Value = usize> {
  prop_oneof![3 => 1usize..12, 4 => 1usize..70, 1 => 100usize..300]
}

// ---------------------------------------------------------------- crop and rotate

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Area {
  w: usize,
  h: usize,
  r: FracRect,
}
fn area() -> impl Strategy<Value = Area> {
  (edge(), edge(), frac_rect()).prop_map(|(w, h, r)| Area { w, h, r })
}
fn color<const N: usize>(w: usize, h: usize) -> Color2D<u16, N>
where
  [u16; N]: Default,
{
  let mut v = Vec::with_capacity(w * h);
  for y in 0..h {
    for x in 0..w {
      v.push(std::array::from_fn(|c| mark(x, y, c)));
    }
  }
  Color2D::new_with(v, w, h)
}
fn plain(w: usize, h: usize) -> Vec<u16> {
  (0..w * h).map(|i| mark(i % w, i / w, 0)).collect()
}
fn t_crop(c: &Area) -> Outcome {
  let a = c.r.within(0, 0, c.w, c.h);
  let (x0, y0, w, h) = a;
  let img = Pix2D::<u16>::new_with(plain(c.w, c.h), c.w, c.h);
  let want: Vec<u16> = (0..w * h).map(|i| mark(x0 + i % w, y0 + i / w, 0)).collect();
  let got = img.crop(rect(a));
  ensure_eq!((got.width, got.height), (w, h), "dimension of a cropped plane");
  ensure!(got.is_initialized(), "cropped plane is not initialised");
  ensure_eq!(got.pixels(), &want[..], "crop {a:?} of {}x{}", c.w, c.h);
  let got = img.clone().into_crop(rect(a));
  ensure_eq!((got.width, got.height, got.pixels()), (w, h, &want[..]), "into_crop {a:?} of {}x{}", c.w, c.h);
  let f = Pix2D::<f32>::new_with(plain(c.w, c.h).iter().map(|v| *v as f32).collect(), c.w, c.h).into_crop(rect(a));
  ensure!(f.pixels().iter().zip(&want).all(|(p, q)| *p == *q as f32) && f.pixels().len() == want.len(), "float crop {a:?}");
  ensure_eq!(crop(img.pixels(), Dim2::new(c.w, c.h), rect(a)), want, "crop of a slice");
  for (k, row) in got.pixel_rows().enumerate() {
    ensure_eq!(row, &want[k * w..(k + 1) * w], "row {k}");
    ensure_eq!(got.row(k), row, "row({k})");
  }
  let u = Pix2D::<u16>::new_uninit(c.w, c.h).crop_dummy(rect(a));
  ensure_eq!(u, (w, h), "dimension of a cropped plane without pixels");
  let rgb = color::<3>(c.w, c.h).crop(rect(a));
  ensure_eq!((rgb.width, rgb.height), (w, h), "dimension of a cropped colour image");
  for (i, p) in rgb.pixels().iter().enumerate() {
    let (x, y) = (x0 + i % w, y0 + i / w);
    ensure_eq!(*p, [mark(x, y, 0), mark(x, y, 1), mark(x, y, 2)], "colour crop {a:?} at {},{}", i % w, i / w);
  }
  Ok(if (w, h) == (c.w, c.h) { trivial("whole") } else { nontrivial("part") })
}
trait CropDummy {
  fn crop_dummy(self, r: Rect) -> (usize, usize);
}
impl CropDummy for Pix2D<u16> {
  fn crop_dummy(self, r: Rect) -> (usize, usize) {
    let o = self.into_crop(r);
    (o.width, o.height)
  }
}
fn t_rotate(c: &Area) -> Outcome {
  let (w, h) = (c.w, c.h);
  let img = color::<3>(w, h);
  let (cw, ccw, half) = (img.rotate_90cw(), img.rotate_90ccw(), img.rotate_180());
  ensure_eq!((cw.width, cw.height, ccw.width, ccw.height, half.width, half.height), (h, w, h, w, w, h), "dimensions");
  for y in 0..h {
    for x in 0..w {
      let p = *img.at(y, x);
      ensure_eq!(*cw.at(x, h - 1 - y), p, "clockwise: pixel {x},{y} of {w}x{h}");
      ensure_eq!(*ccw.at(w - 1 - x, y), p, "counter clockwise: pixel {x},{y} of {w}x{h}");
      ensure_eq!(*half.at(h - 1 - y, w - 1 - x), p, "half turn: pixel {x},{y} of {w}x{h}");
    }
  }
  ensure_eq!(cw.rotate_90ccw().pixels(), img.pixels(), "there and back");
  ensure_eq!(cw.rotate_90cw().pixels(), half.pixels(), "two quarters");
  ensure_eq!(half.rotate_180().pixels(), img.pixels(), "two halves");
  let src = plain(w, h);
  let mut dst = vec![0u16; w * h + c.r.l as usize % 5];
  rotate_90(&src, &mut dst, w, h);
  for y in 0..h {
    for x in 0..w {
      ensure_eq!(dst[x * h + (h - 1 - y)], mark(x, y, 0), "rotate_90: pixel {x},{y} of {w}x{h}");
    }
  }
  let mut v = img.clone();
  v.for_each_index(|p, row, col| [p[0], row as u16, col as u16]);
  for (i, p) in v.pixels().iter().enumerate() {
    ensure_eq!(*p, [mark(i % w, i / w, 0), (i / w) as u16, (i % w) as u16], "for_each_index");
  }
  let mut v = Pix2D::<u16>::new_with(src.clone(), w, h);
  v.for_each_index(|p, row, col| p ^ (row * 331 + col) as u16);
  for (i, p) in v.pixels().iter().enumerate() {
    ensure_eq!(*p, src[i] ^ ((i / w) * 331 + i % w) as u16, "for_each_index of a plane at {},{}", i % w, i / w);
    ensure_eq!(v.at(i / w, i % w), p, "at");
  }
  let flat = img.flatten();
  ensure!(flat.len() == w * h * 3 && flat.iter().enumerate().all(|(i, v)| *v == mark(i / 3 % w, i / 3 / w, i % 3)), "flatten");
  ensure_eq!(img.clone().into_flatten(), flat, "into_flatten");
  Ok(if w * h > 1 { nontrivial(if w == h { "square" } else { "rectangle" }) } else { trivial("one pixel") })
}

// ---------------------------------------------------------------- areas

fn t_rect(c: &Area) -> Outcome {
  let (x, y, w, h) = c.r.within(0, 0, c.w, c.h);
  let r = rect((x, y, w, h));
  ensure_eq!(r.as_ltrb(), [x, y, x + w, y + h], "ltrb");
  ensure_eq!(r.as_tlbr(), [y, x, y + h, x + w], "tlbr");
  ensure_eq!(r.as_ltrb_offsets(c.w, c.h), [x, y, c.w - x - w, c.h - y - h], "ltrb offsets");
  ensure_eq!(r.as_tlbr_offsets(c.w, c.h), [y, x, c.h - y - h, c.w - x - w], "tlbr offsets");
  ensure_eq!((r.x(), r.y(), r.width(), r.height()), (x, y, w, h), "parts");
  ensure_eq!(Rect::new_with_points(Point::new(x, y), Point::new(x + w, y + h)), r, "from corners");
  ensure_eq!(Rect::new_with_dng(&r.as_tlbr()), r, "from DNG order");
  ensure_eq!(Rect::new_with_borders(Dim2::new(c.w, c.h), &r.as_ltrb_offsets(c.w, c.h)), r, "from borders");
  ensure!(!r.is_empty(), "not empty");
  // inner area relative to an outer one: cropping in two steps is cropping once
  let inner = FracRect { l: c.r.b, t: c.r.r, r: c.r.t, b: c.r.l }.within(x, y, w, h);
  let rel = rect(inner).adapt(&r);
  ensure_eq!((rel.p.x + x, rel.p.y + y, rel.d), (inner.0, inner.1, Dim2::new(inner.2, inner.3)), "adapt");
  let img = Pix2D::<u16>::new_with(plain(c.w, c.h), c.w, c.h);
  ensure_eq!(img.crop(r).crop(rel).pixels(), img.crop(rect(inner)).pixels(), "crop in two steps");
  for k in [0.5f32, 1.0, 0.25, 2.0] {
    let mut s = r;
    s.scale(k);
    let m = |v: usize| (v as f64 * k as f64) as usize;
    ensure_eq!((s.p.x, s.p.y, s.d.w, s.d.h), (m(x), m(y), m(w), m(h)), "scaled by {k}");
  }
  Ok(if (w, h) == (c.w, c.h) { trivial("whole") } else { nontrivial("part") })
}

// ---------------------------------------------------------------- tiles

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tiling {
  w: usize,
  h: usize,
  cpp: usize,
  tw: usize,
  th: usize,
}
fn tiling() -> impl Strategy<Value = Tiling> {
  (edge(), edge(), 1usize..4, 1usize..40, 1usize..40).prop_map(|(w, h, cpp, tw, th)| Tiling { w, h, cpp, tw, th })
}
fn t_tile(c: &Tiling) -> Outcome {
  let data: Vec<u16> = (0..c.w * c.h * c.cpp).map(|i| mark(i / c.cpp % c.w, i / c.cpp / c.w, i % c.cpp)).collect();
  let t = ImageTiler::new(&data, c.w, c.h, c.cpp, c.tw, c.th);
  let (cols, rows) = (c.w.div_ceil(c.tw), c.h.div_ceil(c.th));
  ensure_eq!((t.tile_cols(), t.tile_rows(), t.tile_count()), (cols, rows, cols * rows), "number of tiles");
  let built: Vec<Vec<u16>> = (0..cols * rows).map(|i| t.build_tile(i)).collect();
  let iter: Vec<Vec<u16>> = t.collect();
  ensure_eq!(built, iter, "tiles by index and by iteration");
  for (i, tile) in built.iter().enumerate() {
    ensure_eq!(tile.len(), c.tw * c.th * c.cpp, "size of tile {i}");
    let (tx, ty) = (i % cols * c.tw, i / cols * c.th);
    for y in 0..c.th {
      for x in 0..c.tw {
        for k in 0..c.cpp {
          let v = tile[(y * c.tw + x) * c.cpp + k];
          // outside of the image the nearest row is repeated, and samples of the last pixel
          let sy = (ty + y).min(c.h - 1);
          if tx + x < c.w {
            ensure!(v == mark(tx + x, sy, k), "tile {i} of {cols}x{rows}, pixel {x},{y}, component {k} is not image pixel {},{sy}", tx + x);
          } else {
            ensure!((0..c.cpp).any(|k| v == mark(c.w - 1, sy, k)), "tile {i}, padding at {x},{y}, component {k} is not from the last pixel of row {sy}");
          }
        }
      }
    }
  }
  // mutable tiles over the padded image put everything back
  let (pw, ph) = (cols * c.tw, rows * c.th);
  let mut buf = vec![0u16; pw * ph * c.cpp];
  {
    let it = (&mut buf[..]).into_tiles_iter_mut(pw, c.cpp, c.tw, c.th).map_err(|_| "a padded image is not tileable".to_string())?;
    ensure_eq!(it.len(), cols * rows, "number of mutable tiles");
    let mut n = 0;
    for (i, tile) in it.enumerate() {
      n += 1;
      let lines: Vec<&mut [u16]> = tile.into_iter_mut().collect();
      ensure_eq!(lines.len(), c.th, "lines of mutable tile {i}");
      for (y, line) in lines.into_iter().enumerate() {
        ensure_eq!(line.len(), c.tw * c.cpp, "length of line {y} of mutable tile {i}");
        for (a, b) in line.iter_mut().zip(&built[i][y * c.tw * c.cpp..]) {
          ensure_eq!(*a, 0, "mutable tiles overlap");
          *a = *b;
        }
      }
    }
    ensure_eq!(n, cols * rows, "mutable tiles");
  }
  for y in 0..c.h {
    for x in 0..c.w {
      for k in 0..c.cpp {
        ensure_eq!(buf[(y * pw + x) * c.cpp + k], mark(x, y, k), "tiled and assembled, pixel {x},{y} component {k}");
      }
    }
  }
  if c.tw * c.th * c.cpp > 1 {
    let mut odd = vec![0u16; pw * ph * c.cpp + 1];
    ensure!((&mut odd[..]).into_tiles_iter_mut(pw, c.cpp, c.tw, c.th).is_err(), "a buffer that is no multiple of the tile size is accepted");
  }
  Ok(nontrivial(match (c.w % c.tw != 0, c.h % c.th != 0) {
    (true, true) => "padded both",
    (true, false) => "padded right",
    (false, true) => "padded below",
    _ => "exact",
  }))
}

// ---------------------------------------------------------------- patterns

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pattern {
  size: u8,
  seed: u64,
  colors: u8,
  x: usize,
  y: usize,
  x2: usize,
  y2: usize,
}
fn pattern() -> impl Strategy<Value = Pattern> {
  let s = || prop_oneof![3 => 0usize..14, 2 => 0usize..120, 1 => 0usize..9000];
  (0..4u8, any::<u64>(), 3..7u8, s(), s(), s(), s()).prop_map(|(size, seed, colors, x, y, x2, y2)| Pattern { size, seed, colors, x, y, x2, y2 })
}
fn t_pattern(c: &Pattern) -> Outcome {
  let (w, h) = [(2usize, 2usize), (6, 6), (2, 8), (12, 12)][c.size as usize % 4];
  let mut r = Rng::new(c.seed);
  let cols: Vec<u8> = (0..w * h).map(|_| r.below(c.colors as u64) as u8).collect();
  let name: String = cols.iter().map(|v| "RGBCMY".chars().nth(*v as usize).unwrap()).collect();
  let at = |row: usize, col: usize| cols[(row % h) * w + col % w] as usize;
  let cfa = CFA::new(&name);
  ensure_eq!((cfa.width, cfa.height, cfa.to_string()), (w, h, name.clone()), "pattern");
  ensure!(cfa.is_valid(), "valid");
  ensure_eq!(cfa.flat_pattern(), cols, "flat pattern");
  let tag = CFA::new_from_tag(&Value::Byte(cols.clone()));
  ensure!(tag == cfa, "pattern from a tag");
  let sh = cfa.shift(c.x, c.y);
  let sh2 = sh.shift(c.x2, c.y2);
  let both = cfa.shift(c.x + c.x2, c.y + c.y2);
  let (bx, by) = ((w - c.x % w) % w, (h - c.y % h) % h);
  ensure!(sh.shift(bx, by) == cfa, "shift by {},{} and back", c.x, c.y);
  ensure!(sh2 == both, "shift by {},{} then {},{} is not the shift by the sum", c.x, c.y, c.x2, c.y2);
  for row in 0..2 * h + 1 {
    for col in 0..2 * w + 1 {
      ensure_eq!(cfa.color_at(row, col), at(row, col), "colour at {row},{col}");
      ensure_eq!(cfa.cfa_color_at(row, col) as usize, at(row, col), "named colour at {row},{col}");
      ensure_eq!(sh.color_at(row, col), at(row + c.y, col + c.x), "colour at {row},{col} after a shift by {},{}", c.x, c.y);
      ensure_eq!(cfa.color_at(row + c.y, col + c.x), at(row + c.y, col + c.x), "colour at {},{}", row + c.y, col + c.x);
    }
  }
  let want: String = (0..w * h).map(|i| "RGBCMY".chars().nth(at(i / w + c.y, i % w + c.x)).unwrap()).collect();
  ensure_eq!(sh.name, want, "name of the shifted pattern");
  ensure_eq!(sh.flat_pattern(), (0..w * h).map(|i| at(i / w + c.y, i % w + c.x) as u8).collect::<Vec<_>>(), "shifted flat pattern");
  ensure_eq!((sh.width, sh.height), (w, h), "dimension of the shifted pattern");
  let mut uniq = cols.clone();
  uniq.sort();
  uniq.dedup();
  ensure_eq!(cfa.unique_colors(), uniq.len(), "number of colours");
  ensure_eq!(sh.unique_colors(), uniq.len(), "number of colours after a shift");
  let rgb = uniq == [0, 1, 2];
  ensure_eq!((cfa.is_rgb(), sh.is_rgb()), (rgb, rgb), "is_rgb of {name}");
  ensure_eq!(cfa.is_cygm(), uniq == [1, 3, 4, 5], "is_cygm of {name}");
  let m = cfa.map_colors(|row, col, v| ((v as usize + (row * w + col) * 6) % 251) as u8);
  for row in 0..h + 2 {
    for col in 0..w + 2 {
      ensure_eq!(m.color_at(row, col), (at(row, col) + ((row % h) * w + col % w) * 6) % 251, "mapped colour at {row},{col}");
    }
  }
  // planes
  let plane = PlaneColor::from(uniq.iter().rev().map(|v| CFAColor::try_from(*v).unwrap()).collect::<Vec<_>>());
  ensure_eq!(plane.plane_count(), uniq.len(), "planes");
  let t = plane.plane_lookup_table();
  for v in 0..=255usize {
    let want = uniq.iter().rev().position(|u| *u as usize == v).unwrap_or(255);
    ensure_eq!(t[v], want, "plane of colour {v}");
  }
  for v in &uniq {
    let first = cols.iter().position(|u| u == v).unwrap();
    ensure_eq!(PlaneColor::cfa_index(&cfa, CFAColor::try_from(*v).unwrap()), first, "first place of colour {v}");
  }
  // black level patterns follow the same rule
  for cpp in 1..=3usize {
    let lv: Vec<u16> = (0..w * h * cpp).map(|i| i as u16 + 1).collect();
    let b = BlackLevel::new(&lv, w, h, cpp);
    let s = b.shift(c.x, c.y);
    ensure_eq!((s.width, s.height, s.cpp), (w, h, cpp), "dimension of shifted black levels");
    let v = s.as_vec();
    for row in 0..h {
      for col in 0..w {
        for k in 0..cpp {
          let want = lv[(((row + c.y) % h) * w + (col + c.x) % w) * cpp + k];
          ensure_eq!(v[(row * w + col) * cpp + k], want as f32, "black level at {row},{col} component {k} after a shift by {},{}", c.x, c.y);
        }
      }
    }
    ensure_eq!(s.shift(bx, by).as_vec(), b.as_vec(), "black levels shifted there and back");
  }
  Ok(if uniq.len() > 1 && (c.x % w != 0 || c.y % h != 0) { nontrivial(format!("{w}x{h}")) } else { trivial("unshifted") })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ori {
  v: u16,
}
fn t_orientation(c: &Ori) -> Outcome {
  // EXIF: (transpose, flip horizontally, flip vertically), flips after the transposition
  let want = match c.v {
    2 => (false, true, false),
    3 => (false, true, true),
    4 => (false, false, true),
    5 => (true, false, false),
    6 => (true, false, true),
    7 => (true, true, true),
    8 => (true, true, false),
    _ => (false, false, false),
  };
  let o = Orientation::from_u16(c.v);
  ensure_eq!(o.to_flips(), want, "flips of orientation {}", c.v);
  if (1..=8).contains(&c.v) {
    ensure_eq!(o.to_u16(), c.v, "orientation there and back");
    ensure_eq!(Orientation::from_flips(want).to_u16(), c.v, "orientation from flips");
    Ok(nontrivial("valid"))
  } else {
    Ok(trivial("unknown"))
  }
}

// ---------------------------------------------------------------- Fuji rotation

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fuji {
  w: usize,
  h: usize,
  t: u16,
  extra: bool,
  fill: Fill,
}
fn t_fuji(c: &Fuji) -> Outcome {
  let pix = Pix { kind: Kind::Bayer(0), w: c.w, h: c.h, bps: 16, float: false, fill: c.fill.clone() };
  let mut img = pix.image();
  let side = if c.extra { c.h } else { c.w };
  let t = 1 + c.t as usize % (side - 1).max(1);
  let plain = match RawDevelop::new_with(&[S::Rescale, S::Demosaic]).develop_intermediate(&img) {
    Ok(Intermediate::ThreeColor(p)) => p,
    _ => return Err("no colour image".into()),
  };
  img.fuji_rotation_width = Some(t);
  if c.extra {
    img.camera.hints.push("fuji_rotate_90cw".into());
  }
  let got = match RawDevelop::new_with(&[S::Rescale, S::Demosaic, S::FujiRotate]).develop_intermediate(&img) {
    Ok(Intermediate::ThreeColor(p)) => p,
    _ => return Err("no colour image".into()),
  };
  let (sw, sh) = if c.extra { (c.h, c.w) } else { (c.w, c.h) };
  let src = |x: i64, y: i64| -> Option<[f32; 3]> {
    if x < 0 || y < 0 || x >= sw as i64 || y >= sh as i64 {
      return None;
    }
    Some(if c.extra { *plain.at(c.h - 1 - x as usize, y as usize) } else { *plain.at(y as usize, x as usize) })
  };
  let (a, b) = ((t as f64 * 2f64.sqrt()).floor() as usize, ((sw - t) as f64 * 2f64.sqrt()).floor() as usize);
  ensure_eq!((got.width, got.height), (a.max(b), a.min(b)), "dimension of a {sw}x{sh} image rotated with {t}");
  let q = 0.5f64.sqrt();
  let mut seen = 0;
  for y in 0..got.height {
    for x in 0..got.width {
      let (dx, dy) = (x as f64 - got.width as f64 / 2.0, y as f64 - got.height as f64 / 2.0);
      let (fx, fy) = ((dx + dy) * q + sw as f64 / 2.0, (dy - dx) * q + sh as f64 / 2.0);
      let (x0, y0) = (fx.floor(), fy.floor());
      let near = |x: f64, y: f64| src(x as i64, y as i64);
      let p = [near(x0, y0), near(x0 + 1.0, y0), near(x0, y0 + 1.0), near(x0 + 1.0, y0 + 1.0)];
      if let [Some(p00), Some(p10), Some(p01), Some(p11)] = p {
        seen += 1;
        let (ux, uy) = (fx - x0, fy - y0);
        for k in 0..3 {
          let want = p00[k] as f64 * (1.0 - ux) * (1.0 - uy) + p10[k] as f64 * ux * (1.0 - uy) + p01[k] as f64 * (1.0 - ux) * uy + p11[k] as f64 * ux * uy;
          let v = got.at(y, x)[k] as f64;
          ensure!((v - want).abs() < 1e-4, "pixel {x},{y} component {k} is {v} and not {want} as seen at {fx:.3},{fy:.3} of the source");
        }
      } else if p.iter().all(|v| v.is_none()) && (fx < -1.0 || fy < -1.0 || fx > sw as f64 || fy > sh as f64) {
        ensure_eq!(*got.at(y, x), [0.0; 3], "pixel {x},{y} outside of the source is not black");
      }
    }
  }
  Ok(if seen > 0 && !c.fill.is_flat() { nontrivial(if c.extra { "turned first" } else { "rotated" }) } else { trivial("nothing inside") })
}

fn main() {
  main_with("C15", "a case is non-trivial when the operation moves something (not the whole image cropped, not a zero shift) and every pixel has its own value", |r| {
    r.check("crop", r.scale(4000, 80000), area, t_crop);
    r.check("rotate", r.scale(3000, 60000), area, t_rotate);
    r.check("area", r.scale(6000, 200000), area, t_rect);
    r.check("tile", r.scale(3000, 60000), tiling, t_tile);
    r.check("pattern", r.scale(4000, 80000), pattern, t_pattern);
    r.enumerate("orientation", (0..=65535u16).map(|v| Ori { v }).collect(), true, t_orientation);
    r.check(
      "fuji",
      r.scale(1500, 30000),
      || (6usize..90, 6usize..90, any::<u16>(), prop::bool::weighted(0.3), vh::fill::fill()).prop_map(|(w, h, t, extra, fill)| Fuji { w, h, t, extra, fill }),
      t_fuji,
    );
    r.assume("padding of tiles is content the reader never shows; only its origin in the last pixel and row is checked");
    r.assume("pixels at the outer border of a rotated Fuji image are taken from the nearest source pixel and not checked");
  })
}
