//! C05: capture metadata is carried into the DNG (and into developed TIFF files).
use proptest::prelude::*;
use rawler::decoders::{RawDecodeParams, RawMetadata};
use rawler::dng::convert::{convert_raw_source, ConvertParams};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::exif::Exif;
use rawler::formats::tiff::{Rational, SRational};
use rawler::imgop::develop::RawDevelop;
use rawler::rawsource::RawSource;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Cursor;
use vh::fill::{Fill, Rng};
use vh::rawgen::*;
use vh::tiffmini::{Dir, PDir, Parsed, Val};
use vh::*;

#[derive(Debug, Clone, PartialEq)]
enum V {
  U8(u8),
  U16(u16),
  U32(u32),
  R((u32, u32)),
  SR((i32, i32)),
  R3([(u32, u32); 3]),
  R4([(u32, u32); 4]),
  S(String),
  I16s(Vec<i16>),
  B4([u8; 4]),
  Und(Vec<u8>),
}
macro_rules! from_v {
  ($($v:ident $t:ty, $x:ident => $e:expr;)*) => { $(impl From<&V> for $t { fn from(v: &V) -> $t { if let V::$v($x) = v { $e } else { unreachable!() } } })* };
}
from_v! {
  U8 u8, x => *x;
  U16 u16, x => *x;
  U32 u32, x => *x;
  R Rational, x => Rational::new(x.0, x.1);
  SR SRational, x => SRational::new(x.0, x.1);
  R3 [Rational; 3], x => x.map(|x| Rational::new(x.0, x.1));
  R4 [Rational; 4], x => x.map(|x| Rational::new(x.0, x.1));
  S String, x => x.clone();
  I16s Vec<i16>, x => x.clone();
  B4 [u8; 4], x => *x;
  Und Vec<u8>, x => x.clone();
}
impl V {
  fn val(&self) -> Val {
    match self {
      V::U8(x) => Val::byte(&[*x]),
      V::U16(x) => Val::short(&[*x]),
      V::U32(x) => Val::long(&[*x]),
      V::R(x) => Val::rational(&[*x]),
      V::SR(x) => Val::srational(&[*x]),
      V::R3(x) => Val::rational(x),
      V::R4(x) => Val::rational(x),
      V::S(x) => Val::ascii(x),
      V::I16s(x) => Val::sshort(x),
      V::B4(x) => Val::byte(x),
      V::Und(x) => Val::undefined(x),
    }
  }
  fn empty(&self) -> bool {
    matches!(self, V::Und(x) if x.is_empty()) || matches!(self, V::I16s(x) if x.is_empty())
  }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
  Root,
  Exif,
  Gps,
}
#[derive(Clone, Copy)]
enum Ty {
  U8,
  U16,
  U32,
  R,
  SR,
  R3,
  R4,
  S,
  I16s,
  B4,
  Und,
}
use Place::{Exif as PE, Gps as PG, Root as PR};
/// where the EXIF standard stores a value: directory, tag, type; and whether
/// surrounding blanks of a text are insignificant.
#[allow(clippy::type_complexity)]
const TABLE: &[(Place, u16, Ty, bool, fn(&mut Exif, &V))] = &[
  (PR, 0x112, Ty::U16, false, |e, v| e.orientation = Some(v.into())),
  (PR, 0x8298, Ty::S, true, |e, v| e.copyright = Some(v.into())),
  (PR, 0x13b, Ty::S, true, |e, v| e.artist = Some(v.into())),
  (PR, 0x132, Ty::S, false, |e, v| e.modify_date = Some(v.into())),
  (PE, 0xa432, Ty::R4, false, |e, v| e.lens_spec = Some(v.into())),
  (PE, 0x829a, Ty::R, false, |e, v| e.exposure_time = Some(v.into())),
  (PE, 0x829d, Ty::R, false, |e, v| e.fnumber = Some(v.into())),
  (PE, 0x9202, Ty::R, false, |e, v| e.aperture_value = Some(v.into())),
  (PE, 0x9203, Ty::SR, false, |e, v| e.brightness_value = Some(v.into())),
  (PE, 0x8827, Ty::U16, false, |e, v| e.iso_speed_ratings = Some(v.into())),
  (PE, 0x8833, Ty::U32, false, |e, v| e.iso_speed = Some(v.into())),
  (PE, 0x8832, Ty::U32, false, |e, v| e.recommended_exposure_index = Some(v.into())),
  (PE, 0x8830, Ty::U16, false, |e, v| e.sensitivity_type = Some(v.into())),
  (PE, 0x9204, Ty::SR, false, |e, v| e.exposure_bias = Some(v.into())),
  (PE, 0x9003, Ty::S, false, |e, v| e.date_time_original = Some(v.into())),
  (PE, 0x9004, Ty::S, false, |e, v| e.create_date = Some(v.into())),
  (PE, 0x8822, Ty::U16, false, |e, v| e.exposure_program = Some(v.into())),
  (PE, 0x882a, Ty::I16s, false, |e, v| e.timezone_offset = Some(v.into())),
  (PE, 0x9010, Ty::S, false, |e, v| e.offset_time = Some(v.into())),
  (PE, 0x9011, Ty::S, false, |e, v| e.offset_time_original = Some(v.into())),
  (PE, 0x9012, Ty::S, false, |e, v| e.offset_time_digitized = Some(v.into())),
  (PE, 0x9290, Ty::S, false, |e, v| e.sub_sec_time = Some(v.into())),
  (PE, 0x9291, Ty::S, false, |e, v| e.sub_sec_time_original = Some(v.into())),
  (PE, 0x9292, Ty::S, false, |e, v| e.sub_sec_time_digitized = Some(v.into())),
  (PE, 0x9201, Ty::SR, false, |e, v| e.shutter_speed_value = Some(v.into())),
  (PE, 0x9205, Ty::R, false, |e, v| e.max_aperture_value = Some(v.into())),
  (PE, 0x9206, Ty::R, false, |e, v| e.subject_distance = Some(v.into())),
  (PE, 0x9207, Ty::U16, false, |e, v| e.metering_mode = Some(v.into())),
  (PE, 0x9208, Ty::U16, false, |e, v| e.light_source = Some(v.into())),
  (PE, 0x9209, Ty::U16, false, |e, v| e.flash = Some(v.into())),
  (PE, 0x920a, Ty::R, false, |e, v| e.focal_length = Some(v.into())),
  (PE, 0x9211, Ty::U32, false, |e, v| e.image_number = Some(v.into())),
  (PE, 0xa001, Ty::U16, false, |e, v| e.color_space = Some(v.into())),
  (PE, 0x920b, Ty::R, false, |e, v| e.flash_energy = Some(v.into())),
  (PE, 0xa402, Ty::U16, false, |e, v| e.exposure_mode = Some(v.into())),
  (PE, 0xa403, Ty::U16, false, |e, v| e.white_balance = Some(v.into())),
  (PE, 0xa406, Ty::U16, false, |e, v| e.scene_capture_type = Some(v.into())),
  (PE, 0xa40c, Ty::U16, false, |e, v| e.subject_distance_range = Some(v.into())),
  (PE, 0xa430, Ty::S, true, |e, v| e.owner_name = Some(v.into())),
  (PE, 0xa431, Ty::S, true, |e, v| e.serial_number = Some(v.into())),
  (PE, 0xa435, Ty::S, true, |e, v| e.lens_serial_number = Some(v.into())),
  (PE, 0xa433, Ty::S, true, |e, v| e.lens_make = Some(v.into())),
  (PE, 0xa434, Ty::S, true, |e, v| e.lens_model = Some(v.into())),
  (PE, 0x9286, Ty::S, true, |e, v| e.user_comment = Some(v.into())),
  (PG, 0, Ty::B4, false, |e, v| e.gps.get_or_insert_default().gps_version_id = Some(v.into())),
  (PG, 1, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_latitude_ref = Some(v.into())),
  (PG, 2, Ty::R3, false, |e, v| e.gps.get_or_insert_default().gps_latitude = Some(v.into())),
  (PG, 3, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_longitude_ref = Some(v.into())),
  (PG, 4, Ty::R3, false, |e, v| e.gps.get_or_insert_default().gps_longitude = Some(v.into())),
  (PG, 5, Ty::U8, false, |e, v| e.gps.get_or_insert_default().gps_altitude_ref = Some(v.into())),
  (PG, 6, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_altitude = Some(v.into())),
  (PG, 7, Ty::R3, false, |e, v| e.gps.get_or_insert_default().gps_timestamp = Some(v.into())),
  (PG, 8, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_satellites = Some(v.into())),
  (PG, 9, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_status = Some(v.into())),
  (PG, 10, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_measure_mode = Some(v.into())),
  (PG, 11, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_dop = Some(v.into())),
  (PG, 12, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_speed_ref = Some(v.into())),
  (PG, 13, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_speed = Some(v.into())),
  (PG, 14, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_track_ref = Some(v.into())),
  (PG, 15, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_track = Some(v.into())),
  (PG, 16, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_img_direction_ref = Some(v.into())),
  (PG, 17, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_img_direction = Some(v.into())),
  (PG, 18, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_map_datum = Some(v.into())),
  (PG, 19, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_dest_latitude_ref = Some(v.into())),
  (PG, 20, Ty::R3, false, |e, v| e.gps.get_or_insert_default().gps_dest_latitude = Some(v.into())),
  (PG, 21, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_dest_longitude_ref = Some(v.into())),
  (PG, 22, Ty::R3, false, |e, v| e.gps.get_or_insert_default().gps_dest_longitude = Some(v.into())),
  (PG, 23, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_dest_bearing_ref = Some(v.into())),
  (PG, 24, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_dest_bearing = Some(v.into())),
  (PG, 25, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_dest_distance_ref = Some(v.into())),
  (PG, 26, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_dest_distance = Some(v.into())),
  (PG, 27, Ty::Und, false, |e, v| e.gps.get_or_insert_default().gps_processing_method = Some(v.into())),
  (PG, 28, Ty::Und, false, |e, v| e.gps.get_or_insert_default().gps_area_information = Some(v.into())),
  (PG, 29, Ty::S, false, |e, v| e.gps.get_or_insert_default().gps_date_stamp = Some(v.into())),
  (PG, 30, Ty::U16, false, |e, v| e.gps.get_or_insert_default().gps_differential = Some(v.into())),
  (PG, 31, Ty::R, false, |e, v| e.gps.get_or_insert_default().gps_h_positioning_error = Some(v.into())),
];
const MODIFY_DATE: u16 = 0x132;
const ARTIST: u16 = 0x13b;
const ORIENTATION: u16 = 0x112;

fn value(ty: Ty, trimmed: bool, seed: u64) -> V {
  let mut r = Rng::new(seed);
  let n = |r: &mut Rng| -> u32 {
    match r.below(5) {
      0 => 0,
      1 => 1,
      2 => u32::MAX,
      3 => r.below(10_000) as u32,
      _ => r.next() as u32,
    }
  };
  let q = |r: &mut Rng| (n(r), n(r));
  match ty {
    Ty::U8 => V::U8(n(&mut r) as u8),
    Ty::U16 => V::U16(n(&mut r) as u16),
    Ty::U32 => V::U32(n(&mut r)),
    Ty::R => V::R(q(&mut r)),
    Ty::SR => V::SR((n(&mut r) as i32, n(&mut r) as i32)),
    Ty::R3 => V::R3(std::array::from_fn(|_| q(&mut r))),
    Ty::R4 => V::R4(std::array::from_fn(|_| q(&mut r))),
    Ty::S => {
      let s = match r.below(6) {
        0 => String::new(),
        1 => "2024:02:29 23:59:58".into(),
        2 => "+05:30".into(),
        3 => (0..1 + r.below(60)).map(|_| char::from_u32(0x20 + r.below(0x5f) as u32).unwrap()).collect(),
        4 => (0..1 + r.below(20)).map(|_| ['ä', 'ß', 'é', '漢', '✓', 'x', ' '][r.below(7) as usize]).collect(),
        _ => (0..1 + r.below(5)).map(|_| (b'A' + r.below(26) as u8) as char).collect(),
      };
      V::S(if trimmed { s.trim().into() } else { s })
    }
    Ty::I16s => {
      let k = r.below(4) as usize;
      V::I16s((0..k).map(|_| r.range(-24, 24) as i16).collect())
    }
    Ty::B4 => V::B4(std::array::from_fn(|_| r.next() as u8)),
    Ty::Und => {
      let k = [0, 1, 3, 4, 5, 8, 60][r.below(7) as usize];
      V::Und(r.bytes(k))
    }
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meta(Vec<(usize, u64)>);
fn meta() -> impl Strategy<Value = Meta> {
  let one = || (0..TABLE.len(), any::<u64>());
  prop_oneof![
    1 => prop::collection::vec(one(), 0..4),
    2 => prop::collection::vec(one(), 4..40),
    1 => any::<u64>().prop_map(|s| { let mut r = Rng::new(s); (0..TABLE.len()).map(|i| (i, r.next())).collect() }),
  ]
  .prop_map(Meta)
}
impl Meta {
  fn values(&self) -> BTreeMap<usize, V> {
    self.0.iter().map(|(i, s)| (*i, value(TABLE[*i].2, TABLE[*i].3, *s))).collect()
  }
  fn exif(&self) -> Exif {
    let mut e = Exif::default();
    for (i, v) in self.values() {
      TABLE[i].4(&mut e, &v);
    }
    e
  }
  fn label(&self) -> String {
    let n = self.values().len();
    format!("{} values{}", if n < 4 { "few" } else if n < TABLE.len() { "some" } else { "all" }, if self.values().keys().any(|i| TABLE[*i].0 == PG) { ", GPS" } else { "" })
  }
}

fn place<'a>(p: &'a Parsed, w: Place) -> Option<&'a PDir> {
  let sub = |t: u16| p.root().subs.get(&t).and_then(|l| l.first());
  match w {
    PR => Some(p.root()),
    PE => sub(34665),
    PG => sub(34853),
  }
}

/// Each value is where the standard wants it, and nothing else is.
fn check_file(p: &Parsed, m: &Meta, skip: &[u16]) -> Result<(), String> {
  let vals = m.values();
  for (i, t) in TABLE.iter().enumerate() {
    if t.0 == PR && skip.contains(&t.1) {
      continue;
    }
    let got = place(p, t.0).and_then(|d| d.get(t.1));
    match (vals.get(&i), got) {
      (None, None) => {}
      (Some(v), None) => ensure!(v.empty(), "tag {:#x} ({:?}) is missing, should be {v:?}", t.1, t.0),
      (None, Some(g)) => return Err(format!("tag {:#x} ({:?}) was not in the source, the file says {:?}", t.1, t.0, g)),
      (Some(v), Some(g)) => {
        let w = v.val();
        ensure!(*g == w || (g.typ == 2 && w.typ == 2 && g.text() == w.text()), "tag {:#x} ({:?}) is {g:?} instead of {w:?}", t.1, t.0);
      }
    }
  }
  Ok(())
}
fn same_exif(a: &Exif, b: &Exif) -> Result<(), String> {
  if a == b {
    return Ok(());
  }
  let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
  let d: Vec<String> = x.lines().zip(y.lines()).filter(|(p, q)| p != q).map(|(p, q)| format!("{} / {}", p.trim(), q.trim())).take(3).collect();
  Err(format!("metadata read back differs (read / expected): {d:?}"))
}
/// Values without any element are not stored.
fn normal(mut e: Exif) -> Exif {
  e.timezone_offset = e.timezone_offset.filter(|v| !v.is_empty());
  if let Some(g) = &mut e.gps {
    g.gps_processing_method = g.gps_processing_method.take().filter(|v| !v.is_empty());
    g.gps_area_information = g.gps_area_information.take().filter(|v| !v.is_empty());
    if *g == Default::default() {
      e.gps = None;
    }
  }
  e
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  meta: Meta,
  make: String,
  model: String,
  uid: Option<u128>,
  on_root: bool,
}
fn small() -> Pix {
  Pix { kind: Kind::Bayer(1), w: 10, h: 8, float: false, bps: 14, fill: Fill::Index }
}
fn case() -> impl Strategy<Value = Case> {
  (meta(), "[A-Z][A-Za-z0-9]{0,9}", "[A-Z][A-Za-z0-9 -]{0,12}[a-z]", prop::option::of(any::<u128>()), any::<bool>()).prop_map(|(meta, make, model, uid, on_root)| Case { meta, make, model, uid, on_root })
}
fn md(c: &Case) -> RawMetadata {
  RawMetadata { exif: c.meta.exif(), model: c.model.clone(), make: c.make.clone(), lens: None, unique_image_id: c.uid, rating: None }
}
fn write(c: &Case) -> Outcome {
  let mut img = small().image();
  img.clean_make = c.make.clone();
  img.clean_model = c.model.clone();
  let mut buf = Cursor::new(Vec::new());
  {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|x| x.to_string())?;
    {
      let mut f = if c.on_root { dng.subframe_on_root(0) } else { dng.subframe(0) };
      f.raw_image(&img, CropMode::Best, DngCompression::Uncompressed, DngPhotometricConversion::Original, 1).map_err(|x| x.to_string())?;
      f.finalize().map_err(|x| x.to_string())?;
    }
    dng.load_base_tags(&img).map_err(|x| x.to_string())?;
    dng.load_metadata(&md(c)).map_err(|x| x.to_string())?;
    dng.close().map_err(|x| x.to_string())?;
  }
  let file = buf.into_inner();
  let p = tiffmini::parse(&file)?;
  p.check_overlap()?;
  check_file(&p, &c.meta, &[])?;
  let root = p.root();
  ensure_eq!(root.req(271)?.text(), c.make, "make");
  ensure_eq!(root.req(272)?.text(), c.model, "model");
  ensure_eq!(root.req(50708)?.text(), format!("{} {}", c.make, c.model), "unique camera model");
  let want = c.uid.map(|u| u.to_le_bytes().to_vec());
  ensure_eq!(root.get(50781).map(|v| v.data.clone()), want, "unique image id");
  let lens = c.meta.values().into_iter().find(|(i, _)| TABLE[*i].1 == 0xa432).map(|(_, v)| v.val());
  ensure_eq!(root.get(50736).cloned(), lens, "LensInfo");
  // the project's own reader
  let src = RawSource::new_from_slice(&file);
  let m = rawler::get_decoder(&src).and_then(|d| d.raw_metadata(&src, &RawDecodeParams::default())).map_err(|e| e.to_string())?;
  same_exif(&m.exif, &normal(c.meta.exif()))?;
  ensure_eq!((m.make.as_str(), m.model.as_str()), (c.make.as_str(), c.model.as_str()), "make and model read back");
  Ok(if c.meta.0.is_empty() { trivial("no metadata") } else { nontrivial(c.meta.label()) })
}

fn tiff(c: &Case) -> Outcome {
  let mut img = small().image();
  img.clean_make = c.make.clone();
  img.clean_model = c.model.clone();
  let mut buf = Cursor::new(Vec::new());
  RawDevelop::default().develop(&img, &md(c), &mut buf).map_err(|e| e.to_string())?;
  let file = buf.into_inner();
  let p = tiffmini::parse(&file)?;
  p.check_overlap()?;
  check_file(&p, &c.meta, &[ORIENTATION])?;
  ensure_eq!(p.root().req(271)?.text(), c.make, "make");
  ensure_eq!(p.root().req(272)?.text(), c.model, "model");
  Ok(if c.meta.0.is_empty() { trivial("no metadata") } else { nontrivial(c.meta.label()) })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
  src: foreign::Case,
  meta: Meta,
  /// where the EXIF values of the source are: all in the EXIF directory, or some in the root
  mixed: u64,
  artist: Option<String>,
  software: String,
  thumb: bool,
  extra: Vec<(usize, u64)>,
}
/// tags of a source DNG that describe its rendering: (in the raw directory, tag, kind)
const CARRIED: &[(bool, u16, u8)] = &[
  (false, 50941, 0),
  (false, 50937, 1),
  (false, 50938, 2),
  (false, 50939, 2),
  (false, 51107, 0),
  (false, 50981, 1),
  (false, 50982, 2),
  (false, 51108, 0),
  (false, 50936, 3),
  (false, 50942, 3),
  (false, 50940, 2),
  (false, 50740, 4),
  (false, 50727, 5),
  (false, 50730, 6),
  (false, 50731, 5),
  (false, 50732, 5),
  (false, 50734, 5),
  (false, 50735, 3),
  (false, 50831, 7),
  (false, 50832, 6),
  (false, 50833, 7),
  (false, 50834, 6),
  (false, 50934, 3),
  (false, 51110, 0),
  (false, 51109, 6),
  (true, 51008, 7),
  (true, 51009, 7),
  (true, 51022, 7),
  (true, 51041, 8),
  (true, 50733, 0),
  (true, 50737, 5),
  (true, 50738, 5),
  (true, 50935, 5),
];
fn carried(i: usize, seed: u64) -> Val {
  let mut r = Rng::new(seed);
  let n = 1 + r.below(40) as usize;
  match CARRIED[i].2 {
    0 => Val::long(&[r.below(4) as u32]),
    1 => Val::long(&[1 + r.below(90) as u32, 1 + r.below(30) as u32, 1]),
    2 => Val::float(&(0..n * 3).map(|_| r.f32() * 4.0 - 2.0).collect::<Vec<_>>()),
    3 => Val::ascii(&format!("profile {}", r.below(1 << 40))),
    4 => Val::byte(&r.bytes(n * 7)),
    5 => Val::rational(&(0..1 + n % 3).map(|_| (r.next() as u32, 1 + r.below(9999) as u32)).collect::<Vec<_>>()),
    6 => Val::srational(&(0..1 + n % 9).map(|_| (r.next() as i32, 1 + r.below(9999) as i32)).collect::<Vec<_>>()),
    7 => Val::undefined(&r.bytes(n * 11)),
    _ => Val::double(&(0..2 + n % 6).map(|_| r.f32() as f64 / 3.0).collect::<Vec<_>>()),
  }
}
fn conv() -> impl Strategy<Value = Conv> {
  let extra = prop::collection::vec((0..CARRIED.len(), any::<u64>()), 0..12);
  (foreign::case(), meta(), any::<u64>(), prop::option::of("[A-Za-z äé]{1,20}"), "[A-Za-z0-9. ]{1,12}", prop::bool::weighted(0.2), extra).prop_map(|(mut src, meta, mixed, artist, software, thumb, extra)| {
    src.orientation = None;
    Conv { src, meta, mixed, artist, software, thumb, extra }
  })
}
fn convert(c: &Conv) -> Outcome {
  let (mut root, _) = foreign::build_root(&c.src);
  let (mut ex, mut gps) = (Dir::new(), Dir::new());
  let mut r = Rng::new(c.mixed);
  for (i, v) in c.meta.values() {
    match TABLE[i].0 {
      PG => gps.set(TABLE[i].1, v.val()),
      PE if r.below(6) != 0 => ex.set(TABLE[i].1, v.val()),
      _ => root.set(TABLE[i].1, v.val()),
    };
  }
  let extra: BTreeMap<usize, u64> = c.extra.iter().copied().collect();
  for (i, s) in &extra {
    let d = if CARRIED[*i].0 { foreign::raw_dir_mut(&mut root) } else { &mut root };
    d.set(CARRIED[*i].1, carried(*i, *s));
  }
  if !ex.entries.is_empty() {
    root.subs.push((34665, vec![ex]));
  }
  if !gps.entries.is_empty() {
    root.subs.push((34853, vec![gps]));
  }
  let file = foreign::file_of(&c.src, root);
  let src = RawSource::new_from_slice(&file);
  let m = rawler::get_decoder(&src).and_then(|d| d.raw_metadata(&src, &RawDecodeParams::default())).map_err(|e| format!("source: {e}"))?;
  same_exif(&normal(m.exif), &normal(c.meta.exif())).map_err(|e| format!("source: {e}"))?;
  let params = ConvertParams { embedded: false, compression: DngCompression::Uncompressed, preview: false, thumbnail: c.thumb, artist: c.artist.clone(), software: c.software.clone(), ..Default::default() };
  let mut out = Cursor::new(vec![]);
  convert_raw_source(&src, &mut out, "x.dng", &params).map_err(|e| format!("conversion: {e}"))?;
  let file = out.into_inner();
  let p = tiffmini::parse(&file)?;
  let mut skip = vec![MODIFY_DATE, ORIENTATION];
  if c.artist.is_some() {
    skip.push(ARTIST);
  }
  check_file(&p, &c.meta, &skip)?;
  let root = p.root();
  if let Some(a) = &c.artist {
    ensure_eq!(&root.req(ARTIST)?.text(), a, "artist");
  }
  ensure_eq!(root.req(305)?.text(), c.software, "software");
  ensure_eq!((root.req(271)?.text(), root.req(272)?.text(), root.req(50708)?.text()), ("Other Make".into(), "Other Model".into(), "Other Make Other Model".into()), "camera name");
  let o = c.meta.values().into_iter().find(|(i, _)| TABLE[*i].1 == ORIENTATION).map(|(_, v)| v.val());
  let got = root.get(ORIENTATION).cloned();
  // without the tag the orientation is normal
  ensure!(got == o || (o.is_none() && got == Some(Val::short(&[1]))), "orientation is {got:?}, the source says {o:?}");
  let raw = dngmini::raw_dir(&p)?;
  for (i, s) in &extra {
    let d = if CARRIED[*i].0 { raw } else { root };
    let want = carried(*i, *s);
    ensure!(d.get(CARRIED[*i].1) == Some(&want), "tag {} of the source is {:?} in the DNG instead of {want:?}", CARRIED[*i].1, d.get(CARRIED[*i].1));
  }
  for (i, t) in CARRIED.iter().enumerate() {
    if !extra.contains_key(&i) && t.1 != 50734 && t.1 != 50941 {
      let d = if t.0 { raw } else { root };
      ensure!(d.get(t.1).is_none(), "tag {} was not in the source", t.1);
    }
  }
  let t = root.req(MODIFY_DATE)?.text();
  ensure!(t.len() == 19 && t.bytes().enumerate().all(|(i, b)| if matches!(i, 4 | 7 | 13 | 16) { b == b':' } else if i == 10 { b == b' ' } else { b.is_ascii_digit() }), "modification date {t:?}");
  Ok(if c.meta.0.is_empty() { trivial("no metadata") } else { nontrivial(c.meta.label()) })
}

fn main() {
  main_with("C05", "a case is non-trivial when the source has at least one metadata value", |r| {
    r.assume("texts contain no NUL and, for names, no surrounding blanks (which are insignificant); values of zero elements may be left out");
    let n = r.scale(6000, 150_000);
    r.check("write", n, case, write);
    let n = r.scale(4000, 80_000);
    r.check("tiff", n, case, tiff);
    let n = r.scale(5000, 120_000);
    r.check("convert", n, conv, convert);
  })
}
