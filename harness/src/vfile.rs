//! Whole synthetic raw files of the vendor containers, with what they record.
use crate::fill::{fill, Fill, Rng};
use crate::ljref;
use crate::pack::*;
use crate::picture::{Pic, Shown};
use crate::tiffmini::{self, Dir, Layout, Val};
use crate::vendor::{self, Expect, Vc};
use proptest::prelude::*;
use rawler::decoders::Camera;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct VFile {
  pub fmt: u8,
  /// which camera of the vendor
  pub cam: u16,
  /// which way of storing the samples
  pub variant: u8,
  pub w: usize,
  pub h: usize,
  pub fill: Fill,
  /// everything else
  pub seed: u64,
  /// where the container has a place for one
  #[serde(default)]
  pub pic: Option<Pic>,
}
pub const FORMATS: [&str; 17] = ["ARI", "MRW", "MEF", "ERF", "KDC", "DCS", "DCR", "PEF", "3FR", "ARW", "ORF", "SRW", "NEF", "MOS", "RW2", "CR2", "RAF"];

impl VFile {
  pub fn name(&self) -> &'static str {
    FORMATS[self.fmt as usize % FORMATS.len()]
  }
}
pub fn case() -> impl Strategy<Value = VFile> {
  (0..FORMATS.len() as u8, any::<u16>(), any::<u8>(), 1..=100usize, prop_oneof![3 => 1..=20usize, 1 => 1..=64usize], fill(), any::<u64>()).prop_map(|(fmt, cam, variant, w, h, fill, seed)| VFile { fmt, cam, variant, w, h, fill, seed, pic: None })
}

/// What a file records; `None`: nothing is expected of it.
pub struct Built {
  pub file: Vec<u8>,
  /// how the samples are stored
  pub coding: String,
  pub cam: &'static Camera,
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub samples: Expect,
  /// red, green, blue; NaN where the file has none
  pub wb: [f64; 3],
  /// of the file
  pub black: Option<Vec<f64>>,
  pub white: Option<Vec<u32>>,
  /// x, y, w, h
  pub crop: Option<[usize; 4]>,
  pub active: Option<[usize; 4]>,
  /// black level of each colour in the file
  pub rgb: Option<[usize; 3]>,
  /// of the file
  pub cfa: Option<&'static str>,
  pub exif: Exif,
  /// does the container hold Exif data
  pub has_exif: bool,
  pub preview: Preview,
  /// the XMP packet
  pub xmp: Option<Vec<u8>>,
  /// stored at 45 degrees: the camera's borders belong to another image
  pub rotated: bool,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Preview {
  /// nothing is expected
  Unknown,
  Nothing,
  Picture(Shown),
}
/// Where a container keeps its preview.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
  /// not in any known place
  Nowhere,
  /// offset and length in the first directory
  Tags,
  /// a tag with the JPEG in it
  Blob,
  /// strip of the first directory
  Strip,
  /// directories of their own, or the strip of the first one
  Dirs,
  /// maker note
  Note,
}
#[derive(Debug, Clone, Default)]
pub struct Exif {
  pub iso: u16,
  pub exposure: (u32, u32),
  pub fnumber: (u32, u32),
  pub focal: (u32, u32),
  pub date: String,
  pub artist: String,
  pub lens: String,
  pub orientation: u16,
}

// ---- cameras ------------------------------------------------------------

fn all() -> &'static Vec<&'static Camera> {
  static C: OnceLock<Vec<&'static Camera>> = OnceLock::new();
  C.get_or_init(|| {
    let mut v: Vec<&'static Camera> = rawler::global_loader().get_cameras().values().collect();
    v.sort_by(|a, b| (&a.make, &a.model, &a.mode).cmp(&(&b.make, &b.model, &b.mode)));
    v
  })
}
fn small(c: &Camera) -> bool {
  [c.crop_area, c.active_area].iter().flatten().all(|a| a[0] + a[2] <= 48 && a[1] + a[3] <= 40)
}
fn pick(i: u16, ok: impl Fn(&Camera) -> bool) -> &'static Camera {
  // masked areas and wide borders of the real sensor do not fit into the small images here
  let c: Vec<_> = all().iter().filter(|c| c.blackareah.is_none() && c.blackareav.is_none() && c.cfa.width == 2 && c.cfa.height == 2 && small(c) && ok(c)).collect();
  // every second time one without borders, which most operations can work with
  let plain: Vec<_> = c.iter().filter(|c| c.crop_area.is_none() && c.active_area.is_none()).collect();
  if i % 2 == 0 && !plain.is_empty() {
    plain[i as usize / 2 % plain.len()]
  } else {
    c[i as usize / 2 % c.len()]
  }
}
/// Does the camera exist in any mode with this make and model?
fn of(makes: &'static [&'static str]) -> impl Fn(&Camera) -> bool {
  move |c| makes.contains(&c.make.as_str())
}

// ---- maker notes --------------------------------------------------------

/// A directory and its values; value offsets are positions in the result plus `base`.
pub fn ifd_bytes(d: &Dir, prefix: &[u8], start: usize, big: bool, base: i64) -> Vec<u8> {
  let n16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
  let n32 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
  let mut es = d.entries.clone();
  es.sort_by_key(|e| e.0);
  let mut out = prefix.to_vec();
  out.resize(start, 0);
  out.extend(n16(es.len() as u16));
  let mut values = vec![];
  let at = start + 2 + 12 * es.len() + 4;
  for (t, v) in &es {
    out.extend(n16(*t));
    out.extend(n16(v.typ));
    out.extend(n32(v.count));
    let raw = tiffmini::swapped(&v.data, v.typ, big);
    if raw.len() <= 4 {
      let mut f = [0u8; 4];
      f[..raw.len()].copy_from_slice(&raw);
      out.extend(f);
    } else {
      out.extend(n32((base + (at + values.len()) as i64) as u32));
      values.extend(raw);
      if values.len() % 2 == 1 {
        values.push(0);
      }
    }
  }
  out.extend(n32(0));
  out.extend(values);
  out
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Style {
  /// vendor header, directory of the file's byte order, absolute offsets
  Absolute(&'static [u8]),
  /// vendor header ending in a byte order mark
  Marked(&'static [u8], bool),
  /// offsets from the start of the note
  FromNote(&'static [u8]),
  /// offsets from the directory
  FromIfd,
  /// a TIFF structure of its own
  Nikon(bool),
}
fn note_bytes(d: &Dir, s: Style, big: bool, pos: usize) -> Vec<u8> {
  match s {
    Style::Absolute(p) => ifd_bytes(d, p, p.len(), big, pos as i64),
    Style::Marked(p, b) => {
      let mut p = p.to_vec();
      p.extend(if b { b"MM" } else { b"II" });
      let n = p.len();
      ifd_bytes(d, &p, n, b, pos as i64)
    }
    Style::FromNote(p) => ifd_bytes(d, p, p.len(), big, 0),
    Style::FromIfd => ifd_bytes(d, &[], 0, big, 0),
    Style::Nikon(b) => {
      let mut p = b"Nikon\0\x02\x10\0\0".to_vec();
      p.extend(if b { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" });
      ifd_bytes(d, &p, 18, b, -10)
    }
  }
}

/// Places `make(pos)` where `n` reserved bytes ended up in the file built with them.
fn placed(n: usize, seed: u64, build: impl FnOnce(Vec<u8>) -> Vec<u8>, make: impl Fn(usize) -> Vec<u8>) -> Vec<u8> {
  let mark = Rng::new(seed ^ 0x1234_5678).bytes(n);
  let mut file = build(mark.clone());
  let pos = file.windows(n).position(|w| w == mark).expect("reserved bytes");
  let b = make(pos);
  assert_eq!(b.len(), n);
  file[pos..pos + n].copy_from_slice(&b);
  file
}

// ---- the parts of a file ------------------------------------------------

struct Parts<'a> {
  c: &'a VFile,
  r: Rng,
  big: bool,
  /// raw image directory
  raw: Dir,
  /// tags of the first directory
  root: Dir,
  note: Option<(Dir, Style)>,
  exif: Exif,
  /// the raw image is in the first directory
  single: bool,
  /// the first directory may have its own strip
  preview: bool,
  place: Place,
  shown: Preview,
  xmp: Option<Vec<u8>>,
}
impl<'a> Parts<'a> {
  fn new(c: &'a VFile) -> Self {
    let mut r = Rng::new(c.seed);
    let exif = Exif {
      iso: 1 + r.below(12800) as u16,
      exposure: (1 + r.below(30) as u32, 1 + r.below(8000) as u32),
      fnumber: (10 + r.below(300) as u32, 10),
      focal: (8 + r.below(600) as u32, 1 + r.below(3) as u32),
      date: format!("20{:02}:{:02}:{:02} {:02}:{:02}:{:02}", r.below(26), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60)),
      artist: if r.bool() { format!("artist {}", r.below(1000)) } else { String::new() },
      lens: if r.bool() { format!("lens {}", r.below(1000)) } else { String::new() },
      orientation: 1 + r.below(8) as u16,
    };
    let (big, single) = (r.bool(), r.bool());
    Parts { c, r, big, raw: Dir::new(), root: Dir::new(), note: None, exif, single, preview: false, place: Place::Nowhere, shown: Preview::Nothing, xmp: None }
  }
  fn geometry(&mut self, w: usize, h: usize, bits: u16, comp: u16) {
    let long = self.r.bool();
    let n = |v: usize| if long { Val::long(&[v as u32]) } else { Val::short(&[v as u16]) };
    self.raw.set(256, n(w)).set(257, n(h)).set(258, Val::short(&[bits])).set(259, Val::short(&[comp])).set(262, Val::short(&[32803])).set(277, Val::short(&[1])).set(278, n(h));
  }
  fn make(&mut self, cam: &Camera) {
    let blanks = ["", " ", "      "][self.r.below(3) as usize];
    self.root.set(271, Val::ascii(&format!("{}{blanks}", cam.make)));
    self.root.set(272, Val::ascii(&format!("{}{blanks}", cam.model)));
  }
  fn strip(&mut self, data: Vec<u8>) {
    self.raw.blobs.push((273, 279, vec![data]));
  }
  fn file(&mut self, magic: u16) -> Vec<u8> {
    let e = &self.exif;
    let mut ex = Dir::new();
    ex.set(0x8827, Val::short(&[e.iso]));
    ex.set(0x829a, Val::rational(&[e.exposure]));
    ex.set(0x829d, Val::rational(&[e.fnumber]));
    ex.set(0x920a, Val::rational(&[e.focal]));
    ex.set(0x9003, Val::ascii(&e.date));
    if !e.lens.is_empty() {
      ex.set(0xa434, Val::ascii(&e.lens));
    }
    let mut root = self.root.clone();
    root.set(274, Val::short(&[e.orientation]));
    if !e.artist.is_empty() {
      root.set(315, Val::ascii(&e.artist));
    }
    if self.place == Place::Strip {
      // Hasselblad and Canon keep a packet in a tag
      self.xmp = packet(self.c.seed);
      if let Some(x) = &self.xmp {
        root.set(700, Val::byte(x));
      }
    }
    let mut chain = vec![];
    let mut more = vec![];
    self.shown = match self.place {
      Place::Strip | Place::Dirs => Preview::Unknown,
      _ => Preview::Nothing,
    };
    if let Some(k) = self.c.pic.clone() {
      more = self.picture(&k, &mut root);
    }
    if self.single {
      root.entries.extend(self.raw.entries.clone());
      root.blobs.extend(self.raw.blobs.clone());
      root.subs.extend(self.raw.subs.clone());
      root.set(254, Val::long(&[0]));
    } else {
      let mut raw = self.raw.clone();
      raw.set(254, Val::long(&[0]));
      root.set(254, Val::long(&[1]));
      if root.get(256).is_some() {
      } else if !self.preview {
        root.set(256, Val::short(&[8])).set(257, Val::short(&[6]));
      } else {
        root.set(256, Val::short(&[8])).set(257, Val::short(&[6]));
        root.set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3])).set(278, Val::short(&[6]));
        let px = self.r.bytes(8 * 6 * 3);
        if self.shown == Preview::Unknown {
          self.shown = Preview::Picture(Shown { w: 8, h: 6, spp: 3, px: px.clone() });
        }
        root.blobs.push((273, 279, vec![px]));
      }
      if self.r.bool() {
        root.subs.push((330, vec![raw]));
      } else {
        chain.push(raw);
      }
    }
    if !more.is_empty() {
      match root.subs.iter_mut().find(|s| s.0 == 330) {
        Some(s) => {
          for (i, d) in more.into_iter().enumerate() {
            let at = (self.c.seed as usize >> i) % (s.1.len() + 1);
            s.1.insert(at, d);
          }
        }
        None => chain.extend(more),
      }
    }
    let note = self.note.clone();
    let (big, seed) = (self.big, self.r.next());
    let lay = Layout { big, magic, shuffle: if seed % 3 == 0 { 0 } else { seed >> 8 }, gaps: seed % 2 == 0 };
    match note {
      None => {
        root.subs.push((34665, vec![ex]));
        chain.insert(0, root);
        tiffmini::build(&chain, lay)
      }
      Some((d, s)) => {
        let n = note_bytes(&d, s, big, 0).len();
        placed(
          n,
          self.c.seed,
          |m| {
            ex.set(0x927c, Val::undefined(&m));
            root.subs.push((34665, vec![ex]));
            chain.insert(0, root);
            tiffmini::build(&chain, lay)
          },
          |pos| note_bytes(&d, s, big, pos),
        )
      }
    }
  }
}

fn packet(seed: u64) -> Option<Vec<u8>> {
  let mut r = Rng::new(seed ^ 0x786d70);
  r.bool().then(|| {
    let n = 1 + if r.below(4) == 0 { r.below(8000) } else { r.below(300) } as usize;
    let mut v = b"<?xpacket begin='\xef\xbb\xbf' id='W5M0MpCehiHzreSzNTczkc9d'?>".to_vec();
    v.truncate(n);
    let more = r.bytes(n - v.len());
    v.extend(more);
    v
  })
}
fn plain(px: &[u16]) -> Expect {
  px.iter().map(|v| (*v, *v)).collect()
}
/// Payload and samples of a headerless codec.
fn codec(c: &VFile, id: u16) -> (Vec<u8>, Expect, usize, usize) {
  let vc = Vc { codec: id, w: c.w, h: c.h, fill: c.fill.clone(), seed: c.seed };
  let (w, h) = vendor::shape(id, c.w, c.h);
  let (b, e) = vendor::build(&vc);
  // one codec skips the header of these cases as its own
  (b[if id == 24 { 0 } else { 6 }..].to_vec(), e, w, h)
}
fn up(w: usize, g: usize) -> usize {
  w.div_ceil(g) * g
}
fn be16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn le16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
const NONE: [f64; 3] = [f64::NAN; 3];
/// Red, green 1, green 2, blue, relative to the first green.
fn wb(v: [f64; 4]) -> [f64; 3] {
  [v[0] / v[1], (1.0 + v[2] / v[1]) / 2.0, v[3] / v[1]]
}
fn levels(r: &mut Rng) -> [u16; 4] {
  let base = 256 + r.below(800) as u16;
  [base + r.below(700) as u16, base, if r.bool() { base } else { base + r.below(9) as u16 }, base + r.below(700) as u16]
}

fn build_any(c: &VFile) -> Built {
  match c.fmt as usize % FORMATS.len() {
    0 => ari(c),
    1 => mrw(c),
    2 => mef(c),
    3 => erf(c),
    4 => kdc(c),
    5 => dcs(c),
    6 => dcr(c),
    7 => pef(c),
    8 => tfr(c),
    9 => arw(c),
    10 => orf(c),
    11 => srw(c),
    12 => nef(c),
    13 => mos(c),
    14 => rw2(c),
    15 => cr2(c),
    _ => raf(c),
  }
}
pub fn build(c: &VFile) -> Built {
  let mut b = build_any(c);
  // the borders of the real sensor must fit into the image
  let need = |i: usize| [b.cam.crop_area, b.cam.active_area].iter().flatten().map(|a| a[i] + a[i + 2]).max().unwrap_or(0);
  let (nw, nh) = (need(0), need(1));
  if b.w <= nw || b.h <= nh + 8 {
    let k = VFile { w: c.w + if b.w <= nw { nw } else { 0 }, h: c.h + if b.h <= nh + 8 { nh + 8 } else { 0 }, ..c.clone() };
    b = build_any(&k);
  }
  if b.crop.is_none() && !b.rotated {
    b.crop = b.cam.crop_area.map(|a| borders(a, b.w, b.h));
  }
  if b.active.is_none() && !b.rotated {
    b.active = b.cam.active_area.map(|a| borders(a, b.w, b.h));
  }
  // nothing may depend on where the file ends
  let n = Rng::new(c.seed ^ 99).below(3) as usize * 40;
  b.file.extend(Rng::new(c.seed ^ 98).bytes(n));
  b
}
/// Left, top, right, bottom; the images here can be smaller than the borders.
fn borders(a: [usize; 4], w: usize, h: usize) -> [usize; 4] {
  [a[0], a[1], w.wrapping_sub(a[0]).wrapping_sub(a[2]), h.wrapping_sub(a[1]).wrapping_sub(a[3])]
}
fn built(p: Parts<'_>, file: Vec<u8>, cam: &'static Camera, coding: &str, w: usize, h: usize, samples: Expect, wb: [f64; 3]) -> Built {
  Built { file, coding: coding.into(), cam, w, h, cpp: 1, samples, wb, black: None, white: None, crop: None, active: None, rgb: None, cfa: None, exif: p.exif, has_exif: true, preview: p.shown, xmp: p.xmp, rotated: false }
}

fn ari(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["ARRI"]));
  let mut p = Parts::new(c);
  let le = cam.hints.iter().any(|h| h == "little-endian");
  let w = up(c.w, 8);
  let px = c.fill.u16s(w * c.h, 4095);
  let data = if le { pack_lsb(&px, 12) } else { swap(pack_msb(&px, 12), 4) };
  let mut f = p.r.bytes(0x0a98 + p.r.clone().below(200) as usize * 4);
  f[..4].copy_from_slice(b"ARRI");
  let put = |f: &mut Vec<u8>, o: usize, v: u32| f[o..o + 4].copy_from_slice(&v.to_le_bytes());
  let n = f.len() as u32;
  put(&mut f, 8, n);
  put(&mut f, 0x14, w as u32);
  put(&mut f, 0x18, c.h as u32);
  let g = [p.r.f32() * 3.0 + 0.25, 1.0, p.r.f32() * 3.0 + 0.25];
  for (i, v) in g.iter().enumerate() {
    put(&mut f, 100 + 4 * i, v.to_bits());
  }
  f[668..698].fill(0);
  f[668..668 + cam.model.len()].copy_from_slice(cam.model.as_bytes());
  put(&mut f, 0x74, p.exif.iso as u32);
  f.extend(data);
  f.extend([0; 8]);
  let mut b = built(p, f, cam, if le { "12 bits, low first" } else { "12 bits in words" }, w, c.h, plain(&px), g.map(|v| v as f64));
  b.has_exif = false;
  b
}

fn mrw(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| ["KONICA MINOLTA", "Minolta Co., Ltd.", "Konica Minolta Camera, Inc."].contains(&c.make.as_str()));
  let mut p = Parts::new(c);
  p.big = true;
  p.single = true;
  p.make(cam);
  let packed = c.variant % 2 == 0;
  let w = up(c.w, 2);
  let px = c.fill.u16s(w * c.h, 4095);
  let data = if packed { pack_msb(&px, 12) } else { be16(&px) };
  let mut prd = p.r.bytes(24);
  prd[8..10].copy_from_slice(&(c.h as u16).to_be_bytes());
  prd[10..12].copy_from_slice(&(w as u16).to_be_bytes());
  prd[16] = if packed { 12 } else { 16 };
  let l = levels(&mut p.r);
  let mut wbg = vec![2, 2, 2, 2];
  wbg.extend(l.iter().flat_map(|v| v.to_be_bytes()));
  let ttw = p.minolta();
  let mut blocks: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"\0PRD", prd), (b"\0TTW", ttw), (b"\0WBG", wbg), (b"\0RIF", p.r.bytes(20))];
  if p.r.bool() {
    blocks.push((b"\0PAD", vec![0; 1 + p.r.below(30) as usize]));
  }
  for i in (1..blocks.len()).rev() {
    let j = p.r.below(i as u64 + 1) as usize;
    blocks.swap(i, j);
  }
  // the reader stops 20 bytes before the end of the header
  blocks.push((b"\0PAD", vec![0; 20]));
  // offsets inside the TIFF block count from its start
  let mut body = vec![];
  for (t, d) in &blocks {
    body.extend(*t);
    body.extend((d.len() as u32).to_be_bytes());
    body.extend(d);
  }
  let mut f = b"\0MRM".to_vec();
  f.extend((body.len() as u32).to_be_bytes());
  f.extend(body);
  f.extend(data);
  let l = l.map(|v| v as f64);
  let w4 = if cam.hints.iter().any(|h| h == "swapped_wb") { [l[2], l[0], l[0], l[1]] } else { l };
  built(p, f, cam, if packed { "12 bits" } else { "words" }, w, c.h, plain(&px), wb(w4))
}

impl Parts<'_> {
  /// Puts the picture where the container keeps it; result: directories of its own.
  fn picture(&mut self, k: &Pic, root: &mut Dir) -> Vec<Dir> {
    let mut r = Rng::new(k.seed ^ 5);
    let (data, seen) = k.coded();
    let plain = k.samples(false);
    let n = |r: &mut Rng, v: usize| if r.bool() { Val::long(&[v as u32]) } else { Val::short(&[v as u16]) };
    let mut more = vec![];
    match self.place {
      Place::Nowhere | Place::Note => return more,
      Place::Tags => root.blobs.push((0x201, 0x202, vec![data])),
      Place::Blob => {
        root.set(0x2e, Val::undefined(&data));
      }
      Place::Strip | Place::Dirs if !k.jpeg => {
        self.single = false;
        root.set(256, n(&mut r, plain.w)).set(257, n(&mut r, plain.h)).set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[1])).set(262, Val::short(&[2])).set(277, Val::short(&[3]));
        let rows = if self.place == Place::Strip { plain.h } else { 1 + r.below(plain.h as u64) as usize };
        root.set(278, n(&mut r, rows));
        root.blobs.push((273, 279, plain.px.chunks(rows * plain.w * 3).map(|c| c.to_vec()).collect()));
        self.shown = Preview::Picture(plain);
        return more;
      }
      Place::Strip => {
        self.single = false;
        root.set(256, n(&mut r, seen.w)).set(257, n(&mut r, seen.h)).set(258, Val::short(&[8, 8, 8])).set(259, Val::short(&[if r.bool() { 6 } else { 7 }])).set(277, Val::short(&[3]));
        root.blobs.push((273, 279, vec![data]));
      }
      Place::Dirs => {
        let len = data.len();
        let mut all = vec![data];
        // smaller ones beside it
        for i in 0..r.below(3) {
          let small = Pic { w: 1 + r.below(k.w as u64) as u32, h: 1 + r.below(k.h as u64) as u32, seed: k.seed ^ (i + 77), ..k.clone() }.coded().0;
          if small.len() < len {
            let at = r.below(all.len() as u64 + 1) as usize;
            all.insert(at, small);
          }
        }
        for d in all {
          let mut e = Dir::new();
          e.set(254, Val::long(&[1])).set(259, Val::short(&[6])).set(282, Val::rational(&[(300, 1)]));
          e.blobs.push((0x201, 0x202, vec![d]));
          more.push(e);
        }
      }
    }
    self.shown = Preview::Picture(seen);
    more
  }
  /// A directory at offset 8 with the other one behind it.
  fn minolta(&mut self) -> Vec<u8> {
    let e = &self.exif;
    let mut ex = Dir::new();
    ex.set(0x8827, Val::short(&[e.iso])).set(0x829a, Val::rational(&[e.exposure])).set(0x829d, Val::rational(&[e.fnumber])).set(0x920a, Val::rational(&[e.focal])).set(0x9003, Val::ascii(&e.date));
    if !e.lens.is_empty() {
      ex.set(0xa434, Val::ascii(&e.lens));
    }
    let mut root = self.root.clone();
    root.set(274, Val::short(&[e.orientation])).set(34665, Val::long(&[0]));
    if !e.artist.is_empty() {
      root.set(315, Val::ascii(&e.artist));
    }
    let head = b"MM\0\x2a\0\0\0\x08";
    let n = ifd_bytes(&root, head, 8, true, 0).len() + 2 * self.r.below(20) as usize;
    root.set(34665, Val::long(&[n as u32]));
    let out = ifd_bytes(&root, head, 8, true, 0);
    ifd_bytes(&ex, &out, n, true, 0)
  }
}

fn mef(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["Mamiya-OP Co.,Ltd."]));
  let mut p = Parts::new(c);
  p.make(cam);
  p.preview = true;
  let w = up(c.w, 2);
  let px = c.fill.u16s(w * c.h, 4095);
  p.geometry(w, c.h, 12, 1);
  p.raw.set(33422, Val::byte(&[0, 1, 1, 2]));
  p.strip(pack_msb(&px, 12));
  let f = p.file(42);
  built(p, f, cam, "12 bits", w, c.h, plain(&px), NONE)
}

fn erf(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["SEIKO EPSON CORP."]));
  let mut p = Parts::new(c);
  p.make(cam);
  p.preview = true;
  let w = up(c.w, 10);
  let px = c.fill.u16s(w * c.h, 4095);
  p.geometry(w, c.h, 12, 1);
  p.raw.set(33422, Val::byte(&[0, 1, 1, 2]));
  let seed = p.r.next();
  p.strip(px.chunks_exact(w).flat_map(|l| control(pack_msb(l, 12), seed)).collect());
  let mut m = Dir::new();
  let mut t = p.r.bytes(256);
  let (r, b) = (100 + p.r.below(400) as u16, 100 + p.r.below(400) as u16);
  t[48..50].copy_from_slice(&r.to_be_bytes());
  t[50..52].copy_from_slice(&b.to_be_bytes());
  m.set(0x0e80, Val::undefined(&t));
  let black = p.r.bool().then(|| levels(&mut p.r));
  if let Some(l) = black {
    m.set(0x0401, Val::short(&l));
  }
  p.note = Some((m, Style::Absolute(b"EPSON\0\x01\0")));
  let f = p.file(42);
  let mut o = built(p, f, cam, "12 bits, control bytes", w, c.h, plain(&px), [r as f64 * 508.0 * 1.078 / 65536.0, 1.0, b as f64 * 382.0 * 1.173 / 65536.0]);
  o.black = black.map(|l| l.iter().map(|v| *v as f64).collect());
  o
}

fn kdc(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| ["EASTMAN KODAK COMPANY", "Eastman Kodak Company"].contains(&c.make.as_str()) && !["DC120", "DC50"].contains(&c.clean_model.as_str()));
  let mut p = Parts::new(c);
  p.make(cam);
  p.preview = true;
  let w = up(81 + c.w % 30, 2);
  let h = 71 + c.h % 10;
  let px = c.fill.u16s(w * h, 4095);
  p.raw.set(0xfd00, Val::short(&[(w - 80) as u16])).set(0xfd01, Val::short(&[(h - 70) as u16]));
  let hack = cam.hints.iter().any(|h| h == "easyshare_offset_hack");
  let wb = match c.variant % 3 {
    0 => NONE,
    1 => {
      let l = [256 + p.r.below(700) as u32, 256 + p.r.below(9) as u32, 256 + p.r.below(700) as u32];
      let mut m = Dir::new();
      m.set(0xfa2a, Val::long(&l));
      p.note = Some((m, Style::Absolute(b"")));
      l.map(|v| v as f64)
    }
    _ => {
      let n = [734usize, 1502, 1512, 2288][p.r.below(4) as usize];
      let mut t = p.r.bytes(n);
      let (r, b) = (1 + p.r.below(900) as u16, 1 + p.r.below(900) as u16);
      t[148..150].copy_from_slice(&r.to_be_bytes());
      t[150..152].copy_from_slice(&b.to_be_bytes());
      let mut m = Dir::new();
      m.set(0x0f00, Val::undefined(&t));
      p.note = Some((m, Style::Absolute(b"")));
      [r as f64 / 256.0, 1.0, b as f64 / 256.0]
    }
  };
  let small = p.r.bool();
  let mut o: Vec<u32> = (0..13 + p.r.below(3)).map(|_| p.r.below(1000) as u32).collect();
  let first = p.r.below(100) as u32;
  o[12] = first;
  let start = |o: &mut Vec<u32>, at: u32| o[4] = at - first;
  let r0 = p.r.clone();
  // the data follows the TIFF part
  start(&mut o, 0x5000);
  p.raw.set(0xfd04, Val::long(&o));
  let n = p.file(42).len() as u32;
  let at = if hack { if small { 0x15000 } else { 0x17000 } } else { n + 200 };
  start(&mut o, if hack { if small { 0x14000 } else { 0x16000 } } else { at });
  p.raw.set(0xfd04, Val::long(&o));
  p.r = r0;
  let mut f = p.file(42);
  assert!(f.len() <= at as usize);
  f.resize(at as usize, 0x55);
  f.extend(pack_msb(&px, 12));
  built(p, f, cam, if hack { "12 bits at a fixed offset" } else { "12 bits" }, w, h, plain(&px), wb)
}

fn dcs(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["KODAK"]));
  let mut p = Parts::new(c);
  p.make(cam);
  p.preview = true;
  let mut table: Vec<u16> = (0..256).map(|_| p.r.below(8192) as u16).collect();
  table.sort();
  let idx = c.fill.u16s(c.w * c.h, 255);
  p.geometry(c.w, c.h, 8, 1);
  p.strip(idx.iter().map(|v| *v as u8).collect());
  p.root.set(0x0123, Val::short(&table));
  let f = p.file(42);
  let e = idx.iter().map(|i| vendor::dither_range(&table, *i as usize)).collect();
  built(p, f, cam, "bytes through a table", c.w, c.h, e, NONE)
}

fn dcr(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| c.make == "Kodak" && c.model != "DCS560C");
  let mut p = Parts::new(c);
  p.make(cam);
  p.preview = true;
  let (d, e, w, h) = codec(c, 31);
  p.geometry(w, h, 8, 65000);
  p.raw.set(33422, Val::byte(&[0, 1, 1, 2]));
  let curve: Vec<u16> = d[..2048].chunks_exact(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
  p.strip(d[2048..].to_vec());
  let mut m = Dir::new();
  m.set(0x090d, Val::short(&curve));
  let l: [u16; 3] = [200 + p.r.below(2000) as u16, 200 + p.r.below(2000) as u16, 200 + p.r.below(2000) as u16];
  let n = if p.r.bool() { 46 + p.r.below(100) as usize } else { 10 };
  let mut t = p.r.bytes(n);
  let mut g = NONE;
  if n >= 46 {
    for (i, v) in l.iter().enumerate() {
      t[40 + 2 * i..42 + 2 * i].copy_from_slice(&v.to_be_bytes());
      g[i] = 2048.0 / *v as f64;
    }
  }
  m.set(0x03fd, Val::undefined(&t));
  p.root.subs.push((0x8290, vec![m]));
  let f = p.file(42);
  built(p, f, cam, "65000", w, h, e, g)
}

fn pef(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["PENTAX", "PENTAX Corporation", "RICOH IMAGING COMPANY, LTD."]));
  let mut p = Parts::new(c);
  p.place = Place::Note;
  p.make(cam);
  p.single = true;
  let mut m = Dir::new();
  let coding;
  let (w, h, e);
  match c.variant % 4 {
    0 => {
      (w, h) = (c.w, c.h);
      let px = c.fill.u16s(w * h, 65535);
      p.strip(be16(&px));
      p.geometry(w, h, 16, 1);
      e = plain(&px);
      coding = "words";
    }
    1 => {
      (w, h) = (up(c.w, 2), c.h);
      let px = c.fill.u16s(w * h, 4095);
      p.strip(pack_msb(&px, 12));
      p.geometry(w, h, 12, 32773);
      e = plain(&px);
      coding = "12 bits";
    }
    k => {
      // 37: little endian table in the file, 38: big endian
      let id = if k == 2 { 36 } else if p.big { 38 } else { 37 };
      let (d, x, a, b) = codec(c, id);
      (w, h, e) = (a, b, x);
      p.geometry(w, h, 12, 65535);
      if id == 36 {
        p.strip(d);
        coding = "compressed";
      } else {
        m.set(0x0220, Val::undefined(&d[..64]));
        p.strip(d[64..].to_vec());
        coding = "compressed, table in the file";
      }
    }
  }
  let l = p.r.bool().then(|| levels(&mut p.r));
  if let Some(l) = l {
    m.set(0x0201, Val::short(&l));
  }
  let black = p.r.bool().then(|| levels(&mut p.r));
  if let Some(b) = black {
    m.set(0x0200, Val::short(&b));
  }
  m.set(0x0005, Val::long(&[p.r.next() as u32]));
  let big = p.big;
  let style = match p.r.below(3) {
    0 => Style::Absolute(b"AOC\0"),
    1 => Style::Marked(b"AOC\0", big),
    _ => Style::FromNote(if big { b"PENTAX \0MM" } else { b"PENTAX \0II" }),
  };
  // the preview lies behind the rest, counted from the note or from the start of the file
  let mut pic = None;
  if let Some(k) = &c.pic {
    let mut r = Rng::new(k.seed ^ 5);
    let (data, seen) = k.coded();
    let mark = r.next() as u32 | 0x0101_0101;
    m.set(2, Val::short(&[seen.w as u16, seen.h as u16])).set(3, Val::long(&[data.len() as u32])).set(4, Val::long(&[mark]));
    let mut cut = None;
    if r.bool() {
      let b: Vec<u8> = [seen.h, seen.h, seen.w, seen.w].iter().map(|n| r.below((*n as u64).div_ceil(2).min(256)) as u8).collect();
      m.set(0x3e, Val::byte(&b));
      cut = Some(b);
    }
    pic = Some((data, seen, mark, cut, r.bool()));
  }
  p.note = Some((m, style));
  let mut f = p.file(42);
  if let Some((data, seen, mark, cut, absolute)) = pic {
    let bytes = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let at = f.windows(4).position(|b| b == bytes(mark)).expect("mark");
    let head: &[u8] = if style == Style::Absolute(b"AOC\0") || style == Style::Marked(b"AOC\0", big) { b"AOC\0" } else { b"PENTAX \0" };
    let note = f[..at].windows(head.len()).rposition(|b| b == head).expect("note");
    let start = f.len() - if absolute { 0 } else { note };
    f[at..at + 4].copy_from_slice(&bytes(start as u32));
    f.extend(data);
    if absolute {
      // the decoder looks there first
      f.resize(f.len() + note, 0x21);
    }
    p.shown = Preview::Picture(match cut {
      Some(b) => {
        let b: Vec<usize> = b.iter().map(|v| *v as usize).collect();
        seen.cut(b[2], b[0], seen.w - b[2] - b[3], seen.h - b[0] - b[1])
      }
      None => seen,
    });
  }
  let mut o = built(p, f, cam, coding, w, h, e, l.map_or(NONE, |l| wb(l.map(|v| v as f64))));
  o.black = black.map(|l| l.iter().map(|v| *v as f64).collect());
  o
}

fn tfr(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["Hasselblad"]));
  let mut p = Parts::new(c);
  p.place = Place::Strip;
  p.make(cam);
  p.preview = true;
  let un = cam.hints.iter().any(|h| h == "uncompressed");
  let white = if p.r.bool() { 65535 } else { 20000 + p.r.below(40000) as u16 };
  let n = [0.1 + p.r.f32(), 1.0, 0.1 + p.r.f32()];
  p.root.set(50728, Val::rational(&n.map(|v| ((v * 10000.0) as u32, 10000))));
  p.raw.set(0xc61d, Val::short(&[white]));
  let black = p.r.bool().then(|| p.r.below(4096) as u16);
  if let Some(b) = black {
    p.raw.set(0xc61a, Val::short(&[b]));
  }
  let w = up(c.w, 2);
  let px = c.fill.u16s(w * c.h, 65535);
  p.geometry(w, c.h, 16, if un { 1 } else { 7 });
  if un {
    p.strip(le16(&px));
  } else {
    let o = ljref::EncOpts { predictor: 1, precision: 16, table_seed: p.r.below(5), shared_table: p.r.bool(), id_base: 0, extra_segments: p.r.below(8) as u8, dng_bug: true, pad_ones: p.r.bool() };
    p.strip(ljref::encode(&px, w / 2, c.h, 2, &o));
  }
  let crop = (p.r.bool() && w > 8 && c.h > 8).then(|| [p.r.below(4) as usize, p.r.below(4) as usize, w - 4, c.h - 4]);
  if let Some(k) = crop {
    p.raw.set(50719, Val::short(&[k[0] as u16, k[1] as u16])).set(50720, Val::short(&[k[2] as u16, k[3] as u16]));
  }
  let f = p.file(42);
  let mut o = built(p, f, cam, if un { "words" } else { "lossless JPEG" }, w, c.h, plain(&px), n.map(|v| 10000.0 / ((v * 10000.0) as u32) as f64));
  o.crop = crop;
  o.white = Some(vec![white as u32]);
  o.black = black.map(|b| vec![b as f64]);
  o
}

fn arw(c: &VFile) -> Built {
  let mut p = Parts::new(c);
  p.place = Place::Tags;
  p.big = false;
  // words, 12 bits, two compressions
  let kind = c.variant % 4;
  let want = [None, Some(12), Some(8), None][kind as usize];
  let cam = pick(c.cam, |c| c.make == "SONY" && c.mode.is_empty() && !["DSC-R1", "DSLR-A100"].contains(&c.model.as_str()) && !c.model.starts_with("DSC-F") && !c.model.starts_with("DSC-V") && (c.bps.is_none() || want.is_none() || c.bps == want));
  let bps = cam.bps.unwrap_or(want.unwrap_or(12));
  p.make(cam);
  let (w, h, e, coding);
  match kind {
    0 => {
      (w, h) = (c.w, c.h);
      let px = c.fill.u16s(w * h, 65535);
      p.geometry(w, h, 14, 1);
      p.strip(le16(&px));
      e = plain(&px);
      coding = "words";
    }
    1 if bps == 12 => {
      (w, h) = (up(c.w, 2), c.h);
      let px = c.fill.u16s(w * h, 4095);
      p.geometry(w, h, 12, 32767);
      p.strip(pack_lsb(&px, 12));
      e = plain(&px);
      coding = "12 bits";
    }
    1 | 2 => {
      let (d, x, a, b) = codec(c, 22);
      (w, h, e) = (a, b, x);
      p.geometry(w, h, 8, 32767);
      let curve: Vec<u16> = d[..8].chunks_exact(2).map(|b| u16::from_le_bytes([b[0], b[1]]) << 2 | p.r.below(4) as u16).collect();
      p.raw.set(0x7010, Val::short(&curve));
      p.strip(d[8..8 + w * h].to_vec());
      coding = "8 bits";
    }
    _ => {
      // eight more rows than the directory says
      let k = VFile { h: c.h.max(10), ..c.clone() };
      let (mut d, x, a, b) = codec(&k, 21);
      (w, h, e) = (a, b, x);
      p.geometry(w, h - 8, 12, 32767);
      if d.len() * 8 == w * (h - 8) * bps {
        d.push(0);
      }
      p.strip(d);
      coding = "compressed";
    }
  }
  let active = (p.r.bool()).then(|| [0, 0, 1 + p.r.below(w as u64) as usize, 1 + p.r.below(h as u64) as usize]);
  if let Some(a) = active {
    p.raw.set(0x7038, Val::short(&[a[2] as u16, a[3] as u16]));
  }
  let crop = (p.r.bool() && w > 8 && h > 8).then(|| [p.r.below(4) as usize, p.r.below(4) as usize, w - 4, h - 4]);
  if let Some(k) = crop {
    p.raw.set(50719, Val::short(&[k[0] as u16, k[1] as u16])).set(50720, Val::short(&[k[2] as u16, k[3] as u16]));
  }
  let mut m = Dir::new();
  m.set(0xb020, Val::ascii("Standard"));
  p.note = Some((m, if p.r.bool() { Style::Absolute(b"SONY DSC \0\0\0") } else { Style::Absolute(b"") }));
  // the enciphered directory
  let mut sr2 = Dir::new();
  let l = levels(&mut p.r);
  if p.r.bool() {
    sr2.set(0x7303, Val::sshort(&[l[1] as i16, l[0] as i16, l[3] as i16, l[2] as i16]));
    if p.r.bool() {
      sr2.set(0x7313, Val::sshort(&[1, 2, 3, 4]));
    }
  } else {
    sr2.set(0x7313, Val::sshort(&l.map(|v| v as i16)));
  }
  let black = (p.r.below(4) > 0).then(|| levels(&mut p.r));
  let one = p.r.bool();
  if let Some(b) = black {
    let v = if one { Val::short(&b[..1]) } else { Val::short(&b) };
    sr2.set(if p.r.bool() { 0x7310 } else { 0x7300 }, v);
    if sr2.get(0x7310).is_some() && p.r.bool() {
      sr2.set(0x7300, Val::short(&[7]));
    }
  }
  let white = (p.r.below(4) > 0 || cam.whitelevel.is_none()).then(|| 4000 + p.r.below(12000) as u16);
  if let Some(v) = white {
    sr2.set(0x787f, Val::short(&if p.r.bool() { vec![v; 3] } else { vec![v; 4] }));
  }
  let key = p.r.next() as u32;
  let mut n = ifd_bytes(&sr2, &[], 0, false, 0).len();
  n += n % 4;
  let mut f = p.file(42);
  if f.len() % 2 == 1 {
    f.push(0);
  }
  // offset of the private directory, then of the enciphered one
  let r0 = p.r.clone();
  let size = {
    let mut q = Parts { r: r0.clone(), c, big: false, raw: p.raw.clone(), root: p.root.clone(), note: p.note.clone(), place: p.place, xmp: p.xmp.clone(), shown: Preview::Nothing, exif: p.exif.clone(), single: p.single, preview: false };
    q.root.set(0xc634, Val::byte(&[0; 4]));
    q.file(42).len()
  };
  let at = up(size, 4) + 4 * p.r.below(9) as usize;
  p.root.set(0xc634, Val::byte(&(at as u32).to_le_bytes()));
  p.r = r0;
  f = p.file(42);
  f.resize(at, 0x33);
  let mut pd = Dir::new();
  let place = at + 2 + 12 * 3 + 4 + 64;
  pd.set(0x7200, Val::long(&[place as u32])).set(0x7201, Val::long(&[n as u32])).set(0x7221, Val::undefined(&key.to_le_bytes()));
  f.extend(ifd_bytes(&pd, &[], 0, false, at as i64));
  f.resize(place, 0x44);
  let mut s = ifd_bytes(&sr2, &[], 0, false, place as i64);
  s.resize(n, 0);
  for (b, k) in s.chunks_exact_mut(4).zip(vendor::sony_pad(key, n / 4)) {
    let v = u32::from_le_bytes(b.try_into().unwrap()) ^ k;
    b.copy_from_slice(&v.to_le_bytes());
  }
  f.extend(s);
  f.extend([0; 4]);
  let shift = if coding == "12 bits" { 2 } else { 0 };
  let mut o = built(p, f, cam, coding, w, h, e, wb(l.map(|v| v as f64)));
  o.black = black.map(|b| (0..4).map(|i| (b[if one { 0 } else { i }] >> shift) as f64).collect());
  o.white = white.map(|v| vec![(v >> shift) as u32]);
  o.active = active;
  o.crop = crop;
  // borders count from the size in the directory
  if coding == "compressed" {
    o.active = o.active.or(cam.active_area.map(|a| borders(a, w, h)));
    o.crop = o.crop.or(cam.crop_area.map(|a| borders(a, w, h)));
  }
  o
}

fn orf(c: &VFile) -> Built {
  let mut p = Parts::new(c);
  let kind = c.variant % 4;
  let cam = pick(c.cam, |c| c.mode.is_empty() && (c.make.starts_with("OLYMPUS") || c.make == "OM Digital Solutions"));
  p.make(cam);
  p.single = true;
  let interlaced = cam.hints.iter().any(|h| h == "interlaced");
  let bps = if kind == 3 && p.r.bool() { 14 } else { 12 };
  let (w, h, e, data, coding, count);
  match kind {
    0 => {
      (w, h) = (c.w, c.h);
      let px = c.fill.u16s(w * h, 4095);
      let junk = p.r.next() as u16 & 15;
      let v: Vec<u16> = px.iter().map(|x| x << 4 | junk).collect();
      data = if p.big { be16(&v) } else { le16(&v) };
      e = plain(&px);
      coding = "words, left aligned";
      count = data.len();
    }
    1 => {
      (w, h) = (up(c.w, 10), c.h);
      let px = c.fill.u16s(w * h, 4095);
      let seed = p.r.next();
      data = px.chunks_exact(w).flat_map(|l| control(pack_lsb(l, 12), seed)).collect::<Vec<u8>>();
      e = plain(&px);
      coding = "12 bits, control bytes";
      count = data.len();
    }
    2 if interlaced => {
      (w, h) = (up(c.w, 10), c.h);
      let px = c.fill.u16s(w * h, 4095);
      let even: Vec<u16> = px.chunks_exact(w).step_by(2).flatten().copied().collect();
      let odd: Vec<u16> = px.chunks_exact(w).skip(1).step_by(2).flatten().copied().collect();
      let mut v = pack_msb(&even, 12);
      let gap = (v.len() / 2048 + 1) * 2048 - v.len();
      v.extend(vec![0x99; gap]);
      v.extend(pack_msb(&odd, 12));
      count = v.len() - gap;
      data = v;
      e = plain(&px);
      coding = "12 bits, two fields";
    }
    2 => {
      (w, h) = (up(c.w, 40), c.h);
      let px = c.fill.u16s(w * h, 4095);
      data = swap(pack_msb(&px, 12), 4);
      e = plain(&px);
      coding = "12 bits in words";
      count = data.len();
    }
    _ => {
      // wide enough to be recognised by its size
      let k = VFile { w: 60, h: c.h.max(16), fill: match &c.fill { Fill::Random(s) | Fill::Extremes(s) => Fill::Walk(*s, 3), f => f.clone() }, ..c.clone() };
      let (d, x, a, b) = codec(&k, 24);
      (w, h, e) = (a, b, x);
      data = if bps == 14 { [&[7u8][..], &d].concat() } else { d };
      count = data.len();
      coding = if bps == 14 { "compressed 14" } else { "compressed" };
    }
  }
  // compressed data is recognised by being smaller than packed data
  if kind == 3 && count >= w * h * 3 / 2 {
    return orf(&VFile { variant: c.variant - 1, ..c.clone() });
  }
  p.geometry(w, h, 16, 1);
  p.raw.blobs.push((273, 279, vec![data.clone()]));
  let mut m = Dir::new();
  let l = [1 + p.r.below(900) as u16, 1 + p.r.below(900) as u16];
  let direct = p.r.bool();
  if direct {
    m.set(0x1017, Val::short(&[l[0], 64])).set(0x1018, Val::short(&[l[1], 64]));
  }
  let big = p.big;
  let (style, has_proc): (&'static [u8], bool) = match p.r.below(3) {
    0 if bps == 12 => (b"OLYMP\0\x01\0", false),
    1 => (if big { b"OLYMPUS\0MM\x03\0" } else { b"OLYMPUS\0II\x03\0" }, true),
    _ if !big => (b"OM SYSTEM\0\0\0II\x04\0", true),
    _ => (b"OLYMPUS\0MM\x03\0", true),
  };
  if !direct && !has_proc {
    m.set(0x1017, Val::short(&[l[0], 64])).set(0x1018, Val::short(&[l[1], 64]));
  }
  let black = levels(&mut p.r);
  let crop = (has_proc && p.r.bool()).then(|| [p.r.below(5) as usize, p.r.below(5) as usize, 1 + p.r.below(w as u64) as usize, 1 + p.r.below(h as u64) as usize]);
  let mut f;
  if has_proc {
    let mut ip = Dir::new();
    ip.set(0x0100, Val::short(&l)).set(0x0600, Val::short(&black)).set(0x0611, Val::short(&[bps, 0]));
    if let Some(k) = crop {
      ip.set(0x0612, Val::short(&[k[0] as u16])).set(0x0613, Val::short(&[k[1] as u16])).set(0x0614, Val::long(&[k[2] as u32])).set(0x0615, Val::long(&[k[3] as u32]));
    }
    let typ = [4u16, 13][p.r.below(2) as usize];
    m.set(0x2040, Val::raw(typ, vec![0; 4]));
    let ns = style.len();
    // the main directory is followed by the image processing one
    let main = ifd_bytes(&m, style, ns, big, 0).len();
    m.set(0x2040, Val::raw(typ, (main as u32).to_le_bytes().to_vec()));
    let make = |pos: usize| {
      let mut b = ifd_bytes(&m, style, ns, big, pos as i64);
      let q = ifd_bytes(&ip, &b, main, big, 0);
      b = q;
      b
    };
    let n = make(0).len();
    let mark = Rng::new(c.seed ^ 0x55).bytes(n);
    p.note = None;
    f = p.file_with_note(&mark);
    let pos = f.windows(n).position(|x| x == mark).expect("reserved bytes");
    f[pos..pos + n].copy_from_slice(&make(pos));
  } else {
    p.note = Some((m, Style::Absolute(style)));
    f = p.file(42);
  }
  if coding == "12 bits, two fields" {
    // the counts leave out the gap between the fields
    let len = data.len() as u32;
    patch_count(&mut f, big, len, count as u32);
  }
  let b = has_proc.then(|| black.iter().map(|v| (*v << (bps - 12)) as f64).collect());
  let mut o = built(p, f, cam, coding, w, h, e, [l[0] as f64 / 256.0, 1.0, l[1] as f64 / 256.0]);
  o.black = b;
  o.crop = crop;
  o
}
/// Changes the strip byte count in the file.
fn patch_count(f: &mut [u8], big: bool, from: u32, to: u32) {
  let n32 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
  let n16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
  let pat = [&n16(279)[..], &n16(4)[..], &n32(1)[..], &n32(from)[..]].concat();
  let p = f.windows(12).position(|w| w == pat).expect("byte count");
  f[p + 8..p + 12].copy_from_slice(&n32(to));
}
impl Parts<'_> {
  fn file_with_note(&mut self, note: &[u8]) -> Vec<u8> {
    // reuse the layout code with a note of plain bytes
    let mut d = Dir::new();
    d.set(1, Val::undefined(&[0]));
    self.note = None;
    let e = self.exif.clone();
    let mut ex = Dir::new();
    ex.set(0x8827, Val::short(&[e.iso]));
    ex.set(0x829a, Val::rational(&[e.exposure]));
    ex.set(0x829d, Val::rational(&[e.fnumber]));
    ex.set(0x920a, Val::rational(&[e.focal]));
    ex.set(0x9003, Val::ascii(&e.date));
    if !e.lens.is_empty() {
      ex.set(0xa434, Val::ascii(&e.lens));
    }
    ex.set(0x927c, Val::undefined(note));
    let mut root = self.root.clone();
    root.set(274, Val::short(&[e.orientation]));
    if !e.artist.is_empty() {
      root.set(315, Val::ascii(&e.artist));
    }
    root.entries.extend(self.raw.entries.clone());
    root.blobs = self.raw.blobs.clone();
    root.subs.push((34665, vec![ex]));
    let seed = self.r.next();
    tiffmini::build(&[root], Layout { big: self.big, magic: 42, shuffle: if seed % 3 == 0 { 0 } else { seed >> 8 }, gaps: seed % 2 == 0 })
  }
}

fn srw(c: &VFile) -> Built {
  let cam = pick(c.cam, of(&["SAMSUNG"]));
  let mut p = Parts::new(c);
  p.make(cam);
  p.single = true;
  let le = cam.hints.iter().any(|h| h == "little_endian");
  let (w, h, e, coding);
  match c.variant % 6 {
    0 => {
      (w, h) = (c.w, c.h);
      let bits = if p.r.bool() { 12 } else { 14 };
      let px = c.fill.u16s(w * h, (1 << bits) - 1);
      p.geometry(w, h, bits, 32769);
      p.strip(le16(&px));
      e = plain(&px);
      coding = "words";
    }
    1 => {
      (w, h) = (up(c.w, 2), c.h);
      let px = c.fill.u16s(w * h, 4095);
      p.geometry(w, h, 12, 32770);
      p.strip(if le { pack_lsb(&px, 12) } else { pack_msb(&px, 12) });
      e = plain(&px);
      coding = if le { "12 bits, low first" } else { "12 bits" };
    }
    2 => {
      (w, h) = (c.w, c.h);
      let px = c.fill.u16s(w * h, 16383);
      p.geometry(w, h, 14, 32770);
      p.strip(le16(&px));
      e = plain(&px);
      coding = "14 bit words";
    }
    3 | 4 => {
      let (d, x, a, b) = codec(c, 26);
      (w, h, e) = (a, b, x);
      p.geometry(w, h, 12, 32772);
      p.strip(d);
      coding = "compressed 2";
    }
    _ => {
      let (d, x, a, b) = codec(c, 27);
      (w, h, e) = (a, b, x);
      p.geometry(w, h, 14, 32773);
      p.strip(d);
      coding = "compressed 3";
    }
  }
  let black = [64 + p.r.below(9) as u32, 64, 64, 64 + p.r.below(9) as u32];
  let l: [u32; 4] = [4096 + p.r.below(9000) as u32, 4096 + p.r.below(99) as u32, 4096, 4096 + p.r.below(9000) as u32];
  let mut m = Dir::new();
  m.set(0xa021, Val::long(&l)).set(0xa028, Val::long(&black));
  p.note = Some((m, Style::FromIfd));
  let f = p.file(42);
  let g = |i: usize| (l[i] as f64 - black[i] as f64) / 4096.0;
  let mut o = built(p, f, cam, coding, w, h, e, [g(0), g(1), g(3)]);
  // already subtracted
  o.black = Some(vec![0.0; 4]);
  o
}

fn nef(c: &VFile) -> Built {
  let mut p = Parts::new(c);
  p.place = Place::Dirs;
  let kind = c.variant % 7;
  let bits = if kind == 6 || p.r.bool() { 12u16 } else { 14 };
  let mode = format!("{bits}bit");
  let cam = pick(c.cam, |c| (c.make == "NIKON CORPORATION" || c.make == "Nikon") && c.mode == mode && c.model != "NIKON D100");
  let hint = |n: &str| cam.hints.iter().any(|h| h == n);
  p.make(cam);
  p.preview = true;
  let low = (!p.big || hint("little_endian")) && !hint("big_endian");
  let mut m = Dir::new();
  let (w, h, e, coding);
  let mut cpp = 1;
  let top = if bits == 12 { 4095 } else { 16383 };
  let words = |px: &[u16], low: bool| if low { le16(px) } else { be16(px) };
  p.raw.set(33422, Val::byte(&[0, 1, 1, 2]));
  if hint("coolpixsplit") {
    (w, h) = (up(c.w, 2), c.h);
    let px = c.fill.u16s(w * h, 4095);
    let even: Vec<u16> = px.chunks_exact(w).step_by(2).flatten().copied().collect();
    let odd: Vec<u16> = px.chunks_exact(w).skip(1).step_by(2).flatten().copied().collect();
    p.geometry(w, h, bits, 1);
    p.strip([pack_msb(&even, 12), pack_msb(&odd, 12)].concat());
    e = plain(&px);
    coding = "12 bits, two fields";
  } else if hint("msb32") {
    (w, h) = (up(c.w, 8), c.h);
    let px = c.fill.u16s(w * h, 4095);
    p.geometry(w, h, bits, 1);
    p.strip(swap(pack_msb(&px, 12), 4));
    e = plain(&px);
    coding = "12 bits in words";
  } else if hint("unpacked") {
    (w, h) = (c.w, c.h);
    let px = c.fill.u16s(w * h, 65535);
    p.geometry(w, h, bits, 1);
    p.strip(words(&px, low));
    e = plain(&px);
    coding = "words";
  } else if kind < 3 {
    if bits == 14 {
      (w, h) = (up(c.w, 4), c.h);
      let px = c.fill.u16s(w * h, top);
      p.geometry(w, h, bits, 1);
      if low && p.r.bool() {
        // packed, possibly with padded rows
        let pad = p.r.below(3) as usize * 5;
        p.raw.set(259, Val::short(&[if pad > 0 { 34713 } else { 1 }]));
        m.set(0x0093, Val::short(&[10]));
        p.strip(px.chunks_exact(w).flat_map(|l| { let mut v = pack_lsb(l, 14); v.extend(vec![0xcc; pad]); v }).collect());
        coding = "14 bits";
      } else {
        p.strip(words(&px, low));
        coding = "14 bit words";
      }
      e = plain(&px);
    } else {
      (w, h) = (up(c.w, 2), c.h);
      let px = c.fill.u16s(w * h, top);
      let pad = if low { p.r.below(3) as usize * 5 } else { 0 };
      // uncompressed data can be marked as compressed, the size tells
      let marked = pad > 0 || p.r.bool();
      p.geometry(w, h, bits, if marked { 34713 } else { 1 });
      p.strip(px.chunks_exact(w).flat_map(|l| { let mut v = if low { pack_lsb(l, 12) } else { pack_msb(l, 12) }; v.extend(vec![0xcc; pad]); v }).collect());
      e = plain(&px);
      coding = if pad > 0 { "12 bits, padded rows" } else { "12 bits" };
    }
  } else if kind < 6 {
    let id = match (p.big, bits) {
      (false, 12) => 48,
      (false, _) => 49,
      (true, 12) => 50,
      _ => 51,
    };
    let (d, x, a, b) = codec(c, id);
    (w, h, e) = (a, b, x);
    p.geometry(w, h, bits, 34713);
    m.set(0x0096, Val::undefined(&d[..4096]));
    let mut s = d[4096..].to_vec();
    // the size must not be that of uncompressed data
    while s.len() * 8 < (w * h * bits as usize) + 16 * h * 8 + 64 || s.len() == w * h * 3 {
      s.push(0);
    }
    while (s.len() - (w * h * bits as usize).div_ceil(8)) % h == 0 && h > 1 || s.len() == w * h * 3 {
      s.push(0);
    }
    if h == 1 {
      s.extend([0; 20]);
      if s.len() == w * h * 3 {
        s.push(0);
      }
    }
    p.strip(s);
    coding = if d[0] == 70 { "compressed" } else { "compressed, lossy" };
  } else {
    (w, h) = (up(c.w, 2), c.h);
    let px = c.fill.u16s(w * h, 4095);
    p.geometry(w, h, 12, 1);
    p.strip(if low { pack_lsb(&px, 12) } else { pack_msb(&px, 12) });
    e = plain(&px);
    coding = "12 bits";
    cpp = 1;
  }
  let l = [0.5 + p.r.f32() * 3.0, 0.5 + p.r.f32() * 3.0].map(|v| ((v * 256.0) as u32, 256));
  m.set(0x000c, Val::rational(&[l[0], l[1], (256, 256), (256, 256)]));
  let g = if hint("nowb") { NONE } else { [l[0].0 as f64 / 256.0, 1.0, l[1].0 as f64 / 256.0] };
  let black = p.r.bool().then(|| levels(&mut p.r));
  if let Some(b) = black {
    m.set(0x003d, Val::short(&b));
  }
  let crop = p.r.bool().then(|| [p.r.below(5) as usize, p.r.below(5) as usize, 1 + p.r.below(w as u64) as usize, 1 + p.r.below(h as u64) as usize]);
  if let Some(k) = crop {
    m.set(0x0045, Val::short(&k.map(|v| v as u16)));
  }
  m.set(0x0001, Val::undefined(b"0210"));
  let big = p.big;
  p.note = Some((m, Style::Nikon(big)));
  let f = p.file(42);
  let mut o = built(p, f, cam, coding, w, h, e, g);
  o.cpp = cpp;
  o.black = black.map(|b| b.iter().map(|v| (if bits == 12 { v >> 2 } else { *v }) as f64).collect());
  o.crop = crop;
  o
}

fn mos(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| ["Leaf", "Mamiya", "Phase One"].contains(&c.make.as_str()) && !c.model.contains('('));
  let mut p = Parts::new(c);
  p.root.set(305, Val::ascii("Camera Library"));
  let extra = if p.r.bool() { "(LF1234)" } else { "" };
  let xmp = format!("<x:xmpmeta><rdf:RDF><tiff:Make>{}</tiff:Make><tiff:Model>{}{extra}</tiff:Model></rdf:RDF></x:xmpmeta>", cam.make, cam.model);
  p.root.set(700, Val::byte(xmp.as_bytes()));
  let interlaced = cam.hints.iter().any(|h| h == "interlaced");
  let (w, h, e, coding, data);
  let kind = c.variant % 3;
  if kind == 0 {
    (w, h) = (c.w, c.h);
    let px = c.fill.u16s(w * h, 65535);
    data = if p.big { be16(&px) } else { le16(&px) };
    e = plain(&px);
    p.geometry(w, h, 16, 1);
    coding = "words";
  } else {
    let (d, x, a, b) = codec(c, if interlaced { 46 } else { 45 });
    (w, h, e) = (a, b, x);
    data = d;
    p.geometry(w, h, 16, if kind == 1 { 7 } else { 99 });
    coding = "compressed";
  }
  p.raw.blobs.push((324, 325, vec![data]));
  let l = [1 + p.r.below(900), 1 + p.r.below(900), 1 + p.r.below(900), 1 + p.r.below(900)];
  let n = 10 + p.r.below(300) as usize;
  let mut meta: Vec<u8> = p.r.bytes(n).iter().map(|b| b & 0x7f).collect();
  let mut g = NONE;
  if p.r.below(4) > 0 {
    meta.extend(b"NeutObj_neutrals");
    meta.extend([1u8; 28]);
    meta.extend(format!("{}\n{}\n{}\n{}\n\0", l[0], l[1], l[2], l[3]).as_bytes());
    g = [0, 1, 2].map(|i| l[0] as f64 / l[i + 1] as f64);
  }
  meta.extend([2; 100]);
  p.root.set(0x8606, Val::undefined(&meta));
  let f = p.file(42);
  built(p, f, cam, coding, w, h, e, g)
}

/// The aspect ratio selects the mode of the camera.
fn rw2_mode(w: usize, h: usize) -> &'static str {
  match w * 100 / h {
    0..125 => "1:1",
    125..145 => "4:3",
    145..165 => "3:2",
    _ => "16:9",
  }
}
fn rw2(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| ["Panasonic", "LEICA", "LEICA CAMERA AG"].contains(&c.make.as_str()) && ["1:1", "4:3", "3:2", "16:9"].contains(&c.mode.as_str()));
  let mut p = Parts::new(c);
  p.place = Place::Blob;
  p.make(cam);
  p.single = true;
  p.big = false;
  // samples per packet
  let kind = c.variant % 8;
  let bps = if p.r.bool() { 12 } else { 14 };
  let per = match kind {
    0 => 2,
    1 => 10,
    2 | 3 => 14,
    4 | 5 | 7 => if bps == 12 { 10 } else { 9 },
    _ => if bps == 12 { 14 } else { 11 },
  };
  let mut w = up(c.w.max(if kind == 1 { 150 } else { 14 }), per);
  let h = loop {
    let fit: Vec<usize> = (1..=2 * w).filter(|h| rw2_mode(w, *h) == cam.mode && *h <= w + 8).collect();
    let borders = [cam.crop_area, cam.active_area].iter().flatten().map(|a| (a[0] + a[2], a[1] + a[3])).fold((0, 0), |a, b| (a.0.max(b.0), a.1.max(b.1)));
    let fit: Vec<usize> = fit.into_iter().filter(|h| *h > borders.1 + 8 && w > borders.0).collect();
    if !fit.is_empty() {
      break fit[p.r.below(fit.len() as u64) as usize];
    }
    w += per;
  };
  let top = (1u16 << bps) - 1;
  let mut cr = p.r.clone();
  let (data, e, format, name) = match kind {
    0 => {
      let px = c.fill.u16s(w * h, 4095);
      (le16(&px.iter().map(|v| v << 4).collect::<Vec<_>>()), plain(&px), 2, "words")
    }
    1 => {
      let px = c.fill.u16s(w * h, 4095);
      (control(pack_lsb(&px, 12), c.seed), plain(&px), 2, "12 bits with control bytes")
    }
    2 | 3 => {
      let (b, e) = vendor::pana4(w, h, &c.fill, &mut cr);
      let f = if kind == 2 { 3 } else { 4 };
      (vendor::pana_blocks(&b, true), e, f, "format 4")
    }
    4 | 5 => {
      let px = c.fill.u16s(w * h, top);
      (vendor::pana_blocks5(&vendor::pana_plain(&px, bps)), plain(&px), 5, "format 5")
    }
    6 => {
      let (b, e) = vendor::pana6(&c.fill.u16s(w * h, top - 15), bps, &mut cr);
      (b, plain(&e), 6, "format 6")
    }
    _ => {
      let px = c.fill.u16s(w * h, top);
      (vendor::pana_plain(&px, bps), plain(&px), 7, "format 7")
    }
  };
  p.r = cr;
  let n = |v: usize| Val::short(&[v as u16]);
  let d = &mut p.root;
  d.set(2, n(w)).set(3, n(h)).set(10, n(if kind < 4 { 12 } else { bps as usize })).set(0x2d, n(format));
  p.raw.blobs.push((if kind < 2 { 0x111 } else { 0x118 }, 0x117, vec![data]));
  let mut cfa = None;
  if p.r.below(4) != 0 {
    let i = p.r.below(4) as usize;
    p.root.set(9, n(i + 1));
    cfa = Some(["RGGB", "GRBG", "GBRG", "BGGR"][i]);
  }
  let l = [256 + p.r.below(800) as usize, if p.r.bool() { 256 } else { 200 + p.r.below(99) as usize }, 256 + p.r.below(800) as usize];
  let w3;
  if p.r.bool() {
    p.root.set(0x24, n(l[0])).set(0x25, n(l[1])).set(0x26, n(l[2]));
    w3 = [l[0] as f64 / l[1] as f64, 1.0, l[2] as f64 / l[1] as f64];
  } else {
    p.root.set(0x11, n(l[0])).set(0x12, n(l[2]));
    w3 = [l[0] as f64 / 256.0, 1.0, l[2] as f64 / 256.0];
  }
  let (mut black, mut rgb) = (None, None);
  if p.r.below(4) != 0 {
    let mut k = [p.r.below(300) as usize, p.r.below(300) as usize, p.r.below(300) as usize];
    if p.r.below(3) != 0 {
      k = [k[0]; 3];
    }
    rgb = Some(k);
    p.root.set(0x1c, n(k[0])).set(0x1d, n(k[1])).set(0x1e, n(k[2]));
    // by the colour of each position
    let name = cfa.unwrap_or(&cam.cfa.name);
    black = Some(name.chars().map(|c| k["RGB".find(c).expect("three colours")] as f64).collect());
  }
  let area = |r: &mut Rng, w: usize, h: usize| {
    let (x, y) = (r.below(w as u64 / 2) as usize, r.below(h as u64 / 2) as usize);
    [x, y, 1 + r.below((w - x) as u64) as usize, 1 + r.below((h - y) as u64) as usize]
  };
  let (mut active, mut crop) = (None, None);
  if p.r.bool() {
    let a = area(&mut p.r, w, h);
    p.root.set(4, n(a[1])).set(5, n(a[0])).set(6, n(a[1] + a[3])).set(7, n(a[0] + a[2]));
    active = Some(a);
    crop = Some(a);
  }
  if p.r.bool() {
    let a = area(&mut p.r, w, h);
    p.root.set(0x2f, n(a[1])).set(0x30, n(a[0])).set(0x31, n(a[1] + a[3])).set(0x32, n(a[0] + a[2]));
    crop = crop.or(Some(a));
  }
  // overridden by the sensitivity in the Exif directory
  p.root.set(0x17, n(1 + p.exif.iso as usize));
  let f = p.file(0x55);
  let mut o = built(p, f, cam, name, w, h, e, w3);
  (o.cfa, o.black, o.active, o.crop, o.rgb) = (cfa, black, active, crop, rgb);
  o
}

/// Length or version of a Canon colour table, where the white balance starts, where the four
/// black levels and the white level are.
const CANON_TABLES: [(usize, i16, usize, Option<usize>, Option<usize>); 24] = [
  (582, 700, 0x19, None, None),
  (653, 900, 0x22, None, None),
  (796, 1, 0x3f, Some(0xc4), None),
  (674, 2, 0x3f, Some(0xe7), None),
  (702, 3, 0x3f, Some(0xe7), None),
  (1227, 4, 0x3f, Some(0x2b4), Some(0x2b9)),
  (1250, 5, 0x3f, Some(0x2b4), Some(0x2b9)),
  (1312, 6, 0x3f, Some(0x2cb), Some(0x2d0)),
  (1313, 7, 0x3f, Some(0x2cb), Some(0x2d0)),
  (1338, 9, 0x3f, Some(0x2cf), Some(0x2d4)),
  (1273, 10, 0x3f, Some(0x1df), Some(0x1e4)),
  (1275, 10, 0x3f, Some(0x1df), Some(0x1e4)),
  (1346, 10, 0x3f, Some(0x1f8), Some(0x1fd)),
  (1506, 11, 0x3f, Some(0x2d8), Some(0x2dd)),
  (1560, 12, 0x3f, Some(0x30a), Some(0x30f)),
  (1592, 13, 0x3f, Some(0x30a), Some(0x30f)),
  (1353, 14, 0x3f, Some(0x22c), Some(0x231)),
  (1602, 15, 0x3f, Some(0x30a), Some(0x30f)),
  (1820, 17, 0x47, Some(0x149), Some(0x31d)),
  (2024, 19, 0x47, Some(0x149), Some(0x31d)),
  (3656, 32, 0x55, Some(0x157), Some(0x32b)),
  (3973, 33, 0x55, Some(0x157), Some(0x32b)),
  (4528, 34, 0x69, Some(0x16b), Some(0x281)),
  (4528, 48, 0x69, Some(0x16b), Some(0x282)),
];
fn cr2(c: &VFile) -> Built {
  let cam = pick(c.cam, |c| c.make == "Canon" && c.mode.is_empty() && !c.hints.iter().any(|h| h == "linearization"));
  let double = cam.hints.iter().any(|h| h == "double_line");
  let mut p = Parts::new(c);
  p.place = Place::Strip;
  p.make(cam);
  p.preview = true;
  p.big = false;
  let (w, h, coding, e);
  let comps = if p.r.bool() { 2 } else { 4 };
  let bits = if p.r.bool() { 12 } else { 14 };
  let mut o = ljref::EncOpts { predictor: 1, precision: bits, table_seed: p.r.below(5), shared_table: p.r.bool(), id_base: 1, extra_segments: p.r.below(8) as u8, dng_bug: false, pad_ones: p.r.bool() };
  let top = (1u16 << bits) - 1;
  // vertical stripes, the last one has a width of its own
  let stripes = if double { 0 } else { c.variant as usize % 4 };
  let (n, a, z) = if stripes == 0 { (0, 0, 0) } else { (stripes, 2 * (1 + p.r.below(c.w as u64 / 2 + 1) as usize), up(c.w.max(2), 2)) };
  w = if stripes == 0 { up(c.w, 4) } else { n * a + z };
  let comps = if w % comps == 0 { comps } else { 2 };
  h = if double { up(c.h, 2) } else { c.h };
  let px = c.fill.u16s(w * h, top);
  e = plain(&px);
  let order: Vec<u16> = if n == 0 {
    px.clone()
  } else {
    let mut v = vec![];
    let mut x = 0;
    for i in 0..=n {
      let ww = if i < n { a } else { z };
      for y in 0..h {
        v.extend(&px[y * w + x..y * w + x + ww]);
      }
      x += ww;
    }
    v
  };
  let (jw, jh) = if double { (2 * w, h / 2) } else { (w, h) };
  if p.r.below(8) == 0 {
    o.predictor = 1 + p.r.below(7) as u8;
  }
  p.strip(ljref::encode(&order, jw / comps, jh, comps, &o));
  p.raw.set(259, Val::short(&[6])).set(0xc5d8, Val::long(&[1]));
  if n > 0 {
    p.raw.set(0xc640, Val::short(&[n as u16, a as u16, z as u16]));
  } else if p.r.bool() {
    p.raw.set(0xc640, Val::short(&[0, 0, 0]));
  }
  coding = match (double, n) {
    (true, _) => "two lines in one",
    (_, 0) => "one stripe",
    _ => "stripes",
  };
  let mut m = Dir::new();
  let (mut g, mut black, mut white) = (NONE, None, None);
  // some cameras count on the level in the file
  if cam.whitelevel.is_none() || p.r.below(5) != 0 {
    let ok: Vec<_> = CANON_TABLES.iter().filter(|t| cam.whitelevel.is_some() || t.4.is_some()).collect();
    let (len, version, at, b, wl) = *ok[p.r.below(ok.len() as u64) as usize];
    let mut t: Vec<u16> = (0..len).map(|_| p.r.below(65536) as u16).collect();
    t[0] = version as u16;
    let l = levels(&mut p.r);
    t[at..at + 4].copy_from_slice(&l);
    g = wb(l.map(|v| v as f64));
    if let Some(b) = b {
      black = Some(t[b..b + 4].iter().map(|v| *v as f64).collect());
    }
    if let Some(b) = wl {
      white = Some(vec![t[b] as u32]);
    }
    m.set(0x4001, Val::short(&t));
  }
  let mut crop = None;
  if cam.crop_area.is_none() && p.r.below(4) != 0 {
    let (x, y) = (p.r.below(w as u64) as usize, p.r.below(h as u64) as usize);
    let (x2, y2) = (x + p.r.below((w - x) as u64) as usize, y + p.r.below((h - y) as u64) as usize);
    m.set(0xe0, Val::short(&[34, w as u16, h as u16, 1, 1, x as u16, y as u16, x2 as u16, y2 as u16, 0, 0, 0, 0, 0, 0, 0, 0]));
    crop = Some([x, y, x2 - x + 1, y2 - y + 1]);
  }
  if p.r.bool() {
    let mut t: Vec<u16> = (0..47 + p.r.below(9)).map(|_| p.r.below(65536) as u16).collect();
    t[46] = 0;
    m.set(1, Val::short(&t));
  }
  m.set(0x10, Val::long(&[p.r.next() as u32]));
  p.note = Some((m, Style::Absolute(b"")));
  let f = p.file(42);
  let mut o = built(p, f, cam, coding, w, h, e, g);
  (o.black, o.white, o.crop) = (black, white, crop);
  o
}

// ---- Fujifilm -----------------------------------------------------------

fn raf(c: &VFile) -> Built {
  let all: Vec<_> = all()
    .iter()
    .filter(|k| k.make == "FUJIFILM" && k.mode.is_empty() && k.blackareah.is_none() && k.blackareav.is_none() && k.clean_model != "DBP for GX680" && [k.crop_area, k.active_area].iter().flatten().all(|a| a[0] + a[2] <= 180 && a[1] + a[3] <= 40))
    .collect();
  let cam: &'static Camera = all[c.cam as usize % all.len()];
  let has = |h: &str| cam.hints.iter().any(|k| k == h);
  let alt = has("fuji_rotation_alt");
  let rotated = alt || has("fuji_rotation");
  let mut p = Parts::new(c);
  p.make(cam);
  p.single = true;
  // the layout of the raw data
  let big = p.big;
  let bits = if has("double_width") {
    0
  } else if has("jpeg32") {
    [12u32, 14][c.variant as usize % 2]
  } else {
    [12u32, 14, 16, 15][c.variant as usize % 4]
  };
  // 15: the older structure without bit depth
  let old = bits == 15;
  let depth = if old || bits == 0 { 16 } else { bits };
  let (mut w, mut h) = (up(c.w, 16), c.h);
  if rotated {
    let a = cam.active_area.unwrap();
    (w, h) = (up(w + 96 + a[0] + a[2], 16), up(h + 96 + a[1] + a[3], 2));
  }
  let px = c.fill.u16s(w * h, ((1u32 << depth) - 1) as u16);
  let (data, coding) = match bits {
    0 => (px.chunks(w).flat_map(|l| [le16(l), p.r.bytes(w * 2)].concat()).collect(), "two images"),
    12 if has("jpeg32") => (swap(pack_msb(&px, 12), 4), "12 bits in words"),
    14 if has("jpeg32") => (swap(pack_msb(&px, 14), 4), "14 bits in words"),
    12 => (pack_lsb(&px, 12), "12 bits"),
    // the other bits do not count
    14 => (le16(&px.iter().map(|v| v | (p.r.below(4) as u16) << 14).collect::<Vec<_>>()), "14 bits"),
    _ => (if big { be16(&px) } else { le16(&px) }, if old { "words, old" } else { "words" }),
  };
  let l = levels(&mut p.r);
  let (g, r, b) = (l[1], l[0], l[3]);
  // another pattern than the camera's
  let pats: Vec<&'static str> = all.iter().filter(|k| k.cfa.width == 6).map(|k| k.cfa.name.as_str()).collect();
  let cfa = if cam.cfa.width == 2 {
    None
  } else if cam.cfa.width == 0 || p.r.bool() {
    Some(pats[p.r.below(pats.len() as u64) as usize])
  } else {
    None
  };
  let side = if cfa.is_some() { 6 } else { cam.cfa.width };
  let black: Option<Vec<u32>> = (!old && p.r.bool()).then(|| (0..side * side).map(|_| p.r.below(2000) as u32).collect());
  // the block of Fujifilm tags
  let with_tags = old || cfa.is_some() || rotated || p.r.bool();
  let mut crop = None;
  let mut tags: Vec<(u16, Vec<u8>)> = vec![(0x100, be16(&[h as u16, w as u16])), (0x9200, p.r.bytes(4)), (0xc000, p.r.bytes(24)), (0x121, p.r.bytes(4))];
  if p.r.bool() {
    tags.push((0x115, be16(&[2, 3])));
  }
  if old {
    tags.push((0x2ff0, be16(&[g, r, g, b])));
  }
  if let Some(k) = cfa {
    tags.push((0x131, k.bytes().rev().map(|v| match v { b'R' => 0, b'G' => 1, _ => 2 }).collect()));
  }
  if rotated || p.r.bool() {
    tags.push((0x130, vec![if alt { p.r.below(128) as u8 } else { 128 + p.r.below(128) as u8 }, 0, 0, 0]));
  }
  if !rotated && p.r.bool() && w > 8 && h > 8 {
    let k = [p.r.below(4) as usize, p.r.below(4) as usize, w - 4 - p.r.below(3) as usize, h - 4 - p.r.below(3) as usize];
    tags.push((0x110, be16(&[k[1] as u16, k[0] as u16])));
    tags.push((0x111, be16(&[k[3] as u16, k[2] as u16])));
    crop = with_tags.then_some(k);
  }
  for i in (1..tags.len()).rev() {
    let j = p.r.below(i as u64 + 1) as usize;
    tags.swap(i, j);
  }
  let mut block = (tags.len() as u32).to_be_bytes().to_vec();
  for (t, v) in &tags {
    block.extend(be16(&[*t, v.len() as u16]));
    block.extend(v);
  }
  // the picture with the Exif data
  let mut m = Dir::new();
  m.set(0x1000, Val::ascii("HQ"));
  p.note = Some((m, Style::Absolute(b"FUJIFILM\x0c\0\0\0")));
  let exif = p.file(42);
  let pic = c.pic.clone().unwrap_or(Pic { w: 8, h: 6, jpeg: true, gray: false, smooth: true, seed: c.seed });
  let (j, seen) = pic.coded();
  let mut jpeg = vec![0xff, 0xd8, 0xff, 0xe1];
  jpeg.extend(((exif.len() + 8) as u16).to_be_bytes());
  jpeg.extend(b"Exif\0\0");
  jpeg.extend(&exif);
  // the packet comes before or after the other segments
  let mut seg = vec![];
  p.xmp = packet(c.seed);
  if let Some(x) = &p.xmp {
    seg.extend([0xff, 0xe1]);
    seg.extend(((x.len() + 31) as u16).to_be_bytes());
    seg.extend(b"http://ns.adobe.com/xap/1.0/\0");
    seg.extend(x);
  }
  let at = 4 + u16::from_be_bytes([j[4], j[5]]) as usize;
  if p.r.bool() {
    jpeg.extend(&seg);
    jpeg.extend(&j[2..]);
  } else {
    jpeg.extend(&j[2..at]);
    jpeg.extend(&seg);
    jpeg.extend(&j[at..]);
  }
  p.shown = Preview::Picture(seen);
  // the raw image
  let raw = if old {
    data
  } else {
    let mut d = Dir::new();
    let long = p.r.bool();
    let n = |v: u32| if long { Val::long(&[v]) } else { Val::short(&[v as u16]) };
    d.set(0xf001, n(w as u32)).set(0xf002, n(h as u32)).set(0xf003, n(depth));
    d.set(0xf00c, Val::long(&[1, 2, 3])).set(0xf00d, Val::long(&[3, 2, 1])).set(0xf00e, Val::long(&[g as u32, r as u32, b as u32]));
    if let Some(v) = &black {
      d.set(0xf00a, Val::long(v));
    }
    d.blobs.push((0xf007, 0xf008, vec![data]));
    let mut root = Dir::new();
    root.subs.push((0xf000, vec![d]));
    let seed = p.r.next();
    tiffmini::build(&[root], Layout { big: p.r.bool(), magic: 42, shuffle: if seed % 3 == 0 { 0 } else { seed >> 8 }, gaps: seed % 2 == 0 })
  };
  let mut f = p.r.bytes(0x94);
  f[..16].copy_from_slice(b"FUJIFILMCCD-RAW ");
  f[84..108].fill(0);
  let mut parts: Vec<(usize, &Vec<u8>)> = vec![(84, &jpeg)];
  if with_tags {
    parts.push((92, &block));
  }
  if p.r.bool() {
    parts.reverse();
  }
  // old raw data end with the file
  parts.push((100, &raw));
  if !old && p.r.bool() {
    parts.rotate_right(1);
  }
  for (at, b) in parts {
    let n = p.r.below(9) as usize * 4;
    f.extend(p.r.bytes(n));
    let o = f.len() as u32;
    f[at..at + 4].copy_from_slice(&o.to_be_bytes());
    f[at + 4..at + 8].copy_from_slice(&(b.len() as u32).to_be_bytes());
    f.extend(b);
  }
  f.extend([0; 8]);
  let wb = [r as f64 / g as f64, 1.0, b as f64 / g as f64];
  let mut o = if !rotated {
    built(p, f, cam, coding, w, h, plain(&px), wb)
  } else {
    let a = cam.active_area.unwrap();
    let (cw, ch) = (w - a[0] - a[2], h - a[1] - a[3]);
    // the other diagonal of the two sets the split
    let (s, t) = if alt { (ch + cw / 2, ch) } else { (cw + ch / 2, cw) };
    let mut turned = vec![(0, 0); s * (s - 1)];
    for y in 0..ch {
      for x in 0..cw {
        let v = px[(y + a[1]) * w + x + a[0]];
        let (ty, tx) = if alt { (cw / 2 - 1 + y - x / 2, y + (x + 1) / 2) } else { (cw - 1 - x + y / 2, x + (y + 1) / 2) };
        turned[ty * s + tx] = (v, v);
      }
    }
    let mut o = built(p, f, cam, &format!("{coding}, {}", if alt { "turned the other way" } else { "turned" }), s, s - 1, turned, wb);
    o.rotated = true;
    let (u, v) = ((t as f64 * 2f64.sqrt()) as usize, ((s - t) as f64 * 2f64.sqrt()) as usize);
    o.crop = cam.crop_area.map(|k| borders(k, u.max(v), u.min(v)));
    o
  };
  if !rotated {
    o.crop = crop;
    o.cfa = cfa;
  }
  o.white = Some(vec![(1 << depth) - 1]);
  o.black = black.map(|v| v.iter().map(|x| *x as f64).collect());
  o
}
