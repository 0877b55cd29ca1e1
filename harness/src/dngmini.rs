//! Independent reader for the raw image of a DNG file.
use crate::ljref;
use crate::tiffmini::{PDir, Parsed};

#[derive(Debug, Clone, PartialEq)]
pub enum Samples {
  Int(Vec<u16>),
  Float(Vec<f32>),
}
#[derive(Debug, Clone)]
pub struct Stored {
  pub w: usize,
  pub h: usize,
  pub spp: usize,
  pub bits: u32,
  pub samples: Samples,
  pub chunks: usize,
}

/// The directory that carries the main image.
pub fn raw_dir(p: &Parsed) -> Result<&PDir, String> {
  let root = p.root();
  let mut c: Vec<&PDir> = vec![];
  if root.uint(254, 0) == 0 && root.get(259).is_some() {
    c.push(root);
  }
  for d in root.subs.get(&330).into_iter().flatten() {
    if d.uint(254, 0) == 0 {
      c.push(d);
    }
  }
  match c.len() {
    1 => Ok(c[0]),
    n => Err(format!("{n} directories claim to be the main image")),
  }
}

fn unpack(src: &[u8], n: usize, bits: u32, big: bool) -> Result<Vec<u16>, String> {
  if bits == 16 {
    let v: Vec<u16> = src.chunks_exact(2).map(|c| if big { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
    if v.len() != n || src.len() != 2 * n {
      return Err(format!("{} bytes of 16 bit data for {n} samples", src.len()));
    }
    return Ok(v);
  }
  Err(format!("unexpected {bits} bit uncompressed data"))
}

pub fn read_raw(file: &[u8], d: &PDir, big: bool) -> Result<Stored, String> {
  let w = d.req(256)?.uint(0) as usize;
  let h = d.req(257)?.uint(0) as usize;
  let spp = d.req(277)?.uint(0) as usize;
  let bv = d.req(258)?;
  if bv.count as usize != spp {
    return Err(format!("{} BitsPerSample values for {spp} samples", bv.count));
  }
  let bits = bv.uint(0);
  if bv.uints().iter().any(|b| *b != bits) {
    return Err("mixed bit depths".into());
  }
  let fmt = d.get(339).map_or(1, |v| v.uint(0));
  if let Some(v) = d.get(339) {
    if v.count as usize != spp || v.uints().iter().any(|x| *x != fmt) {
      return Err("SampleFormat does not fit SamplesPerPixel".into());
    }
  }
  if d.uint(284, 1) != 1 {
    return Err("planar configuration is not chunky".into());
  }
  let comp = d.req(259)?.uint(0);
  let tiled = d.get(324).is_some();
  if tiled == d.get(273).is_some() {
    return Err("exactly one of strips and tiles must be present".into());
  }
  let (cw, ch, offs, lens) = if tiled {
    let (cw, ch) = (d.req(322)?, d.req(323)?);
    if cw.count != 1 || ch.count != 1 {
      return Err("tile size tag with more than one value".into());
    }
    let (cw, ch) = (cw.uint(0) as usize, ch.uint(0) as usize);
    if cw == 0 || ch == 0 || cw % 16 != 0 || ch % 16 != 0 {
      return Err(format!("tile size {cw}x{ch} is not a multiple of 16"));
    }
    (cw, ch, d.req(324)?.uints(), d.req(325)?.uints())
  } else {
    let r = d.get(278);
    if r.is_some_and(|r| r.count != 1) {
      return Err(format!("RowsPerStrip has {} values, TIFF allows one", r.unwrap().count));
    }
    (w, r.map_or(h, |v| (v.uint(0) as usize).min(h)), d.req(273)?.uints(), d.req(279)?.uints())
  };
  if cw == 0 || ch == 0 {
    return Err("empty tile or strip size".into());
  }
  let (nx, ny) = (w.div_ceil(cw), h.div_ceil(ch));
  if offs.len() != nx * ny || lens.len() != nx * ny {
    return Err(format!("{} tiles or strips stored, {} needed", offs.len(), nx * ny));
  }
  let float = fmt == 3;
  let mut ints = vec![0u16; if float { 0 } else { w * h * spp }];
  let mut floats = vec![0f32; if float { w * h * spp } else { 0 }];
  for i in 0..offs.len() {
    let (tx, ty) = (i % nx * cw, i / nx * ch);
    let src = &file[offs[i] as usize..offs[i] as usize + lens[i] as usize];
    let rows = if tiled { ch } else { ch.min(h - ty) };
    let n = cw * rows * spp;
    if float {
      if comp != 1 || bits != 32 {
        return Err(format!("float data with compression {comp}, {bits} bits"));
      }
      if src.len() != 4 * n {
        return Err(format!("strip has {} bytes, {} expected", src.len(), 4 * n));
      }
      for (k, c) in src.chunks_exact(4).enumerate() {
        let v = if big { u32::from_be_bytes(c.try_into().unwrap()) } else { u32::from_le_bytes(c.try_into().unwrap()) };
        let (x, y) = (k % (cw * spp), k / (cw * spp));
        if tx * spp + x < w * spp && ty + y < h {
          floats[(ty + y) * w * spp + tx * spp + x] = f32::from_bits(v);
        }
      }
    } else {
      let v = match comp {
        1 => unpack(src, n, bits, big)?,
        7 => {
          let dj = ljref::decode(src).map_err(|e| format!("tile {i}: {e}"))?;
          if dj.precision != bits {
            return Err(format!("tile {i}: precision {} but BitsPerSample {bits}", dj.precision));
          }
          if dj.data.len() != n {
            return Err(format!("tile {i}: {}x{}x{} samples, {n} expected", dj.w, dj.h, dj.ncomp));
          }
          dj.data
        }
        c => return Err(format!("compression {c}")),
      };
      for (k, s) in v.into_iter().enumerate() {
        let (x, y) = (k % (cw * spp), k / (cw * spp));
        if tx * spp + x < w * spp && ty + y < h {
          ints[(ty + y) * w * spp + tx * spp + x] = s;
        }
      }
    }
  }
  Ok(Stored { w, h, spp, bits, samples: if float { Samples::Float(floats) } else { Samples::Int(ints) }, chunks: offs.len() })
}

/// Index and values of the first difference.
pub fn first_diff<T: PartialEq + Copy + std::fmt::Debug>(got: &[T], want: &[T], width: usize) -> Option<String> {
  if got.len() != want.len() {
    return Some(format!("{} samples instead of {}", got.len(), want.len()));
  }
  let i = (0..got.len()).find(|i| got[*i] != want[*i])?;
  Some(format!("sample {i} (column {}, row {}) is {:?} instead of {:?}; {} differ", i % width, i / width, got[i], want[i], (0..got.len()).filter(|i| got[*i] != want[*i]).count()))
}
