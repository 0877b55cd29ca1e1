//! C06: an embedded original is recovered bit for bit, damage is detected.
use proptest::prelude::*;
use rawler::dng::original::OriginalCompressed;
use rawler::dng::writer::DngWriter;
use rawler::dng::convert::{convert_raw_source, ConvertParams};
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion, DNG_VERSION_V1_4};
use rawler::rawsource::RawSource;
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Read, Seek, SeekFrom};
use vh::fill::{Fill, Rng};
use vh::rawgen::*;
use vh::*;

const BLOCK: usize = 65536;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Data {
  len: usize,
  mode: u8,
  seed: u64,
}
impl Data {
  fn bytes(&self) -> Vec<u8> {
    let mut r = Rng::new(self.seed);
    match self.mode {
      0 => vec![self.seed as u8; self.len],
      1 => r.bytes(self.len),
      2 => {
        // runs, as compressible files have
        let mut v = vec![];
        while v.len() < self.len {
          let b = r.next() as u8;
          let n = 1 + r.below(700) as usize;
          v.extend(std::iter::repeat_n(b, n));
        }
        v.truncate(self.len);
        v
      }
      _ => {
        // text-like repetition over long distances
        let word = r.bytes(37);
        let mut v: Vec<u8> = (0..self.len).map(|i| word[i % 37]).collect();
        for _ in 0..self.len / 50 {
          let i = r.below(self.len as u64) as usize;
          v[i] = r.next() as u8;
        }
        v
      }
    }
  }
}
fn data(max_blocks: usize) -> impl Strategy<Value = Data> {
  let len = prop_oneof![
    4 => (0..=max_blocks, -3i64..=3).prop_map(|(b, d)| (b as i64 * BLOCK as i64 + d).max(0) as usize),
    3 => 0..3000usize,
    2 => 0..max_blocks * BLOCK,
  ];
  (len, 0..4u8, any::<u64>()).prop_map(|(len, mode, seed)| Data { len, mode, seed })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  data: Data,
  /// bytes of the stream before the part that is embedded
  lead: usize,
  /// bytes before the stored blob
  at: usize,
}

/// The stored form, read as the DNG specification describes it: the size of
/// the file, the offsets of all blocks and the end of the last one, then the
/// blocks; each but the last expands to 64 KiB.
fn unpack(blob: &[u8]) -> Result<Vec<u8>, String> {
  let u32at = |i: usize| -> Result<usize, String> { Ok(u32::from_be_bytes(blob.get(i * 4..i * 4 + 4).ok_or("blob too short")?.try_into().unwrap()) as usize) };
  let size = u32at(0)?;
  let n = size.div_ceil(BLOCK);
  let mut out = vec![];
  let mut end = 0;
  for k in 0..n {
    let (a, b) = (u32at(1 + k)?, u32at(2 + k)?);
    ensure!(a >= 4 * (n + 2) && a <= b && b <= blob.len(), "block {k} lies at {a}..{b} of {}", blob.len());
    let mut v = vec![];
    libflate::zlib::Decoder::new(&blob[a..b]).and_then(|mut d| d.read_to_end(&mut v)).map_err(|e| format!("block {k}: {e}"))?;
    ensure!(v.len() == BLOCK.min(size - k * BLOCK), "block {k} expands to {} bytes", v.len());
    out.extend(v);
    end = b;
  }
  if n == 0 {
    end = u32at(1)?;
    ensure!(end == 8, "empty file: end offset {end}");
  }
  // seven more, empty, forks
  ensure!(blob.len() == end + 28 && blob[end..].iter().all(|b| *b == 0), "{} bytes after the last block", blob.len() - end);
  Ok(out)
}

fn test(c: &Case) -> Outcome {
  let body = c.data.bytes();
  let mut all = vec![0xA5u8; c.lead];
  all.extend(&body);
  let mut s = Cursor::new(all);
  s.seek(SeekFrom::Start(c.lead as u64)).unwrap();
  let o = OriginalCompressed::compress(&mut s).map_err(|e| e.to_string())?;
  let md5: [u8; 16] = md5::compute(&body).into();
  ensure!(o.digest() == Some(md5), "digest is not the MD5 of the file");
  let mut blob = vec![];
  o.write_to_stream(&mut blob).map_err(|e| e.to_string())?;
  let got = unpack(&blob)?;
  ensure!(got == body, "the stored blocks expand to other data");
  // direct recovery, and recovery from the stored form at any position of a stream
  let mut direct = vec![];
  o.decompress(&mut direct, true).map_err(|e| format!("recovery before storing: {e}"))?;
  ensure!(direct == body, "recovery before storing returns other data");
  let mut st = vec![0x5Au8; c.at];
  st.extend(&blob);
  st.extend([7; 5]);
  let mut st = Cursor::new(st);
  st.seek(SeekFrom::Start(c.at as u64)).unwrap();
  let o2 = OriginalCompressed::new(&mut st, Some(md5)).map_err(|e| format!("reading the stored form: {e}"))?;
  let mut back = vec![];
  let n = o2.decompress(&mut back, true).map_err(|e| format!("recovery: {e}"))?;
  ensure!(back == body, "recovered file differs");
  ensure!(n == body.len(), "recovery reports {n} bytes, the file has {}", body.len());
  // a wrong digest is noticed, and ignored only on request
  let mut bad = md5;
  bad[c.at % 16] ^= 1 << (c.lead % 8);
  st.seek(SeekFrom::Start(c.at as u64)).unwrap();
  let o3 = OriginalCompressed::new(&mut st, Some(bad)).map_err(|e| e.to_string())?;
  ensure!(o3.decompress(&mut vec![], true).is_err(), "a wrong digest passes verification");
  let mut lax = vec![];
  o3.decompress(&mut lax, false).map_err(|e| format!("without verification: {e}"))?;
  ensure!(lax == body, "recovered file without verification differs");
  st.seek(SeekFrom::Start(c.at as u64)).unwrap();
  let o4 = OriginalCompressed::new(&mut st, None).map_err(|e| e.to_string())?;
  ensure!(o4.decompress(&mut vec![], true).is_err(), "verification succeeds without a digest");
  let lab = format!("{} blocks{}", body.len().div_ceil(BLOCK), if body.len() % BLOCK == 0 { ", exact" } else { "" });
  Ok(if body.len() > 1 { nontrivial(lab) } else { trivial(lab) })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Damage {
  data: Data,
  ops: Vec<(u8, u32, u8)>,
}
fn damage(c: &Damage) -> Outcome {
  let body = c.data.bytes();
  let o = OriginalCompressed::compress(&mut Cursor::new(&body)).map_err(|e| e.to_string())?;
  let mut blob = vec![];
  o.write_to_stream(&mut blob).map_err(|e| e.to_string())?;
  let clean = blob.clone();
  let index = 4 * (body.len().div_ceil(BLOCK) + 2);
  for (op, pos, v) in &c.ops {
    let n = blob.len();
    if n == 0 {
      break;
    }
    let p = *pos as usize % n;
    match op {
      0 => blob[p] ^= 1 << (v % 8),
      1 => blob[p] = *v,
      2 => blob.truncate(p),
      3 => blob[p % index.min(n).max(1)] ^= 1 << (v % 8),
      4 => {
        blob.remove(p);
      }
      5 => blob.insert(p, *v),
      6 => {
        // two words of the index change places
        let k = index.min(n) / 4;
        if k == 0 {
          continue;
        }
        let (a, b) = (p % k, *v as usize % k);
        for i in 0..4 {
          blob.swap(a * 4 + i, b * 4 + i);
        }
      }
      _ => {
        let q = (p + 1 + *v as usize) % n;
        blob.swap(p, q);
      }
    }
  }
  let res = OriginalCompressed::new(&mut Cursor::new(&blob), o.digest());
  let lab = match res {
    Err(_) => "rejected when read",
    Ok(x) => {
      let mut back = vec![];
      match x.decompress(&mut back, true) {
        Err(_) => "rejected when recovered",
        Ok(_) => {
          ensure!(back == body, "altered data passes verification: {} bytes instead of {}", back.len(), body.len());
          "harmless"
        }
      }
    }
  };
  Ok(if blob != clean { nontrivial(lab) } else { trivial("unaltered") })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct InDng {
  data: Data,
  name: String,
  pix: Pix,
  on_root: bool,
}
fn in_dng(c: &InDng) -> Outcome {
  let body = c.data.bytes();
  let img = c.pix.image();
  let mut buf = Cursor::new(Vec::new());
  {
    let e = |e: rawler::RawlerError| e.to_string();
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|x| x.to_string())?;
    {
      let mut f = if c.on_root { dng.subframe_on_root(0) } else { dng.subframe(0) };
      f.raw_image(&img, CropMode::Best, DngCompression::Uncompressed, DngPhotometricConversion::Original, 1).map_err(|x| x.to_string())?;
      f.finalize().map_err(|x| x.to_string())?;
    }
    let o = OriginalCompressed::compress(&mut Cursor::new(&body)).map_err(|x| x.to_string())?;
    dng.original_file(&o, &c.name).map_err(|x| x.to_string())?;
    dng.load_base_tags(&img).map_err(|x| x.to_string())?;
    dng.close().map_err(|x| x.to_string())?;
    let _ = e;
  }
  check_dng(&buf.into_inner(), &body, &c.name)?;
  Ok(nontrivial(format!("{} blocks", body.len().div_ceil(BLOCK))))
}
fn check_dng(file: &[u8], body: &[u8], name: &str) -> Result<(), String> {
  let p = tiffmini::parse(file)?;
  p.check_overlap()?;
  let root = p.root();
  let blob = root.req(50828)?;
  ensure!(unpack(&blob.data)? == body, "the DNG contains another original");
  ensure!(root.req(50973)?.data == md5::compute(body).0, "digest in the DNG");
  ensure!(root.req(50827)?.text() == name, "name in the DNG is {:?} instead of {name:?}", root.req(50827)?.text());
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
  src: foreign::Case,
  name: String,
  lossless: bool,
  thumb: bool,
  preview: bool,
  tail: Data,
}
fn convert(c: &Conv) -> Outcome {
  let (mut file, _) = foreign::build(&c.src);
  file.extend(c.tail.bytes());
  let params = ConvertParams {
    embedded: true,
    compression: if c.lossless { DngCompression::Lossless } else { DngCompression::Uncompressed },
    preview: c.preview,
    thumbnail: c.thumb,
    ..Default::default()
  };
  let mut out = Cursor::new(vec![]);
  let src = RawSource::new_from_slice(&file);
  convert_raw_source(&src, &mut out, &c.name, &params).map_err(|e| format!("conversion: {e}"))?;
  check_dng(&out.into_inner(), &file, &c.name)?;
  Ok(nontrivial(format!("{} blocks", file.len().div_ceil(BLOCK))))
}

fn name() -> impl Strategy<Value = String> {
  prop_oneof!["[a-zA-Z0-9_ .-]{1,30}", "[äöü€漢字a-z]{1,12}\\.[a-z]{3}", "[A-Z]{3}", Just("x".to_string())]
}

fn main() {
  main_with("C06", "a case is non-trivial when the file has at least two bytes (round trip) or the stored form was really altered (damage)", |r| {
    let n = r.scale(1600, 40_000);
    let blocks = if n > 10_000 { 20 } else { 4 };
    r.check("roundtrip", n, move || (data(blocks), 0..20usize, 0..50usize).prop_map(|(data, lead, at)| Case { data, lead, at }), test);
    let n = r.scale(6000, 120_000);
    r.check(
      "damage",
      n,
      || {
        let d = prop_oneof![3 => data(1).prop_map(|mut d| { if d.len > 5000 { d.len %= 5000; } d }), 1 => data(3)];
        (d, prop::collection::vec((0..8u8, any::<u32>(), any::<u8>()), 1..4)).prop_map(|(data, ops)| Damage { data, ops })
      },
      damage,
    );
    let n = r.scale(1000, 20_000);
    r.check(
      "in_dng",
      n,
      || {
        let small = Pix { kind: Kind::Bayer(0), w: 8, h: 6, float: false, bps: 12, fill: Fill::Index };
        (data(2), name(), any::<bool>()).prop_map(move |(data, name, on_root)| InDng { data, name, pix: small.clone(), on_root })
      },
      in_dng,
    );
    let n = r.scale(800, 20_000);
    r.check(
      "convert",
      n,
      || {
        (foreign::case(), name(), any::<bool>(), prop::bool::weighted(0.3), prop::bool::weighted(0.2), data(1)).prop_map(|(src, name, lossless, thumb, preview, tail)| Conv { src, name, lossless, thumb, preview, tail })
      },
      convert,
    );
  })
}
