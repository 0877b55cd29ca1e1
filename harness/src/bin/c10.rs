//! C10: vendor-compressed sensor data decodes to the encoded samples.
use proptest::prelude::*;
use rawler::decoders::RawDecodeParams;
use rawler::rawsource::RawSource;
use rawler::RawImageData;
use vh::fill::fill;
use vh::rw2::{self, Rw2};
use vh::vendor::{self, Vc};
use vh::*;

fn compare(got: &[u16], expect: &[(u16, u16)], w: usize, what: &str) -> Result<(), String> {
  ensure!(got.len() == expect.len(), "{what}: {} samples instead of {}", got.len(), expect.len());
  for (i, (g, (lo, hi))) in got.iter().zip(expect).enumerate() {
    ensure!(g >= lo && g <= hi, "{what}: row {} column {}: {g} instead of {}", i / w, i % w, if lo == hi { format!("{lo}") } else { format!("{lo}..={hi}") });
  }
  Ok(())
}

fn run(c: &Vc) -> Outcome {
  let (bytes, expect) = vendor::build(c);
  let w = vendor::shape(c.codec, c.w, c.h).0 * if c.codec == 52 { 3 } else { 1 };
  let got = match rawler::decode_unwrapped(&RawSource::new_from_slice(&bytes)) {
    Ok(RawImageData::Integer(v)) => v,
    Ok(_) => return Err(format!("codec {}: float samples", c.codec)),
    Err(e) => return Err(format!("codec {}: {e:?}", c.codec)),
  };
  compare(&got, &expect, w, &format!("codec {}", c.codec))?;
  let constant = expect.windows(2).all(|p| p[0] == p[1]);
  Ok(if constant { trivial("constant") } else { nontrivial(format!("codec{}", c.codec)) })
}

// ---- Panasonic files ----------------------------------------------------

fn decode_file(bytes: &[u8], what: &str) -> Result<(usize, usize, Vec<u16>), String> {
  let src = RawSource::new_from_slice(bytes);
  let dec = rawler::get_decoder(&src).map_err(|e| format!("{what}: no decoder: {e:?}"))?;
  let img = dec.raw_image(&src, &RawDecodeParams::default(), false).map_err(|e| format!("{what}: {e:?}"))?;
  match img.data {
    RawImageData::Integer(v) => Ok((img.width, img.height, v)),
    _ => Err(format!("{what}: float samples")),
  }
}
fn run_rw2(c: &Rw2) -> Outcome {
  let (file, w, h, expect) = rw2::build(c);
  let what = format!("RW2 format {} with {} bits", c.format, c.bps);
  let (gw, gh, got) = decode_file(&file, &what)?;
  ensure!((gw, gh) == (w, h), "{what}: {gw}x{gh} instead of {w}x{h}");
  compare(&got, &expect, w, &what)?;
  Ok(if c.fill.is_flat() { trivial("flat") } else { nontrivial(format!("rw2-{}-{}", c.format, c.bps)) })
}

/// Format 8: strips with their own bit streams and a Huffman table in the file.
fn run_rw2v8(c: &Rw2) -> Outcome {
  let s = rw2::build_strips(c);
  let (sx, sy) = c.strips;
  let what = format!("RW2 format 8, {sx}x{sy} strips");
  let (gw, gh, got) = decode_file(&s.file, &what)?;
  ensure!((gw, gh) == (s.w, s.h), "{what}: {gw}x{gh} instead of {}x{}", s.w, s.h);
  if s.clipped {
    return Ok(trivial("rw2-8 clipped"));
  }
  compare(&got, &s.expect, s.w, &what)?;
  Ok(if c.fill.is_flat() { trivial("flat") } else { nontrivial(if s.linear { "rw2-8" } else { "rw2-8-gamma" }) })
}

fn main() {
  main_with(
    "C10",
    "cases: generated samples compressed by independent encoders of each vendor scheme (27 headerless codecs; Panasonic formats 3-8 as whole files) and decoded by the code under test; lookup curves allow the dithering interval of the curve point; non-trivial: samples not constant; distinct by full case description",
    |r| {
      r.assume("dimensions are whole coding units of each scheme; Nikon, Kodak and lossy Sony samples go through a dithered tone curve by design, so any value in the dither interval of the curve point is accepted");
      let n = r.scale(30000, 600000);
      r.check("codecs", n, || (prop::sample::select(vendor::CODECS.to_vec()), 1..=64usize, prop_oneof![3 => 1..=12usize, 2 => 1..=64usize], fill(), any::<u64>()).prop_map(|(codec, w, h, fill, seed)| Vc { codec, w, h, fill, seed }), run);
      let n = r.scale(3000, 40000);
      r.check("rw2", n, || (3..=7u16, any::<bool>(), prop_oneof![4 => 1..=20usize, 1 => 20..=150usize], prop_oneof![3 => 1..=12usize, 1 => 1..=60usize], fill(), any::<u64>()).prop_map(|(format, b, packets, h, fill, seed)| Rw2 { format, bps: if b && format > 4 { 14 } else { 12 }, packets, h, fill, seed, strips: (1, 1) }), run_rw2);
      let n = r.scale(3000, 40000);
      r.check("rw2_strips", n, || (1..=4u8, 1..=3u8, fill(), any::<u64>()).prop_map(|(a, b, fill, seed)| Rw2 { format: 8, bps: 14, packets: 1, h: 1, fill, seed, strips: (a, b) }), run_rw2v8);
    },
  )
}
