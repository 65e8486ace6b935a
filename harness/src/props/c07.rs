//! Wav files are decoded exactly.

use crate::gen::Lcg;
use crate::run::*;
use crate::sut::{self, TempFile};
use crate::wav::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sr: u32,
    ch: u16,
    frames: usize,
    seed: u32,
    /// 0 full range, 1 extremes, 2 quiet, 3 one channel only, 4 ramp
    shape: u8,
    extensible: bool,
    long_fmt: bool,
    before: Vec<(u8, u16)>,
    between: Vec<(u8, u16)>,
    after: Vec<(u8, u16)>,
}

const JUNK: [&[u8; 4]; 6] = [b"LIST", b"JUNK", b"fact", b"bext", b"cue ", b"id3 "];

impl Case {
    fn samples(&self) -> Vec<i16> {
        let mut g = Lcg::new(self.seed as u64);
        let only = (self.seed as usize) % self.ch as usize;
        (0..self.frames * self.ch as usize)
            .map(|i| match self.shape {
                1 => [i16::MIN, i16::MAX, 0, -1, 1, i16::MIN + 1][(g.next() % 6) as usize],
                2 => (g.next() % 7) as i16 - 3,
                3 => if i % self.ch as usize == only { g.next() as i16 } else { 0 },
                4 => (i as i64 % 65536 - 32768) as i16,
                _ => g.next() as i16,
            })
            .collect()
    }
    fn file(&self) -> (Vec<u8>, usize) {
        // In front of the samples, the decoder that the library uses takes four
        // byte "fact" chunks and others of even size only.
        let junk = |v: &[(u8, u16)], even: bool| {
            v.iter()
                .map(|(k, n)| {
                    let id = JUNK[*k as usize % 6];
                    let n = if id == b"fact" { 4 } else if even { n & !1 } else { *n };
                    let body: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
                    chunk(id, &body)
                })
                .collect::<Vec<_>>()
        };
        let mut fmt = fmt_chunk(1, self.ch, self.sr, 16, self.extensible);
        if self.long_fmt && !self.extensible {
            fmt.extend([0, 0]);
        }
        let data: Vec<u8> = self.samples().iter().flat_map(|s| s.to_le_bytes()).collect();
        let mut c = junk(&self.before, true);
        c.push(chunk(b"fmt ", &fmt));
        c.extend(junk(&self.between, true));
        c.push(chunk(b"data", &data));
        let end = riff(&c).len();
        c.extend(junk(&self.after, false));
        (riff(&c), end)
    }
}

fn case() -> impl Strategy<Value = Case> {
    let junk = || prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0u8..6, 0u16..300), 1..3)];
    (
        prop_oneof![3 => prop::sample::select(vec![8000u32, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000]), 1 => 1u32..400_000],
        prop_oneof![2 => Just(1u16), 2 => Just(2), 2 => 3u16..9, 1 => 9u16..33],
        prop_oneof![1 => 0usize..3, 6 => 1usize..2000, 1 => 2000usize..70_000],
        any::<u32>(),
        0u8..5,
        prop::bool::weighted(0.25),
        any::<bool>(),
        (junk(), junk(), junk()),
    )
        .prop_map(|(sr, ch, frames, seed, shape, extensible, long_fmt, (before, between, after))| {
            let frames = if ch > 8 { frames.min(3000) } else { frames };
            Case { sr, ch, frames, seed, shape, extensible, long_fmt, before, between, after }
        })
}

fn decoded(c: &Case) -> Outcome {
    let (bytes, _) = c.file();
    let f = TempFile::with("wav", &bytes);
    let (got, sr) = sut::load(f.path()).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("rejected: {e}"))?;
    if sr != c.sr {
        return Err(format!("sample rate {sr}, expected {}", c.sr));
    }
    let s = c.samples();
    if got.len() != c.frames {
        return Err(format!("{} samples, expected {}", got.len(), c.frames));
    }
    for (i, (g, w)) in got.iter().zip(s.chunks(c.ch as usize)).enumerate() {
        let want = w.iter().map(|v| *v as f64).sum::<f64>() / c.ch as f64 / 32767.0;
        if !((g - want).abs() <= 1e-12) {
            return Err(format!("sample {i} is {g}, expected {want} (the mean of {w:?})"));
        }
    }
    Ok(Info::new(c.frames > 1)
        .label(match c.ch { 1 => "mono", 2 => "stereo", _ => "more channels" })
        .when(c.extensible, "extensible format")
        .when(!c.before.is_empty() || !c.between.is_empty(), "chunks in front of the data")
        .when(!c.after.is_empty(), "chunks behind the data")
        .when(s.len() > 65535, "more than 65535 values"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    case: Case,
    /// 0 cut inside the data, 1 cut inside the headers, else another sample format
    how: u8,
    at: f64,
}

fn rejected(b: &Bad) -> Outcome {
    let (bytes, end) = b.case.file();
    let data = b.case.frames * b.case.ch as usize * 2;
    let (bytes, what) = match b.how {
        0 if data > 0 => {
            let keep = end - data - data % 2 + ((data - 1) as f64 * b.at) as usize;
            (bytes[..keep].to_vec(), "cut inside the samples")
        }
        0 | 1 => (bytes[..((end - data) as f64 * b.at * 0.99) as usize].to_vec(), "cut inside the headers"),
        k => {
            let (tag, bits) = [(1u16, 8u16), (1, 24), (1, 32), (3, 32)][(k as usize - 2) % 4];
            let body: Vec<u8> = (0..b.case.frames * b.case.ch as usize * bits as usize / 8).map(|i| (i % 251) as u8).collect();
            let f = riff(&[chunk(b"fmt ", &fmt_chunk(tag, b.case.ch, b.case.sr, bits, b.case.extensible)), chunk(b"data", &body)]);
            (f, "not 16 bit")
        }
    };
    let f = TempFile::with("wav", &bytes);
    match sut::load(f.path()).map_err(|p| format!("panic: {p}"))? {
        Ok((s, _)) => Err(format!("a file {what} gives {} samples", s.len())),
        Err(_) => Ok(Info::new(bytes.len() > 12).label(what)),
    }
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "decode",
        "generated 16-bit files: 1..32 channels, any rate, plain and extensible headers, extra chunks; every sample compared; non-trivial: more than one frame",
        150_000,
        2_000_000,
        case,
        decoded,
    );
    c.facet(
        "rejected",
        "the same files cut short, and other sample formats; must be refused; non-trivial: more than the file's first 12 bytes are there",
        60_000,
        800_000,
        || (case(), 0u8..6, 0.0..1.0).prop_map(|(case, how, at)| Bad { case, how, at }),
        rejected,
    );
    let recordings: Vec<String> = crate::real::PAIRS.iter().flat_map(|(a, b)| [a.to_string(), b.to_string()]).collect();
    c.each("recordings", "the recordings in the repository; non-trivial: every case", recordings, |f: &String| {
        let want = crate::real::signal(f);
        let (got, sr) = sut::load(&crate::real::path(f)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("rejected: {e}"))?;
        if sr != want.1 {
            return Err(format!("sample rate {sr}, expected {}", want.1));
        }
        crate::pair::all_close("sample", &got, &want.0, 1e-12)?;
        Ok(Info::new(true))
    });
    c.finish("exploration", super::BASE)
}
