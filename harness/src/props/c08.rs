//! Every input gets a score or a clean error, and a score exactly when it is
//! long enough.

use crate::gen::*;
use crate::model::{self, Mode, Refused};
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer, Mgr, TempFile};
use crate::wav;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    sr: u32,
    radius: usize,
    r: Sig,
    d: Sig,
    deg: Vec<Deg>,
    related: bool,
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
}

fn total(c: &Case) -> Outcome {
    let x = c.r.samples(c.sr);
    let y = degrade(&if c.related { x.clone() } else { c.d.samples(c.sr) }, &c.deg);
    let a = sut::score(&x, &y, c.sr, c.mode, c.radius);
    if x.is_empty() || y.is_empty() {
        return match a {
            Answer::Refused(_) => Ok(Info::new(true).label("empty")),
            a => Err(format!("an empty signal: {}", a.brief())),
        };
    }
    // Without the matching, which the verdict does not depend on.
    match (model::prepare_pair(&x, &y, c.sr, c.mode), a) {
        (_, Answer::Panicked(p)) => Err(format!("panic: {p}")),
        (Ok(m), Answer::Refused(e)) => {
            // A lag that rounding decides can cut the degraded signal down.
            if m.margins.xcorr < 1e-7 { Ok(Info::new(false).label("ambiguous")) } else { Err(format!("long enough, but refused: {e}")) }
        }
        (Ok(_), Answer::Scored(r)) => {
            if r.mos.is_nan() || r.vnsim.is_nan() {
                return Err("the score is not a number".into());
            }
            let n = model::num_frames(x.len(), c.sr);
            Ok(Info::new(true).label("scored").when(n <= min_frames(c.mode) + 1, "barely long enough"))
        }
        (Err(_), Answer::Scored(r)) => {
            // It can also make it longer.
            let mut m = model::Margins::new();
            model::align(&x, &y, &mut m);
            if m.xcorr < 1e-7 { Ok(Info::new(false).label("ambiguous")) } else { Err(format!("too short, but scored: {}", r.brief())) }
        }
        (Err(e), Answer::Refused(why)) => {
            let have = match e {
                Refused::TooShort => None,
                Refused::ReferenceTooShort => Some((model::num_frames(x.len(), c.sr), min_frames(c.mode))),
            };
            if let Some((have, need)) = have {
                let n = numbers(&why);
                if !n.is_empty() && n != [have, need] {
                    return Err(format!("the refusal says \"{why}\", there are {have} frames of {need}"));
                }
            }
            let frames = model::num_frames(x.len(), c.sr);
            Ok(Info::new(true)
                .label("too short")
                .when(frames + 1 == min_frames(c.mode), "one frame short")
                .when(e == Refused::ReferenceTooShort, "reference too short for a patch"))
        }
    }
}

fn case() -> impl Strategy<Value = Case> {
    let rate = prop_oneof![6 => Just(8000u32), 2 => Just(16000), 2 => 1000u32..12000, 1 => prop::sample::select(vec![11025u32, 22050, 44100, 48000])];
    (modes(), rate).prop_flat_map(|(mode, sr)| {
        let exact = model::samples_for_frames(min_frames(mode), sr);
        let w = model::window_size(sr);
        let len = prop_oneof![
            4 => exact - 2..=exact + 2,
            2 => exact..=exact + 3 * model::hop_size(sr) * mode.patch(),
            2 => w - 2..=w + 2,
            2 => 1..=exact,
            1 => 0..=40usize,
        ];
        let s = move || (len.clone(), any::<bool>()).prop_flat_map(|(n, wild)| if wild { wild_sig(n..=n).boxed() } else { sig(n..=n).boxed() });
        let radius = prop_oneof![4 => 0usize..4, 2 => Just(60usize), 1 => 1000usize..100_000, 1 => Just(usize::MAX), 1 => Just(i32::MAX as usize + 1)];
        (s(), s(), prop::collection::vec(deg(), 0..3), any::<bool>(), radius)
            .prop_map(move |(r, d, deg, related, radius)| Case { mode, sr, radius, r, d, deg, related })
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    mode: Mode,
    sr: u32,
    frames: f64,
    r: Sig,
}

/// Sample rates far from any real one.
fn odd_rates(c: &Odd) -> Outcome {
    let x = c.r.samples(c.sr.max(1));
    match sut::score(&x, &x, c.sr, c.mode, 2) {
        Answer::Panicked(p) => Err(format!("at {} Hz: panic: {p}", c.sr)),
        Answer::Scored(_) => Ok(Info::new(true).label("scored")),
        Answer::Refused(_) => Ok(Info::new(true).label("refused")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    mode: Mode,
    sr: u32,
    ch: u16,
    frames: usize,
    seed: u32,
    /// Changed bytes, biased to the header.
    edits: Vec<(f64, u8)>,
    cut: Option<f64>,
    junk: Option<Vec<u8>>,
    swap: bool,
}

fn fuzzed(c: &Bytes) -> Outcome {
    let mut g = Lcg::new(c.seed as u64);
    let s: Vec<i16> = (0..c.frames * c.ch as usize).map(|_| (g.sym() * 9000.0) as i16).collect();
    let good = wav::pcm16(c.sr, c.ch, &s);
    let mut bad = good.clone();
    for (at, v) in &c.edits {
        // Half of all edits fall into the first 46 bytes.
        let i = if *at < 0.5 { (at * 2.0 * 46.0) as usize } else { ((at - 0.5) * 2.0 * bad.len() as f64) as usize };
        let n = bad.len();
        bad[i.min(n - 1)] = *v;
    }
    if let Some(f) = c.cut {
        bad.truncate((f * bad.len() as f64) as usize);
    }
    if let Some(j) = &c.junk {
        bad = j.clone();
    }
    let (a, b) = (TempFile::with("wav", &good), TempFile::with("wav", &bad));
    let (x, y) = if c.swap { (&b, &a) } else { (&a, &b) };
    let mut m = Mgr::new(c.mode, false, 1);
    match m.run(x.path(), y.path()) {
        Answer::Panicked(p) => Err(format!("panic: {p}")),
        Answer::Refused(_) => {
            // The manager must still work.
            match m.run(a.path(), a.path()) {
                Answer::Scored(r) if close(r.vnsim, 1.0, 1e-9) => Ok(Info::new(true).label("refused")),
                o => Err(format!("after a refusal: {}", o.brief())),
            }
        }
        Answer::Scored(r) => {
            if r.mos.is_nan() {
                return Err("the score is not a number".into());
            }
            Ok(Info::new(bad != good).label("scored"))
        }
    }
}

fn bytes() -> impl Strategy<Value = Bytes> {
    (
        modes(),
        prop::sample::select(vec![8000u32, 16000]),
        1u16..4,
        prop::collection::vec((0.0..1.0f64, any::<u8>()), 0..6),
        prop_oneof![3 => Just(None), 1 => (0.0..1.0f64).prop_map(Some)],
        prop_oneof![9 => Just(None), 1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(Some)],
        any::<u32>(),
        any::<bool>(),
        0usize..3000,
    )
        .prop_map(|(mode, sr, ch, edits, cut, junk, seed, swap, extra)| {
            let frames = model::samples_for_frames(min_frames(mode), sr) + extra;
            Bytes { mode, sr, ch, frames, seed, edits, cut, junk, swap }
        })
}

/// (reference rate, degraded rate, mode)
fn rates(c: &(u32, u32, Mode)) -> Outcome {
    let file = |sr: u32| {
        let n = model::samples_for_frames(min_frames(c.2) + 3, sr);
        let mut g = Lcg::new(sr as u64);
        TempFile::with("wav", &wav::pcm16(sr, 1, &(0..n).map(|_| (g.sym() * 9000.0) as i16).collect::<Vec<_>>()))
    };
    let (a, b) = (file(c.0), file(c.1));
    match Mgr::new(c.2, false, 1).run(a.path(), b.path()) {
        Answer::Refused(_) if c.0 != c.1 => Ok(Info::new(true).label("different rates")),
        Answer::Scored(_) if c.0 == c.1 => Ok(Info::new(true).label("same rate")),
        o => Err(format!("{} Hz against {} Hz: {}", c.0, c.1, o.brief())),
    }
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "lengths",
        "two random signals, related or not, of lengths around every threshold, and any radius; a score exactly when the model finds both long enough; non-trivial: every case",
        3000,
        50_000,
        case,
        total,
    );
    c.facet(
        "rates",
        "files of two sample rates; refused exactly when they differ; non-trivial: every case",
        200,
        2000,
        || {
            let r = || prop_oneof![2 => Just(8000u32), 1 => Just(8001), 1 => Just(16000), 1 => 7000u32..12000];
            (r(), r(), modes())
        },
        rates,
    );
    c.facet(
        "odd_rates",
        "a signal of up to 60 frames at 0..1000 Hz or 96000..400000 Hz; no panic; non-trivial: every case",
        300,
        4000,
        || {
            (modes(), prop_oneof![1 => Just(0u32), 6 => 1u32..60, 18 => 60u32..1000, 8 => 96_000u32..400_000], prop_oneof![3 => 0.0..1.0f64, 1 => 1.0..1.3f64]).prop_flat_map(
                |(mode, sr, frames)| {
                    let n = (model::window_size(sr) as f64 + frames * min_frames(mode) as f64 * model::hop_size(sr) as f64) as usize;
                    let n = if sr > 1000 { n.min(60_000) } else { n };
                    wild_sig(n..=n).prop_map(move |r| Odd { mode, sr, frames, r })
                },
            )
        },
        odd_rates,
    );
    c.facet(
        "files",
        "a good file against one with changed bytes, cut, or made of random bytes; no panic, and the manager still works after a refusal; non-trivial: refused, or scored although it differs",
        2000,
        40_000,
        bytes,
        fuzzed,
    );
    let paths: Vec<String> = ["", "/nonexistent/x.wav", "/", "/verif", "\u{1F600}.wav", "/dev/null"].map(String::from).to_vec();
    c.each("paths", "paths that name no readable wav file; non-trivial: every case", paths, |p: &String| {
        let good = TempFile::with("wav", &wav::pcm16(8000, 1, &vec![100i16; 30000]));
        for (a, b) in [(p.as_str(), good.path()), (good.path(), p.as_str())] {
            match Mgr::new(Mode::Wideband, false, 1).run(a, b) {
                Answer::Refused(_) => {}
                o => return Err(format!("{a:?} against {b:?}: {}", o.brief())),
            }
        }
        Ok(Info::new(true))
    });
    c.finish("exploration", super::BASE)
}
