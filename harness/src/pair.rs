//! A pair of signals to be scored, and the comparison of a score with the model's.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::run::Info;
use crate::sut::{self, Answer, Patch, Res};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pair {
    pub mode: Mode,
    pub sr: u32,
    pub radius: usize,
    pub sig: Sig,
    pub deg: Vec<Deg>,
    /// Scored instead of the degraded version of `sig` when present.
    pub other: Option<Sig>,
}

impl Pair {
    pub fn audio(&self) -> (Vec<f64>, Vec<f64>) {
        let x = self.sig.samples(self.sr);
        let y = match &self.other {
            Some(o) => degrade(&o.samples(self.sr), &self.deg),
            None => degrade(&x, &self.deg),
        };
        (x, y)
    }
    pub fn score(&self) -> Answer {
        let (x, y) = self.audio();
        sut::score(&x, &y, self.sr, self.mode, self.radius)
    }
}

pub fn rate(mode: Mode) -> BoxedStrategy<u32> {
    match mode {
        Mode::Wideband => prop_oneof![
            10 => Just(8000u32), 4 => Just(16000), 1 => Just(11025), 1 => Just(12000), 1 => Just(22050), 1 => Just(24000),
            1 => prop::sample::select(vec![32000u32, 44100, 48000]), 1 => 4000u32..30_000,
        ]
        .boxed(),
        Mode::Fullband => prop_oneof![
            10 => Just(8000u32), 3 => Just(16000), 1 => Just(11025), 1 => Just(24000), 1 => Just(48000),
            1 => prop::sample::select(vec![22050u32, 32000, 44100]), 1 => 4000u32..30_000,
        ]
        .boxed(),
    }
}

pub fn radius() -> impl Strategy<Value = usize> {
    prop_oneof![1 => Just(0usize), 4 => Just(1), 3 => Just(2), 2 => Just(3), 3 => Just(60)]
}

pub fn modes() -> impl Strategy<Value = Mode> {
    prop_oneof![3 => Just(Mode::Wideband), 2 => Just(Mode::Fullband)]
}

/// Least number of frames of a reference that can be scored.
pub fn min_frames(mode: Mode) -> usize {
    match mode {
        Mode::Wideband => 29,
        Mode::Fullband => 45,
    }
}

/// (mode, rate, length): up to `patches` whole patches.
fn frame(patches: usize) -> impl Strategy<Value = (Mode, u32, std::ops::RangeInclusive<usize>)> {
    modes().prop_flat_map(|m| (Just(m), rate(m))).prop_map(move |(m, sr)| {
        let lo = model::samples_for_frames(min_frames(m), sr);
        let hi = model::samples_for_frames(min_frames(m) + (patches - 1) * m.patch() + m.patch() / 2, sr);
        (m, sr, lo..=hi)
    })
}

/// Well-determined pairs: sound throughout, up to three degradations.
pub fn pair(patches: usize) -> impl Strategy<Value = Pair> {
    pair_with(patches, prop::collection::vec(deg(), 0..4).boxed())
}
pub fn pair_with(patches: usize, d: BoxedStrategy<Vec<Deg>>) -> impl Strategy<Value = Pair> {
    (frame(patches), d).prop_flat_map(|((mode, sr, n), deg)| {
        (sig(n), radius()).prop_map(move |(sig, radius)| Pair { mode, sr, radius, sig, deg: deg.clone(), other: None })
    })
}
/// Silence, clicks, unrelated signals and so on as well.
pub fn wild_pair(patches: usize) -> impl Strategy<Value = Pair> {
    (frame(patches), prop::collection::vec(deg(), 0..3), prop::bool::weighted(0.3)).prop_flat_map(|((mode, sr, n), deg, apart)| {
        let other = if apart { wild_sig(n.clone()).prop_map(Some).boxed() } else { Just(None).boxed() };
        (wild_sig(n), radius(), other)
            .prop_map(move |(sig, radius, other)| Pair { mode, sr, radius, sig, deg: deg.clone(), other })
    })
}

// ------------------------------------------------------------------ comparison

pub const TOL: f64 = 1e-7;

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn all_close(what: &str, a: &[f64], b: &[f64], tol: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} values, expected {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !close(*x, *y, tol) {
            return Err(format!("{what}[{i}] = {x}, expected {y}"));
        }
    }
    Ok(())
}

pub fn patch_matches(p: &Patch, m: &model::PatchResult) -> Result<(), String> {
    for (n, a, b) in [
        ("ref start", p.ref_start, m.ref_start),
        ("ref end", p.ref_end, m.ref_end),
        ("deg start", p.deg_start, m.deg_start),
        ("deg end", p.deg_end, m.deg_end),
        ("similarity", p.similarity, m.sim.similarity),
    ] {
        if !close(a, b, TOL) {
            return Err(format!("{n} {a}, expected {b}"));
        }
    }
    all_close("band mean", &p.means, &m.sim.means, TOL)?;
    all_close("band stddev", &p.stds, &m.sim.stds, 1e-5)?;
    all_close("band energy", &p.energy, &m.sim.energy, TOL)
}

/// Whether rounding alone could have led to different patches.
pub fn ambiguous(m: &model::Margins) -> bool {
    m.xcorr < 1e-9 || m.dp < 1e-9 || m.vad < 1e-9
}

/// Every field of the result against the model.
pub fn compare(res: &Res, m: &model::Scored) -> Result<Info, String> {
    all_close("centre frequency", &res.freqs, &m.center_freqs, 1e-9)?;
    if ambiguous(&m.margins) {
        return Ok(Info::new(false).label("ambiguous: not compared"));
    }
    if res.patches.len() != m.patches.len() {
        return Err(format!("{} patches, expected {}", res.patches.len(), m.patches.len()));
    }
    let mut loose = false;
    for (k, (p, e)) in res.patches.iter().zip(&m.patches).enumerate() {
        if e.touchy {
            loose = true;
            continue;
        }
        if e.lag_margin < 1e-9 {
            // Which of several equally good lags is taken is open.
            loose = true;
            if patch_matches(p, &e.coarse).is_err() && p.similarity < e.coarse.sim.similarity - TOL {
                return Err(format!("patch {k}: similarity {} below the coarse match's {}", p.similarity, e.coarse.sim.similarity));
            }
            continue;
        }
        let want = e.chosen();
        if let Err(why) = patch_matches(p, want) {
            if e.gain().abs() < 1e-9 {
                let (_, f) = e.fine.as_ref().unwrap();
                if patch_matches(p, &e.coarse).is_ok() || patch_matches(p, f).is_ok() {
                    loose = true;
                    continue;
                }
            }
            return Err(format!("patch {k} (reference frame {}, match {:?}): {why}", e.idx, e.offset));
        }
    }
    if !loose {
        all_close("fvnsim", &res.fvnsim, &m.fvnsim, TOL)?;
        all_close("fvdegenergy", &res.fvdegenergy, &m.fvdegenergy, TOL)?;
        if !close(res.vnsim, m.vnsim, TOL) {
            return Err(format!("vnsim {}, expected {}", res.vnsim, m.vnsim));
        }
    }
    Ok(Info::new(true)
        .when(loose, "patches with an open choice")
        .when(m.lag != 0, "global lag")
        .when(m.patches.iter().any(|p| p.offset.is_none()), "unmatched patch")
        .when(m.patches.iter().any(|p| p.gain() < -1e-9 && p.fine.is_some()), "coarse match kept")
        .when(m.patches.iter().any(|p| p.gain() > 1e-9), "fine match taken")
        .when(m.patches.iter().any(|p| p.offset.is_some_and(|o| o != p.idx)), "moved patch")
        .when(m.patches.len() < m.ref_idx.len(), "patch dropped"))
}

/// Pooled standard deviation per band; `extra` frames are counted per patch.
fn pooled(res: &Res, counts: &[f64], b: usize) -> f64 {
    let total: f64 = counts.iter().sum();
    let mut acc = 0.0;
    for (p, n) in res.patches.iter().zip(counts) {
        acc += (n - 1.0) * p.stds[b] * p.stds[b] + n * p.means[b] * p.means[b];
    }
    let v = (acc - res.fvnsim[b] * res.fvnsim[b] * total) / (total - 1.0);
    if v < 0.0 { 0.0 } else { v.sqrt() }
}

/// Internal consistency of a result.
pub fn consistent(res: &Res, mode: Mode, sr: u32) -> Result<(), String> {
    let bands = mode.bands();
    let np = res.patches.len();
    if np == 0 {
        return Err("no patches".into());
    }
    for (n, v) in [("fvnsim", &res.fvnsim), ("fstdnsim", &res.fstdnsim), ("fvdegenergy", &res.fvdegenergy), ("center_freq_bands", &res.freqs)] {
        if v.len() != bands {
            return Err(format!("{n} has {} values for {bands} bands", v.len()));
        }
        if v.iter().any(|x| !x.is_finite()) {
            return Err(format!("{n} is not finite"));
        }
    }
    if res.freqs.windows(2).any(|w| w[0] >= w[1]) {
        return Err("centre frequencies do not ascend".into());
    }
    for (k, p) in res.patches.iter().enumerate() {
        for (n, v) in [("means", &p.means), ("stddevs", &p.stds), ("energies", &p.energy)] {
            if v.len() != bands {
                return Err(format!("patch {k}: {} band {n}", v.len()));
            }
            if v.iter().any(|x| !x.is_finite()) {
                return Err(format!("patch {k}: band {n} not finite"));
            }
        }
        if p.stds.iter().any(|s| *s < 0.0) || p.energy.iter().any(|s| *s < -1e-9) {
            return Err(format!("patch {k}: negative deviation or energy"));
        }
        if p.means.iter().any(|s| *s > 1.0 + 1e-3) {
            return Err(format!("patch {k}: band similarity above one"));
        }
        let mean = p.means.iter().sum::<f64>() / bands as f64;
        if !close(p.similarity, mean, 1e-9) {
            return Err(format!("patch {k}: similarity {} is not the mean {mean} of its bands", p.similarity));
        }
    }
    for b in 0..bands {
        let m = res.patches.iter().map(|p| p.means[b]).sum::<f64>() / np as f64;
        if !close(res.fvnsim[b], m, 1e-9) {
            return Err(format!("fvnsim[{b}] {} is not the mean {m} over the patches", res.fvnsim[b]));
        }
        let e = res.patches.iter().map(|p| p.energy[b]).sum::<f64>() / np as f64;
        if !close(res.fvdegenergy[b], e, 1e-9) {
            return Err(format!("fvdegenergy[{b}] {} is not the mean {e} over the patches", res.fvdegenergy[b]));
        }
    }
    let v = res.fvnsim.iter().sum::<f64>() / bands as f64;
    if !close(res.vnsim, v, 1e-9) {
        return Err(format!("vnsim {} is not the mean {v} of fvnsim", res.vnsim));
    }
    // Frames per patch: its duration in frames, rounded up. A whole number of
    // frames may come out one higher through rounding.
    let fd = model::frame_duration(sr);
    let mut counts = vec![];
    let mut open = vec![];
    for (k, p) in res.patches.iter().enumerate() {
        let f = (p.ref_end - p.ref_start) / fd;
        counts.push(f.ceil());
        if (f - f.round()).abs() < 1e-6 {
            open.push(k);
        }
    }
    let fits = |c: &[f64]| (0..bands).all(|b| (pooled(res, c, b) - res.fstdnsim[b]).abs() < 1e-6 + 1e-7 * res.fstdnsim[b]);
    let mut ok = fits(&counts);
    if !ok {
        open.truncate(10);
        for mask in 0..(1u32 << open.len()) {
            let mut c = counts.clone();
            for (i, k) in open.iter().enumerate() {
                let p = &res.patches[*k];
                let r = ((p.ref_end - p.ref_start) / fd).round();
                c[*k] = if mask >> i & 1 == 1 { r + 1.0 } else { r };
            }
            if fits(&c) {
                ok = true;
                break;
            }
        }
    }
    if !ok {
        let b = (0..bands).find(|b| (pooled(res, &counts, *b) - res.fstdnsim[*b]).abs() >= 1e-6).unwrap_or(0);
        return Err(format!("fstdnsim[{b}] {} is not the pooled deviation {} of the patches", res.fstdnsim[b], pooled(res, &counts, b)));
    }
    if !(1.0..=5.0).contains(&res.mos) {
        return Err(format!("MOS {} outside 1..5", res.mos));
    }
    Ok(())
}

/// Time spans: order, bounds, equal lengths.
pub fn spans_valid(res: &Res, mode: Mode, sr: u32, nref: usize) -> Result<(), String> {
    let fd = model::frame_duration(sr);
    let dur = mode.patch() as f64 * fd;
    let eps = 1e-6;
    let refdur = nref as f64 / sr as f64;
    for (k, p) in res.patches.iter().enumerate() {
        if p.ref_start < -eps || p.ref_end > refdur + dur + eps || p.ref_end <= p.ref_start {
            return Err(format!("patch {k}: reference span {}..{}", p.ref_start, p.ref_end));
        }
        if k > 0 && p.ref_start + eps < res.patches[k - 1].ref_start {
            return Err(format!("patch {k}: reference spans out of order"));
        }
        if p.unmatched() {
            continue;
        }
        if p.deg_start < -eps || p.deg_end <= p.deg_start {
            return Err(format!("patch {k}: degraded span {}..{}", p.deg_start, p.deg_end));
        }
        let (a, b) = (p.ref_end - p.ref_start, p.deg_end - p.deg_start);
        if (a - b).abs() > 1.5 / sr as f64 {
            return Err(format!("patch {k}: spans of {a} and {b} seconds"));
        }
        // Times become samples by truncation, which can add one.
        if a > dur + 1.5 / sr as f64 || a < dur / 2.0 - 2.0 / sr as f64 {
            return Err(format!("patch {k}: span of {a} seconds, a patch has {dur}"));
        }
    }
    Ok(())
}

/// The mean opinion score that follows from the similarities.
pub fn expected_mos(res: &Res, mode: Mode, unscaled: bool, svm: &model::Svm) -> f64 {
    if res.vnsim < 0.15 {
        return 1.0;
    }
    match mode {
        Mode::Wideband => model::speech_mos(res.vnsim, unscaled),
        Mode::Fullband => svm.mos(&res.fvnsim),
    }
}
pub fn mos_ok(res: &Res, mode: Mode, unscaled: bool, svm: &model::Svm) -> Result<(), String> {
    let want = expected_mos(res, mode, unscaled, svm);
    // The regression runs in single precision.
    let tol = if mode == Mode::Wideband { 1e-9 } else { 2e-5 };
    let edge = (res.vnsim - 0.15).abs() < 1e-12;
    if !edge && !close(res.mos, want, tol) {
        return Err(format!("MOS {} for vnsim {}, expected {want}", res.mos, res.vnsim));
    }
    Ok(())
}

pub fn default_svm() -> &'static model::Svm {
    static S: std::sync::OnceLock<model::Svm> = std::sync::OnceLock::new();
    S.get_or_init(|| model::Svm::parse(&std::fs::read_to_string(sut::MODEL).expect("svm model")))
}

// ------------------------------------------------------------------ judging

/// Scores a pair with the code and with the model and hands both on.
pub fn judge(p: &Pair, f: impl FnOnce(&Res, &model::Scored, &[f64], &[f64]) -> Result<Info, String>) -> Result<Info, String> {
    let (x, y) = p.audio();
    let want = model::score(&x, &y, p.sr, p.mode, p.radius);
    match (want, sut::score(&x, &y, p.sr, p.mode, p.radius)) {
        (Err(_), Answer::Refused(_)) => Ok(Info::new(false).label("refused")),
        (Ok(m), Answer::Scored(r)) => f(&r, &m, &x, &y),
        (Err(e), a) => {
            let mut m = model::Margins::new();
            model::align(&x, &y, &mut m);
            if m.xcorr < 1e-9 && matches!(a, Answer::Scored(_)) {
                return Ok(Info::new(false).label("ambiguous: not compared"));
            }
            Err(format!("expected a refusal ({e:?}): {}", a.brief()))
        }
        (Ok(m), Answer::Refused(_)) if ambiguous(&m.margins) => Ok(Info::new(false).label("ambiguous: not compared")),
        (Ok(_), a) => Err(format!("expected a score: {}", a.brief())),
    }
}

pub fn conform(p: &Pair) -> Result<Info, String> {
    judge(p, |r, m, _, _| compare(r, m)).map(|i| i.label(format!("{:?}", p.mode)))
}

/// As `frame`, for a given mode.
fn frame_of(mode: Mode, patches: usize) -> impl Strategy<Value = (Mode, u32, std::ops::RangeInclusive<usize>)> {
    rate(mode).prop_map(move |sr| {
        let lo = model::samples_for_frames(min_frames(mode), sr);
        let hi = model::samples_for_frames(min_frames(mode) + (patches - 1) * mode.patch() + mode.patch() / 2, sr);
        (mode, sr, lo..=hi)
    })
}
pub fn pair_of(mode: Mode, patches: usize, d: BoxedStrategy<Vec<Deg>>) -> impl Strategy<Value = Pair> {
    (frame_of(mode, patches), d).prop_flat_map(|((mode, sr, n), deg)| {
        (sig(n), radius()).prop_map(move |(sig, radius)| Pair { mode, sr, radius, sig, deg: deg.clone(), other: None })
    })
}

/// A few long pairs at the lowest rate, of 10 to 40 patches.
pub fn long_pair() -> impl Strategy<Value = Pair> {
    (modes(), 10usize..40, prop::collection::vec(deg(), 0..3)).prop_flat_map(|(mode, k, deg)| {
        let n = model::samples_for_frames(min_frames(mode) + k * mode.patch(), 8000);
        (sig(n..=n + 1000), 0usize..3)
            .prop_map(move |(sig, radius)| Pair { mode, sr: 8000, radius, sig, deg: deg.clone(), other: None })
    })
}

/// One to four minutes.
pub fn minutes() -> impl Strategy<Value = Pair> {
    (modes(), 480_000usize..2_000_000, prop::collection::vec(deg(), 0..2)).prop_flat_map(|(mode, n, deg)| {
        (sig(n..=n), 0usize..2).prop_map(move |(sig, radius)| Pair { mode, sr: 8000, radius, sig, deg: deg.clone(), other: None })
    })
}

/// Pairs whose spectra are opposed in some stretches, so that similarities are
/// negative there and patches stay without a match.
pub fn opposed_pair(patches: usize) -> impl Strategy<Value = Pair> {
    (frame(patches), 0.08..0.5f64, any::<u32>(), prop_oneof![1 => Just(u32::MAX), 3 => any::<u32>()], 0usize..4, prop::bool::weighted(0.3)).prop_flat_map(
        |((mode, sr, n), slot, bits, flip, radius, warp)| {
            (n, any::<u32>(), any::<u32>(), 0.0..0.003f64, if warp { prop::collection::vec(deg(), 1..3).boxed() } else { Just(vec![]).boxed() }).prop_map(
                move |(n, s1, s2, bed, deg)| {
                    let part = |bits, seed| Part { kind: Kind::Split { slot, bits }, at: 0.0, len: 1.0, amp: 0.3, seed };
                    // Keeps the global alignment where it is.
                    let mark = Part { kind: Kind::Noise, at: 0.0, len: 0.03, amp: 0.9, seed: 1 };
                    let make = |bits, seed| Sig { n, bed, seed, parts: vec![part(bits, seed), mark.clone()], quantised: false };
                    Pair { mode, sr, radius, sig: make(bits, s1), deg: deg.clone(), other: Some(make(bits ^ flip, s2)) }
                },
            )
        },
    )
}

/// Degraded signals that end a little earlier than the reference, so that
/// matches reach beyond them.
pub fn ending_pair(patches: usize) -> impl Strategy<Value = Pair> {
    (pair_with(patches, Just(vec![]).boxed()), 0.002..0.3f64, prop::collection::vec(prop_oneof![2 => (0.01..0.5f64, any::<u32>()).prop_map(|(rel, seed)| Deg::Noise { rel, seed }), 1 => (1u32..1500).prop_map(Deg::Delay), 1 => (1u32..1500).prop_map(Deg::Advance)], 0..3))
        .prop_map(|(mut p, cut, mut deg)| {
            deg.push(Deg::Truncate(cut));
            p.deg = deg;
            p
        })
}
