//! Reference patches are matched in order and as well as possible.

use crate::gen::*;
use crate::model;
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Best total over all placements in strictly ascending order within the
/// windows; the first patch must be placed, others may be left out.
fn best_total(sims: &[Vec<Option<f64>>]) -> f64 {
    fn rest(sims: &[Vec<Option<f64>>], k: usize, from: usize, memo: &mut Vec<Vec<Option<f64>>>) -> f64 {
        if k == sims.len() {
            return 0.0;
        }
        if let Some(v) = memo[k][from] {
            return v;
        }
        let mut best = if k == 0 { f64::NEG_INFINITY } else { rest(sims, k + 1, from, memo) };
        for o in from..sims[k].len() {
            if let Some(s) = sims[k][o] {
                best = best.max(s + rest(sims, k + 1, o + 1, memo));
            }
        }
        memo[k][from] = Some(best);
        best
    }
    let frames = sims[0].len();
    let mut memo = vec![vec![None; frames + 1]; sims.len()];
    rest(sims, 0, 0, &mut memo)
}

/// Time changes within the degraded signal, so that patches have to move.
fn warped() -> impl Strategy<Value = Pair> {
    let warp = prop_oneof![
        3 => (0.05..0.95f64, 50u32..3000).prop_map(|(at, n)| Deg::Cut { at, n }),
        3 => (0.05..0.95f64, 50u32..3000).prop_map(|(at, n)| Deg::Stuff { at, n }),
        1 => (0.0..0.9f64, 0.05..0.4f64).prop_map(|(at, len)| Deg::Drop { at, len }),
        1 => (0.05..0.6f64).prop_map(Deg::Truncate),
        1 => (0.01..0.5f64, any::<u32>()).prop_map(|(rel, seed)| Deg::Noise { rel, seed }),
    ];
    pair_with(7, prop::collection::vec(warp, 1..4).boxed())
}

/// The placement of every patch, as far as it is reported.
fn placed(p: &Pair) -> Outcome {
    judge(p, |r, m, _, _| {
        if r.patches.len() != m.patches.len() {
            return Err(format!("{} patches, expected {}", r.patches.len(), m.patches.len()));
        }
        if m.margins.xcorr < 1e-7 || m.margins.dp < 1e-7 || m.margins.vad < 1e-9 {
            return Ok(Info::new(false).label("ambiguous: not compared"));
        }
        let (mut moved, mut lost) = (false, false);
        for (k, (q, e)) in r.patches.iter().zip(&m.patches).enumerate() {
            if q.unmatched() != e.offset.is_none() {
                return Err(format!("patch {k}: matched {}, expected {}", !q.unmatched(), e.offset.is_some()));
            }
            lost |= q.unmatched();
            moved |= e.offset.is_some_and(|o| o != e.idx);
            if q.unmatched() {
                if q.similarity != 0.0 {
                    return Err(format!("patch {k}: similarity {} without a match", q.similarity));
                }
                continue;
            }
            if e.touchy || e.lag_margin < 1e-7 {
                continue;
            }
            let at = |x: &model::PatchResult| close(q.deg_start, x.deg_start, 1e-7) && close(q.ref_start, x.ref_start, 1e-7);
            if !at(&e.coarse) && !e.fine.as_ref().is_some_and(|f| at(&f.1)) {
                return Err(format!("patch {k}: at {} s against {} s, expected near {} s", q.ref_start, q.deg_start, e.coarse.deg_start));
            }
        }
        Ok(Info::new(r.patches.len() > 1 && (moved || lost))
            .label(format!("{:?}", p.mode))
            .when(moved, "moved patch")
            .when(lost, "unmatched patch")
            .when(m.patches.len() < m.ref_idx.len(), "patch dropped")
            .when(p.radius == 0, "no search"))
    })
}

/// A window that already covers everything can grow without any effect.
fn saturated(c: &(Pair, usize)) -> Outcome {
    let (p, big) = c;
    let (x, y) = p.audio();
    let frames = model::num_frames(x.len(), p.sr).max(model::num_frames(2 * y.len() + x.len(), p.sr));
    let a = sut::score(&x, &y, p.sr, p.mode, frames);
    let b = sut::score(&x, &y, p.sr, p.mode, *big);
    if *big >= frames && !a.same(&b) {
        return Err(format!("radius {frames}: {}, radius {big}: {}", a.brief(), b.brief()));
    }
    Ok(Info::new(matches!(a, Answer::Scored(_)) && *big >= frames))
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "warped",
        "signals with parts cut out, stretched, silenced or truncated; the reported placement of every patch against the model; non-trivial: more than one patch, and one moved or found no match",
        450,
        60_000,
        warped,
        placed,
    );
    c.facet(
        "opposed",
        "spectra opposed in some stretches, so that similarities are negative and matches are left out; non-trivial: as above",
        250,
        20_000,
        || opposed_pair(5),
        placed,
    );
    c.facet(
        "far",
        "a gap of up to twenty patches within the degraded signal, radius 4..60; non-trivial: as above",
        60,
        3000,
        || {
            (pair_with(5, Just(vec![]).boxed()), 0.2..0.8f64, 1.0..20.0f64, 4usize..60, prop_oneof![2 => Just(None), 1 => (0.01..0.3f64, any::<u32>()).prop_map(Some)]).prop_map(|(mut p, at, by, radius, noise)| {
                p.sr = 8000;
                p.radius = radius;
                p.sig.n = model::samples_for_frames(min_frames(p.mode), 8000) + p.sig.n % (4 * p.mode.patch() * model::hop_size(8000));
                p.deg = vec![Deg::Stuff { at, n: (by * (p.mode.patch() * model::hop_size(8000)) as f64) as u32 }];
                p.deg.extend(noise.map(|(rel, seed)| Deg::Noise { rel, seed }));
                p
            })
        },
        placed,
    );
    c.facet(
        "saturation",
        "random pair with a radius that covers all frames, and a larger one; results compared bit for bit; non-trivial: scored",
        150,
        3000,
        || {
            let big = prop_oneof![1 => Just(usize::MAX), 1 => Just(i32::MAX as usize), 1 => Just(u32::MAX as usize), 3 => 500usize..1_000_000_000];
            (warped(), big)
        },
        saturated,
    );
    #[cfg(visqol_verif = "matching")]
    hooks(&c);
    #[cfg(not(visqol_verif = "matching"))]
    let _ = (best_total, |_: Mat2| ());
    c.finish("exploration", super::BASE)
}
#[cfg(not(visqol_verif = "matching"))]
type Mat2 = (Mode, model::Mat);

#[cfg(visqol_verif = "matching")]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    bands: usize,
    patch: usize,
    frames: usize,
    /// Gaps between consecutive patches, beyond the patch itself.
    gaps: Vec<usize>,
    first: usize,
    radius: usize,
    /// What the degraded spectrogram is made of.
    moves: Vec<(usize, i64)>,
    noise: f64,
    /// Range of the values within a band; similarities of narrow ones are not negative.
    spread: f64,
    seed: u32,
    fd: f64,
}

#[cfg(visqol_verif = "matching")]
impl Grid {
    fn build(&self) -> (model::Mat, model::Mat, Vec<usize>) {
        let mut idx = vec![];
        let mut at = self.first;
        for g in &self.gaps {
            idx.push(at);
            at += self.patch + g;
        }
        let n = at + 3;
        let mut g = Lcg::new(self.seed as u64);
        let r: model::Mat = (0..self.bands).map(|b| (0..n).map(|_| 8.0 * b as f64 + 2.0 + self.spread * g.sym()).collect()).collect();
        // Stretches of the reference, moved, over noise.
        let mut d: model::Mat = (0..self.bands).map(|b| (0..self.frames).map(|_| 8.0 * b as f64 + 2.0 + self.spread * g.sym()).collect()).collect();
        for (k, by) in &self.moves {
            let from = idx[k % idx.len()] as i64;
            for j in 0..self.patch as i64 {
                let to = from + j + by;
                if to >= 0 && to < self.frames as i64 {
                    for b in 0..self.bands {
                        d[b][to as usize] = r[b][(from + j) as usize] + self.noise * 0.5 * self.spread * g.sym();
                    }
                }
            }
        }
        for v in d.iter_mut().flatten() {
            *v = v.max(0.0);
        }
        (r, d, idx)
    }
}

#[cfg(visqol_verif = "matching")]
fn grid(wide: bool) -> impl Strategy<Value = Grid> {
    (2usize..6, 2usize..9, 1usize..9, 0usize..12).prop_flat_map(move |(bands, patch, np, first)| {
        let span = first + np * (patch + 2) + 4;
        let radius = if wide { Just(60usize).boxed() } else { (0usize..4).boxed() };
        (
            span / 2..span + 10,
            prop::collection::vec(prop_oneof![3 => Just(0usize), 1 => 0usize..6], np),
            radius,
            prop::collection::vec((0usize..np, prop_oneof![1 => Just(0i64), 3 => -12i64..13]), 0..np + 3),
            prop_oneof![1 => Just(0.0), 2 => 0.0..1.0f64],
            any::<u32>(),
            if wide { (1.0..20.0f64).boxed() } else { prop_oneof![1 => 1.0..20.0f64, 4 => 0.5..4.0f64].boxed() },
            0.01..0.05f64,
        )
            .prop_map(move |(frames, gaps, radius, moves, noise, seed, spread, fd)| Grid { bands, patch, frames, gaps, first, radius, moves, noise, spread, seed, fd })
    })
}

/// Many small patches, which get in each other's way.
#[cfg(visqol_verif = "matching")]
fn crowd() -> impl Strategy<Value = Grid> {
    (2usize..4, 2usize..4, 9usize..40, 0usize..4, prop_oneof![2 => Just(60usize), 1 => 3usize..20]).prop_flat_map(|(bands, patch, np, first, radius)| {
        let span = first + np * (patch + 1);
        (
            span * 2 / 3..span + 6,
            prop::collection::vec(prop_oneof![6 => Just(0usize), 1 => 0usize..4], np),
            prop::collection::vec((0usize..np, -30i64..31), 0..np / 2),
            0.0..1.0f64,
            any::<u32>(),
            0.5..4.0f64,
        )
            .prop_map(move |(frames, gaps, moves, noise, seed, spread)| Grid { bands, patch, frames, gaps, first, radius, moves, noise, spread, seed, fd: 0.02 })
    })
}
/// Few patches in long spectrograms, moved far.
#[cfg(visqol_verif = "matching")]
fn far() -> impl Strategy<Value = Grid> {
    (2usize..5, 2usize..9, 2usize..6, 0usize..150, prop_oneof![1 => 10usize..60, 2 => 60usize..300]).prop_flat_map(|(bands, patch, np, first, radius)| {
        (
            300usize..700,
            prop::collection::vec(0usize..120, np),
            prop::collection::vec((0usize..np, -500i64..501), 1..np + 3),
            prop_oneof![1 => Just(0.0), 1 => 0.0..0.3f64],
            any::<u32>(),
            0.5..4.0f64,
        )
            .prop_map(move |(frames, gaps, moves, noise, seed, spread)| Grid { bands, patch, frames, gaps, first, radius, moves, noise, spread, seed, fd: 0.02 })
    })
}

#[cfg(visqol_verif = "matching")]
fn optimal(t: &Grid) -> Outcome {
    use visqol_rs::verif_hooks::matching;
    let (r, d, idx) = t.build();
    let window = t.radius * t.patch;
    let supported = model::supported_patches(&idx, t.frames, t.patch);
    if supported == 0 || idx[..supported].iter().any(|i| i.saturating_sub(window) >= t.frames) {
        // No window for some patch.
        return match matching::find(&r, &d, &idx, t.patch, t.fd, t.radius) {
            Ok(v) if supported == 0 => Err(format!("{} patches where the degraded spectrogram supports none", v.len())),
            _ => Ok(Info::new(false).label("a window without frames")),
        };
    }
    let refs: Vec<model::Mat> = idx.iter().map(|i| model::columns(&r, *i, i + t.patch)).collect();
    let sims = model::window_sims(&refs, &idx, &d, t.patch, window);
    let got = matching::find(&r, &d, &idx, t.patch, t.fd, t.radius).map_err(|e| format!("refused: {e}"))?;
    if got.len() != supported {
        return Err(format!("{} patches, expected {supported} of {}", got.len(), idx.len()));
    }
    let negative = t.radius < 60 && sims.iter().flatten().flatten().any(|s| *s < 0.0);
    let (mut total, mut last, mut lost, mut moved) = (0.0, None::<usize>, false, false);
    for (k, q) in got.iter().enumerate() {
        let start = idx[k] as f64 * t.fd;
        if !close(q.ref_patch_start_time, start, 1e-9) || !close(q.ref_patch_end_time, start + t.patch as f64 * t.fd, 1e-9) {
            return Err(format!("patch {k}: reference span {}..{}", q.ref_patch_start_time, q.ref_patch_end_time));
        }
        if q.deg_patch_start_time == 0.0 && q.deg_patch_end_time == 0.0 {
            if k == 0 {
                if negative {
                    return Ok(Info::new(false).label("negative similarities: window not compared"));
                }
                return Err("the first patch has no match".into());
            }
            if q.similarity != 0.0 || q.freq_band_means.iter().any(|m| *m != 0.0) {
                return Err(format!("patch {k}: similarity {} without a match", q.similarity));
            }
            lost = true;
            continue;
        }
        let o = (q.deg_patch_start_time / t.fd).round() as usize;
        if !close(o as f64 * t.fd, q.deg_patch_start_time, 1e-9) || !close(q.deg_patch_end_time, q.deg_patch_start_time + t.patch as f64 * t.fd, 1e-9) {
            return Err(format!("patch {k}: degraded span {}..{}", q.deg_patch_start_time, q.deg_patch_end_time));
        }
        if last.is_some_and(|l| o <= l) {
            return Err(format!("patch {k}: at frame {o}, the one before at {}", last.unwrap()));
        }
        let s = match sims[k].get(o) {
            Some(Some(s)) => s,
            // Leaving out a patch of negative similarity can carry the one
            // before out of its window.
            _ if negative => return Ok(Info::new(false).label("negative similarities: window not compared")),
            _ => return Err(format!("patch {k}: frame {o} is outside its window")),
        };
        if !close(*s, q.similarity, 1e-7) {
            return Err(format!("patch {k}: similarity {}, at frame {o} it is {s}", q.similarity));
        }
        moved |= o != idx[k];
        total += s;
        last = Some(o);
    }
    let best = best_total(&sims[..supported]);
    if total < best - 1e-7 && !negative {
        return Err(format!("total similarity {total}, a placement in order reaches {best}"));
    }
    Ok(Info::new(supported > 1 && (moved || lost))
        .when(moved, "moved patch")
        .when(lost, "unmatched patch")
        .when(negative, "negative similarities: total not compared")
        .when(supported < idx.len(), "patch dropped")
        .when(supported > 5, "more than 5 patches"))
}

#[cfg(visqol_verif = "matching")]
fn hooks(c: &Ctx) {
    c.facet(
        "optimum",
        "random spectrograms of 2..5 bands with the reference's stretches moved about, window over everything; order, window, reported similarities, and the total against a memoised search over all placements; non-trivial: several patches, one moved or unmatched",
        45_000,
        1_000_000,
        || grid(true),
        optimal,
    );
    c.facet("crowd", "as optimum, 9..39 patches of 2 or 3 frames; non-trivial: the same", 6000, 100_000, crowd, optimal);
    c.facet("distant", "as optimum, 2..5 patches in spectrograms of 300..700 frames, moved by up to 500; non-trivial: the same", 3000, 60_000, far, optimal);
    c.facet("windows", "as optimum, with windows of 0..3 patches; non-trivial: the same", 45_000, 1_000_000, || grid(false), optimal);
}
