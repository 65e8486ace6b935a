//! Fine alignment never makes a patch worse, and reports what it compared.

use crate::gen::*;
use crate::model;
use crate::pair::*;
use crate::run::*;
use proptest::prelude::*;

fn fine(p: &Pair) -> Outcome {
    judge(p, |r, m, x, _| {
        spans_valid(r, p.mode, p.sr, x.len())?;
        if m.margins.xcorr < 1e-8 || m.margins.dp < 1e-8 || m.margins.vad < 1e-9 || r.patches.len() != m.patches.len() {
            return Ok(Info::new(false).label("ambiguous: not compared"));
        }
        let (mut taken, mut kept, mut compared, mut early, mut late) = (0, 0, 0, 0, 0);
        for (k, (q, e)) in r.patches.iter().zip(&m.patches).enumerate() {
            let Some((lag, f)) = &e.fine else { continue };
            if e.touchy {
                continue;
            }
            let coarse = e.coarse.sim.similarity;
            if q.similarity < coarse - TOL {
                return Err(format!("patch {k}: similarity {} after alignment, {coarse} before", q.similarity));
            }
            if e.lag_margin < 1e-8 {
                continue;
            }
            let best = f.sim.similarity.max(coarse);
            if !close(q.similarity, best, TOL) {
                return Err(format!("patch {k}: similarity {}, the better of {coarse} and {} is {best}", q.similarity, f.sim.similarity));
            }
            let want: &[&model::PatchResult] = if e.gain().abs() < 1e-8 { &[&e.coarse, f] } else { &[e.chosen()] };
            if !want.iter().any(|w| patch_matches(q, w).is_ok()) {
                return Err(format!("patch {k}: {}", patch_matches(q, want[0]).unwrap_err()));
            }
            compared += 1;
            if e.gain() > 1e-8 {
                taken += 1;
                early += u32::from(*lag < 0);
                late += u32::from(*lag > 0);
            } else if e.gain() < -1e-8 {
                kept += 1;
            }
        }
        Ok(Info::new(compared > 0 && taken + kept > 0)
            .label(format!("{:?}", p.mode))
            .when(taken > 0, "fine match taken")
            .when(kept > 0, "coarse match kept")
            .when(early > 0, "taken with a negative lag")
            .when(late > 0, "taken with a positive lag"))
    })
}

/// Small time changes, below the resolution of the coarse match.
fn jitter() -> impl Strategy<Value = Pair> {
    let d = prop_oneof![
        4 => (0.02..0.98f64, 1u32..300).prop_map(|(at, n)| Deg::Cut { at, n }),
        4 => (0.02..0.98f64, 1u32..300).prop_map(|(at, n)| Deg::Stuff { at, n }),
        1 => (0.01..0.8f64, any::<u32>()).prop_map(|(rel, seed)| Deg::Noise { rel, seed }),
        1 => (0.1..0.9f64).prop_map(Deg::Lowpass),
        1 => (0.0..0.9f64, 0.02..0.2f64).prop_map(|(at, len)| Deg::Drop { at, len }),
    ];
    pair_with(4, prop::collection::vec(d, 1..5).boxed())
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "jitter",
        "signals with small cuts and insertions, noise and dropouts; every patch's similarity and spans against coarse match and re-scored audio; non-trivial: a patch whose fine and coarse matches differ was compared",
        550,
        10_000,
        jitter,
        fine,
    );
    c.facet("pairs", "random pairs; as jitter", 200, 4000, || pair(3), fine);
    c.facet("wild", "silence, clicks and unrelated signals; as jitter", 160, 4000, || wild_pair(3), fine);
    c.facet("opposed", "spectra opposed in some stretches; as jitter", 160, 4000, || opposed_pair(4), fine);
    c.facet("ends", "degraded signals that end early; as jitter", 140, 4000, || ending_pair(3), fine);
    c.finish("exploration", super::BASE)
}
