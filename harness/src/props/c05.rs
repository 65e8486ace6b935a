//! The level of the degraded signal does not matter.

use crate::gen::*;
use crate::model;
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer, Res};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    gain: f64,
}

/// Equal results, but for the times and energies of the patches in `ties`.
pub fn equal(a: &Res, b: &Res, tol: f64, ties: &[bool]) -> Result<(), String> {
    let tied = |k: usize| ties.get(k).copied().unwrap_or(false);
    if a.patches.len() != b.patches.len() {
        return Err(format!("{} patches and {}", a.patches.len(), b.patches.len()));
    }
    for (k, (p, q)) in a.patches.iter().zip(&b.patches).enumerate() {
        if !close(p.similarity, q.similarity, tol) {
            return Err(format!("patch {k}: similarity {} and {}", p.similarity, q.similarity));
        }
        all_close("band means", &p.means, &q.means, tol)?;
        if tied(k) {
            continue;
        }
        for (n, x, y) in [
            ("ref start", p.ref_start, q.ref_start),
            ("ref end", p.ref_end, q.ref_end),
            ("deg start", p.deg_start, q.deg_start),
            ("deg end", p.deg_end, q.deg_end),
        ] {
            if !close(x, y, tol) {
                return Err(format!("patch {k}: {n} {x} and {y}"));
            }
        }
        all_close("energies", &p.energy, &q.energy, tol)?;
    }
    all_close("fvnsim", &a.fvnsim, &b.fvnsim, tol)?;
    if !ties.contains(&true) {
        all_close("fvdegenergy", &a.fvdegenergy, &b.fvdegenergy, tol)?;
    }
    if !close(a.vnsim, b.vnsim, tol) || !close(a.mos, b.mos, tol.max(1e-5)) {
        return Err(format!("vnsim {} and {}, MOS {} and {}", a.vnsim, b.vnsim, a.mos, b.mos));
    }
    Ok(())
}

fn invariant(c: &Case) -> Outcome {
    let p = &c.pair;
    let (x, y) = p.audio();
    let z: Vec<f64> = y.iter().map(|v| v * c.gain).collect();
    let a = sut::score(&x, &y, p.sr, p.mode, p.radius);
    let b = sut::score(&x, &z, p.sr, p.mode, p.radius);
    let level = model::rms(&y) * c.gain.abs().min(1.0);
    match (&a, &b) {
        (Answer::Scored(r), Answer::Scored(s)) => {
            let mut tied = false;
            if equal(r, s, 1e-6, &[]).is_err() {
                // Rounding may decide where candidates are equally good. Equally
                // good spans of a patch differ in times and energies only.
                let open = |d: &[f64]| {
                    let m = model::score(&x, d, p.sr, p.mode, p.radius).ok()?;
                    // The envelope has a fixed offset of a millionth.
                    let unclear = m.margins.xcorr < 1e-4 + 1e-5 / level
                        || m.margins.dp < 1e-8
                        || m.patches.iter().any(|q| q.touchy || q.lag_margin < 1e-8);
                    (!unclear).then(|| m.patches.iter().map(|q| q.gain().abs() < 1e-8).collect::<Vec<bool>>())
                };
                let (Some(ty), Some(tz)) = (open(&y), open(&z)) else {
                    return Ok(Info::new(false).label("ambiguous: not compared"));
                };
                let ties: Vec<bool> = ty.iter().zip(&tz).map(|(a, b)| *a || *b).collect();
                tied = ties.contains(&true);
                equal(r, s, 1e-6, &ties).map_err(|why| format!("at gain {}: {why}", c.gain))?;
            }
            Ok(Info::new(level > 1e-4).label(format!("{:?}", p.mode)).when(tied, "equally good spans").when(c.gain > 1.0, "louder").when(c.gain < 1.0, "quieter"))
        }
        (Answer::Refused(_), Answer::Refused(_)) => Ok(Info::new(false).label("refused")),
        _ => Err(format!("at gain {}: {}, else: {}", c.gain, b.brief(), a.brief())),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Levels {
    sr: (u32, u32),
    r: Sig,
    d: Sig,
    gr: f64,
    gd: f64,
}

/// The public level-matching function on its own.
fn matched(c: &Levels) -> Outcome {
    let r: Vec<f64> = c.r.samples(c.sr.0).iter().map(|v| v * c.gr).collect();
    let d: Vec<f64> = c.d.samples(c.sr.1).iter().map(|v| v * c.gd).collect();
    let (got, sr, touched) = sut::match_level(&r, c.sr.0, &d, c.sr.1).map_err(|p| format!("panic: {p}"))?;
    if touched {
        return Err("the inputs were changed".into());
    }
    if sr != c.sr.1 {
        return Err(format!("sample rate {sr}, expected {}", c.sr.1));
    }
    let want = model::match_level(&r, &d);
    let peak = want.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if got.len() != want.len() {
        return Err(format!("{} samples, expected {}", got.len(), want.len()));
    }
    if let Some(i) = (0..got.len()).find(|i| !((got[*i] - want[*i]).abs() <= 1e-9 * peak)) {
        return Err(format!("sample {i} is {}, expected {}", got[i], want[i]));
    }
    let (a, b) = (model::rms(&got), model::rms(&r));
    if model::rms(&d) > 0.0 && !((a - b).abs() <= 1e-9 * b) {
        return Err(format!("level {a}, the reference has {b}"));
    }
    Ok(Info::new(model::rms(&d) > 0.0 && b > 0.0).when(model::rms(&d) == 0.0, "silent degraded").when(b == 0.0, "silent reference"))
}

pub fn run(c: Ctx) -> i32 {
    let gain = || prop_oneof![4 => -3.0..1.5f64, 2 => -0.3..0.3f64, 1 => -5.0..4.0f64].prop_map(|e| 10f64.powf(e));
    c.facet(
        "gains",
        "random pair and a gain of 0.00001..10000 on the degraded signal; non-trivial: scored, and the quieter version louder than 1e-4",
        750,
        18000,
        move || (pair(3), gain()).prop_map(|(pair, gain)| Case { pair, gain }),
        invariant,
    );
    c.facet(
        "wild",
        "as gains, with silence, clicks and unrelated signals",
        400,
        9000,
        move || (wild_pair(3), gain()).prop_map(|(pair, gain)| Case { pair, gain }),
        invariant,
    );
    c.facet("long", "as gains, with 10..40 patches", 24, 500, move || (long_pair(), gain()).prop_map(|(pair, gain)| Case { pair, gain }), invariant);
    c.facet(
        "scaling_long",
        "as scaling, with 60000..1500000 samples",
        40,
        600,
        move || {
            let s = || prop_oneof![1 => sig(60_000..=300_000), 1 => sig(300_000..=1_500_000)];
            (s(), s(), gain(), gain()).prop_map(|(r, d, gr, gd)| Levels { sr: (48000, 48000), r, d, gr, gd })
        },
        matched,
    );
    c.facet(
        "scaling",
        "two random signals of 1..60000 samples at random levels through the level-matching function; non-trivial: neither is silent",
        3000,
        60000,
        move || {
            let s = || prop_oneof![4 => sig(1..=3000).boxed(), 1 => wild_sig(1..=60000).boxed()];
            (prop::sample::select(vec![8000u32, 16000, 44100, 48000]), prop::sample::select(vec![8000u32, 48000]), s(), s(), gain(), gain())
                .prop_map(|(a, b, r, d, gr, gd)| Levels { sr: (a, b), r, d, gr, gd })
        },
        matched,
    );
    c.finish("exploration", super::BASE)
}
