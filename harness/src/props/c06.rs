//! A constant delay between the signals is found and removed.

use crate::gen::*;
use crate::model::{self, Margins};
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pair: Pair,
    /// Positive: so much silence (or faint noise) in front; negative: so much
    /// missing in front. As a fraction of half the reference, plus samples.
    frac: f64,
    extra: i64,
    fill: f64,
}
impl Case {
    fn shift(&self) -> i64 {
        (self.frac * (self.pair.sig.n / 2) as f64) as i64 + self.extra
    }
}

fn lag_of(x: &[f64], z: &[f64]) -> Option<i64> {
    let (l, m) = model::best_lag(&model::envelope(x), &model::envelope(z));
    (m > 1e-7).then_some(l)
}

pub fn compensated(c: &Case) -> Outcome {
    let p = &c.pair;
    let (x, y) = p.audio();
    let k = c.shift();
    if k == 0 || k.unsigned_abs() as usize >= y.len() {
        return Ok(Info::new(false).label("no shift"));
    }
    let (z, aligned) = if k > 0 {
        let mut g = Lcg::new(7);
        let mut z: Vec<f64> = (0..k).map(|_| c.fill * g.sym()).collect();
        z.extend(&y);
        (z, y.clone())
    } else {
        let z = y[-k as usize..].to_vec();
        let mut a = vec![0.0; -k as usize];
        a.extend(&z);
        (z, a)
    };
    if lag_of(&x, &z) != Some(-k) || lag_of(&x, &aligned) != Some(0) {
        return Ok(Info::new(false).label("delay not determinable"));
    }
    let near = k.unsigned_abs() as usize <= x.len() / 2;
    if !near {
        return conform(&Pair { other: None, ..p.clone() }).and_then(|_| far(p, &x, &z));
    }
    let (a, b) = (sut::score(&x, &z, p.sr, p.mode, p.radius), sut::score(&x, &aligned, p.sr, p.mode, p.radius));
    match (&a, &b) {
        (Answer::Scored(r), Answer::Scored(s)) => {
            super::c05::equal(r, s, 1e-9, &[]).map_err(|why| format!("shifted by {k}: {why}"))?;
            Ok(Info::new(true).label(if k > 0 { "delayed" } else { "advanced" }).when(c.fill > 0.0 && k > 0, "noise in front"))
        }
        (Answer::Refused(_), Answer::Refused(_)) => Ok(Info::new(false).label("refused")),
        _ => Err(format!("shifted by {k}: {}, aligned: {}", a.brief(), b.brief())),
    }
}

/// A lag of more than half the reference is not applied.
fn far(p: &Pair, x: &[f64], z: &[f64]) -> Outcome {
    match (model::score(x, z, p.sr, p.mode, p.radius), sut::score(x, z, p.sr, p.mode, p.radius)) {
        (Ok(m), Answer::Scored(r)) => compare(&r, &m).map_err(|e| format!("beyond half the reference: {e}")).map(|i| i.label("too far to compensate")),
        (Err(_), Answer::Refused(_)) => Ok(Info::new(false)),
        (_, a) => Err(format!("beyond half the reference: {}", a.brief())),
    }
}

pub fn cases(patches: usize) -> impl Strategy<Value = Case> {
    let mild = prop_oneof![
        2 => Just(vec![]),
        2 => (0.001..0.5, any::<u32>()).prop_map(|(rel, seed)| vec![Deg::Noise { rel, seed }]),
        1 => (0.1..3.0).prop_map(|g| vec![Deg::Gain(g)]),
        1 => (0.2..0.9).prop_map(|l| vec![Deg::Lowpass(l)]),
        1 => Just(vec![Deg::Flip]),
        1 => (0.01..0.4).prop_map(|l| vec![Deg::Truncate(l)]),
    ];
    (
        pair_with(patches, mild.boxed()),
        prop_oneof![
            6 => (-1.0..1.0f64, Just(0i64)),
            2 => (Just(0.0), -40i64..40),
            1 => (prop_oneof![Just(1.0), Just(-1.0)], -2i64..3),
            1 => (prop_oneof![1.0..1.7f64, -1.7..-1.0f64], Just(0i64)),
        ],
        prop_oneof![2 => Just(0.0), 1 => 1e-4..0.01],
    )
        .prop_map(|(pair, (frac, extra), fill)| Case { pair, frac, extra, fill })
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "delays",
        "random signal, mildly degraded, and the same shifted by up to 1.7 times half the reference; the score must equal that of the aligned signal; non-trivial: the correlation determines the delay",
        800,
        20000,
        || cases(3),
        compensated,
    );
    c.facet("long", "as delays, with signals of up to 15 patches; non-trivial: the same", 100, 2500, || cases(15), compensated);
    #[cfg(visqol_verif = "lag")]
    hooks(&c);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "lag")]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: Vec<f64>,
    b: Vec<f64>,
    sr: u32,
}

#[cfg(visqol_verif = "lag")]
fn two(n: usize) -> impl Strategy<Value = Two> {
    let seq = move || {
        (32usize..n, any::<u32>(), 0.0..1.0f64, -0.5..0.5f64).prop_map(|(n, seed, sparse, offset)| {
            let mut g = Lcg::new(seed as u64);
            (0..n).map(|_| if g.unit() < sparse * 0.9 { offset * 0.1 } else { g.sym() * 0.8 + offset * 0.1 }).collect::<Vec<f64>>()
        })
    };
    (seq(), seq(), -200i64..200, 0.0..1.0f64, 0usize..4, prop::sample::select(vec![1000u32, 8000, 11025, 44100, 48000])).prop_map(
        |(a, b, k, mix, how, sr)| {
            if how == 0 {
                return Two { a, b, sr };
            }
            // b becomes a shifted, scaled and disturbed version of a
            let n = if how == 1 { a.len() } else { b.len() };
            let b = (0..n as i64)
                .map(|i| {
                    let v = if i + k >= 0 && i + k < a.len() as i64 { a[(i + k) as usize] } else { 0.0 };
                    v * 0.7 + mix * 0.3 * b[i as usize % b.len()]
                })
                .collect();
            Two { a, b, sr }
        },
    )
}

#[cfg(visqol_verif = "lag")]
fn hooks(c: &Ctx) {
    use visqol_rs::verif_hooks::lag;
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Long {
        n: usize,
        seed: u32,
        by: f64,
        rough: f64,
        len: f64,
        offset: f64,
    }
    impl Long {
        fn two(&self) -> Two {
            let mut g = Lcg::new(self.seed as u64);
            let a: Vec<f64> = (0..self.n).map(|_| g.sym() * 0.6 + self.offset).collect();
            let by = (self.by * self.n as f64) as i64;
            let b = (0..(self.n as f64 * self.len) as i64)
                .map(|i| {
                    let v = if i + by >= 0 && i + by < a.len() as i64 { a[(i + by) as usize] } else { 0.0 };
                    0.7 * v + 0.3 * self.rough * g.sym()
                })
                .collect();
            Two { a, b, sr: 48000 }
        }
    }
    fn aligned(t: &Two) -> Outcome {
        let mut m = Margins::new();
        let (k, want) = model::align(&t.a, &t.b, &mut m);
        if m.xcorr < 1e-9 {
            return Ok(Info::new(false).label("ambiguous: not compared"));
        }
        let (got, secs) = lag::globally_align(&t.a, &t.b, t.sr).ok_or("not aligned")?;
        if (secs - k as f64 / t.sr as f64).abs() > 1e-9 {
            return Err(format!("lag {secs} s, expected {k} samples"));
        }
        all_close("aligned", &got, &want, 1e-12)?;
        let (a, b, secs) = lag::align_and_truncate(&t.a, &t.b, t.sr).ok_or("not aligned")?;
        if (secs - k as f64 / t.sr as f64).abs() > 1e-9 {
            return Err(format!("lag {secs} s when truncating, expected {k} samples"));
        }
        let (wa, wb) = model::truncate(&t.a, &want, k, t.sr);
        all_close("truncated reference", &a, &wa, 1e-12)?;
        all_close("truncated degraded", &b, &wb, 1e-12)?;
        Ok(Info::new(k != 0).when(k > 0, "positive lag").when(k < 0, "negative lag"))
    }
    c.facet(
        "correlation",
        "two sequences of 32..600 values, mostly one a shifted copy of the other; the lag must be where the directly summed correlation peaks; non-trivial: the peak is unique",
        40_000,
        200_000,
        || two(600),
        |t: &Two| {
            let l = t.a.len().max(t.b.len()) as i64;
            let at = |v: &Vec<f64>, i: i64| if i >= 0 && i < v.len() as i64 { v[i as usize] } else { 0.0 };
            let corr = |lag: i64| (0..t.b.len() as i64).map(|n| at(&t.a, n + lag) * t.b[n as usize]).sum::<f64>().abs();
            let all: Vec<f64> = (-(l - 1)..l).map(corr).collect();
            let best = all.iter().cloned().fold(0.0, f64::max);
            let Some(got) = lag::best_lag(&t.a, &t.b) else { return Err("no lag".into()) };
            if got.abs() >= l {
                return Err(format!("lag {got} for {l} values"));
            }
            let v = all[(got + l - 1) as usize];
            if v < best * (1.0 - 1e-9) - 1e-9 {
                return Err(format!("lag {got} has correlation {v}, the peak is {best}"));
            }
            let mut s = all.clone();
            s.sort_by(|a, b| b.total_cmp(a));
            Ok(Info::new(s[0] > s[1] * (1.0 + 1e-9)).when(got > 0, "positive lag").when(got < 0, "negative lag"))
        },
    );
    c.facet(
        "envelope",
        "sequences of 32..3000 values; envelope against its closed form; non-trivial: every case",
        10_000,
        50_000,
        || two(3000),
        |t: &Two| {
            let got = lag::upper_envelope(&t.a).ok_or("no envelope")?;
            all_close("envelope", &got, &model::envelope(&t.a), 1e-9)?;
            Ok(Info::new(true))
        },
    );
    c.facet(
        "alignment",
        "two sequences of 32..3000 values; the aligned signals and the lag against the definition; non-trivial: the peak is unique and the lag not zero",
        30_000,
        100_000,
        || two(3000),
        aligned,
    );
    c.facet(
        "alignment_long",
        "as alignment, with 50000..600000 samples, one a copy of the other moved by up to 0.7 of its length; non-trivial: the same",
        60,
        1500,
        || {
            (prop_oneof![1 => 50_000usize..150_000, 2 => 150_000usize..600_000], any::<u32>(), -0.7..0.7f64, 0.0..1.5f64, 0.7..1.3f64, 0.0..0.5f64).prop_map(
                |(n, seed, by, rough, len, offset)| Long { n, seed, by, rough, len, offset },
            )
        },
        |l: &Long| aligned(&l.two()),
    );
}
