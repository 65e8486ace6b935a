//! The opinion score follows from the similarities through the documented mappings.

use crate::gen::*;
use crate::model::{self, Mode, Svm};
use crate::pair::*;
use crate::run::*;
use crate::sut::{Answer, Mgr, TempFile};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    unscaled: bool,
}

fn verdict(r: &crate::sut::Res, mode: Mode, unscaled: bool, svm: &Svm) -> Outcome {
    mos_ok(r, mode, unscaled, svm)?;
    Ok(Info::new(true)
        .label(format!("{mode:?}"))
        .when(r.vnsim < 0.15, "below the similarity threshold")
        .when(r.vnsim < 0.15 && expected_mos(&crate::sut::Res { vnsim: 0.15, ..r.clone() }, mode, unscaled, svm) > 1.0, "the threshold decides")
        .when(r.mos == 1.0, "MOS 1")
        .when(r.mos == 5.0, "MOS 5")
        .when(unscaled, "unscaled"))
}

fn check(c: &Case) -> Outcome {
    let p = &c.pair;
    let (x, y) = p.audio();
    match Mgr::new(p.mode, c.unscaled, p.radius).score(&x, p.sr, &y, p.sr) {
        Answer::Scored(r) => verdict(&r, p.mode, c.unscaled, default_svm()),
        _ => Ok(Info::new(false)),
    }
}

/// Little in common: another sound, or hardly any.
fn low_pair() -> impl Strategy<Value = Pair> {
    let odd = prop_oneof![
        3 => (60.0..3500.0).prop_map(|hz| Kind::Tone { hz }),
        2 => (200u32..4000).prop_map(|every| Kind::Clicks { every }),
        1 => Just(Kind::Silence),
        1 => Just(Kind::Noise),
    ];
    (pair_with(3, Just(vec![]).boxed()), odd, 0.0..0.8, 0.02..1.0, 0.01..1.0, any::<u32>()).prop_map(|(mut p, kind, at, len, short, seed)| {
        let n = (p.sig.n as f64 * short) as usize;
        let n = n.max(model::window_size(p.sr) + 1);
        p.other = Some(Sig { n, bed: 0.0, seed, parts: vec![Part { kind, at, len, amp: 0.5, seed }], quantised: false });
        p
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct File {
    kernel: u8,
    eps: bool,
    gamma: f64,
    coef0: f64,
    degree: u32,
    rho: f64,
    sv: Vec<(f64, Vec<(u8, f64)>)>,
}
impl File {
    fn text(&self) -> String {
        let kernel = ["linear", "polynomial", "rbf", "sigmoid"][self.kernel as usize];
        let mut s = format!("svm_type {}\nkernel_type {kernel}\n", if self.eps { "epsilon_svr" } else { "nu_svr" });
        if self.kernel == 1 {
            s += &format!("degree {}\n", self.degree);
        }
        if self.kernel != 0 {
            s += &format!("gamma {}\n", self.gamma);
        }
        if self.kernel == 1 || self.kernel == 3 {
            s += &format!("coef0 {}\n", self.coef0);
        }
        s += &format!("nr_class 2\ntotal_sv {}\nrho {}\nSV\n", self.sv.len(), self.rho);
        for (c, f) in &self.sv {
            s += &format!("{c} ");
            for (i, v) in self.full(f).iter().enumerate() {
                s += &format!("{}:{v} ", i + 1);
            }
            s += "\n";
        }
        s
    }
    /// All 32 features: those given repeat over the bands.
    fn full(&self, f: &[(u8, f64)]) -> Vec<f64> {
        let mut v = vec![0.5; 32];
        for (i, x) in f {
            v[*i as usize % 32] = *x;
        }
        v
    }
    /// Bound on the single-precision error.
    fn tolerance(&self) -> f64 {
        let big = match self.kernel {
            0 => 40.0,
            1 => (self.gamma * 40.0 + self.coef0.abs() + 1.0).powi(self.degree as i32),
            _ => 5.0,
        };
        1e-5 * (1.0 + self.rho.abs() + self.sv.iter().map(|s| s.0.abs()).sum::<f64>() * big)
    }
}

fn file() -> impl Strategy<Value = File> {
    let sv = (-3.0..3.0, prop::collection::vec((0u8..32, 0.0..1.0), 0..10));
    (
        prop_oneof![5 => Just(2u8), 1 => Just(0), 1 => Just(1), 1 => Just(3)],
        any::<bool>(),
        0.01..2.0,
        -1.0..1.0,
        1u32..4,
        -6.0..2.0,
        prop::collection::vec(sv, 1..12),
    )
        .prop_map(|(kernel, eps, gamma, coef0, degree, rho, mut sv): (u8, bool, f64, f64, u32, f64, Vec<(f64, Vec<(u8, f64)>)>)| {
            // Keep predictions near the scale of opinion scores.
            let shrink = match kernel {
                0 => 0.02,
                1 => 1.0 / (gamma * 32.0 + 1.0f64).powi(degree as i32),
                _ => 1.0,
            };
            sv.iter_mut().for_each(|s| s.0 *= shrink);
            File { kernel, eps, gamma, coef0, degree, rho, sv }
        })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ModelCase {
    pair: Pair,
    file: File,
}

fn check_model(c: &ModelCase) -> Outcome {
    let text = c.file.text();
    let svm = Svm::parse(&text);
    let f = TempFile::with("txt", text.as_bytes());
    let (x, y) = c.pair.audio();
    match Mgr::fullband(f.path(), c.pair.radius).score(&x, c.pair.sr, &y, c.pair.sr) {
        Answer::Scored(r) => {
            let want = expected_mos(&r, Mode::Fullband, false, &svm);
            if (r.mos - want).abs() > c.file.tolerance() {
                return Err(format!("MOS {}, the model gives {want}", r.mos));
            }
            Ok(Info::new(want > 1.0 && want < 5.0)
                .label(format!("kernel {}", c.file.kernel))
                .when(want == 1.0, "MOS 1")
                .when(want == 5.0, "MOS 5"))
        }
        a => Ok(Info::new(false).label(a.brief())),
    }
}

/// Model files that replace each other under one name.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Swapped {
    pair: Pair,
    files: Vec<File>,
    /// Padded to the same size.
    padded: bool,
}

fn swapped(c: &Swapped) -> Outcome {
    let f = TempFile::new("txt");
    let (x, y) = c.pair.audio();
    let mut distinct = std::collections::BTreeSet::new();
    let mut texts: Vec<String> = c.files.iter().map(File::text).collect();
    if c.padded {
        let n = texts.iter().map(String::len).max().unwrap();
        // Blanks at the end of the last vector mean nothing.
        texts.iter_mut().for_each(|t| {
            t.truncate(t.trim_end_matches('\n').len());
            let fill = n - 1 - t.len().min(n - 1);
            *t += &" ".repeat(fill);
            t.push('\n');
        });
    }
    for (i, (file, text)) in c.files.iter().zip(&texts).enumerate() {
        std::fs::write(&f.0, text).expect("scratch file");
        let svm = Svm::parse(text);
        let Answer::Scored(r) = Mgr::fullband(f.path(), c.pair.radius).score(&x, c.pair.sr, &y, c.pair.sr) else { return Ok(Info::new(false)) };
        let want = expected_mos(&r, Mode::Fullband, false, &svm);
        if (r.mos - want).abs() > file.tolerance() {
            return Err(format!("MOS {} with model {i} of one name, it gives {want}", r.mos));
        }
        distinct.insert((want * 100.0) as i64);
    }
    Ok(Info::new(distinct.len() > 1))
}

pub fn run(c: Ctx) -> i32 {
    const RULE: &str = "random pair, mode, mapping; MOS recomputed from the result's own similarities; non-trivial: scored";
    c.facet("pairs", RULE, 1000, 30000, || (pair(3), any::<bool>()).prop_map(|(pair, unscaled)| Case { pair, unscaled }), check);
    c.facet("low", RULE, 900, 20000, || (low_pair(), any::<bool>()).prop_map(|(pair, unscaled)| Case { pair, unscaled }), check);
    c.facet(
        "models",
        "generated regression model file with a random pair; non-trivial: prediction strictly inside 1..5",
        500,
        15000,
        || (pair_of(Mode::Fullband, 2, prop::collection::vec(deg(), 0..3).boxed()), file()).prop_map(|(pair, file)| ModelCase { pair, file }),
        check_model,
    );
    c.facet(
        "swapped",
        "2..4 generated model files written over each other under one name, partly of one size, each used in turn; non-trivial: they give different scores",
        100,
        3000,
        || {
            (pair_of(Mode::Fullband, 1, prop::collection::vec(deg(), 0..3).boxed()), prop::collection::vec(file(), 2..5), any::<bool>())
                .prop_map(|(pair, files, padded)| Swapped { pair, files, padded })
        },
        swapped,
    );
    #[cfg(visqol_verif = "mapping")]
    hooks(&c);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "mapping")]
fn hooks(c: &Ctx) {
    use visqol_rs::verif_hooks::mapping;
    let vector = || {
        (0.0..1.02f64, prop::collection::vec(-0.3..0.3f64, 32), prop_oneof![Just(0.0), 0.0..1.0f64])
            .prop_map(|(m, v, s)| v.into_iter().map(|d| m + s * d).collect::<Vec<f64>>())
    };
    c.facet(
        "speech_mapper",
        "random similarity vector of 1..32 bands and both mappings; non-trivial: score strictly inside 1..5",
        200_000,
        2_000_000,
        || (vector(), 1usize..33, any::<bool>()).prop_map(|(v, n, s)| (v[..n].to_vec(), s)),
        |(v, scaled): &(Vec<f64>, bool)| {
            let got = mapping::speech(v, *scaled);
            let want = model::speech_mos(v.iter().sum::<f64>() / v.len() as f64, !scaled);
            if !close(got, want, 1e-9) {
                return Err(format!("MOS {got}, expected {want}"));
            }
            Ok(Info::new(want > 1.0 && want < 5.0))
        },
    );
    c.facet(
        "svr_mapper",
        "1..20 random similarity vectors for one loaded model; non-trivial: a prediction strictly inside 1..5",
        20_000,
        30_000,
        || prop::collection::vec(vector(), 1..20),
        |vs: &Vec<Vec<f64>>| {
            let got = mapping::svr(crate::sut::MODEL, vs);
            let want: Vec<f64> = vs.iter().map(|v| default_svm().mos(v)).collect();
            all_close("MOS", &got, &want, 2e-5)?;
            Ok(Info::new(want.iter().any(|w| *w > 1.0 && *w < 5.0)))
        },
    );
}
