//! Spectrograms are compared on a common decibel scale with a limited range.

use crate::gen::*;
use crate::pair::*;
use crate::run::*;
use proptest::prelude::*;

pub fn run(c: Ctx) -> i32 {
    #[cfg(visqol_verif = "spectro")]
    hooks(&c);
    let drop = || (0.0..0.9f64, 0.02..0.5f64).prop_map(|(at, len)| Deg::Drop { at, len });
    c.facet(
        "dropouts",
        "random pairs whose degraded signal has silent stretches, conformance with the model; non-trivial: compared",
        500,
        7000,
        move || (pair(3), prop::collection::vec(drop(), 1..4)).prop_map(|(mut p, d)| {
            p.deg = d;
            p
        }),
        conform,
    );
    c.facet(
        "contrasts",
        "random pairs of loud events over a bed between 1e-6 and 0.1, conformance with the model; non-trivial: compared",
        500,
        7000,
        || (pair(3), -6.0..-1.0f64).prop_map(|(mut p, e)| {
            p.sig.bed = 10f64.powf(e);
            p
        }),
        conform,
    );
    c.facet(
        "long",
        "as dropouts, with 10..40 patches",
        20,
        500,
        move || (long_pair(), drop()).prop_map(|(mut p, d)| {
            p.deg.push(d);
            p
        }),
        conform,
    );
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "spectro")]
fn hooks(c: &Ctx) {
    use crate::model;
    use serde::{Deserialize, Serialize};
    use visqol_rs::verif_hooks::spectro;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Two {
        bands: usize,
        frames: (usize, usize),
        /// Decades that values span, and the loudest.
        span: f64,
        top: f64,
        zeros: f64,
        seed: u32,
        /// Louder by this many decades: one of the two.
        apart: f64,
    }
    impl Two {
        fn build(&self) -> (model::Mat, model::Mat) {
            let mut g = Lcg::new(self.seed as u64);
            let mut one = |n: usize, top: f64| -> model::Mat {
                let per_frame: Vec<f64> = (0..n).map(|_| top - 2.0 * g.unit().powi(3) * self.span).collect();
                (0..self.bands)
                    .map(|_| (0..n).map(|f| if g.unit() < self.zeros { 0.0 } else { 10f64.powf(per_frame[f] - g.unit() * self.span) }).collect())
                    .collect()
            };
            let a = one(self.frames.0, self.top);
            (a, one(self.frames.1, self.top + self.apart))
        }
    }
    fn prepared(t: &Two) -> Outcome {
        let (mut a, mut b) = t.build();
        let (x, y) = spectro::prepare(&a, &b);
        model::prepare(&mut a, &mut b);
        for (n, g, w) in [("reference", x, a), ("degraded", y, b)] {
            if g.len() != w.len() {
                return Err(format!("{n}: {} bands, expected {}", g.len(), w.len()));
            }
            for (k, (p, q)) in g.iter().zip(&w).enumerate() {
                all_close(&format!("{n} band {k} frame"), p, q, 1e-9)?;
            }
        }
        Ok(Info::new(t.bands > 1 && t.frames.0 > 1)
            .when(t.frames.0 > t.frames.1, "longer reference")
            .when(t.frames.0 < t.frames.1, "longer degraded")
            .when(t.zeros > 0.0, "with zeros"))
    }
    c.facet(
        "preparation",
        "two random matrices of 1..32 bands and 1..60 frames, spanning up to 12 decades, with zeros; all values against the model; non-trivial: more than one band and frame",
        200_000,
        2_000_000,
        || {
            (1usize..33, 1usize..60, 1usize..60, any::<bool>(), 0.0..6.0f64, -7.0..1.0f64, prop_oneof![2 => Just(0.0), 1 => 0.0..0.5f64, 1 => Just(1.0)], any::<u32>(), -3.0..3.0f64).prop_map(
                |(bands, a, b, same, span, top, zeros, seed, apart)| Two { bands, frames: (a, if same { a } else { b }), span, top, zeros, seed, apart },
            )
        },
        prepared,
    );
    c.facet(
        "preparation_long",
        "as preparation, with 60..3000 frames",
        800,
        20_000,
        || {
            (1usize..33, 60usize..3000, 60usize..3000, any::<bool>(), 0.0..6.0f64, -7.0..1.0f64, prop_oneof![2 => Just(0.0), 1 => 0.0..0.5f64, 1 => Just(1.0)], any::<u32>(), -3.0..3.0f64).prop_map(
                |(bands, a, b, same, span, top, zeros, seed, apart)| Two { bands, frames: (a, if same { a } else { b }), span, top, zeros, seed, apart },
            )
        },
        prepared,
    );
}
