//! Patch similarity is NSIM.

use crate::gen::*;
use crate::pair::*;
use crate::run::*;
use proptest::prelude::*;

pub fn run(c: Ctx) -> i32 {
    #[cfg(visqol_verif = "nsim")]
    hooks(&c);
    c.facet("pairs", "random pairs, conformance of every patch's band values with the model; non-trivial: compared", 500, 9000, || pair(3), conform);
    c.facet("wild", "as pairs, with silence, clicks and unrelated signals", 300, 6000, || wild_pair(2), conform);
    c.facet("long", "as pairs, with 10..40 patches", 20, 500, long_pair, conform);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "nsim")]
fn hooks(c: &Ctx) {
    use crate::model;
    use serde::{Deserialize, Serialize};
    use visqol_rs::verif_hooks::nsim;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Two {
        bands: usize,
        frames: usize,
        scale: f64,
        /// 0 unrelated, 1 noisy copy, 2 copy, 3 inverted, 4 louder copy, 5 flat
        how: u8,
        noise: f64,
        /// Share of cells that are zero in both.
        zeros: f64,
        seed: u32,
        swap: bool,
    }
    impl Two {
        fn build(&self) -> (model::Mat, model::Mat) {
            let mut g = Lcg::new(self.seed as u64);
            let a: model::Mat = (0..self.bands)
                .map(|_| (0..self.frames).map(|_| if g.unit() < self.zeros { 0.0 } else { self.scale * g.unit() }).collect())
                .collect();
            let b: model::Mat = a
                .iter()
                .map(|row| {
                    row.iter()
                        .map(|v| match self.how {
                            0 => self.scale * g.unit(),
                            1 => (v + self.noise * self.scale * g.sym()).max(0.0),
                            2 => *v,
                            3 => self.scale - v,
                            4 => v * (1.0 + self.noise),
                            _ => self.noise * self.scale,
                        })
                        .collect()
                })
                .collect();
            if self.swap { (b, a) } else { (a, b) }
        }
    }
    c.facet(
        "measure",
        "two matrices of 1..32 bands and 2..60 frames, unrelated, copies, noisy, inverted, scaled or flat, with zeros; means, deviations, energies and similarity against the definition; non-trivial: sign of a local variance not left to rounding",
        200_000,
        3_000_000,
        || {
            (
                prop_oneof![1 => 1usize..4, 2 => 1usize..33, 1 => Just(21usize), 1 => Just(32usize)],
                prop_oneof![1 => 2usize..60, 1 => Just(20usize), 1 => Just(30usize)],
                prop_oneof![3 => Just(45.0), 1 => 0.01..100.0f64],
                0u8..6,
                0.0..1.0f64,
                prop_oneof![2 => Just(0.0), 1 => 0.0..1.0f64],
                any::<u32>(),
                any::<bool>(),
            )
                .prop_map(|(bands, frames, scale, how, noise, zeros, seed, swap)| Two { bands, frames, scale, how, noise, zeros, seed, swap })
        },
        |t: &Two| {
            let (a, b) = t.build();
            let (means, stds, energy, sim) = nsim::measure(&a, &b);
            let w = model::nsim(&a, &b);
            all_close("energy", &energy, &w.energy, 1e-9)?;
            if !close(sim, means.iter().sum::<f64>() / t.bands as f64, 1e-9) {
                return Err(format!("similarity {sim} is not the mean of its bands"));
            }
            let (_, touchy) = model::nsim_map(&a, &b);
            if touchy {
                return Ok(Info::new(false).label("rounding decides"));
            }
            all_close("mean", &means, &w.means, 1e-7)?;
            all_close("deviation", &stds, &w.stds, 1e-5)?;
            if !close(sim, w.similarity, 1e-7) {
                return Err(format!("similarity {sim}, expected {}", w.similarity));
            }
            Ok(Info::new(true).label(["unrelated", "noisy copy", "copy", "inverted", "scaled", "flat"][t.how as usize]))
        },
    );
}
