//! Results are internally consistent.

use crate::model::Mode;
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn check(p: &Pair) -> Outcome {
    let (x, _) = p.audio();
    match p.score() {
        Answer::Scored(r) => {
            consistent(&r, p.mode, p.sr)?;
            spans_valid(&r, p.mode, p.sr, x.len())?;
            Ok(Info::new(r.patches.len() > 1)
                .label(format!("{:?}", p.mode))
                .when(r.patches.len() > 5, "more than 5 patches")
                .when(r.patches.iter().any(|p| p.unmatched()), "unmatched patch")
                .when(r.vnsim < 0.15, "below the similarity threshold")
                .when(r.mos == 1.0 || r.mos == 5.0, "MOS at a bound"))
        }
        a => Ok(Info::new(false).label(a.brief().split(':').next().unwrap().to_string())),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crop {
    mode: Mode,
    pair: usize,
    from: f64,
    len: f64,
    radius: usize,
}

pub fn run(c: Ctx) -> i32 {
    const RULE: &str = "random signal, degradations, mode, rate and radius; non-trivial: scored with more than one patch";
    c.facet("pairs", RULE, 1200, 40000, || pair(4), check);
    c.facet("wild", RULE, 800, 30000, || wild_pair(4), check);
    c.facet("opposed", RULE, 300, 20000, || opposed_pair(5), check);
    c.facet("long", RULE, 48, 800, long_pair, check);
    c.facet(
        "recordings",
        "random excerpts of the recordings in the repository; non-trivial: scored with more than one patch",
        24,
        400,
        || {
            (modes(), 0usize..9, 0.0..0.95, 0.7..2.5, radius())
                .prop_map(|(mode, pair, from, len, radius)| Crop { mode, pair, from, len, radius })
        },
        |k| {
            let (r, d, sr) = crate::real::crop(k.pair, k.from, k.len);
            match sut::score(&r, &d, sr, k.mode, k.radius) {
                Answer::Scored(res) => {
                    consistent(&res, k.mode, sr)?;
                    spans_valid(&res, k.mode, sr, r.len())?;
                    Ok(Info::new(res.patches.len() > 1))
                }
                a => Ok(Info::new(false).label(a.brief())),
            }
        },
    );
    c.finish("exploration", super::BASE)
}
