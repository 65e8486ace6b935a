//! The whole comparison agrees with an independent implementation of ViSQOL.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::*;
use crate::real;
use crate::run::*;
use crate::sut::{self, Answer, Mgr};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crop {
    mode: Mode,
    pair: usize,
    from: f64,
    len: f64,
    radius: usize,
    deg: Vec<Deg>,
}

fn full(p: &Pair) -> Outcome {
    judge(p, |r, m, _, _| whole(r, m, p.mode)).map(|i| i.label(format!("{:?}", p.mode)))
}

fn whole(r: &sut::Res, m: &model::Scored, mode: Mode) -> Outcome {
    let i = compare(r, m)?;
    mos_ok(r, mode, false, default_svm())?;
    Ok(i)
}

/// Values that the original implementation publishes or that its tests hold.
fn published(c: &(String, String, bool, bool, f64, f64)) -> Outcome {
    let (r, d, wide, unscaled, want, tol) = c;
    let mode = if *wide { Mode::Wideband } else { Mode::Fullband };
    match Mgr::new(mode, *unscaled, 60).run(&real::path(r), &real::path(d)) {
        Answer::Scored(s) if (s.mos - want).abs() <= *tol => Ok(Info::new(true)),
        a => Err(format!("{}, expected MOS {want}", a.brief())),
    }
}

pub fn run(c: Ctx) -> i32 {
    const RULE: &str = "every number in the result against the model; non-trivial: no decision was left to rounding";
    let s = |a: &str| a.to_string();
    let ca = "clean_speech/CA01_01.wav";
    let tr = "clean_speech/transcoded_CA01_01.wav";
    let gu = "conformance_testdata_subset/guitar48_stereo.wav";
    let ga = "conformance_testdata_subset/guitar48_stereo_64kbps_aac.wav";
    c.each(
        "published",
        "the scores that the original implementation's tests hold for the recordings; non-trivial: every case",
        vec![
            (s(ca), s(tr), false, false, 2.00039, 0.001),
            (s(gu), s(ga), false, false, 4.512_324_438_095_877, 1e-5),
            (s(ca), s(ca), true, true, 4.155_761_301_469_1, 1e-6),
            (s(ca), s(ca), true, false, 5.0, 0.001),
        ],
        published,
    );
    c.facet("pairs", &format!("random pairs; {RULE}"), 450, 9000, || pair(3), full);
    c.facet("wild", &format!("silence, clicks and unrelated signals; {RULE}"), 250, 5000, || wild_pair(3), full);
    c.facet("opposed", &format!("spectra opposed in some stretches; {RULE}"), 150, 5000, || opposed_pair(4), full);
    c.facet("ends", &format!("degraded signals that end early; {RULE}"), 150, 4000, || ending_pair(3), full);
    c.facet("long", &format!("10..40 patches; {RULE}"), 24, 500, long_pair, full);
    c.facet("minutes", &format!("one to four minutes at 8 kHz; {RULE}"), 6, 120, minutes, full);
    c.facet(
        "rates",
        &format!("short pairs at 2000..100000 Hz; {RULE}"),
        80,
        2000,
        || {
            (prop_oneof![1 => prop::sample::select(vec![22050u32, 24000, 32000, 44100, 48000, 64000, 88200, 96000]), 2 => 2000u32..50_000, 1 => 50_000u32..100_000], modes(), prop::collection::vec(deg(), 0..3))
                .prop_flat_map(|(sr, mode, deg)| {
                    let lo = model::samples_for_frames(min_frames(mode), sr);
                    (sig(lo..=lo + sr as usize / 3), 0usize..3).prop_map(move |(sig, radius)| Pair { mode, sr, radius, sig, deg: deg.clone(), other: None })
                })
        },
        full,
    );
    c.facet(
        "recordings",
        &format!("random excerpts of the repository's recordings, some degraded further; {RULE}"),
        40,
        1000,
        || {
            (modes(), 0usize..9, 0.0..0.95f64, 0.95..2.2f64, radius(), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(deg(), 1..2)])
                .prop_map(|(mode, pair, from, len, radius, deg)| Crop { mode, pair, from, len, radius, deg })
        },
        |k: &Crop| {
            let (r, d, sr) = real::crop(k.pair, k.from, k.len);
            let d = degrade(&d, &k.deg);
            match (model::score(&r, &d, sr, k.mode, k.radius), sut::score(&r, &d, sr, k.mode, k.radius)) {
                (Ok(m), Answer::Scored(s)) => whole(&s, &m, k.mode),
                (Err(_), Answer::Refused(_)) => Ok(Info::new(false).label("refused")),
                (_, a) => Err(a.brief()),
            }
        },
    );
    c.finish("exploration", super::BASE)
}
