//! A signal compared with itself is perfect, and nothing exceeds that.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer, Mgr, TempFile};
use crate::wav;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    unscaled: bool,
    /// Through files of so many channels instead of in memory.
    channels: u16,
    /// Factor on the samples in memory.
    scale: f64,
}

fn perfect(r: &sut::Res, mode: Mode, unscaled: bool) -> Result<(), String> {
    for (k, p) in r.patches.iter().enumerate() {
        if p.unmatched() || !close(p.similarity, 1.0, 1e-9) || p.means.iter().any(|m| !close(*m, 1.0, 1e-9)) {
            return Err(format!("patch {k} of a signal and itself: similarity {}", p.similarity));
        }
    }
    if !close(r.vnsim, 1.0, 1e-9) || r.fvnsim.iter().any(|m| !close(*m, 1.0, 1e-9)) {
        return Err(format!("vnsim {} for identical signals", r.vnsim));
    }
    if r.fstdnsim.iter().any(|s| s.abs() > 1e-6) {
        return Err("similarities of identical signals deviate".into());
    }
    let want = match mode {
        Mode::Wideband => if unscaled { 4.155_761_3 } else { 5.0 },
        Mode::Fullband => default_svm().mos(&[1.0; 32]),
    };
    if (r.mos - want).abs() > 1e-4 {
        return Err(format!("MOS {} for identical signals, the best is {want}", r.mos));
    }
    Ok(())
}

fn identity(c: &Case) -> Outcome {
    let p = &c.pair;
    let mut x = p.sig.samples(p.sr);
    if c.channels == 0 {
        x.iter_mut().for_each(|v| *v *= c.scale);
    }
    let mut m = Mgr::new(p.mode, c.unscaled, p.radius);
    let a = if c.channels == 0 {
        m.score(&x, p.sr, &x, p.sr)
    } else {
        let s: Vec<i16> = wav::to_i16(&x).iter().flat_map(|v| (0..c.channels).map(move |k| if k % 2 == 0 { *v } else { v / 2 })).collect();
        let f = TempFile::with("wav", &wav::pcm16(p.sr, c.channels, &s));
        m.run(f.path(), f.path())
    };
    match a {
        Answer::Scored(r) => {
            perfect(&r, p.mode, c.unscaled)?;
            // Noise throughout makes every stretch different from all others.
            let silent = x.chunks((p.sr / 50) as usize).any(|b| b.iter().all(|v| *v == 0.0));
            let own = p.sig.bed >= 0.02 && !silent && (c.channels > 0 || c.scale > 0.1);
            if own {
                for (k, q) in r.patches.iter().enumerate() {
                    if !close(q.deg_start, q.ref_start, 1e-9) || !close(q.deg_end, q.ref_end, 1e-9) {
                        return Err(format!("patch {k} from {} to {} s is matched from {} to {} s", q.ref_start, q.ref_end, q.deg_start, q.deg_end));
                    }
                }
            }
            Ok(Info::new(x.iter().any(|v| *v != 0.0))
                .label(format!("{:?}", p.mode))
                .when(c.channels > 0, "through files")
                .when(own, "spans compared")
                .when(r.patches.len() > 5, "more than 5 patches")
                .when(x.iter().all(|v| *v == 0.0), "all silent"))
        }
        Answer::Refused(_) if model::num_frames(x.len(), p.sr) < min_frames(p.mode) => Ok(Info::new(false).label("refused")),
        a => Err(a.brief()),
    }
}

/// Nothing beats the identity.
fn ceiling(p: &Pair) -> Outcome {
    let Answer::Scored(r) = p.score() else { return Ok(Info::new(false)) };
    // Rounding can take a flat neighbourhood a little above one.
    for (k, q) in r.patches.iter().enumerate() {
        if let Some(m) = q.means.iter().find(|m| **m > 1.0 + 1e-6) {
            return Err(format!("patch {k}: band similarity {m} above one"));
        }
    }
    if r.vnsim > 1.0 + 1e-6 {
        return Err(format!("vnsim {} above one", r.vnsim));
    }
    Ok(Info::new(r.vnsim > 0.5 && r.vnsim < 1.0).when(r.vnsim > 0.95, "nearly perfect"))
}

pub fn run(c: Ctx) -> i32 {
    let cases = |p: BoxedStrategy<Pair>| {
        let scale = prop_oneof![3 => Just(1.0), 1 => (-6.0..5.0f64).prop_map(|e| 10f64.powf(e)), 1 => Just(32768.0)];
        (p, any::<bool>(), prop_oneof![3 => Just(0u16), 1 => Just(1), 1 => Just(2), 1 => 3u16..7], scale)
            .prop_map(|(pair, unscaled, channels, scale)| Case { pair, unscaled, channels, scale })
    };
    const RULE: &str = "a random signal against itself, in memory or through a wav file, both modes and mappings; non-trivial: scored and not all silent";
    c.facet("signals", RULE, 700, 25000, || cases(pair_with(5, Just(vec![]).boxed()).boxed()), identity);
    c.facet("wild", RULE, 500, 20000, || cases(wild_pair(5).boxed()), identity);
    c.facet("long", RULE, 48, 800, || cases(long_pair().boxed()), identity);
    c.facet("ceiling", "random pair; non-trivial: vnsim strictly between 0.5 and 1", 700, 20000, || pair(3), ceiling);
    c.facet(
        "nearly",
        "a barely changed signal; non-trivial: vnsim strictly between 0.5 and 1",
        300,
        10000,
        || pair_with(2, (1e-5..0.02, any::<u32>()).prop_map(|(rel, seed)| vec![Deg::Noise { rel, seed }]).boxed()),
        ceiling,
    );
    c.finish("exploration", super::BASE)
}
