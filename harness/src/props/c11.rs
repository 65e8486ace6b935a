//! The reference is cut into the right patches.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer};
use proptest::prelude::*;

/// Bursts of sound between quieter stretches, up to twelve patches.
fn bursty() -> impl Strategy<Value = Pair> {
    let burst = (kind(), 0.0..1.0f64, 0.005..0.3f64, 0.02..0.95f64, any::<u32>())
        .prop_map(|(kind, at, len, amp, seed)| Part { kind, at, len, amp, seed });
    let rate = prop_oneof![8 => Just(8000u32), 2 => Just(16000), 1 => Just(11025), 1 => Just(22050)];
    (modes(), rate, 0usize..240, 0.0..1.0f64, prop_oneof![1 => Just(0.0), 3 => 1e-4..0.3f64], any::<u32>(), prop::collection::vec(burst, 0..8), any::<bool>(), 0usize..3)
        .prop_map(|(mode, sr, extra, rest, bed, seed, parts, quantised, radius)| {
            let n = model::samples_for_frames(min_frames(mode) + extra, sr) + (rest * model::hop_size(sr) as f64) as usize;
            Pair { mode, sr, radius, sig: Sig { n, bed, seed, parts, quantised }, deg: vec![], other: None }
        })
}

/// The patches reported for a signal against itself start where they should.
fn starts(p: &Pair) -> Outcome {
    let x = p.sig.samples(p.sr);
    let r = match sut::score(&x, &x, p.sr, p.mode, p.radius) {
        Answer::Scored(r) => r,
        a => return Err(format!("expected a score: {}", a.brief())),
    };
    let mut m = model::Margins::new();
    let frames = model::num_frames(x.len(), p.sr);
    let idx = match p.mode {
        Mode::Wideband => model::wideband_patches(frames, &x, p.sr, p.mode.patch(), &mut m),
        Mode::Fullband => model::fullband_patches(frames, p.mode.patch()),
    }
    .ok_or("too short")?;
    if m.vad < 1e-9 {
        return Ok(Info::new(false).label("ambiguous: not compared"));
    }
    if r.patches.len() != idx.len() {
        return Err(format!("{} patches of {frames} frames, expected {}", r.patches.len(), idx.len()));
    }
    let fd = model::frame_duration(p.sr);
    let mut moved = 0;
    for (k, (q, i)) in r.patches.iter().zip(&idx).enumerate() {
        let want = *i as f64 * fd;
        // A repeating or silent stretch may match itself elsewhere, and the
        // common part of the two then starts within the patch.
        let same = close(q.deg_start, want, 1e-9);
        if same && !close(q.ref_start, want, 1e-9) || q.ref_start < want - 1e-9 || q.ref_start > want + p.mode.patch() as f64 * fd {
            return Err(format!("patch {k} starts at {} s, expected {want} s", q.ref_start));
        }
        moved += u32::from(!same);
    }
    Ok(Info::new(idx.len() > 1)
        .label(format!("{:?}", p.mode))
        .when(idx.len() > 6, "more than 6 patches")
        .when(p.mode == Mode::Wideband && idx.len() < (frames - 9) / 20, "quiet patches left out")
        .when(moved > 0, "matched elsewhere"))
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "bursts",
        "a signal of bursts and quiet stretches against itself; number and start of the reported patches; non-trivial: more than one patch",
        900,
        16_000,
        bursty,
        starts,
    );
    c.facet(
        "long",
        "bursts and quiet stretches of 12..130 patches against themselves, without a search; number and start of the reported patches; non-trivial: more than one patch",
        60,
        1500,
        || {
            (bursty(), 12usize..130, prop::collection::vec((kind(), 0.0..1.0f64, 0.001..0.1f64, 0.02..0.95f64, any::<u32>()), 4..40)).prop_map(|(mut p, patches, parts)| {
                p.sig.parts.extend(parts.into_iter().map(|(kind, at, len, amp, seed)| Part { kind, at, len, amp, seed }));
                p.sr = 8000;
                p.sig.n = model::samples_for_frames(min_frames(p.mode) + patches * p.mode.patch(), 8000) + p.sig.n % 4800;
                p.radius = 0;
                p
            })
        },
        starts,
    );
    c.facet(
        "degraded",
        "the same signals against degraded versions, conformance with the model; non-trivial: compared",
        160,
        50_000,
        || (bursty(), prop::collection::vec(deg(), 1..3)).prop_map(|(mut p, d)| {
            p.deg = d;
            p
        }),
        conform,
    );
    #[cfg(visqol_verif = "patches")]
    hooks(&c);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "patches")]
fn hooks(c: &Ctx) {
    use serde::{Deserialize, Serialize};
    use visqol_rs::verif_hooks::patches;
    c.each(
        "audio_grid",
        "every number of frames from 1 to 4000 with the patch sizes 20 and 30; non-trivial: at least one patch",
        (1usize..=4000).flat_map(|f| [(f, 20usize), (f, 30)]).collect(),
        |(frames, patch): &(usize, usize)| {
            match (patches::image(*frames, *patch), model::fullband_patches(*frames, *patch)) {
                (Err(_), None) => Ok(Info::new(false)),
                (Ok(g), Some(w)) if g == w => Ok(Info::new(true)),
                (g, w) => Err(format!("{frames} frames: patches {g:?}, expected {w:?}")),
            }
        },
    );

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Vad {
        sr: u32,
        patch: usize,
        frames: usize,
        rest: f64,
        sig: Sig,
    }
    c.facet(
        "speech_activity",
        "random bursts over quiet stretches of up to 400 frames, or of up to 4000; patch starts against the model; non-trivial: some but not all patches kept",
        24_000,
        500_000,
        || {
            (bursty(), Just(20usize), prop_oneof![12 => 20usize..400, 1 => 400usize..4000], 0.0..1.0f64).prop_map(|(p, patch, frames, rest)| {
                let mut sig = p.sig;
                sig.n = model::samples_for_frames(frames, p.sr) + (rest * model::hop_size(p.sr) as f64) as usize;
                Vad { sr: p.sr, patch, frames, rest, sig }
            })
        },
        |v: &Vad| {
            let x = v.sig.samples(v.sr);
            let mut m = model::Margins::new();
            let want = model::wideband_patches(v.frames, &x, v.sr, v.patch, &mut m);
            let got = patches::vad(v.frames, &x, v.sr, v.patch);
            if m.vad < 1e-9 {
                return Ok(Info::new(false).label("ambiguous: not compared"));
            }
            match (got, want) {
                (Err(_), None) => Ok(Info::new(false).label("too short")),
                (Ok(g), Some(w)) if g == w => Ok(Info::new(w.len() > 1 && w.len() < (v.frames - 9) / v.patch)),
                (g, w) => Err(format!("patches {g:?}, expected {w:?}")),
            }
        },
    );
    c.facet(
        "cutting",
        "random spectrograms of 1..32 bands, patches of 1..40 frames at valid starts; every value compared; non-trivial: more than one patch",
        3000,
        500_000,
        || (1usize..33, 1usize..41, prop::collection::vec(0.0..1.0f64, 1..8), 1usize..200, any::<u32>()),
        |(bands, patch, starts, extra, seed): &(usize, usize, Vec<f64>, usize, u32)| {
            let mut g = Lcg::new(*seed as u64);
            let frames = patch + extra;
            let m: model::Mat = (0..*bands).map(|_| (0..frames).map(|_| g.unit()).collect()).collect();
            let mut idx: Vec<usize> = starts.iter().map(|s| (s * (*extra + 1) as f64) as usize).collect();
            idx.sort();
            for (who, got) in ["image", "vad"].iter().zip(patches::cut(&m, &idx, *patch)) {
                if got.len() != idx.len() {
                    return Err(format!("{who}: {} patches for {} starts", got.len(), idx.len()));
                }
                for (i, p) in idx.iter().zip(&got) {
                    if *p != model::columns(&m, *i, i + patch) {
                        return Err(format!("{who}: the patch at {i} of {frames} frames is not what the spectrogram has there"));
                    }
                }
            }
            Ok(Info::new(idx.len() > 1))
        },
    );
}
