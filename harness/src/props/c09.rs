//! The spectrogram is the gammatone filterbank's energy per band and frame.

use crate::gen::*;
use crate::pair::*;
use crate::run::*;
use proptest::prelude::*;

pub fn run(c: Ctx) -> i32 {
    #[cfg(visqol_verif = "spectro")]
    hooks(&c);
    // One band excited at a time shows where its energy goes.
    let tone = || (60.0..3900.0f64, 0.01..0.9f64, any::<u32>()).prop_map(|(hz, amp, seed)| Part { kind: Kind::Tone { hz }, at: 0.0, len: 1.0, amp, seed });
    c.facet(
        "tones",
        "pairs of mixtures of up to three tones over a faint bed, conformance of all band values and centre frequencies with the model; non-trivial: compared",
        500,
        9000,
        move || {
            (pair_with(2, Just(vec![]).boxed()), prop::collection::vec(tone(), 1..4), 1e-4..0.01f64, prop::collection::vec(deg(), 0..2)).prop_map(
                |(mut p, parts, bed, deg)| {
                    p.sig.parts = parts;
                    p.sig.bed = bed;
                    p.deg = deg;
                    p
                },
            )
        },
        conform,
    );
    c.facet(
        "pairs",
        "random pairs at every usual sample rate, conformance with the model; non-trivial: compared",
        500,
        7000,
        || {
            (prop::sample::select(vec![8000u32, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 8000, 16000, 48000, 64000, 96000]), modes(), prop::collection::vec(deg(), 0..2))
                .prop_flat_map(|(sr, mode, deg)| {
                    let lo = crate::model::samples_for_frames(min_frames(mode), sr);
                    (sig(lo..=lo + sr as usize / 5), 0usize..3).prop_map(move |(sig, radius)| Pair { mode, sr, radius, sig, deg: deg.clone(), other: None })
                })
        },
        conform,
    );
    c.facet("long", "as pairs, with 10..40 patches", 20, 500, long_pair, conform);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "spectro")]
fn hooks(c: &Ctx) {
    use crate::model;
    use serde::{Deserialize, Serialize};
    use visqol_rs::verif_hooks::spectro;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Build {
        speech: bool,
        signals: Vec<(Sig, u32)>,
    }
    let signal = || {
        (prop_oneof![4 => Just(8000u32), 2 => Just(16000), 1 => prop::sample::select(vec![11025u32, 22050, 32000, 44100, 48000, 64000, 88200, 96000, 192_000]), 1 => 2000u32..200_000], 0usize..20, 0.0..1.0f64)
            .prop_flat_map(|(sr, frames, rest)| {
                let hop = model::hop_size(sr);
                let n = if frames == 0 {
                    (rest * (model::window_size(sr) + 2) as f64) as usize
                } else {
                    model::samples_for_frames(frames, sr) + (rest * hop as f64) as usize
                };
                (prop_oneof![2 => sig(n..=n).boxed(), 1 => wild_sig(n..=n).boxed()], Just(sr))
            })
    };
    c.facet(
        "builder",
        "1..4 signals of 0..20 frames at mixed rates through one builder of 21 or 32 bands, each against the model; non-trivial: a spectrogram with sound was compared",
        5000,
        20_000,
        move || (any::<bool>(), prop::collection::vec(signal(), 1..5)).prop_map(|(speech, signals)| Build { speech, signals }),
        |b: &Build| {
            let audio: Vec<(Vec<f64>, u32)> = b.signals.iter().map(|(s, sr)| (s.samples(*sr), *sr)).collect();
            let input: Vec<(&[f64], u32)> = audio.iter().map(|(x, sr)| (x.as_slice(), *sr)).collect();
            let got = if b.speech { spectro::build::<21>(&input) } else { spectro::build::<32>(&input) };
            let mut sound = false;
            for (i, ((x, sr), g)) in audio.iter().zip(got).enumerate() {
                let mode = if b.speech { model::Mode::Wideband } else { model::Mode::Fullband };
                let want = model::spectrogram(x, *sr, mode.bands(), mode.max_freq(*sr));
                match (g, want) {
                    (Err(_), None) => {}
                    (Ok((m, f)), Some(w)) => {
                        all_close(&format!("signal {i}: centre frequency"), &f, &model::center_freqs(mode.bands(), 50.0, mode.max_freq(*sr)), 1e-9)?;
                        if m.len() != w.len() {
                            return Err(format!("signal {i}: {} bands, expected {}", m.len(), w.len()));
                        }
                        let peak = w.iter().flatten().fold(0.0f64, |a, b| a.max(*b));
                        for (band, (a, e)) in m.iter().zip(&w).enumerate() {
                            if a.len() != e.len() {
                                return Err(format!("signal {i}: {} frames, expected {}", a.len(), e.len()));
                            }
                            for (f, (p, q)) in a.iter().zip(e).enumerate() {
                                if !((p - q).abs() <= 1e-7 * q + 1e-11 * peak) {
                                    return Err(format!("signal {i}: band {band} frame {f} is {p}, expected {q}"));
                                }
                            }
                        }
                        sound |= peak > 0.0;
                    }
                    (Ok(_), None) => return Err(format!("signal {i}: a spectrogram of {} samples", x.len())),
                    (Err(e), Some(_)) => return Err(format!("signal {i}: refused {} samples: {e}", x.len())),
                }
            }
            Ok(Info::new(sound).when(b.signals.len() > 1, "several signals").when(b.speech, "21 bands"))
        },
    );
}
