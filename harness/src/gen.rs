//! Generated test signals. A case is a small serialisable description; all
//! samples follow from it deterministically (noise comes from seeds that are
//! themselves part of the case), so a case shrinks and replays as one value.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub struct Lcg(u64);
impl Lcg {
    pub fn new(seed: u64) -> Self {
        Lcg(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Uniform in [-1, 1).
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Noise,
    Tone { hz: f64 },
    Chirp { hz: f64, to: f64 },
    /// Noise and harmonics in syllable-like bursts.
    Speech { hz: f64, rate: f64 },
    Clicks { every: u32 },
    Square { hz: f64 },
    /// Dull and bright noise by turns: slot k (of `slot` seconds) is bright if
    /// bit k of `bits` is set.
    Split { slot: f64, bits: u32 },
    Silence,
    /// The amplitude itself, negative if `down`.
    Constant { down: bool },
    /// One sample.
    Spike { down: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub kind: Kind,
    /// Start and length as fractions of the signal.
    pub at: f64,
    pub len: f64,
    pub amp: f64,
    pub seed: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sig {
    pub n: usize,
    /// Amplitude of noise under the whole signal (0 = none).
    pub bed: f64,
    pub seed: u32,
    pub parts: Vec<Part>,
    /// Round to 16-bit steps.
    pub quantised: bool,
}

fn quant(v: f64) -> f64 {
    ((v * 32767.0).round().clamp(-32768.0, 32767.0)) / 32767.0
}

impl Sig {
    pub fn samples(&self, sr: u32) -> Vec<f64> {
        let mut g = Lcg::new(self.seed as u64);
        let mut x: Vec<f64> = (0..self.n).map(|_| self.bed * g.sym()).collect();
        for p in &self.parts {
            let a = ((p.at * self.n as f64) as usize).min(self.n);
            let b = (a + (p.len * self.n as f64) as usize).min(self.n);
            let mut g = Lcg::new(p.seed as u64 + 77);
            let t = |i: usize| (i - a) as f64 / sr as f64;
            match &p.kind {
                Kind::Silence => x[a..b].fill(0.0),
                Kind::Constant { down } => x[a..b].iter_mut().for_each(|v| *v += if *down { -p.amp } else { p.amp }),
                Kind::Spike { down } => {
                    if a < b {
                        x[a] = if *down { -p.amp } else { p.amp };
                    }
                }
                Kind::Noise => {
                    for v in &mut x[a..b] {
                        *v += p.amp * g.sym();
                    }
                }
                Kind::Tone { hz } => {
                    for i in a..b {
                        x[i] += p.amp * (2.0 * PI * hz * t(i)).sin();
                    }
                }
                Kind::Square { hz } => {
                    for i in a..b {
                        x[i] += p.amp * (2.0 * PI * hz * t(i)).sin().signum();
                    }
                }
                Kind::Chirp { hz, to } => {
                    let d = ((b - a).max(1)) as f64 / sr as f64;
                    for i in a..b {
                        let s = t(i);
                        x[i] += p.amp * (2.0 * PI * (hz * s + (to - hz) * s * s / (2.0 * d))).sin();
                    }
                }
                Kind::Clicks { every } => {
                    for i in (a..b).step_by((*every).max(1) as usize) {
                        x[i] += p.amp * g.sym();
                    }
                }
                Kind::Split { slot, bits } => {
                    let (mut l, mut l2, mut h, mut last) = (0.0, 0.0, 0.0, 0.0);
                    let k = 1.0 - (-2.0 * PI * 300.0 / sr as f64).exp();
                    for i in a..b {
                        let w = g.sym();
                        l += k * (w - l);
                        l2 += k * (l - l2);
                        let d = w - last;
                        last = w;
                        h = d - h * 0.5;
                        let bright = bits >> ((t(i) / slot) as u32 % 32) & 1 == 1;
                        x[i] += p.amp * if bright { 0.5 * h } else { 3.0 * l2 };
                    }
                }
                Kind::Speech { hz, rate } => {
                    let mut syl = -1i64;
                    let (mut loud, mut pitch, mut tilt) = (0.0, 0.0, 1.0);
                    for i in a..b {
                        let s = t(i);
                        let k = (s * rate) as i64;
                        if k != syl {
                            syl = k;
                            loud = 0.2 + 0.8 * g.unit();
                            pitch = hz * (0.7 + 0.6 * g.unit());
                            tilt = 0.3 + 2.0 * g.unit();
                        }
                        let env = (PI * (s * rate).fract()).sin().powi(2) * loud;
                        let mut v = 0.3 * g.sym();
                        for h in 1..6 {
                            v += (2.0 * PI * pitch * h as f64 * s).sin() / (h as f64).powf(tilt);
                        }
                        x[i] += p.amp * 0.4 * env * v;
                    }
                }
            }
        }
        for v in &mut x {
            *v = v.clamp(-1.0, 1.0);
        }
        if self.quantised {
            for v in &mut x {
                *v = quant(*v);
            }
        }
        x
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Deg {
    Gain(f64),
    /// Additive noise, amplitude relative to the signal's RMS.
    Noise { rel: f64, seed: u32 },
    /// One-pole low-pass.
    Lowpass(f64),
    Clip(f64),
    /// A span set to zero (fractions).
    Drop { at: f64, len: f64 },
    /// Samples inserted in front.
    Delay(u32),
    /// Samples removed from the front.
    Advance(u32),
    /// Samples removed / inserted in the middle.
    Cut { at: f64, n: u32 },
    Stuff { at: f64, n: u32 },
    Bits(u32),
    /// Removes a fraction of the end.
    Truncate(f64),
    /// Adds noise at the end.
    Extend { n: u32, amp: f64, seed: u32 },
    Flip,
    Offset(f64),
    Echo { d: u32, g: f64 },
    /// Single samples replaced.
    Crackle { every: u32, amp: f64, seed: u32 },
    /// A span (fractions) plays early or late by some samples; what it leaves
    /// uncovered is silent.
    Slip { at: f64, len: f64, by: i32 },
}

pub fn degrade(x: &[f64], steps: &[Deg]) -> Vec<f64> {
    let mut x = x.to_vec();
    for s in steps {
        let n = x.len();
        if n == 0 {
            return x;
        }
        match s {
            Deg::Gain(g) => x.iter_mut().for_each(|v| *v *= g),
            Deg::Noise { rel, seed } => {
                let a = rel * crate::model::rms(&x) * 3f64.sqrt();
                let mut g = Lcg::new(*seed as u64 + 13);
                x.iter_mut().for_each(|v| *v += a * g.sym());
            }
            Deg::Lowpass(k) => {
                let mut y = 0.0;
                x.iter_mut().for_each(|v| {
                    y += k * (*v - y);
                    *v = y;
                });
            }
            Deg::Clip(l) => x.iter_mut().for_each(|v| *v = v.clamp(-l, *l)),
            Deg::Drop { at, len } => {
                let a = (at * n as f64) as usize;
                let b = (a + (len * n as f64) as usize).min(n);
                x[a..b].fill(0.0);
            }
            Deg::Delay(k) => {
                let mut v = vec![0.0; *k as usize];
                v.append(&mut x);
                x = v;
            }
            Deg::Advance(k) => {
                x.drain(..(*k as usize).min(n / 2));
            }
            Deg::Cut { at, n: k } => {
                let a = (at * n as f64) as usize;
                let b = (a + *k as usize).min(n);
                x.drain(a..b);
            }
            Deg::Stuff { at, n: k } => {
                let a = (at * n as f64) as usize;
                let fill = x[a.min(n - 1)];
                let tail = x.split_off(a);
                x.extend(std::iter::repeat(fill).take(*k as usize));
                x.extend(tail);
            }
            Deg::Bits(b) => {
                let q = (1u64 << b) as f64;
                x.iter_mut().for_each(|v| *v = (*v * q).round() / q);
            }
            Deg::Truncate(f) => x.truncate(((1.0 - f) * n as f64) as usize),
            Deg::Extend { n: k, amp, seed } => {
                let mut g = Lcg::new(*seed as u64 + 5);
                x.extend((0..*k).map(|_| amp * g.sym()));
            }
            Deg::Flip => x.iter_mut().for_each(|v| *v = -*v),
            Deg::Offset(o) => x.iter_mut().for_each(|v| *v += o),
            Deg::Echo { d, g } => {
                for i in (*d as usize..n).rev() {
                    x[i] += g * x[i - *d as usize];
                }
            }
            Deg::Crackle { every, amp, seed } => {
                let mut g = Lcg::new(*seed as u64 + 3);
                let every = (*every).max(1) as u64;
                let mut i = (g.next() % every) as usize;
                while i < n {
                    x[i] = amp * (0.5 + 0.5 * g.unit());
                    i += 1 + (g.next() % (2 * every)) as usize;
                }
            }
            Deg::Slip { at, len, by } => {
                let a = (at * n as f64) as usize;
                let b = (a + (len * n as f64) as usize).min(n);
                let span = x[a..b].to_vec();
                x[a..b].fill(0.0);
                for (i, v) in span.into_iter().enumerate() {
                    let to = (a + i) as i64 + *by as i64;
                    if (0..n as i64).contains(&to) {
                        x[to as usize] = v;
                    }
                }
            }
        }
    }
    x
}

// ------------------------------------------------------------------ strategies

pub fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        4 => (80.0..300.0, 2.0..6.0).prop_map(|(hz, rate)| Kind::Speech { hz, rate }),
        3 => Just(Kind::Noise),
        2 => (60.0..3500.0).prop_map(|hz| Kind::Tone { hz }),
        1 => (60.0..1000.0, 1000.0..3900.0).prop_map(|(hz, to)| Kind::Chirp { hz, to }),
        1 => (50u32..4000).prop_map(|every| Kind::Clicks { every }),
        1 => (60.0..800.0).prop_map(|hz| Kind::Square { hz }),
        1 => Just(Kind::Silence),
    ]
}

pub fn part() -> impl Strategy<Value = Part> {
    (kind(), 0.0..0.9, 0.05..1.0, 0.05..0.9, any::<u32>())
        .prop_map(|(kind, at, len, amp, seed)| Part { kind, at, len, amp, seed })
}

/// A signal that carries sound throughout (so that correlation peaks and
/// patch matches are well determined), with events on top.
pub fn sig(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Sig> {
    (n, 0.002..0.2, any::<u32>(), prop::collection::vec(part(), 1..5), any::<bool>())
        .prop_map(|(n, bed, seed, parts, quantised)| Sig { n, bed, seed, parts, quantised })
}

/// Also constants and faint sounds.
fn wild_part() -> impl Strategy<Value = Part> {
    (
        prop_oneof![5 => kind().boxed(), 1 => any::<bool>().prop_map(|down| Kind::Constant { down }).boxed(),
            1 => any::<bool>().prop_map(|down| Kind::Spike { down }).boxed()],
        prop_oneof![2 => 0.0..0.9, 1 => Just(0.0)],
        prop_oneof![2 => 0.05..1.0, 1 => Just(1.0)],
        prop_oneof![3 => 0.05..0.9f64, 1 => (-5.0..-1.3f64).prop_map(|e| 10f64.powf(e)), 1 => Just(1.0)],
        any::<u32>(),
    )
        .prop_map(|(kind, at, len, amp, seed)| Part { kind, at, len, amp, seed })
}

/// Anything goes: silence, constants, single clicks, no bed.
pub fn wild_sig(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Sig> {
    (
        n,
        prop_oneof![3 => Just(0.0), 1 => Just(1e-4), 2 => 0.001..0.5],
        any::<u32>(),
        prop::collection::vec(wild_part(), 0..4),
        any::<bool>(),
    )
        .prop_map(|(n, bed, seed, parts, quantised)| Sig { n, bed, seed, parts, quantised })
}

pub fn deg() -> impl Strategy<Value = Deg> {
    prop_oneof![
        2 => (0.05..4.0).prop_map(Deg::Gain),
        4 => (0.001..1.5, any::<u32>()).prop_map(|(rel, seed)| Deg::Noise { rel, seed }),
        2 => (0.05..0.9).prop_map(Deg::Lowpass),
        2 => (0.02..0.5).prop_map(Deg::Clip),
        2 => (0.0..0.9, 0.01..0.3).prop_map(|(at, len)| Deg::Drop { at, len }),
        2 => (1u32..4000).prop_map(Deg::Delay),
        2 => (1u32..3000).prop_map(Deg::Advance),
        1 => (0.1..0.9, 1u32..600).prop_map(|(at, n)| Deg::Cut { at, n }),
        1 => (0.1..0.9, 1u32..600).prop_map(|(at, n)| Deg::Stuff { at, n }),
        1 => (3u32..12).prop_map(Deg::Bits),
        1 => (0.01..0.5).prop_map(Deg::Truncate),
        1 => (100u32..8000, 0.0..0.5, any::<u32>()).prop_map(|(n, amp, seed)| Deg::Extend { n, amp, seed }),
        1 => Just(Deg::Flip),
        1 => (-0.2..0.2).prop_map(Deg::Offset),
        1 => (10u32..2000, 0.1..0.7).prop_map(|(d, g)| Deg::Echo { d, g }),
        1 => (100u32..20_000, -1.0..1.0f64, any::<u32>()).prop_map(|(every, amp, seed)| Deg::Crackle { every, amp, seed }),
        1 => (prop_oneof![1 => Just(0.0), 2 => 0.0..0.8f64], 0.05..0.5f64, -3000i32..3000).prop_map(|(at, len, by)| Deg::Slip { at, len, by }),
    ]
}
