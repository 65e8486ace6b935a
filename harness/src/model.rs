//! Independent reference model of the ViSQOL v3.1 pipeline (speech/wideband and
//! audio/fullband), written from the algorithm description and not from the
//! code under test: closed forms and textbook definitions where they exist
//! (envelope without a Hilbert transform, direct-form-I filters normalised to
//! unit gain at the centre frequency, plain 3x3 neighbourhood sums, ...).
//!
//! Every discrete decision (correlation peak, patch offset, keep-old-or-new)
//! records how close the runner-up was, so that a caller can tell when rounding
//! alone could legitimately have decided otherwise.

use std::f64::consts::PI;

pub const MIN_FREQ: f64 = 50.0;
pub const SPEECH_BANDS: usize = 21;
pub const AUDIO_BANDS: usize = 32;
pub const SPEECH_PATCH: usize = 20;
pub const AUDIO_PATCH: usize = 30;

/// rows = bands, inner = frames
pub type Mat = Vec<Vec<f64>>;

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    Wideband,
    Fullband,
}

impl Mode {
    pub fn bands(self) -> usize {
        if self == Mode::Wideband { SPEECH_BANDS } else { AUDIO_BANDS }
    }
    pub fn patch(self) -> usize {
        if self == Mode::Wideband { SPEECH_PATCH } else { AUDIO_PATCH }
    }
    pub fn max_freq(self, sr: u32) -> f64 {
        let nyq = sr as f64 / 2.0;
        if self == Mode::Wideband { nyq.min(8000.0) } else { (sr / 2) as f64 }
    }
}

/// Smallest relative margin seen at the discrete decisions of one evaluation.
#[derive(Clone, Debug)]
pub struct Margins {
    pub xcorr: f64,
    pub dp: f64,
    pub fine: f64,
    pub vad: f64,
}
impl Margins {
    pub fn new() -> Self {
        Margins { xcorr: f64::INFINITY, dp: f64::INFINITY, fine: f64::INFINITY, vad: f64::INFINITY }
    }
}

// ------------------------------------------------------------------ windows

pub fn window_size(sr: u32) -> usize {
    (sr as f64 * 0.08).round() as usize
}
pub fn hop_size(sr: u32) -> usize {
    (window_size(sr) as f64 * 0.25) as usize
}
pub fn num_frames(n: usize, sr: u32) -> usize {
    let w = window_size(sr);
    if n < w { 0 } else { 1 + (n - w) / hop_size(sr) }
}
/// Least number of samples that gives `frames` frames.
pub fn samples_for_frames(frames: usize, sr: u32) -> usize {
    window_size(sr) + (frames - 1) * hop_size(sr)
}
pub fn frame_duration(sr: u32) -> f64 {
    hop_size(sr) as f64 / sr as f64
}

// ------------------------------------------------------------------ envelope

pub fn pow2_at_least(n: usize) -> usize {
    let mut p = 1;
    while p < n {
        p *= 2;
    }
    p
}

/// Upper envelope: |2 (x - mean) - 1e-6| + mean, where the bin at the Nyquist
/// frequency of the zero-padded spectrum takes no part.
pub fn envelope(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let mean = x.iter().sum::<f64>() / n as f64;
    let f = pow2_at_least(n).max(32);
    let mut nyq = 0.0;
    if n < f {
        for (i, v) in x.iter().enumerate() {
            let c = v - mean;
            nyq += if i % 2 == 0 { c } else { -c };
        }
        nyq /= f as f64;
    }
    x.iter()
        .enumerate()
        .map(|(i, v)| {
            let c = v - mean - if i % 2 == 0 { nyq } else { -nyq };
            (2.0 * c - 0.000001).abs() + mean
        })
        .collect()
}

// ------------------------------------------------------------------ fft (radix 2)

fn fft(re: &mut [f64], im: &mut [f64], inverse: bool) {
    let n = re.len();
    assert!(n.is_power_of_two());
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let sign = if inverse { 1.0 } else { -1.0 };
    let tw: Vec<(f64, f64)> = (0..n / 2)
        .map(|k| {
            let a = sign * 2.0 * PI * k as f64 / n as f64;
            (a.cos(), a.sin())
        })
        .collect();
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let (wr, wi) = tw[k * step];
                let (a, b) = (s + k, s + k + len / 2);
                let tr = re[b] * wr - im[b] * wi;
                let ti = re[b] * wi + im[b] * wr;
                re[b] = re[a] - tr;
                im[b] = im[a] - ti;
                re[a] += tr;
                im[a] += ti;
            }
        }
        len *= 2;
    }
    if inverse {
        for v in re.iter_mut().chain(im.iter_mut()) {
            *v /= n as f64;
        }
    }
}

/// corr[lag + L - 1] = sum_n a[n + lag] b[n], for lag in -(L-1)..=(L-1), both
/// padded with zeros to the longer length L.
pub fn cross_correlation(a: &[f64], b: &[f64]) -> Vec<f64> {
    let l = a.len().max(b.len());
    let f = pow2_at_least(2 * l);
    let (mut ar, mut ai) = (vec![0.0; f], vec![0.0; f]);
    ar[..a.len()].copy_from_slice(a);
    let (mut br, mut bi) = (vec![0.0; f], vec![0.0; f]);
    br[..b.len()].copy_from_slice(b);
    fft(&mut ar, &mut ai, false);
    fft(&mut br, &mut bi, false);
    for k in 0..f {
        let (xr, xi, yr, yi) = (ar[k], ai[k], br[k], -bi[k]);
        ar[k] = xr * yr - xi * yi;
        ai[k] = xr * yi + xi * yr;
    }
    fft(&mut ar, &mut ai, true);
    let mut out = Vec::with_capacity(2 * l - 1);
    for lag in -(l as i64 - 1)..=(l as i64 - 1) {
        let idx = if lag < 0 { (f as i64 + lag) as usize } else { lag as usize };
        out.push(ar[idx]);
    }
    out
}

/// Lag at which the magnitude of the cross-correlation peaks, and by how much
/// (relative) the peak exceeds every other lag.
pub fn best_lag(a: &[f64], b: &[f64]) -> (i64, f64) {
    let c = cross_correlation(a, b);
    let l = a.len().max(b.len()) as i64;
    let mut bi = 0;
    for (i, v) in c.iter().enumerate() {
        if v.abs() > c[bi].abs() {
            bi = i;
        }
    }
    let peak = c[bi].abs();
    let mut second = 0.0f64;
    for (i, v) in c.iter().enumerate() {
        if i != bi {
            second = second.max(v.abs());
        }
    }
    let margin = if peak > 0.0 { (peak - second) / peak } else { 0.0 };
    (bi as i64 - (l - 1), margin)
}

/// Global alignment: the lag that is applied (0 when it is more than half of
/// the reference) and the degraded signal shifted by it.
pub fn align(r: &[f64], d: &[f64], m: &mut Margins) -> (i64, Vec<f64>) {
    let (lag, margin) = best_lag(&envelope(r), &envelope(d));
    m.xcorr = m.xcorr.min(margin);
    if lag == 0 || lag.unsigned_abs() as usize > r.len() / 2 {
        return (0, d.to_vec());
    }
    (lag, shift(d, lag))
}

pub fn shift(d: &[f64], lag: i64) -> Vec<f64> {
    if lag < 0 {
        d[(-lag) as usize..].to_vec()
    } else {
        let mut v = vec![0.0; lag as usize];
        v.extend_from_slice(d);
        v
    }
}

// ------------------------------------------------------------------ level

pub fn rms(x: &[f64]) -> f64 {
    (x.iter().map(|v| v * v).sum::<f64>() / x.len() as f64).sqrt()
}

/// Degraded signal brought to the reference's sound pressure level. A silent
/// degraded signal cannot be scaled and stays silent.
pub fn match_level(r: &[f64], d: &[f64]) -> Vec<f64> {
    let (rr, rd) = (rms(r), rms(d));
    if rd == 0.0 {
        return d.to_vec();
    }
    let g = rr / rd;
    d.iter().map(|v| v * g).collect()
}

// ------------------------------------------------------------------ gammatone spectrogram

/// ERB-spaced centre frequencies, ascending; the lowest is the minimum frequency.
pub fn center_freqs(bands: usize, low: f64, high: f64) -> Vec<f64> {
    let c = 9.26449 * 24.7;
    let mut v: Vec<f64> = (1..=bands)
        .map(|i| {
            let t = i as f64 / bands as f64;
            // geometric interpolation between (high + c) and (low + c)
            (high + c) * ((low + c) / (high + c)).powf(t) - c
        })
        .collect();
    v.reverse();
    v
}

#[derive(Clone, Copy)]
struct C(f64, f64);
impl C {
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
    fn scale(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
    fn norm(self) -> f64 {
        self.0.hypot(self.1)
    }
}

/// The four second-order sections of one band: zeros (n0, n1, 0) and the shared
/// poles (1, d1, d2), with the overall gain that makes the response at the
/// centre frequency 1.
pub struct Band {
    num: [[f64; 2]; 4],
    den: [f64; 2],
    gain: f64,
}

pub fn band(cf: f64, sr: u32) -> Band {
    let t = 1.0 / sr as f64;
    let erb = cf / 9.26449 + 24.7;
    let b = 1.019 * 2.0 * PI * erb;
    let w = 2.0 * PI * cf * t;
    let decay = (-b * t).exp();
    let den = [-2.0 * w.cos() * decay, decay * decay];
    let k = [(3.0 + 2f64.powf(1.5)).sqrt(), -(3.0 + 2f64.powf(1.5)).sqrt(), (3.0 - 2f64.powf(1.5)).sqrt(), -(3.0 - 2f64.powf(1.5)).sqrt()];
    let mut num = [[0.0; 2]; 4];
    for s in 0..4 {
        num[s] = [t, -t * decay * (w.cos() + k[s] * w.sin())];
    }
    // response of the cascade at the centre frequency
    let z1 = C(w.cos(), -w.sin()); // e^{-jw}
    let z2 = z1.mul(z1);
    let d = C(1.0, 0.0).add(z1.scale(den[0])).add(z2.scale(den[1])).norm();
    let mut g = 1.0;
    for s in 0..4 {
        g *= C(num[s][0], 0.0).add(z1.scale(num[s][1])).norm() / d;
    }
    Band { num, den, gain: g }
}

impl Band {
    /// Filters one frame from rest.
    pub fn filter(&self, x: &[f64]) -> Vec<f64> {
        let mut cur: Vec<f64> = x.iter().map(|v| v / self.gain).collect();
        for s in 0..4 {
            let (mut x1, mut y1, mut y2) = (0.0, 0.0, 0.0);
            for v in cur.iter_mut() {
                let y = self.num[s][0] * *v + self.num[s][1] * x1 - self.den[0] * y1 - self.den[1] * y2;
                x1 = *v;
                y2 = y1;
                y1 = y;
                *v = y;
            }
        }
        cur
    }
}

/// RMS of each band's filter output in each frame. None when shorter than a window.
pub fn spectrogram(x: &[f64], sr: u32, bands: usize, max_freq: f64) -> Option<Mat> {
    let (w, h) = (window_size(sr), hop_size(sr));
    if x.len() < w {
        return None;
    }
    let frames = num_frames(x.len(), sr);
    let mut out = Vec::with_capacity(bands);
    for cf in center_freqs(bands, MIN_FREQ, max_freq) {
        let bd = band(cf, sr);
        let row = (0..frames)
            .map(|f| rms(&bd.filter(&x[f * h..f * h + w])))
            .collect();
        out.push(row);
    }
    Some(out)
}

/// dB, absolute floor, 45 dB below the louder frame peak, common minimum at 0.
pub fn prepare(a: &mut Mat, b: &mut Mat) {
    for m in [&mut *a, &mut *b] {
        for v in m.iter_mut().flatten() {
            let e = if *v == 0.0 { f64::EPSILON } else { v.abs() };
            *v = (10.0 * e.log10()).max(-45.0);
        }
    }
    let common = a[0].len().min(b[0].len());
    for f in 0..common {
        let mut peak = f64::NEG_INFINITY;
        for row in a.iter().chain(b.iter()) {
            peak = peak.max(row[f]);
        }
        for row in a.iter_mut().chain(b.iter_mut()) {
            row[f] = row[f].max(peak - 45.0);
        }
    }
    let low = a.iter().chain(b.iter()).flatten().fold(f64::INFINITY, |m, v| m.min(*v));
    for v in a.iter_mut().chain(b.iter_mut()).flatten() {
        *v -= low;
    }
}

// ------------------------------------------------------------------ NSIM

#[derive(Clone, Debug)]
pub struct Nsim {
    pub means: Vec<f64>,
    pub stds: Vec<f64>,
    pub energy: Vec<f64>,
    pub similarity: f64,
}

const KC: f64 = 0.0113033910173052;
const KE: f64 = 0.0838251475442633;
const KM: f64 = 0.619485845753726;

/// Weighted 3x3 neighbourhood sum with edge replication.
fn smooth(m: &Mat) -> Mat {
    let (r, c) = (m.len() as i64, m[0].len() as i64);
    let at = |i: i64, j: i64| m[i.clamp(0, r - 1) as usize][j.clamp(0, c - 1) as usize];
    (0..r)
        .map(|i| {
            (0..c)
                .map(|j| {
                    KM * at(i, j)
                        + KE * (at(i - 1, j) + at(i + 1, j) + at(i, j - 1) + at(i, j + 1))
                        + KC * (at(i - 1, j - 1) + at(i - 1, j + 1) + at(i + 1, j - 1) + at(i + 1, j + 1))
                })
                .collect()
        })
        .collect()
}

fn zip(a: &Mat, b: &Mat, f: impl Fn(f64, f64) -> f64) -> Mat {
    a.iter()
        .zip(b)
        .map(|(x, y)| x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect())
        .collect()
}

/// Similarity map plus, for each cell, whether the product of the two local
/// variances is so close to zero that its sign is a matter of rounding.
pub fn nsim_map(r: &Mat, d: &Mat) -> (Mat, bool) {
    let (c1, c3) = (0.01f64 * 0.01, 0.03f64 * 0.03 / 2.0);
    let (mr, md) = (smooth(r), smooth(d));
    let (sr, sd) = (smooth(&zip(r, r, |a, b| a * b)), smooth(&zip(d, d, |a, b| a * b)));
    let vr = zip(&sr, &mr, |s, m| s - m * m);
    let vd = zip(&sd, &md, |s, m| s - m * m);
    let mm = zip(&mr, &md, |a, b| a * b);
    let cov = zip(&smooth(&zip(r, d, |a, b| a * b)), &mm, |s, m| s - m);
    let mut touchy = false;
    let mut out = mr.clone();
    for i in 0..out.len() {
        for j in 0..out[0].len() {
            let (a, b) = (mr[i][j], md[i][j]);
            let inten = (2.0 * a * b + c1) / (a * a + b * b + c1);
            let p = vr[i][j] * vd[i][j];
            // Zeros throughout (both silent to the floor) involve no rounding.
            let tiny_r = vr[i][j].abs() < 1e-10 * sr[i][j];
            let tiny_d = vd[i][j].abs() < 1e-10 * sd[i][j];
            // The special case (negative product) matters only when the product
            // is large enough for its root to show.
            if (tiny_r != tiny_d) && vr[i][j].abs().max(vd[i][j].abs()) > 1e-3 {
                touchy = true;
            }
            let den = if p < 0.0 { c3 } else { p.sqrt() + c3 };
            out[i][j] = inten * (cov[i][j] + c3) / den;
        }
    }
    (out, touchy)
}

pub fn nsim(r: &Mat, d: &Mat) -> Nsim {
    let (map, _) = nsim_map(r, d);
    let mean = |v: &Vec<f64>| v.iter().sum::<f64>() / v.len() as f64;
    let means: Vec<f64> = map.iter().map(mean).collect();
    let stds = map
        .iter()
        .zip(&means)
        .map(|(row, m)| {
            (row.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / (row.len() as f64 - 1.0)).sqrt()
        })
        .collect();
    let energy = d.iter().map(mean).collect();
    let similarity = mean(&means);
    Nsim { means, stds, energy, similarity }
}

pub fn columns(m: &Mat, from: usize, to: usize) -> Mat {
    m.iter()
        .map(|row| {
            (from..to)
                .map(|c| if c < row.len() { row[c] } else { 0.0 })
                .collect()
        })
        .collect()
}

// ------------------------------------------------------------------ reference patches

pub fn fullband_patches(frames: usize, patch: usize) -> Option<Vec<usize>> {
    let first = patch / 2;
    if frames < patch + first {
        return None;
    }
    let mut v = vec![];
    let mut i = first;
    loop {
        v.push(i - 1);
        i += patch;
        if i >= frames - patch {
            return Some(v);
        }
    }
}

/// Voice activity per hop-long chunk: loud (RMS of the 16-bit values at least
/// 5000), or one of the two previous chunks loud; the first two always count.
pub fn voice_activity(x: &[f64], hop: usize, margin: &mut f64) -> Vec<bool> {
    let loud: Vec<bool> = x
        .chunks_exact(hop)
        .map(|c| {
            let sq: i64 = c.iter().map(|v| ((v * 32768.0) as i16) as i64).map(|v| v * v).sum();
            let rms = (sq as f64 / hop as f64).sqrt();
            *margin = margin.min(((rms - 5000.0) / 5000.0).abs());
            rms >= 5000.0
        })
        .collect();
    (0..loud.len().max(2))
        .map(|i| i < 2 || loud[i] || loud[i - 1] || loud[i - 2])
        .collect()
}

pub fn wideband_patches(frames: usize, x: &[f64], sr: u32, patch: usize, m: &mut Margins) -> Option<Vec<usize>> {
    let first = patch / 2 - 1;
    if frames < first + patch {
        return None;
    }
    let count = (frames - first) / patch;
    let hop = hop_size(sr);
    let peak = x.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
    let norm: Vec<f64> = x[first..first + count * patch * hop].iter().map(|v| v / peak).collect();
    let va = voice_activity(&norm, hop, &mut m.vad);
    Some(
        va.chunks(patch)
            .enumerate()
            .filter(|(_, c)| c.iter().any(|v| *v))
            .map(|(k, _)| first + k * patch)
            .collect(),
    )
}

// ------------------------------------------------------------------ patch matching

#[derive(Clone, Debug)]
pub struct PatchResult {
    pub sim: Nsim,
    pub ref_start: f64,
    pub ref_end: f64,
    pub deg_start: f64,
    pub deg_end: f64,
}

/// Number of reference patches that the degraded spectrogram can support: a
/// patch is dropped when its middle lies beyond the degraded spectrogram.
pub fn supported_patches(idx: &[usize], deg_frames: usize, patch: usize) -> usize {
    let mut n = idx.len();
    while n > 0 && idx[n - 1] as i64 - (patch / 2) as i64 > deg_frames as i64 {
        n -= 1;
    }
    n
}

/// The dynamic programme that picks one degraded offset for each reference
/// patch. Returns per supported patch whether it was matched, and the offset
/// (for an unmatched patch the one carried over from its predecessor).
pub fn match_patches(
    sims: &[Vec<Option<f64>>],
    idx: &[usize],
    supported: usize,
    window: usize,
    frames: usize,
    m: &mut Margins,
) -> Vec<(bool, usize)> {
    // cum[k][o]: best total of patches 0..=k when patch k sits at (or carries) offset o.
    let np = idx.len();
    let mut cum = vec![vec![0.0f64; frames]; np];
    #[derive(Clone, Copy, PartialEq)]
    enum From {
        Unvisited,
        Start,
        Matched(usize),
        Skipped,
    }
    let mut from = vec![vec![From::Unvisited; frames]; np];
    let mut gap = vec![vec![f64::INFINITY; frames]; np];
    for k in 0..np {
        let lo = idx[k].saturating_sub(window);
        let hi = (idx[k] + window).min(frames.wrapping_sub(1));
        if frames == 0 {
            break;
        }
        // running best of the previous patch over offsets below `o`
        let prev_lo = if k > 0 { idx[k - 1].saturating_sub(window) } else { 0 };
        let mut o = lo;
        while o <= hi {
            let s = sims[k][o].expect("similarity inside the window");
            if k == 0 {
                cum[k][o] = s;
                from[k][o] = From::Start;
            } else {
                let (mut best, mut at, mut second) = (f64::NEG_INFINITY, usize::MAX, f64::NEG_INFINITY);
                let mut p = o as i64 - 1;
                while p >= prev_lo as i64 {
                    let v = cum[k - 1][p as usize];
                    if v > best {
                        second = best;
                        best = v;
                        at = p as usize;
                    } else if v > second {
                        second = v;
                    }
                    p -= 1;
                }
                let matched = s + best;
                let skipped = cum[k - 1][o];
                let mut g = (matched - skipped).abs();
                if skipped > matched {
                    cum[k][o] = skipped;
                    from[k][o] = From::Skipped;
                } else {
                    g = g.min(best - second);
                    cum[k][o] = matched;
                    from[k][o] = From::Matched(at);
                }
                gap[k][o] = g;
            }
            o += 1;
        }
    }
    let last = supported - 1;
    let lo = idx[last].saturating_sub(window);
    let hi = (idx[last] + window).min(frames - 1);
    let (mut best, mut at, mut second) = (f64::NEG_INFINITY, 0usize, f64::NEG_INFINITY);
    if lo < frames {
        for o in lo..=hi {
            if cum[last][o] > best {
                second = best;
                best = cum[last][o];
                at = o;
            } else if cum[last][o] > second {
                second = cum[last][o];
            }
        }
        m.dp = m.dp.min(best - second);
    }
    let mut out = vec![(false, 0); supported];
    let mut k = last;
    loop {
        m.dp = m.dp.min(gap[k][at]);
        match from[k][at] {
            From::Start => {
                out[k] = (true, at);
                break;
            }
            From::Matched(p) => {
                out[k] = (true, at);
                at = p;
            }
            From::Skipped => out[k] = (false, at),
            From::Unvisited => {
                // Never visited: the table holds 0/0 there, and the model does
                // not claim to know. Mark as ambiguous.
                m.dp = 0.0;
                out[k] = (at != 0, at);
                at = 0;
            }
        }
        if k == 0 {
            break;
        }
        k -= 1;
    }
    out
}

// ------------------------------------------------------------------ slices

/// The samples from start to end (seconds), zeros beyond the end of the signal.
/// Times become sample positions by truncating the floating-point product, as
/// in the original ViSQOL: its published conformance scores depend on it.
pub fn slice(x: &[f64], sr: u32, start: f64, end: f64) -> Vec<f64> {
    let a = (start * sr as f64).max(0.0) as usize;
    let b = (end * sr as f64).max(0.0) as usize;
    (a..b).map(|i| if i < x.len() { x[i] } else { 0.0 }).collect()
}

// ------------------------------------------------------------------ MOS

pub fn speech_mos(vnsim: f64, unscaled: bool) -> f64 {
    let raw = 1.1559455 + (4.6851153 * (vnsim - 0.7655232)).exp();
    (raw * if unscaled { 1.0 } else { 1.2031409 }).clamp(1.0, 5.0)
}

/// libSVM regression model.
#[derive(Clone, Debug, Default)]
pub struct Svm {
    pub kernel: String,
    pub gamma: f64,
    pub coef0: f64,
    pub degree: i32,
    pub rho: f64,
    pub sv: Vec<(f64, Vec<(usize, f64)>)>,
}

impl Svm {
    pub fn parse(text: &str) -> Svm {
        let mut s = Svm { degree: 3, ..Default::default() };
        let mut lines = text.lines();
        for l in lines.by_ref() {
            let mut w = l.split_whitespace();
            let key = w.next().unwrap_or("");
            let val = w.next().unwrap_or("");
            match key {
                "kernel_type" => s.kernel = val.to_string(),
                "gamma" => s.gamma = val.parse().unwrap(),
                "coef0" => s.coef0 = val.parse().unwrap(),
                "degree" => s.degree = val.parse().unwrap(),
                "rho" => s.rho = val.parse().unwrap(),
                "SV" => break,
                _ => {}
            }
        }
        for l in lines {
            let mut w = l.split_whitespace();
            let Some(c) = w.next() else { continue };
            let f = w
                .map(|p| {
                    let (i, v) = p.split_once(':').unwrap();
                    (i.parse::<usize>().unwrap() - 1, v.parse().unwrap())
                })
                .collect();
            s.sv.push((c.parse().unwrap(), f));
        }
        s
    }

    pub fn predict(&self, x: &[f64]) -> f64 {
        let mut total = -self.rho;
        for (c, sv) in &self.sv {
            let mut dense = vec![0.0; x.len()];
            for (i, v) in sv {
                dense[*i] = *v;
            }
            let dot: f64 = dense.iter().zip(x).map(|(a, b)| a * b).sum();
            let k = match self.kernel.as_str() {
                "rbf" => (-self.gamma * dense.iter().zip(x).map(|(a, b)| (a - b) * (a - b)).sum::<f64>()).exp(),
                "linear" => dot,
                "polynomial" => (self.gamma * dot + self.coef0).powi(self.degree),
                "sigmoid" => (self.gamma * dot + self.coef0).tanh(),
                k => panic!("kernel {k}"),
            };
            total += c * k;
        }
        total
    }
    pub fn mos(&self, x: &[f64]) -> f64 {
        self.predict(x).clamp(1.0, 5.0)
    }
}

// ------------------------------------------------------------------ end to end

/// One reference patch and what it may legitimately be reported as.
#[derive(Clone, Debug)]
pub struct Matched {
    pub idx: usize,
    /// Offset of the coarse match; None when the patch found no match.
    pub offset: Option<usize>,
    /// Result of the coarse match.
    pub coarse: PatchResult,
    /// Result after fine alignment, with its lag.
    pub fine: Option<(i64, PatchResult)>,
    /// Relative margin of the fine alignment's correlation peak.
    pub lag_margin: f64,
    /// The similarity hinges on the sign of a rounding error.
    pub touchy: bool,
}
impl Matched {
    pub fn chosen(&self) -> &PatchResult {
        match &self.fine {
            Some((_, n)) if n.sim.similarity >= self.coarse.sim.similarity => n,
            _ => &self.coarse,
        }
    }
    pub fn gain(&self) -> f64 {
        self.fine.as_ref().map_or(f64::NEG_INFINITY, |(_, n)| n.sim.similarity - self.coarse.sim.similarity)
    }
}

#[derive(Clone, Debug)]
pub struct Scored {
    pub lag: i64,
    pub vnsim: f64,
    pub fvnsim: Vec<f64>,
    pub fvdegenergy: Vec<f64>,
    pub center_freqs: Vec<f64>,
    pub patches: Vec<Matched>,
    pub margins: Margins,
    pub ref_idx: Vec<usize>,
    pub frame_duration: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Refused {
    TooShort,
    ReferenceTooShort,
}

/// What a pair looks like before patches are compared.
pub struct Prepared {
    pub lag: i64,
    pub margins: Margins,
    /// Degraded signal, aligned and levelled.
    pub degraded: Vec<f64>,
    pub ref_spec: Mat,
    pub deg_spec: Mat,
    pub ref_idx: Vec<usize>,
}

pub fn prepare_pair(r: &[f64], d: &[f64], sr: u32, mode: Mode) -> Result<Prepared, Refused> {
    let mut m = Margins::new();
    let (lag, aligned) = align(r, d, &mut m);
    let degraded = match_level(r, &aligned);
    let (bands, patch, fmax) = (mode.bands(), mode.patch(), mode.max_freq(sr));
    let mut rs = spectrogram(r, sr, bands, fmax).ok_or(Refused::TooShort)?;
    let mut ds = spectrogram(&degraded, sr, bands, fmax).ok_or(Refused::TooShort)?;
    prepare(&mut rs, &mut ds);
    let frames = rs[0].len();
    let idx = match mode {
        Mode::Wideband => wideband_patches(frames, r, sr, patch, &mut m),
        Mode::Fullband => fullband_patches(frames, patch),
    }
    .ok_or(Refused::ReferenceTooShort)?;
    Ok(Prepared { lag, margins: m, degraded, ref_spec: rs, deg_spec: ds, ref_idx: idx })
}

pub fn window_sims(refs: &[Mat], idx: &[usize], deg: &Mat, patch: usize, window: usize) -> Vec<Vec<Option<f64>>> {
    let df = deg[0].len();
    let degs: Vec<Mat> = (0..df).map(|o| columns(deg, o, o + patch)).collect();
    idx.iter()
        .zip(refs)
        .map(|(i, rp)| {
            (0..df)
                .map(|o| (o + window >= *i && o <= i + window).then(|| nsim(rp, &degs[o]).similarity))
                .collect()
        })
        .collect()
}

/// The stretch that the reference and the degraded signal aligned to it share.
/// The lag passes through seconds and is truncated on its way back.
pub fn truncate(r: &[f64], d: &[f64], lag: i64, sr: u32) -> (Vec<f64>, Vec<f64>) {
    if r.len() < d.len() {
        let from = (lag as f64 / sr as f64 * sr as f64).max(0.0) as usize;
        (r[from..].to_vec(), d[from..r.len()].to_vec())
    } else {
        (r[..d.len()].to_vec(), d.to_vec())
    }
}

/// Compares the audio of two spans after aligning it: (lag, margin of the lag,
/// similarity, seconds of audio compared, touchy).
pub fn compare_spans(ra: &[f64], da: &[f64], sr: u32, mode: Mode) -> Option<(i64, f64, Nsim, f64, bool)> {
    let (bands, fmax) = (mode.bands(), mode.max_freq(sr));
    let mut fm = Margins::new();
    let (flag, b) = align(ra, da, &mut fm);
    let (a, b) = truncate(ra, &b, flag, sr);
    let mut asp = spectrogram(&a, sr, bands, fmax)?;
    let mut bsp = spectrogram(&b, sr, bands, fmax)?;
    prepare(&mut asp, &mut bsp);
    let (_, touchy) = nsim_map(&asp, &bsp);
    Some((flag, fm.xcorr, nsim(&asp, &bsp), a.len() as f64 / sr as f64, touchy))
}

pub fn score(r: &[f64], d: &[f64], sr: u32, mode: Mode, radius: usize) -> Result<Scored, Refused> {
    let Prepared { lag, margins: mut m, degraded: d, ref_spec: rs, deg_spec: ds, ref_idx: idx } = prepare_pair(r, d, sr, mode)?;
    let (bands, patch, fmax) = (mode.bands(), mode.patch(), mode.max_freq(sr));
    let df = ds[0].len();
    let supported = supported_patches(&idx, df, patch);
    let window = radius.min(rs[0].len().max(df)) * patch;
    let fd = frame_duration(sr);
    let refs: Vec<Mat> = idx.iter().map(|i| columns(&rs, *i, i + patch)).collect();
    let sims = window_sims(&refs, &idx, &ds, patch, window);
    let matched = match_patches(&sims, &idx, supported, window, df, &mut m);

    let mut patches = vec![];
    for k in 0..supported {
        let rs0 = idx[k] as f64 * fd;
        let re0 = rs0 + patch as f64 * fd;
        let (is_matched, off) = matched[k];
        let dp = columns(&ds, off, off + patch);
        let (_, mut touchy) = nsim_map(&refs[k], &dp);
        let old = nsim(&refs[k], &dp);
        if !is_matched {
            // Counts as no similarity at all, and has no degraded time span.
            let sim = Nsim { means: vec![0.0; bands], similarity: 0.0, ..old };
            let coarse = PatchResult { sim, ref_start: rs0, ref_end: re0, deg_start: 0.0, deg_end: 0.0 };
            patches.push(Matched { idx: idx[k], offset: None, coarse, fine: None, lag_margin: f64::INFINITY, touchy });
            continue;
        }
        let ds0 = off as f64 * fd;
        let de0 = ds0 + patch as f64 * fd;
        // fine alignment on the audio of the two spans
        let ra = slice(r, sr, rs0, re0);
        let da = slice(&d, sr, ds0, de0);
        let (flag, lag_margin, new, du, t) = compare_spans(&ra, &da, sr, mode).ok_or(Refused::TooShort)?;
        touchy |= t;
        m.fine = m.fine.min((new.similarity - old.similarity).abs());
        let l = flag as f64 / sr as f64;
        let (rs1, ds1) = if flag > 0 { (rs0 + l, ds0) } else { (rs0, ds0 - l) };
        patches.push(Matched {
            idx: idx[k],
            offset: Some(off),
            coarse: PatchResult { sim: old, ref_start: rs0, ref_end: re0, deg_start: ds0, deg_end: de0 },
            fine: Some((flag, PatchResult { sim: new, ref_start: rs1, ref_end: rs1 + du, deg_start: ds1, deg_end: ds1 + du })),
            lag_margin,
            touchy,
        });
    }
    let np = patches.len() as f64;
    let fvnsim: Vec<f64> = (0..bands).map(|b| patches.iter().map(|p| p.chosen().sim.means[b]).sum::<f64>() / np).collect();
    let fvdegenergy = (0..bands).map(|b| patches.iter().map(|p| p.chosen().sim.energy[b]).sum::<f64>() / np).collect();
    let vnsim = fvnsim.iter().sum::<f64>() / bands as f64;
    Ok(Scored {
        lag,
        vnsim,
        fvnsim,
        fvdegenergy,
        center_freqs: center_freqs(bands, MIN_FREQ, fmax),
        patches,
        margins: m,
        ref_idx: idx,
        frame_duration: fd,
    })
}
