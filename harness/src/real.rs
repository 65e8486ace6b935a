//! The recordings that come with the repository, decoded independently.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const DIR: &str = "/repo/visqol-rs/test_data/";
pub const PAIRS: [(&str, &str); 9] = [
    ("clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav"),
    ("clean_speech/reference_signal_16k.wav", "clean_speech/degraded_signal_16k.wav"),
    ("conformance_testdata_subset/guitar48_stereo.wav", "conformance_testdata_subset/guitar48_stereo_64kbps_aac.wav"),
    ("conformance_testdata_subset/contrabassoon48_stereo.wav", "conformance_testdata_subset/contrabassoon48_stereo_24kbps_aac.wav"),
    ("conformance_testdata_subset/glock48_stereo.wav", "conformance_testdata_subset/glock48_stereo_48kbps_aac.wav"),
    ("conformance_testdata_subset/steely48_stereo.wav", "conformance_testdata_subset/steely48_stereo_lp7.wav"),
    ("conformance_testdata_subset/ravel48_stereo.wav", "conformance_testdata_subset/ravel48_stereo_128kbps_opus.wav"),
    ("conformance_testdata_subset/sopr48_stereo.wav", "conformance_testdata_subset/sopr48_stereo_256kbps_aac.wav"),
    ("conformance_testdata_subset/castanets48_stereo.wav", "conformance_testdata_subset/castanets48_stereo.wav"),
];

/// Mono samples and rate of a plain 16-bit file.
pub fn decode(bytes: &[u8]) -> Option<(Vec<f64>, u32)> {
    let u16at = |i: usize| u16::from_le_bytes([bytes[i], bytes[i + 1]]);
    let u32at = |i: usize| u32::from_le_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]);
    let (mut i, mut ch, mut sr) = (12, 1usize, 0);
    while i + 8 <= bytes.len() {
        let n = u32at(i + 4) as usize;
        match &bytes[i..i + 4] {
            b"fmt " => {
                ch = u16at(i + 10) as usize;
                sr = u32at(i + 12);
                if u16at(i + 22) != 16 {
                    return None;
                }
            }
            b"data" => {
                let body = &bytes[i + 8..(i + 8 + n).min(bytes.len())];
                let s: Vec<f64> = body.chunks_exact(2).map(|b| i16::from_le_bytes([b[0], b[1]]) as f64 / 32767.0).collect();
                return Some((s.chunks_exact(ch).map(|f| f.iter().sum::<f64>() / ch as f64).collect(), sr));
            }
            _ => {}
        }
        i += 8 + n + n % 2;
    }
    None
}

pub fn path(file: &str) -> String {
    format!("{DIR}{file}")
}

pub fn signal(file: &str) -> Arc<(Vec<f64>, u32)> {
    static CACHE: Mutex<BTreeMap<String, Arc<(Vec<f64>, u32)>>> = Mutex::new(BTreeMap::new());
    let mut c = CACHE.lock().unwrap();
    c.entry(file.into())
        .or_insert_with(|| Arc::new(decode(&std::fs::read(path(file)).expect("recording")).expect("recording")))
        .clone()
}

/// The same stretch of both recordings of a pair: (reference, degraded, rate).
/// `from` is a fraction of the reference, `seconds` a length.
pub fn crop(pair: usize, from: f64, seconds: f64) -> (Vec<f64>, Vec<f64>, u32) {
    let (r, d) = (signal(PAIRS[pair].0), signal(PAIRS[pair].1));
    let sr = r.1;
    let n = (seconds * sr as f64) as usize;
    let a = ((from * r.0.len() as f64) as usize).min(r.0.len().saturating_sub(n));
    let cut = |x: &[f64]| x[a.min(x.len())..(a + n).min(x.len())].to_vec();
    (cut(&r.0), cut(&d.0), sr)
}
