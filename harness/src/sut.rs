//! Access to the code under test through its public interface.

use crate::model::Mode;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use visqol_rs::{audio_utils, variant::Variant, visqol_manager::VisqolManager};

pub const MODEL: &str = "/repo/model/libsvm_nu_svr_model.txt";

// ------------------------------------------------------------------ scratch files

pub fn scratch_of(pid: u32) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("vh-{pid}"))
}
pub fn scratch() -> PathBuf {
    let p = scratch_of(std::process::id());
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}
pub fn scratch_cleanup() {
    let _ = std::fs::remove_dir_all(scratch());
}
pub struct TempFile(pub PathBuf);
impl TempFile {
    pub fn new(ext: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        TempFile(scratch().join(format!("{}.{ext}", N.fetch_add(1, Ordering::SeqCst))))
    }
    pub fn with(ext: &str, bytes: &[u8]) -> Self {
        let t = Self::new(ext);
        std::fs::write(&t.0, bytes).expect("scratch file");
        t
    }
    pub fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
}
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

// ------------------------------------------------------------------ panics

/// Runs the code under test; a panic becomes Err with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

// The signal type has no public name; it can only be had from the loader.
macro_rules! template {
    () => {{
        thread_local! {
            static T: TempFile = TempFile::with("wav", &crate::wav::pcm16(8000, 1, &[0i16, 1, 2, 3]));
        }
        T.with(|t| audio_utils::load_as_mono(t.path()).expect("template"))
    }};
}

// ------------------------------------------------------------------ results

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Patch {
    pub means: Vec<f64>,
    pub stds: Vec<f64>,
    pub energy: Vec<f64>,
    pub similarity: f64,
    pub ref_start: f64,
    pub ref_end: f64,
    pub deg_start: f64,
    pub deg_end: f64,
}
impl Patch {
    pub fn unmatched(&self) -> bool {
        self.deg_start == 0.0 && self.deg_end == 0.0
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Res {
    pub mos: f64,
    pub vnsim: f64,
    pub fvnsim: Vec<f64>,
    pub fstdnsim: Vec<f64>,
    pub fvdegenergy: Vec<f64>,
    pub freqs: Vec<f64>,
    pub patches: Vec<Patch>,
}

impl Res {
    /// Bitwise equality (NaN equals NaN).
    pub fn same(&self, o: &Res) -> bool {
        let b = |r: &Res| {
            let mut v: Vec<u64> = vec![r.mos.to_bits(), r.vnsim.to_bits()];
            for x in [&r.fvnsim, &r.fstdnsim, &r.fvdegenergy, &r.freqs] {
                v.push(x.len() as u64);
                v.extend(x.iter().map(|f| f.to_bits()));
            }
            for p in &r.patches {
                for x in [&p.means, &p.stds, &p.energy] {
                    v.push(x.len() as u64);
                    v.extend(x.iter().map(|f| f.to_bits()));
                }
                v.extend([p.similarity, p.ref_start, p.ref_end, p.deg_start, p.deg_end].map(f64::to_bits));
            }
            v
        };
        b(self) == b(o)
    }
    pub fn brief(&self) -> String {
        format!("mos {} vnsim {} patches {}", self.mos, self.vnsim, self.patches.len())
    }
}

macro_rules! convert {
    ($r:expr) => {{
        let r = $r;
        Res {
            mos: r.moslqo,
            vnsim: r.vnsim,
            fvnsim: r.fvnsim.clone(),
            fstdnsim: r.fstdnsim.clone(),
            fvdegenergy: r.fvdegenergy.clone(),
            freqs: r.center_freq_bands.clone(),
            patches: r
                .patch_sims
                .iter()
                .map(|p| Patch {
                    means: p.freq_band_means.clone(),
                    stds: p.freq_band_stddevs.clone(),
                    energy: p.freq_band_deg_energy.clone(),
                    similarity: p.similarity,
                    ref_start: p.ref_patch_start_time,
                    ref_end: p.ref_patch_end_time,
                    deg_start: p.deg_patch_start_time,
                    deg_end: p.deg_patch_end_time,
                })
                .collect(),
        }
    }};
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Answer {
    Scored(Res),
    Refused(String),
    Panicked(String),
}
impl Answer {
    pub fn same(&self, o: &Answer) -> bool {
        match (self, o) {
            (Answer::Scored(a), Answer::Scored(b)) => a.same(b),
            (Answer::Refused(a), Answer::Refused(b)) => a == b,
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Answer::Scored(r) => r.brief(),
            Answer::Refused(e) => format!("refused: {e}"),
            Answer::Panicked(e) => format!("PANIC: {e}"),
        }
    }
    pub fn scored(self) -> Result<Res, String> {
        match self {
            Answer::Scored(r) => Ok(r),
            a => Err(format!("no score: {}", a.brief())),
        }
    }
}

/// A manager of either kind.
pub enum Mgr {
    W(VisqolManager<21>),
    F(VisqolManager<32>),
}

impl Mgr {
    pub fn new(mode: Mode, unscaled: bool, radius: usize) -> Mgr {
        match mode {
            Mode::Wideband => Mgr::W(VisqolManager::new(Variant::Wideband { use_unscaled_mos_mapping: unscaled }, radius)),
            Mode::Fullband => Self::fullband(MODEL, radius),
        }
    }
    pub fn fullband(model: &str, radius: usize) -> Mgr {
        Mgr::F(VisqolManager::new(Variant::Fullband { model_path: model.into() }, radius))
    }

    pub fn run(&mut self, r: &str, d: &str) -> Answer {
        let out = guarded(|| match self {
            Mgr::W(m) => m.run(r, d).map(|r| convert!(r)).map_err(|e| e.to_string()),
            Mgr::F(m) => m.run(r, d).map(|r| convert!(r)).map_err(|e| e.to_string()),
        });
        match out {
            Ok(Ok(r)) => Answer::Scored(r),
            Ok(Err(e)) => Answer::Refused(e),
            Err(p) => Answer::Panicked(p),
        }
    }

    /// Scores two in-memory signals. Also reports a change of the inputs.
    pub fn score(&mut self, r: &[f64], rs: u32, d: &[f64], ds: u32) -> Answer {
        let out = guarded(|| {
            let mut a = template!();
            a.data_matrix = ndarray::Array1::from(r.to_vec());
            a.sample_rate = rs;
            let mut b = template!();
            b.data_matrix = ndarray::Array1::from(d.to_vec());
            b.sample_rate = ds;
            let out = match self {
                Mgr::W(m) => m.compute_results(&mut a, &mut b).map(|r| convert!(r)).map_err(|e| e.to_string()),
                Mgr::F(m) => m.compute_results(&mut a, &mut b).map(|r| convert!(r)).map_err(|e| e.to_string()),
            };
            let touched = a.data_matrix.to_vec() != r || b.data_matrix.to_vec() != d || a.sample_rate != rs || b.sample_rate != ds;
            (out, touched)
        });
        match out {
            Ok((_, true)) => Answer::Panicked("the caller's signals were changed".into()),
            Ok((Ok(r), _)) => Answer::Scored(r),
            Ok((Err(e), _)) => Answer::Refused(e),
            Err(p) => Answer::Panicked(p),
        }
    }
}

pub fn score(r: &[f64], d: &[f64], sr: u32, mode: Mode, radius: usize) -> Answer {
    Mgr::new(mode, false, radius).score(r, sr, d, sr)
}

/// (samples, sample rate) of a wav file, through the library's loader.
pub fn load(path: &str) -> Result<Result<(Vec<f64>, u32), String>, String> {
    guarded(|| audio_utils::load_as_mono(path).map(|s| (s.data_matrix.to_vec(), s.sample_rate)).map_err(|e| e.to_string()))
}

/// (level-matched samples, sample rate, whether an input was changed)
pub fn match_level(r: &[f64], rs: u32, d: &[f64], ds: u32) -> Result<(Vec<f64>, u32, bool), String> {
    guarded(|| {
        let mut a = template!();
        a.data_matrix = ndarray::Array1::from(r.to_vec());
        a.sample_rate = rs;
        let mut b = template!();
        b.data_matrix = ndarray::Array1::from(d.to_vec());
        b.sample_rate = ds;
        let out = audio_utils::scale_to_match_sound_pressure_level(&a, &b);
        let touched = a.data_matrix.to_vec() != r || b.data_matrix.to_vec() != d || a.sample_rate != rs || b.sample_rate != ds;
        (out.data_matrix.to_vec(), out.sample_rate, touched)
    })
}
