//! Runs the command line tool and reads what it says.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::*;
use crate::sut::{self, Answer, Mgr, Res};
use crate::wav;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// A scratch directory, which is the tool's working directory.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = sut::scratch().join(format!("cli{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    pub fn at(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn put(&self, name: &str, bytes: &[u8]) {
        let p = self.at(name);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
        std::fs::write(p, bytes).expect("scratch file");
    }
    pub fn text(&self, name: &str) -> Option<String> {
        std::fs::read_to_string(self.at(name)).ok()
    }
    /// The model where the tool looks for it by default.
    pub fn put_model(&self) {
        self.put("model/libsvm_nu_svr_model.txt", default_model().as_bytes());
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn default_model() -> &'static str {
    static S: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    S.get_or_init(|| std::fs::read_to_string(sut::MODEL).expect("svm model"))
}
/// The default model with another constant term.
pub fn other_model(shift: f64) -> String {
    default_model()
        .lines()
        .map(|l| match l.strip_prefix("rho ") {
            Some(v) => format!("rho {}\n", v.trim().parse::<f64>().unwrap() + shift),
            None => format!("{l}\n"),
        })
        .collect()
}

pub struct Said {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

fn tool() -> PathBuf {
    match std::env::var_os("VH_CLI") {
        Some(p) => p.into(),
        None => std::env::current_exe().unwrap().with_file_name("visqol"),
    }
}

pub fn call<S: AsRef<std::ffi::OsStr>>(cwd: &Path, args: &[S]) -> Said {
    let o = Command::new(tool()).args(args).current_dir(cwd).stdin(Stdio::null()).output().expect("the tool can be started");
    Said { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}

/// What is reported for one pair.
#[derive(Debug, Default, Clone)]
pub struct Report {
    pub reference: Option<String>,
    pub degraded: Option<String>,
    pub mos: f64,
    /// (similarity, frequency)
    pub bands: Vec<(f64, f64)>,
    /// (index, similarity, reference span, degraded span)
    pub patches: Vec<(usize, f64, (f64, f64), (f64, f64))>,
}

impl Said {
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
        format!("status {:?}, said \"{}\", \"{}\"", self.code, cut(&self.out), cut(&self.err))
    }
    pub fn claims_a_score(&self) -> bool {
        self.out.contains("MOS-LQO")
    }
    pub fn reports(&self) -> Result<Vec<Report>, String> {
        let mut v: Vec<Report> = vec![];
        let (mut r, mut d) = (None, None);
        let mut table = 0;
        let num = |s: &str| s.trim().parse::<f64>().map_err(|_| format!("not a number: {s:?}"));
        for l in self.out.lines() {
            if let Some(p) = l.strip_prefix("Reference Filepath:") {
                r = Some(p.trim_start_matches(['\t', ' ']).to_string());
                table = 0;
            } else if let Some(p) = l.strip_prefix("Degraded Filepath:") {
                d = Some(p.trim_start_matches(['\t', ' ']).to_string());
            } else if let Some(m) = l.strip_prefix("MOS-LQO:") {
                v.push(Report { reference: r.take(), degraded: d.take(), mos: num(m)?, ..Default::default() });
                table = 0;
            } else if l.starts_with('|') {
                let cells: Vec<&str> = l.trim_matches('|').split('|').map(str::trim).collect();
                match cells[0] {
                    "FVNSIM" => table = 1,
                    "Patch Idx" => table = 2,
                    _ => {
                        let last = v.last_mut().ok_or("a table without a score")?;
                        match (table, cells.len()) {
                            (1, 2) => last.bands.push((num(cells[0])?, num(cells[1])?)),
                            (2, 4) => {
                                let span = |s: &str| -> Result<(f64, f64), String> {
                                    let (a, b) = s.split_once(" - ").ok_or(format!("no span: {s:?}"))?;
                                    Ok((num(a)?, num(b)?))
                                };
                                let i = cells[0].parse().map_err(|_| format!("patch index {:?}", cells[0]))?;
                                last.patches.push((i, num(cells[1])?, span(cells[2])?, span(cells[3])?));
                            }
                            _ => return Err(format!("unexpected line {l:?}")),
                        }
                    }
                }
            }
        }
        Ok(v)
    }
}

// ------------------------------------------------------------------ audio files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Clip {
    pub sig: Sig,
    pub deg: Vec<Deg>,
}

/// Quick pairs at 8 kHz, mostly long enough for a score.
pub fn clips(mode: Mode, n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<Clip>> {
    let lo = model::samples_for_frames(min_frames(mode), 8000);
    let patch = mode.patch() * model::hop_size(8000);
    let warp = prop_oneof![
        2 => deg(),
        1 => (0.1..0.9f64, 400u32..4000).prop_map(|(at, n)| Deg::Cut { at, n }),
        1 => (0.1..0.9f64, 400u32..4000).prop_map(|(at, n)| Deg::Stuff { at, n }),
    ];
    let clip = (sig(lo..=lo + 2 * patch), prop::collection::vec(warp, 0..3)).prop_map(|(sig, deg)| Clip { sig, deg });
    prop::collection::vec(clip, n)
}
/// A degraded signal whose parts have to be searched for.
pub fn strained(mode: Mode) -> impl Strategy<Value = Clip> {
    let lo = model::samples_for_frames(min_frames(mode), 8000);
    let patch = mode.patch() * model::hop_size(8000);
    let warp = prop_oneof![
        1 => (0.2..0.8f64, patch as u32 / 2..patch as u32 * 2).prop_map(|(at, n)| Deg::Cut { at, n }),
        1 => (0.2..0.8f64, patch as u32 / 2..patch as u32 * 2).prop_map(|(at, n)| Deg::Stuff { at, n }),
    ];
    (sig(lo + 2 * patch..=lo + 5 * patch), prop::collection::vec(warp, 1..3)).prop_map(|(sig, deg)| Clip { sig, deg })
}
impl Clip {
    pub fn files(&self) -> (Vec<u8>, Vec<u8>) {
        let x = self.sig.samples(8000);
        let y = degrade(&x, &self.deg);
        (wav::pcm16(8000, 1, &wav::to_i16(&x)), wav::pcm16(8000, 1, &wav::to_i16(&y)))
    }
}

/// Names that need care in a csv file or on a command line.
pub fn file_name() -> impl Strategy<Value = String> {
    let piece = prop_oneof![
        6 => "[A-Za-z0-9_]{1,6}".prop_map(String::from),
        1 => prop::sample::select(vec![" ", ",", "\"", "'", ";", "\u{e9}\u{4e2d}", "#", "a b", "=", "%", "{}", "\\", "\"\"", "reference", "degraded", ".", "$", "*", "("]).prop_map(String::from),
    ];
    (prop::collection::vec(piece, 1..4), prop::bool::weighted(0.2)).prop_map(|(p, sub)| {
        let n = p.concat();
        format!("{}n{}.wav", if sub { "sub dir/" } else { "" }, n.trim_end())
    })
}

// ------------------------------------------------------------------ csv

/// One record, quoted where it has to be, or everywhere.
pub fn csv_line(fields: &[&str], always: bool) -> String {
    fields
        .iter()
        .map(|f| {
            if always || f.contains([',', '"', '\n', '\r']) {
                format!("\"{}\"", f.replace('"', "\"\""))
            } else {
                f.to_string()
            }
        })
        .collect::<Vec<_>>()
        .join(",")
}
/// All records of a csv text.
pub fn csv_records(text: &str) -> Result<Vec<Vec<String>>, String> {
    let (mut out, mut rec, mut field) = (vec![], vec![], String::new());
    let mut it = text.chars().peekable();
    let (mut quoted, mut any) = (false, false);
    while let Some(c) = it.next() {
        any = true;
        match c {
            '"' if quoted && it.peek() == Some(&'"') => {
                it.next();
                field.push('"');
            }
            '"' if quoted => quoted = false,
            c if quoted => field.push(c),
            '"' if field.is_empty() => quoted = true,
            ',' => rec.push(std::mem::take(&mut field)),
            '\n' => {
                if field.ends_with('\r') {
                    field.pop();
                }
                rec.push(std::mem::take(&mut field));
                out.push(std::mem::take(&mut rec));
                any = false;
            }
            c => field.push(c),
        }
    }
    if quoted {
        return Err("an open quote".into());
    }
    if any {
        rec.push(field);
        out.push(rec);
    }
    Ok(out)
}

// ------------------------------------------------------------------ expectation

/// The library's own results, or the first refusal.
pub fn library(mode: Mode, unscaled: bool, radius: usize, model: &Path, pairs: &[(PathBuf, PathBuf)]) -> Result<Vec<Res>, String> {
    pairs
        .iter()
        .map(|(a, b)| {
            let mut m = match mode {
                Mode::Wideband => Mgr::new(mode, unscaled, radius),
                Mode::Fullband => Mgr::fullband(model.to_str().unwrap(), radius),
            };
            match m.run(a.to_str().unwrap(), b.to_str().unwrap()) {
                Answer::Scored(r) => Ok(r),
                Answer::Refused(e) => Err(e),
                Answer::Panicked(p) => Err(format!("panic: {p}")),
            }
        })
        .collect()
}

pub fn same_number(what: &str, got: f64, want: f64) -> Result<(), String> {
    if close(got, want, 1e-12) {
        Ok(())
    } else {
        Err(format!("{what} {got}, expected {want}"))
    }
}
