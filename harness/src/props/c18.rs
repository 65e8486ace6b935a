//! Calls that cannot be carried out fail, and say so.

use crate::cli::*;
use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::{min_frames, modes};
use crate::run::*;
use crate::wav;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn sound(sr: u32, frames: usize, seed: u64) -> Vec<u8> {
    let mut g = Lcg::new(seed);
    let n = model::samples_for_frames(frames, sr);
    wav::pcm16(sr, 1, &(0..n).map(|_| (g.sym() * 9000.0) as i16).collect::<Vec<_>>())
}

/// Which options are there, and in which shape.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    mode: Option<Mode>,
    reference: bool,
    degraded: bool,
    batch: bool,
    verbose: bool,
    /// None: not given.
    radius: Option<String>,
    unscaled: bool,
    model: Option<u8>,
    outputs: bool,
    stray: Option<String>,
    /// Index of an option that loses its value.
    bare: Option<usize>,
    order: usize,
}

fn good_radius(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) && s.parse::<usize>().is_ok()
}

fn arguments(a: &Args) -> Outcome {
    if a.batch && (a.reference || a.degraded) {
        // The help text says both that this is refused and that it is not.
        return Ok(Info::new(false).label("batch and files: not checked"));
    }
    let d = Dir::new();
    d.put_model();
    let min = min_frames(a.mode.unwrap_or(Mode::Fullband)) + 2;
    d.put("r.wav", &sound(8000, min, 1));
    d.put("d.wav", &sound(8000, min, 2));
    d.put("b.csv", b"reference,degraded\nr.wav,d.wav\nr.wav,r.wav\n");
    d.put("garbage.txt", b"svm_type epsilon_svr\nkernel");
    let mut opts: Vec<Vec<&str>> = vec![];
    if a.reference {
        opts.push(vec!["--reference_file", "r.wav"]);
    }
    if a.degraded {
        opts.push(vec!["--degraded_file", "d.wav"]);
    }
    if a.batch {
        opts.push(vec!["--batch_input_csv", "b.csv"]);
    }
    if let Some(r) = &a.radius {
        opts.push(vec!["--search_window_radius", r]);
    }
    if a.outputs {
        opts.push(vec!["--results_csv", "out.csv"]);
        opts.push(vec!["--output_debug", "out.json"]);
    }
    if a.verbose {
        opts.push(vec!["--verbose"]);
    }
    if let Some(s) = &a.stray {
        opts.push(vec![s]);
    }
    if !opts.is_empty() {
        let n = opts.len();
        opts.rotate_left(a.order % n);
    }
    let mut bare = false;
    if let Some(i) = a.bare {
        // Only in last place, in front of the subcommand, which it swallows,
        // is the outcome clear.
        if let Some(o) = opts.last_mut() {
            let _ = i;
            if o.len() == 2 {
                o.pop();
                bare = true;
            }
        }
    }
    let mut args: Vec<&str> = opts.concat();
    let mut model_ok = true;
    match a.mode {
        Some(Mode::Wideband) => {
            args.push("wideband");
            if a.unscaled {
                args.push("--use_unscaled_speech_mos_mapping");
            }
            if a.model.is_some() {
                args.extend(["--similarity_to_quality_model", "model/libsvm_nu_svr_model.txt"]);
                model_ok = false;
            }
        }
        Some(Mode::Fullband) => {
            args.push("fullband");
            if a.unscaled {
                args.push("--use_unscaled_speech_mos_mapping");
                model_ok = false;
            }
            if let Some(k) = a.model {
                let f = ["model/libsvm_nu_svr_model.txt", "missing.txt", "garbage.txt", "model"][k as usize % 4];
                args.extend(["--similarity_to_quality_model", f]);
                model_ok &= k % 4 == 0;
            }
        }
        None => {}
    }
    let good = a.mode.is_some()
        && (a.batch || a.reference && a.degraded)
        && a.radius.as_deref().is_none_or(good_radius)
        && a.stray.is_none()
        && !bare
        && model_ok;
    let said = call(&d.0, &args);
    let files = (d.text("out.csv"), d.text("out.json"));
    let what = format!("{args:?}: {}", said.brief());
    if good {
        let want = if a.batch { 2 } else { 1 };
        if said.code != Some(0) || said.reports()?.len() != want {
            return Err(format!("a good call fails: {what}"));
        }
        if a.outputs != files.0.is_some() || a.outputs != files.1.is_some() {
            return Err(format!("output files: {what}"));
        }
    } else {
        if said.code == Some(0) || said.claims_a_score() {
            return Err(format!("a bad call succeeds: {what}"));
        }
        if files.0.is_some() || files.1.is_some() {
            return Err(format!("a bad call writes a file: {what}"));
        }
        if said.out.trim().is_empty() && said.err.trim().is_empty() {
            return Err(format!("a bad call says nothing: {what}"));
        }
    }
    Ok(Info::new(true)
        .label(if good { "accepted" } else { "rejected" })
        .when(a.reference != a.degraded, "one file only")
        .when(!a.reference && !a.degraded && !a.batch, "no files")
        .when(a.mode.is_none(), "no subcommand"))
}

fn args() -> impl Strategy<Value = Args> {
    let radius = prop_oneof![
        6 => Just(None),
        3 => (0usize..100).prop_map(|r| Some(r.to_string())),
        1 => Just(Some(usize::MAX.to_string())),
        2 => prop::sample::select(vec!["-1", "1.5", "abc", "", "18446744073709551616", "0x10", "1e3", " 3", "NaN"]).prop_map(|s| Some(s.to_string())),
    ];
    let stray = prop_oneof![
        8 => Just(None),
        1 => prop::sample::select(vec!["--nonsense", "--reference", "extra.wav", "-x", "--verbose=maybe", "narrowband"]).prop_map(|s| Some(s.to_string())),
    ];
    (
        (prop_oneof![6 => modes().prop_map(Some), 1 => Just(None)], prop::bool::weighted(0.65), prop::bool::weighted(0.65), prop::bool::weighted(0.3)),
        radius,
        (any::<bool>(), prop::bool::weighted(0.3), any::<bool>(), any::<usize>()),
        prop_oneof![3 => Just(None), 1 => (0u8..4).prop_map(Some)],
        stray,
        prop_oneof![8 => Just(None), 1 => (0usize..6).prop_map(Some)],
    )
        .prop_map(|((mode, reference, degraded, batch), radius, (verbose, unscaled, outputs, order), model, stray, bare)| {
            let batch = batch && !(reference || degraded) || (batch && order % 3 == 0);
            Args { mode, reference, degraded, batch, verbose, radius, unscaled, model, outputs, stray, bare, order }
        })
}

/// A batch in which one row cannot be scored.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    mode: Mode,
    rows: usize,
    at: usize,
    what: u8,
    reference: bool,
    single: bool,
    seed: u32,
}

const BROKEN: [&str; 9] = ["a missing file", "a directory", "no wav file", "a wav file cut short", "another sample rate", "8 bit samples", "a recording too short", "an empty file", "a wav file without samples"];

fn broken(b: &Broken) -> Outcome {
    let d = Dir::new();
    d.put_model();
    let min = min_frames(b.mode);
    d.put("r.wav", &sound(8000, min + 1, b.seed as u64));
    d.put("d.wav", &sound(8000, min + 1, b.seed as u64 + 1));
    let good = sound(8000, min + 1, 3);
    let k = b.what as usize % BROKEN.len();
    match k {
        0 => {}
        1 => std::fs::create_dir_all(d.at("bad.wav")).unwrap(),
        2 => d.put("bad.wav", &(0..5000u32).map(|i| (i * 31 % 251) as u8).collect::<Vec<_>>()),
        3 => d.put("bad.wav", &good[..good.len() - 1 - b.seed as usize % (good.len() - 1)]),
        4 => d.put("bad.wav", &sound(if b.seed % 2 == 0 { 8001 } else { 16000 }, min + 1, 3)),
        5 => d.put("bad.wav", &wav::riff(&[wav::chunk(b"fmt ", &wav::fmt_chunk(1, 1, 8000, 8, false)), wav::chunk(b"data", &[128; 20000])])),
        6 => d.put("bad.wav", &sound(8000, 1 + b.seed as usize % (min - 1), 3)),
        7 => d.put("bad.wav", &[]),
        _ => d.put("bad.wav", &wav::pcm16(8000, 1 + (b.seed % 3) as u16, &[])),
    }
    // A degraded recording may be shorter than a reference.
    let reference = b.reference || k == 6;
    let bad = if reference { ("bad.wav", "d.wav") } else { ("r.wav", "bad.wav") };
    let mut args = vec!["--results_csv", "out.csv", "--output_debug", "out.json", "--search_window_radius", "2"];
    if b.single {
        args.extend(["--reference_file", bad.0, "--degraded_file", bad.1]);
    } else {
        let at = b.at % b.rows;
        let t: String = (0..b.rows).map(|i| if i == at { format!("{},{}\n", bad.0, bad.1) } else { "r.wav,d.wav\n".into() }).collect();
        d.put("b.csv", format!("reference,degraded\n{t}").as_bytes());
        args.extend(["--batch_input_csv", "b.csv"]);
    }
    args.push(if b.mode == Mode::Wideband { "wideband" } else { "fullband" });
    let said = call(&d.0, &args);
    if said.code == Some(0) || said.claims_a_score() {
        return Err(format!("{}: {}", BROKEN[k], said.brief()));
    }
    if said.code.is_none() || said.code == Some(101) {
        return Err(format!("{}: the tool crashes: {}", BROKEN[k], said.brief()));
    }
    if d.text("out.csv").is_some() || d.text("out.json").is_some() {
        return Err(format!("{}: results are written all the same", BROKEN[k]));
    }
    Ok(Info::new(true).label(BROKEN[k]).when(!b.single && b.rows > 1, "one of several rows"))
}

/// Batch files that are not what they should be: (kind, good rows, position)
fn batch_file(c: &(u8, usize, usize)) -> Outcome {
    let d = Dir::new();
    d.put("r.wav", &sound(8000, 30, 1));
    let mut rows: Vec<Vec<u8>> = vec![b"r.wav,r.wav".to_vec(); c.1];
    let at = c.2 % (c.1 + 1);
    let names = ["missing", "one column", "three columns", "a directory", "not unicode", "empty path"];
    let k = c.0 as usize % names.len();
    let bad: Option<&[u8]> = match k {
        1 => Some(b"r.wav"),
        2 => Some(b"r.wav,r.wav,r.wav"),
        4 => Some(b"r.wav,\xff\xfe.wav"),
        5 => Some(b",r.wav"),
        _ => None,
    };
    if let Some(b) = bad {
        rows.insert(at, b.to_vec());
    }
    match k {
        0 => {}
        3 => std::fs::create_dir_all(d.at("b.csv")).unwrap(),
        _ => {
            let mut t = b"reference,degraded\n".to_vec();
            for r in rows {
                t.extend(r);
                t.push(b'\n');
            }
            d.put("b.csv", &t);
        }
    }
    let said = call(&d.0, &["--batch_input_csv", "b.csv", "--results_csv", "out.csv", "--search_window_radius", "1", "wideband"]);
    if said.code == Some(0) || said.code.is_none() || said.code == Some(101) || said.claims_a_score() || d.text("out.csv").is_some() {
        return Err(format!("a batch file with {}: {}", names[k], said.brief()));
    }
    Ok(Info::new(true).label(names[k]))
}

/// (csv or json, place): results that cannot be stored
fn unwritable(c: &(bool, String, Mode)) -> Outcome {
    let d = Dir::new();
    d.put_model();
    d.put("r.wav", &sound(8000, 50, 1));
    let o = if c.0 { "--results_csv" } else { "--output_debug" };
    let m = if c.2 == Mode::Wideband { "wideband" } else { "fullband" };
    let said = call(&d.0, &["--reference_file", "r.wav", "--degraded_file", "r.wav", "--search_window_radius", "1", o, &c.1, m]);
    if said.code == Some(0) {
        return Err(format!("results that go to {:?} are lost silently: {}", c.1, said.brief()));
    }
    Ok(Info::new(true))
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "arguments",
        "random sets of options, with and without their values, subcommand and files; accepted exactly when complete and well-formed; non-trivial: all but a batch together with files",
        8000,
        50_000,
        args,
        arguments,
    );
    c.facet(
        "inputs",
        "single pairs and batches with one file that cannot be scored; a plain failure and nothing written; non-trivial: every case",
        2000,
        12_000,
        || {
            (modes(), prop_oneof![5 => 1usize..4, 1 => 4usize..20], 0usize..20, 0u8..9, any::<bool>(), any::<bool>(), any::<u32>())
                .prop_map(|(mode, rows, at, what, reference, single, seed)| Broken { mode, rows, at, what, reference, single, seed })
        },
        broken,
    );
    c.facet("batch_files", "batch files that are missing or malformed; a plain failure and nothing written; non-trivial: every case", 400, 1500, || (0u8..6, 0usize..3, 0usize..3), batch_file);
    let mut places = vec![];
    for p in ["missing/out", ".", "/dev/full", "r.wav/out", ""] {
        for csv in [true, false] {
            for m in [Mode::Wideband, Mode::Fullband] {
                places.push((csv, p.to_string(), m));
            }
        }
    }
    c.each("outputs", "output paths that cannot be written; a failure; non-trivial: every case", places, unwritable);
    c.finish("exploration", super::BASE)
}
