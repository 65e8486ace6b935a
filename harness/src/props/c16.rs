//! The command line tool reports what the library computes.

use crate::cli::*;
use crate::model::Mode;
use crate::pair::modes;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub mode: Mode,
    pub clips: Vec<Clip>,
    /// Clips to compare, in order.
    pub rows: Vec<(usize, usize)>,
    pub batch: bool,
    pub names: Vec<String>,
    pub unscaled: bool,
    pub radius: Option<usize>,
    /// None: the model at its default place.
    pub model: Option<f64>,
    pub verbose: bool,
    pub quote_all: bool,
    pub crlf: bool,
    pub no_final_newline: bool,
    pub blank_lines: bool,
    pub absolute: bool,
    /// Rotates the options.
    pub order: usize,
    pub equals: bool,
}

pub struct Setup {
    pub dir: Dir,
    /// As they are named to the tool.
    pub named: Vec<(String, String)>,
    pub args: Vec<String>,
    pub found: Vec<(PathBuf, PathBuf)>,
    pub model: PathBuf,
}

impl Case {
    pub fn name(&self, i: usize, reference: bool) -> String {
        // A number keeps the names apart.
        let n = &self.names[i % self.names.len()];
        let (d, f) = n.rsplit_once('/').map(|(d, f)| (format!("{d}/"), f)).unwrap_or((String::new(), n));
        format!("{d}{}{i}{f}", if reference { "r" } else { "d" })
    }
    /// Options in front of the subcommand, the subcommand, options behind it.
    pub fn setup(&self, outputs: &[(&str, &str)]) -> Setup {
        let dir = Dir::new();
        for (i, c) in self.clips.iter().enumerate() {
            let (a, b) = c.files();
            dir.put(&self.name(i, true), &a);
            dir.put(&self.name(i, false), &b);
        }
        let rows: Vec<(usize, usize)> = if self.batch { self.rows.clone() } else { self.rows[..1].to_vec() };
        let say = |n: String| if self.absolute { dir.at(&n).to_str().unwrap().to_string() } else { n };
        let k = self.clips.len();
        let pairs: Vec<(String, String)> = rows.iter().map(|(a, b)| (self.name(a % k, true), self.name(b % k, false))).collect();
        let found = pairs.iter().map(|(a, b)| (dir.at(a), dir.at(b))).collect();
        let named: Vec<(String, String)> = pairs.into_iter().map(|(a, b)| (say(a), say(b))).collect();
        let mut opts: Vec<Vec<String>> = vec![];
        let mut opt = |k: &str, v: &str| {
            opts.push(if self.equals { vec![format!("--{k}={v}")] } else { vec![format!("--{k}"), v.to_string()] });
        };
        if self.batch {
            let nl = if self.crlf { "\r\n" } else { "\n" };
            let mut t = format!("reference,degraded{nl}");
            for (i, (a, b)) in named.iter().enumerate() {
                t += &csv_line(&[a, b], self.quote_all);
                t += nl;
                if self.blank_lines && i % 2 == 0 {
                    t += nl;
                }
            }
            if self.no_final_newline {
                t = t.trim_end_matches(['\r', '\n']).to_string();
            }
            dir.put("batch.csv", t.as_bytes());
            opt("batch_input_csv", "batch.csv");
        } else {
            opt("reference_file", &named[0].0);
            opt("degraded_file", &named[0].1);
        }
        for (k, v) in outputs {
            opt(k, v);
        }
        if let Some(r) = self.radius {
            opt("search_window_radius", &r.to_string());
        }
        if self.verbose {
            opts.push(vec!["--verbose".into()]);
        }
        let n = opts.len();
        opts.rotate_left(self.order % n);
        let mut args: Vec<String> = opts.concat();
        let mut model = dir.at("model/libsvm_nu_svr_model.txt");
        match self.mode {
            Mode::Wideband => {
                args.push("wideband".into());
                if self.unscaled {
                    args.push("--use_unscaled_speech_mos_mapping".into());
                }
            }
            Mode::Fullband => {
                args.push("fullband".into());
                dir.put_model();
                if let Some(shift) = self.model {
                    dir.put("other model.txt", other_model(shift).as_bytes());
                    model = dir.at("other model.txt");
                    args.extend(["--similarity_to_quality_model".into(), "other model.txt".into()]);
                }
            }
        }
        Setup { dir, named, args, found, model }
    }
    pub fn library(&self, s: &Setup) -> Result<Vec<crate::sut::Res>, String> {
        library(self.mode, self.unscaled, self.radius.unwrap_or(60), &s.model, &s.found)
    }
}

pub fn case(pairs: usize) -> impl Strategy<Value = Case> {
    modes().prop_flat_map(move |mode| {
        let radius = prop_oneof![2 => Just(None), 2 => Just(Some(0usize)), 2 => (1usize..5).prop_map(Some), 1 => Just(Some(60)), 1 => (100usize..100_000).prop_map(Some)];
        (
            clips(mode, 1..=pairs.min(3)),
            prop::collection::vec((0usize..8, 0usize..8).prop_map(|(a, b)| if b < 6 { (a, a) } else { (a, b) }), 1..=pairs),
            prop::collection::vec(file_name(), 1..4),
            (radius, prop_oneof![1 => Just(None), 1 => (-1.0..1.0f64).prop_map(Some)]),
            any::<(bool, bool, bool, bool, bool)>(),
            any::<(bool, bool, usize, bool, bool)>(),
        )
            .prop_map(move |(clips, rows, names, (radius, model), (batch, unscaled, verbose, quote_all, crlf), (no_final_newline, blank_lines, order, equals, absolute))| Case {
                mode, clips, rows, batch, names, unscaled, radius, model, verbose, quote_all, crlf, no_final_newline, blank_lines, absolute, order, equals,
            })
    })
}

pub fn label(i: Info, c: &Case, k: usize) -> Info {
    i.label(format!("{:?}", c.mode))
        .when(c.batch, "batch")
        .when(c.batch && k > 1, "batch of several")
        .when(c.verbose, "verbose")
        .when(c.mode == Mode::Wideband && c.unscaled, "unscaled")
        .when(c.mode == Mode::Fullband && c.model.is_some(), "own model")
        .when(c.mode == Mode::Fullband && c.model.is_none(), "default model")
        .when(c.radius.is_some(), "own radius")
}

fn agrees(c: &Case) -> Outcome {
    let s = c.setup(&[]);
    let said = call(&s.dir.0, &s.args);
    let want = match c.library(&s) {
        Ok(w) => w,
        Err(e) => {
            if said.code == Some(0) || said.claims_a_score() {
                return Err(format!("the library refuses a pair ({e}), the tool: {}", said.brief()));
            }
            return Ok(label(Info::new(true).label("refused"), c, 0));
        }
    };
    if said.code != Some(0) {
        return Err(format!("the library gives scores, the tool: {}", said.brief()));
    }
    let got = said.reports()?;
    if got.len() != want.len() {
        return Err(format!("{} scores for {} pairs", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        same_number(&format!("pair {i}: MOS"), g.mos, w.mos)?;
        let named = c.verbose.then(|| s.named[i].clone());
        if (g.reference.clone(), g.degraded.clone()) != named.clone().unzip() {
            return Err(format!("pair {i}: files {:?} and {:?}, expected {named:?}", g.reference, g.degraded));
        }
        if !c.verbose {
            if !g.bands.is_empty() || !g.patches.is_empty() {
                return Err("tables although not asked for".into());
            }
            continue;
        }
        if g.bands.len() != w.fvnsim.len() || g.patches.len() != w.patches.len() {
            return Err(format!("pair {i}: tables of {} bands and {} patches", g.bands.len(), g.patches.len()));
        }
        for (b, g) in g.bands.iter().enumerate() {
            same_number(&format!("pair {i}: similarity of band {b}"), g.0, w.fvnsim[b])?;
            same_number(&format!("pair {i}: frequency of band {b}"), g.1, w.freqs[b])?;
        }
        for (k, (g, w)) in g.patches.iter().zip(&w.patches).enumerate() {
            if g.0 != k {
                return Err(format!("pair {i}: patch {k} is called {}", g.0));
            }
            same_number(&format!("pair {i}: similarity of patch {k}"), g.1, w.similarity)?;
            for (n, a, b) in [("ref start", g.2 .0, w.ref_start), ("ref end", g.2 .1, w.ref_end), ("deg start", g.3 .0, w.deg_start), ("deg end", g.3 .1, w.deg_end)] {
                same_number(&format!("pair {i}: {n} of patch {k}"), a, b)?;
            }
        }
    }
    Ok(label(Info::new(true), c, want.len()))
}

/// Scores that another flag or radius would have changed.
fn matters(c: &Case) -> Outcome {
    let s = c.setup(&[]);
    let Ok(want) = c.library(&s) else { return Ok(Info::new(false)) };
    let mut d = c.clone();
    d.unscaled = !c.unscaled;
    d.model = None;
    d.radius = if c.radius.is_some() { None } else { Some(0) };
    let radius_matters = match library(c.mode, c.unscaled, d.radius.unwrap_or(60), &s.model, &s.found) {
        Ok(o) => o.iter().zip(&want).any(|(a, b)| a.mos != b.mos),
        Err(_) => true,
    };
    let said = call(&s.dir.0, &s.args);
    let got = said.reports()?;
    if said.code != Some(0) || got.len() != want.len() {
        return Err(format!("{} scores for {} pairs: {}", got.len(), want.len(), said.brief()));
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        same_number(&format!("pair {i}: MOS"), g.mos, w.mos)?;
    }
    Ok(label(Info::new(radius_matters).when(radius_matters, "the radius decides"), c, want.len()))
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "pairs",
        "generated wav files compared one pair or a csv batch at a time, with any options, names and csv layout; every number on the console against the library's on the same files; non-trivial: every case",
        600,
        20_000,
        || case(4),
        agrees,
    );
    c.facet(
        "radius",
        "as pairs, with heavily cut and stretched signals; non-trivial: the library scores otherwise with another radius",
        250,
        6000,
        || {
            let radius = prop_oneof![2 => 0usize..3, 1 => prop::sample::select(vec![16usize, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 65_535, 65_536, 1 << 31, 1 << 32, 1 << 62])];
            (case(1), strained(Mode::Wideband), strained(Mode::Fullband), radius).prop_map(|(mut c, w, f, radius)| {
                c.batch = false;
                c.clips = vec![if c.mode == Mode::Wideband { w } else { f }];
                c.rows = vec![(0, 0)];
                if c.radius.is_some() {
                    c.radius = Some(radius);
                }
                c
            })
        },
        matters,
    );
    c.facet("long", "one recording of 30..120 patches, in verbose mode, every number against the library's; non-trivial: every case", 27, 500, long, agrees);
    c.facet("many", "batches of 8..50 rows, every number against the library's; non-trivial: every case", 20, 500, || many(50), agrees);
    c.finish("exploration", super::BASE)
}

fn long() -> impl Strategy<Value = Case> {
    (case(1), 30usize..120, crate::gen::sig(1..=1), prop::collection::vec(crate::gen::deg(), 0..2), 0usize..2).prop_map(|(mut c, patches, mut sig, deg, radius)| {
        sig.n = crate::model::samples_for_frames(crate::pair::min_frames(c.mode) + patches * c.mode.patch(), 8000);
        c.clips = vec![Clip { sig, deg }];
        c.rows = vec![(0, 0)];
        c.radius = Some(radius);
        c.verbose = true;
        c
    })
}

/// Batches of many rows over few recordings.
pub fn many(rows: usize) -> impl Strategy<Value = Case> {
    (case(3), prop::collection::vec((0usize..8, 0usize..8).prop_map(|(a, b)| if b < 5 { (a, a) } else { (a, b) }), 8..=rows)).prop_map(|(mut c, rows)| {
        for clip in &mut c.clips {
            clip.deg.truncate(1);
        }
        c.rows = rows;
        c.batch = true;
        c.radius = c.radius.map(|r| r % 3).or(Some(1));
        c
    })
}
