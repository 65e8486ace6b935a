//! Scoring is a pure function of the two signals and the settings.

use crate::gen::*;
use crate::model::{self, Mode};
use crate::pair::*;
use crate::run::*;
use crate::sut::{self, Answer, Mgr, TempFile};
use crate::wav;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    sr: u32,
    sig: Sig,
    deg: Vec<Deg>,
    /// Through 16-bit files instead of in memory.
    files: bool,
    /// Derived from an earlier operation: 1 the same reference, 2 the two
    /// signals swapped, 3 the same length and rate, 4 the same degraded signal,
    /// 5 both signals as long as that one's first, 6 the same signals at a
    /// neighbouring rate.
    like: Option<(u8, usize)>,
    /// Which of the two names each file goes by: the first's in bit 0, the
    /// second's in bit 1. With equal bits, a file is scored against itself.
    roles: u8,
    /// Which of the managers makes the comparison.
    by: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    mode: Mode,
    unscaled: bool,
    radius: usize,
    ops: Vec<Op>,
    /// The order in which a second manager sees the same operations.
    order: Vec<usize>,
    /// All files go by the same two names, and are overwritten.
    names: bool,
    /// Further managers.
    others: Vec<(Mode, bool, usize)>,
}
impl History {
    fn manager(&self, by: usize) -> Mgr {
        match by % (1 + self.others.len()) {
            0 => Mgr::new(self.mode, self.unscaled, self.radius),
            k => Mgr::new(self.others[k - 1].0, self.others[k - 1].1, self.others[k - 1].2),
        }
    }
    fn managers(&self) -> Vec<Mgr> {
        (0..1 + self.others.len()).map(|k| self.manager(k)).collect()
    }
    fn ready(&self) -> Vec<Ready> {
        let mut ready: Vec<Ready> = vec![];
        for o in &self.ops {
            let r = Ready::new(o, &ready);
            ready.push(r);
        }
        ready
    }
}

fn op(mode: Mode) -> impl Strategy<Value = Op> {
    let rate = prop_oneof![4 => Just(8000u32), 2 => Just(16000), 1 => Just(11025), 1 => Just(22050)];
    let like = prop_oneof![1 => Just(None), 1 => (1u8..7, 0usize..8).prop_map(Some)];
    // Shifts that differ along the signal need the search radius.
    let warp = (0.1..0.9f64, 100u32..1500, any::<bool>()).prop_map(|(at, n, cut)| if cut { Deg::Cut { at, n } } else { Deg::Stuff { at, n } });
    let degs = prop_oneof![3 => prop::collection::vec(deg(), 0..3).boxed(), 1 => prop::collection::vec(warp, 1..4).boxed()];
    let roles = prop_oneof![3 => Just(2u8), 1 => Just(1), 1 => prop::sample::select(vec![0u8, 3])];
    (rate, prop_oneof![8 => Just(0u8), 1 => Just(1), 1 => Just(2)], any::<bool>(), degs, like, roles, 0usize..6).prop_flat_map(
        move |(sr, short, files, deg, like, roles, by)| {
            let n = match short {
                0 => model::samples_for_frames(min_frames(mode), sr)..=model::samples_for_frames(min_frames(mode) + mode.patch() + 5, sr),
                1 => model::samples_for_frames(3, sr)..=model::samples_for_frames(min_frames(mode) - 1, sr),
                _ => 1..=model::samples_for_frames(3, sr),
            };
            prop_oneof![3 => sig(n.clone()).boxed(), 1 => wild_sig(n).boxed()]
                .prop_map(move |sig| Op { sr, sig, deg: deg.clone(), files, like, roles, by })
        },
    )
}

fn history() -> impl Strategy<Value = History> {
    let others = prop_oneof![2 => Just(vec![]).boxed(), 1 => prop::collection::vec((modes(), any::<bool>(), 0usize..4), 1..3).boxed()];
    (modes(), any::<bool>(), radius(), prop::bool::weighted(0.6), others).prop_flat_map(|(mode, unscaled, radius, names, others)| {
        let longest = if others.is_empty() { mode } else { Mode::Fullband };
        prop::collection::vec(op(longest), 2..6).prop_flat_map(move |ops| {
            let idx: Vec<usize> = (0..ops.len()).collect();
            let others = others.clone();
            (Just(ops), Just(idx).prop_shuffle())
                .prop_map(move |(ops, order)| History { mode, unscaled, radius, ops, order, names, others: others.clone() })
        })
    })
}

struct Ready {
    x: Vec<f64>,
    y: Vec<f64>,
    sr: u32,
    /// The contents of the two files.
    files: Option<(Vec<u8>, Vec<u8>)>,
    roles: u8,
    by: usize,
}
impl Ready {
    fn new(op: &Op, earlier: &[Ready]) -> Ready {
        let mut sr = op.sr;
        let mut x = op.sig.samples(sr);
        let mut y = degrade(&x, &op.deg);
        if let (Some((how, i)), false) = (op.like, earlier.is_empty()) {
            let e = &earlier[i % earlier.len()];
            sr = e.sr;
            match how {
                1 => {
                    x = e.x.clone();
                    y = degrade(&x, &op.deg);
                }
                2 => (x, y) = (e.y.clone(), e.x.clone()),
                3 => {
                    let n = e.x.len();
                    x = Sig { n, ..op.sig.clone() }.samples(sr);
                    y = degrade(&x, &op.deg);
                    y.resize(e.y.len(), 0.0);
                }
                5 => {
                    x = Sig { n: e.x.len(), ..op.sig.clone() }.samples(sr);
                    y = degrade(&x, &op.deg);
                    y.resize(x.len(), 0.0);
                }
                6 => {
                    (x, y) = (e.x.clone(), e.y.clone());
                    sr = e.sr + 1 + (op.sig.seed % 997).min(op.sig.seed >> 16 & 1023);
                }
                _ => {
                    y = e.y.clone();
                    x = Sig { n: e.x.len(), ..op.sig.clone() }.samples(sr);
                }
            }
        }
        if op.files && op.roles % 3 == 0 {
            y = x.clone();
        }
        let files = op.files.then(|| (wav::pcm16(sr, 1, &wav::to_i16(&x)), wav::pcm16(sr, 1, &wav::to_i16(&y))));
        Ready { x, y, sr, files, roles: op.roles, by: op.by }
    }
    fn perform(&self, m: &mut Mgr, names: Option<&(TempFile, TempFile)>) -> Answer {
        match (&self.files, names) {
            (Some((a, b)), Some(names)) => {
                let pick = |bit: u8| if self.roles & bit == 0 { &names.0 } else { &names.1 };
                let (f, g) = (pick(1), pick(2));
                std::fs::write(&f.0, a).and_then(|_| std::fs::write(&g.0, b)).expect("scratch file");
                m.run(f.path(), g.path())
            }
            (Some((a, b)), None) => m.run(TempFile::with("wav", a).path(), TempFile::with("wav", b).path()),
            _ => m.score(&self.x, self.sr, &self.y, self.sr),
        }
    }
}

fn reuse(h: &History) -> Outcome {
    let ready = h.ready();
    // In a thread and under names of their own.
    let alone: Vec<Answer> =
        std::thread::scope(|s| ready.iter().map(|r| s.spawn(|| r.perform(&mut h.manager(r.by), None)).join().unwrap()).collect());
    let names = h.names.then(|| (TempFile::new("wav"), TempFile::new("wav")));
    let names = names.as_ref();
    let mut m = h.managers();
    let k = m.len();
    for (i, r) in ready.iter().enumerate() {
        let a = r.perform(&mut m[r.by % k], names);
        if !a.same(&alone[i]) {
            return Err(format!("operation {i} on a used manager: {}; on a fresh one: {}", a.brief(), alone[i].brief()));
        }
    }
    for i in h.order.iter().chain(&[0]) {
        let r = &ready[*i];
        let a = r.perform(&mut m[r.by % k], names);
        if !a.same(&alone[*i]) {
            return Err(format!("operation {i} repeated later: {}; on a fresh manager: {}", a.brief(), alone[*i].brief()));
        }
    }
    let scored = alone.iter().filter(|a| matches!(a, Answer::Scored(_))).count();
    let rates: std::collections::BTreeSet<u32> = h.ops.iter().map(|o| o.sr).collect();
    Ok(Info::new(scored > 1)
        .label(format!("{:?}", h.mode))
        .when(scored < alone.len(), "with a refused pair")
        .when(rates.len() > 1, "several sample rates")
        .when(h.ops.iter().skip(1).any(|o| o.like.is_some()), "related operations")
        .when(!h.others.is_empty(), "several managers")
        .when(h.names && h.ops.iter().filter(|o| o.files).count() > 1, "files overwritten")
        .when(h.ops.iter().any(|o| o.files), "with files"))
}

/// The operations as a process of its own, with their files under few names;
/// or only one of them.
#[derive(Serialize, Deserialize)]
struct Apart {
    history: History,
    names: [String; 2],
    only: Option<usize>,
}

pub fn replay_history() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Apart = serde_json::from_reader(std::io::stdin()).expect("a history");
    let h = a.history;
    let [f, g] = a.names;
    let names = std::mem::ManuallyDrop::new((TempFile(f.into()), TempFile(g.into())));
    let ready = h.ready();
    let answers: Vec<Answer> = match a.only {
        Some(i) => vec![ready[i].perform(&mut h.manager(ready[i].by), Some(&names))],
        None => {
            let mut m = h.managers();
            let k = m.len();
            ready.iter().map(|r| r.perform(&mut m[r.by % k], Some(&names))).collect()
        }
    };
    println!("{}", serde_json::to_string(&answers).unwrap());
    sut::scratch_cleanup();
}

fn in_process(history: &History, only: Option<usize>) -> Result<Vec<Answer>, String> {
    let names = (TempFile::new("wav"), TempFile::new("wav"));
    let input = Apart { history: history.clone(), names: [names.0.path().into(), names.1.path().into()], only };
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--history")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("child");
    serde_json::to_writer(child.stdin.take().unwrap(), &input).expect("child's input");
    let out = child.wait_with_output().expect("child's output");
    // Numbers pass through text, which keeps them exactly.
    let got: Vec<Answer> = serde_json::from_slice(&out.stdout).map_err(|_| format!("a history in a process of its own ends with {}", out.status))?;
    let expected = if only.is_some() { 1 } else { history.ops.len() };
    if got.len() != expected {
        return Err(format!("{} answers to {expected} comparisons", got.len()));
    }
    Ok(got)
}

fn apart(h: &History) -> Outcome {
    let got = in_process(h, None)?;
    let mut alone = vec![];
    for (i, a) in got.iter().enumerate() {
        let b = in_process(h, Some(i))?.remove(0);
        if !a.same(&b) {
            return Err(format!("operation {i} after others in one process: {}; in a process of its own: {}", a.brief(), b.brief()));
        }
        alone.push(b);
    }
    Ok(Info::new(alone.iter().filter(|a| matches!(a, Answer::Scored(_))).count() > 1)
        .label(format!("{:?}", h.mode))
        .when(!h.others.is_empty(), "several managers")
        .when(h.ops.iter().all(|o| o.files), "all from files"))
}

/// Many short comparisons of related signals on one manager.
fn many() -> impl Strategy<Value = History> {
    (modes(), any::<bool>(), 0usize..3, 12usize..90).prop_flat_map(|(mode, unscaled, radius, k)| {
        let one = (op(mode), 0usize..90).prop_map(move |(mut o, i)| {
            let least = model::samples_for_frames(min_frames(mode), 8000);
            o.sr = if o.sr == 22050 { 11025 } else { 8000 };
            o.sig.n = o.sig.n.min(least + o.sig.n % 400);
            o.deg.truncate(1);
            o.files &= i % 4 == 0;
            o.like = o.like.map(|(how, _)| (how, i));
            o
        });
        (prop::collection::vec(one, k), prop::collection::vec(0..k, 0..6))
            .prop_map(move |(ops, order)| History { mode, unscaled, radius, ops, order, names: false, others: vec![] })
    })
}

fn overwritten() -> impl Strategy<Value = History> {
    (modes(), any::<bool>(), 0usize..4).prop_flat_map(|(mode, unscaled, radius)| {
        let one = (op(mode), prop::bool::weighted(0.85)).prop_map(|(mut o, like)| {
            o.files = true;
            o.deg.truncate(1);
            o.like = like.then_some((5, 0));
            o
        });
        prop::collection::vec(one, 3..6).prop_map(move |ops| History { mode, unscaled, radius, ops, order: vec![], names: true, others: vec![] })
    })
}

/// Files and memory, several threads, and the files themselves.
fn routes(p: &Pair) -> Outcome {
    let (x, y) = p.audio();
    let (xi, yi) = (wav::to_i16(&x), wav::to_i16(&y));
    let (xb, yb) = (wav::pcm16(p.sr, 1, &xi), wav::pcm16(p.sr, 1, &yi));
    let (a, b) = (TempFile::with("wav", &xb), TempFile::with("wav", &yb));
    let back = |v: &[i16]| v.iter().map(|s| *s as f64 / 32767.0).collect::<Vec<f64>>();
    let fresh = || Mgr::new(p.mode, false, p.radius);
    let memory = fresh().score(&back(&xi), p.sr, &back(&yi), p.sr);
    let file = fresh().run(a.path(), b.path());
    if !memory.same(&file) {
        return Err(format!("from files: {}; from memory: {}", file.brief(), memory.brief()));
    }
    let many: Vec<Answer> = std::thread::scope(|s| {
        let t: Vec<_> = (0..3).map(|_| s.spawn(|| fresh().run(a.path(), b.path()))).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    if let Some(o) = many.iter().find(|o| !o.same(&file)) {
        return Err(format!("in parallel: {}; alone: {}", o.brief(), file.brief()));
    }
    if std::fs::read(&a.0).ok() != Some(xb) || std::fs::read(&b.0).ok() != Some(yb) {
        return Err("the input files were changed".into());
    }
    Ok(Info::new(matches!(file, Answer::Scored(_))).label(format!("{:?}", p.mode)))
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "histories",
        "2..5 comparisons (mixed rates, files and memory, some refused) on one manager, then again in another order, against fresh managers, partly with signals or lengths of earlier ones or files of the same names, compared bit for bit; non-trivial: at least two were scored",
        220,
        8000,
        history,
        reuse,
    );
    c.facet(
        "many",
        "12..90 short comparisons on one manager, some of them again, as histories; non-trivial: at least two were scored",
        40,
        1500,
        many,
        reuse,
    );
    c.facet(
        "overwritten",
        "3..5 comparisons of files, most of the same size, that overwrite each other under two names in changing roles, in one process, against processes of their own, bit for bit; non-trivial: at least two were scored",
        200,
        8000,
        overwritten,
        apart,
    );
    c.facet(
        "processes",
        "histories in one process, with one to three managers, against processes of their own, bit for bit; non-trivial: at least two were scored",
        150,
        8000,
        history,
        apart,
    );
    c.facet(
        "routes",
        "one pair from files, from memory and from three threads at once, compared bit for bit; non-trivial: scored",
        200,
        6000,
        || prop_oneof![3 => pair(2).boxed(), 1 => wild_pair(2).boxed()],
        routes,
    );
    c.finish("exploration", super::BASE)
}
