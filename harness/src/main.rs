//! vh PROPERTY            runs the property's check (VERIF_SEED, VERIF_TIER)
//! vh replay FILE         runs one recorded case again
//! vh list                lists the properties
//!
//! The check itself runs in a child process, so that a case that kills the
//! process (stack overflow, abort) or never returns still ends in a verdict.

mod cli;
mod gen;
mod model;
mod pair;
mod real;
mod props;
mod run;
mod sut;
mod wav;

use run::{Ctx, Purpose};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

/// No case takes more than a few seconds.
const STUCK: Duration = Duration::from_secs(150);
const EXIT_STUCK: i32 = 9;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let code = match a(1) {
        "list" => {
            for (id, ..) in props::ALL {
                println!("{id}");
            }
            0
        }
        "--history" => {
            props::c04::replay_history();
            0
        }
        "--child" => child(a(2), Purpose::Explore),
        "--child-replay" => {
            let v = read_case(a(2));
            child(v["property"].as_str().unwrap_or(""), Purpose::Replay { facet: v["facet"].as_str().unwrap_or("").into(), case: v["case"].clone() })
        }
        "replay" => match replay_apart(a(2)) {
            Replayed::Held => {
                println!("replay: the case passes");
                0
            }
            Replayed::Fails(why) => {
                println!("replay: {why}");
                1
            }
            Replayed::NoAnswer => 3,
        },
        id => parent(id),
    };
    std::process::exit(code)
}

fn read_case(path: &str) -> serde_json::Value {
    serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file")
}

fn child(id: &str, purpose: Purpose) -> i32 {
    let Some((_, f)) = props::ALL.iter().find(|p| p.0 == id) else {
        eprintln!("no property {id}");
        return 3;
    };
    std::panic::set_hook(Box::new(|_| {}));
    let ctx = Ctx::new(id, seed(), thorough(), purpose);
    let dropped = std::fs::read_to_string(run::root().join("harness/target/dropped")).unwrap_or_default();
    if !dropped.trim().is_empty() {
        ctx.note(format!("hook groups that do not compile with this tree, whose facets were left out: {}", dropped.split_whitespace().collect::<Vec<_>>().join(" ")));
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        if let Some(case) = run::slots::stuck(STUCK) {
            if let Ok(dir) = std::env::var("VH_SLOTS") {
                let _ = std::fs::write(format!("{dir}/stuck.json"), case.to_string());
            }
            std::process::exit(EXIT_STUCK);
        }
    });
    let code = f(ctx);
    sut::scratch_cleanup();
    code
}

enum Replayed {
    Held,
    Fails(String),
    NoAnswer,
}

/// Ended by a signal that the program brought on itself.
fn crashed(s: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    s.signal().filter(|n| [4, 6, 7, 8, 11].contains(n))
}

fn spawn(args: &[&str], slots: &std::path::Path) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap()).args(args).env("VH_SLOTS", slots).stdin(Stdio::null()).spawn().expect("child")
}

/// One case in a process of its own.
fn replay_apart(path: &str) -> Replayed {
    let dir = SlotDir::new();
    let mut c = spawn(&["--child-replay", path], &dir.0);
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > STUCK {
            let _ = c.kill();
            let _ = c.wait();
            return Replayed::Fails(format!("no result after {} s", STUCK.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    match status.code() {
        Some(0) => Replayed::Held,
        Some(1) => Replayed::Fails("the case still fails".into()),
        _ => match crashed(&status) {
            Some(n) => Replayed::Fails(format!("the process is killed by signal {n}")),
            None => Replayed::NoAnswer,
        },
    }
}

struct SlotDir(std::path::PathBuf);
impl SlotDir {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vh-slots-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("slot directory");
        SlotDir(p)
    }
}
impl Drop for SlotDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn parent(id: &str) -> i32 {
    let dir = SlotDir::new();
    let mut c = spawn(&["--child", id], &dir.0);
    let status = c.wait().expect("child");
    let _ = std::fs::remove_dir_all(sut::scratch_of(c.id()));
    if let Some(code @ (0 | 1 | 3)) = status.code() {
        return code;
    }
    // A crash or a hang: try the cases that were running one by one.
    eprintln!("{id}: the check ended with {status}");
    let mut files: Vec<_> = std::fs::read_dir(&dir.0).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    if dir.0.join("stuck.json").exists() {
        files = vec![dir.0.join("stuck.json")];
    }
    files.sort();
    for f in files {
        if let Replayed::Fails(why) = replay_apart(f.to_str().unwrap()) {
            let p = run::write_replay(read_case(f.to_str().unwrap()), &why);
            println!("{id}: {why}");
            println!("VIOLATION property={id} replay={}", p.display());
            run::write_aborted_evidence(id, seed(), thorough(), &why);
            return 1;
        }
    }
    eprintln!("{id}: no single case reproduces that");
    3
}
