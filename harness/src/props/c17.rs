//! The result and debug files hold every result, in order, in their formats.

use super::c16::{case, many, Case};
use crate::cli::*;
use crate::pair::all_close;
use crate::run::*;
use crate::sut::Res;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// Calls that write to the same files, one after the other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    calls: Vec<Call>,
    /// What the files hold beforehand.
    csv: Option<String>,
    json: u8,
}
impl History {
    fn debug_before(&self) -> Option<Vec<u8>> {
        match self.json {
            0 => None,
            1 => Some(b"{\"earlier\": [1, 2]}\n".to_vec()),
            2 => Some(b"{\"moslqo\": 3}".to_vec()),
            3 => Some(b"[1,\n".to_vec()),
            4 => Some(vec![0xff, 0xfe, 0, b'x', 0xc3, b'\r', b'\n']),
            5 => Some(vec![]),
            _ => Some(b"{\"earlier\": [1, 2]}\r\n".repeat(9000)),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    case: Case,
    csv: bool,
    json: bool,
    /// The first file is missing.
    broken: bool,
}

fn numbers(v: &Value, key: &str) -> Result<Vec<f64>, String> {
    v[key].as_array().and_then(|a| a.iter().map(Value::as_f64).collect()).ok_or(format!("{key}: not a list of numbers: {}", v[key]))
}
fn number(v: &Value, key: &str) -> Result<f64, String> {
    v[key].as_f64().ok_or(format!("{key}: not a number: {}", v[key]))
}

pub fn same_json(v: &Value, w: &Res) -> Result<(), String> {
    same_number("moslqo", number(v, "moslqo")?, w.mos)?;
    same_number("vnsim", number(v, "vnsim")?, w.vnsim)?;
    for (k, x) in [("fvnsim", &w.fvnsim), ("fstdnsim", &w.fstdnsim), ("fvdegenergy", &w.fvdegenergy), ("center_freq_bands", &w.freqs)] {
        all_close(k, &numbers(v, k)?, x, 1e-12)?;
    }
    let p = v["patch_sims"].as_array().ok_or("no patch_sims")?;
    if p.len() != w.patches.len() {
        return Err(format!("{} patches, expected {}", p.len(), w.patches.len()));
    }
    for (p, w) in p.iter().zip(&w.patches) {
        for (k, x) in [("freq_band_means", &w.means), ("freq_band_stddevs", &w.stds), ("freq_band_deg_energy", &w.energy)] {
            all_close(k, &numbers(p, k)?, x, 1e-12)?;
        }
        for (k, x) in [
            ("similarity", w.similarity),
            ("ref_patch_start_time", w.ref_start),
            ("ref_patch_end_time", w.ref_end),
            ("deg_patch_start_time", w.deg_start),
            ("deg_patch_end_time", w.deg_end),
        ] {
            same_number(k, number(p, k)?, x)?;
        }
    }
    Ok(())
}

fn documents(text: &str) -> Result<Vec<Value>, String> {
    serde_json::Deserializer::from_str(text).into_iter::<Value>().collect::<Result<_, _>>().map_err(|e| format!("debug file: {e}"))
}

fn check_csv(text: &str, named: &[(String, String)], want: &[Res]) -> Result<(), String> {
    let rec = csv_records(text)?;
    if rec.first().map(|r| r.join("|")) != Some("reference|degraded|moslqo".into()) {
        return Err(format!("results file: header {:?}", rec.first()));
    }
    if rec.len() - 1 != want.len() {
        return Err(format!("results file: {} rows for {} pairs", rec.len() - 1, want.len()));
    }
    for (i, r) in rec[1..].iter().enumerate() {
        if r.len() != 3 || r[0] != named[i].0 || r[1] != named[i].1 {
            return Err(format!("results file: row {i} is {r:?}, expected {:?}", named[i]));
        }
        let m = r[2].parse::<f64>().map_err(|_| format!("results file: score {:?}", r[2]))?;
        same_number(&format!("results file: score {i}"), m, want[i].mos)?;
    }
    Ok(())
}

fn files(h: &History) -> Outcome {
    let shared = Dir::new();
    let csv = shared.at("all results, \"1\".csv").to_str().unwrap().to_string();
    let json = shared.at("debug.json").to_str().unwrap().to_string();
    if let Some(t) = &h.csv {
        std::fs::write(&csv, t).unwrap();
    }
    let before = h.debug_before();
    if let Some(b) = &before {
        std::fs::write(&json, b).unwrap();
    }
    let before = before.unwrap_or_default().len();
    let mut expected: Vec<Res> = vec![];
    let (mut several, mut ok_calls, mut replaced) = (false, 0, false);
    for (n, call_) in h.calls.iter().enumerate() {
        let mut outputs = vec![];
        if call_.csv {
            outputs.push(("results_csv", csv.as_str()));
        }
        if call_.json {
            outputs.push(("output_debug", json.as_str()));
        }
        let s = call_.case.setup(&outputs);
        if call_.broken {
            std::fs::remove_file(&s.found.last().unwrap().0).unwrap();
        }
        let old = (std::fs::read_to_string(&csv).ok(), std::fs::read(&json).ok());
        let said = call(&s.dir.0, &s.args);
        let want = call_.case.library(&s);
        let new = (std::fs::read_to_string(&csv).ok(), std::fs::read(&json).ok());
        let want = match want {
            Err(e) => {
                if said.code == Some(0) {
                    return Err(format!("call {n}: the library refuses a pair ({e}), the tool: {}", said.brief()));
                }
                if old != new {
                    return Err(format!("call {n}: a failed call changed an output file"));
                }
                continue;
            }
            Ok(w) => w,
        };
        if said.code != Some(0) {
            return Err(format!("call {n}: {}", said.brief()));
        }
        ok_calls += 1;
        several |= want.len() > 1;
        if call_.csv {
            replaced |= old.0.is_some();
            check_csv(new.0.as_deref().ok_or("no results file")?, &s.named, &want).map_err(|e| format!("call {n}: {e}"))?;
        } else if old.0 != new.0 {
            return Err(format!("call {n}: the results file changed"));
        }
        if call_.json {
            expected.extend(want);
            let text = new.1.ok_or("no debug file")?;
            let old = old.1.unwrap_or_default();
            if !text.starts_with(&old) {
                return Err(format!("call {n}: the earlier content of the debug file is gone"));
            }
            let added = std::str::from_utf8(&text[before..]).map_err(|e| format!("call {n}: debug file: {e}"))?;
            let docs = documents(added)?;
            if docs.len() != expected.len() {
                return Err(format!("call {n}: {} results in the debug file, expected {}", docs.len(), expected.len()));
            }
            for (i, (v, w)) in docs.iter().zip(&expected).enumerate() {
                same_json(v, w).map_err(|e| format!("call {n}: debug file, result {i}: {e}"))?;
            }
        } else if old.1 != new.1 {
            return Err(format!("call {n}: the debug file changed"));
        }
        if !call_.csv && !call_.json {
            let extra = std::fs::read_dir(&shared.0).unwrap().count();
            if extra > 2 {
                return Err("files that nobody asked for".into());
            }
        }
    }
    Ok(Info::new(ok_calls > 0 && h.calls.iter().any(|c| c.csv || c.json))
        .when(several, "several pairs in one call")
        .when(ok_calls > 1 && expected.len() > 1, "appended over calls")
        .when(replaced, "results file replaced")
        .when(before > 0, "a debug file beforehand")
        .when(h.calls.iter().any(|c| c.broken), "a failing call")
        .when(h.calls.iter().any(|c| c.csv && c.json), "both files"))
}

fn history() -> impl Strategy<Value = History> {
    let call = (case(3), prop::bool::weighted(0.7), prop::bool::weighted(0.7), prop::bool::weighted(0.1)).prop_map(|(case, csv, json, broken)| Call { case, csv, json, broken });
    let old = prop_oneof![3 => Just(None), 1 => Just(Some("old\n".to_string())), 1 => Just(Some("reference,degraded,moslqo\na,b,1\nc,d,2\ne,f,3\ng,h,4\n".repeat(20)))];
    (prop::collection::vec(call, 1..4), old, prop_oneof![4 => Just(0u8), 4 => 1u8..7]).prop_map(|(calls, csv, json)| History { calls, csv, json })
}

pub fn run(c: Ctx) -> i32 {
    c.facet(
        "histories",
        "one to three calls of the tool on generated files that share a results and a debug file, some failing; both files after every call against the library's results; non-trivial: a call succeeded and one was to write a file",
        500,
        14_000,
        history,
        files,
    );
    c.facet(
        "many",
        "a call with a batch of 8..50 rows, then one with a single pair; both files against the library's results; non-trivial: a call succeeded and one was to write a file",
        20,
        500,
        || {
            let call = |case| Call { case, csv: true, json: true, broken: false };
            (many(50), case(1)).prop_map(move |(a, b)| History { calls: vec![call(a), call(b)], csv: None, json: 0 })
        },
        files,
    );
    c.finish("exploration", super::BASE)
}
