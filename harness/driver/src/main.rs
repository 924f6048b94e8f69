//! Conformance driver: replays the behaviours `quint run` generated from the specifications
//! against the real crates of /repo, comparing every observable after every step.
//!
//!   driver replay <module> --out summary.json --work dir [--limit secs] [--threads n] traces...
mod circom;
mod itf;
mod mods;
mod util;

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What one module does with one trace.
pub trait Module {
    /// the first state of a trace
    fn start(&mut self, _state: &Value) -> R {
        Ok(())
    }
    /// every later state; `state["last"]` says what happened
    fn step(&mut self, state: &Value) -> R;
}

pub struct Bad {
    /// names the disagreement independently of the values involved
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Bad>;
pub fn bad<T>(key: &str, msg: String) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg })
}

#[derive(Default)]
struct Stats {
    traces: u64,
    steps: u64,
    ops: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: BTreeMap<String, String>,
    bads: Vec<Value>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_else(|| "panic".into())
}

fn clip(x: String, n: usize) -> String {
    if x.len() <= n {
        return x;
    }
    let mut e = n;
    while !x.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} chars)", &x[..e], x.len())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 || args[1] != "replay" {
        eprintln!("usage: driver replay <module> --out F --work D [--limit S] [--threads N] traces...");
        std::process::exit(2);
    }
    let module = args[2].clone();
    let (mut out, mut work, mut limit, mut threads) = (String::new(), String::new(), 240u64, 8usize);
    let mut files = vec![];
    let mut it = args[3..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--out" => out = it.next().unwrap().clone(),
            "--work" => work = it.next().unwrap().clone(),
            "--limit" => limit = it.next().unwrap().parse().unwrap(),
            "--threads" => threads = it.next().unwrap().parse().unwrap(),
            _ => files.push(a.clone()),
        }
    }
    std::fs::create_dir_all(&work).unwrap();
    if std::env::var("DRIVER_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if mods::make(&module, &work).is_none() {
        eprintln!("unknown module {module}");
        std::process::exit(2);
    }
    let stats = Arc::new(Mutex::new(Stats::default()));
    let next = Arc::new(AtomicUsize::new(0));
    let files = Arc::new(files);
    let t0 = Instant::now();
    // per worker: event start in ms since t0 (0 = idle), file index, step
    let prog: Arc<Vec<(AtomicU64, AtomicUsize, AtomicUsize)>> = Arc::new(
        (0..threads).map(|_| (AtomicU64::new(0), AtomicUsize::new(0), AtomicUsize::new(0))).collect(),
    );
    let mut hs = vec![];
    for w in 0..threads {
        let (stats, next, files, prog, module, work) =
            (stats.clone(), next.clone(), files.clone(), prog.clone(), module.clone(), work.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let fi = next.fetch_add(1, Ordering::SeqCst);
            if fi >= files.len() {
                return;
            }
            let text = std::fs::read_to_string(&files[fi]).expect("trace file");
            let mut v: Value = serde_json::from_str(&text).expect("trace json");
            drop(text);
            // variables of module instances are qualified: keep the last part of the name
            for st in v["states"].as_array_mut().unwrap() {
                if let Value::Object(m) = st {
                    *m = std::mem::take(m).into_iter().map(|(k, x)| (k.rsplit("::").next().unwrap().to_string(), x)).collect();
                }
            }
            let wd = format!("{work}/w{w}");
            std::fs::create_dir_all(&wd).unwrap();
            let mut m = mods::make(&module, &wd).unwrap();
            let mut loc = Stats { traces: 1, ..Default::default() };
            for (k, st) in v["states"].as_array().unwrap().iter().enumerate() {
                let op = st["last"]["op"].as_str().unwrap_or("").to_string();
                prog[w].1.store(fi, Ordering::SeqCst);
                prog[w].2.store(k, Ordering::SeqCst);
                prog[w].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                // survives an abort of this process: says which event was being replayed
                let _ = std::fs::write(format!("{wd}/progress"), format!("{k} {}", files[fi]));
                // a file may hold several behaviours
                let first = k == 0 || op == "restart";
                if op == "restart" {
                    m = mods::make(&module, &wd).unwrap();
                    loc.traces += 1;
                }
                let r = catch_unwind(AssertUnwindSafe(|| if first { m.start(st) } else { m.step(st) }));
                prog[w].0.store(0, Ordering::SeqCst);
                if !first && op != "init" {
                    loc.steps += 1;
                    *loc.ops.entry(op.clone()).or_default() += 1;
                    let ev = itf::show(&st["last"]);
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    ev.hash(&mut h);
                    loc.distinct.insert(h.finish());
                    loc.samples.entry(op.clone()).or_insert_with(|| clip(ev, 300));
                }
                let b = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(b)) => b,
                    Err(e) => Bad { key: format!("panic:{op}"), msg: panic_text(e) },
                };
                loc.bads.push(json!({"key": b.key, "msg": clip(b.msg, 2000), "op": op, "step": k,
                    "trace": files[fi], "event": clip(itf::show(&st["last"]), 4000)}));
                // a known finding is a read-only observation: the trace goes on
                if !b.key.starts_with("obs:") {
                    break;
                }
                if loc.bads.len() > 200 {
                    break;
                }
            }
            let _ = std::fs::remove_file(format!("{wd}/progress"));
            let mut g = stats.lock().unwrap();
            g.traces += loc.traces;
            g.steps += loc.steps;
            for (k, n) in loc.ops {
                *g.ops.entry(k).or_default() += n;
            }
            g.distinct.extend(loc.distinct);
            for (k, x) in loc.samples {
                g.samples.entry(k).or_insert(x);
            }
            if g.bads.len() < 400 {
                g.bads.extend(loc.bads);
            }
        }).unwrap());
    }
    let write = |stats: &Stats| {
        let v = json!({"traces": stats.traces, "steps": stats.steps, "ops": stats.ops,
            "distinct": stats.distinct.len(), "samples": stats.samples, "bads": stats.bads});
        std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    };
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        let now = t0.elapsed().as_millis() as u64 + 1;
        for p in prog.iter() {
            let s = p.0.load(Ordering::SeqCst);
            if s != 0 && now > s + limit * 1000 {
                let mut g = stats.lock().unwrap();
                let (f, k) = (files[p.1.load(Ordering::SeqCst)].clone(), p.2.load(Ordering::SeqCst));
                g.bads.push(json!({"key": "hang", "msg": format!("no result after {limit} s"), "step": k, "trace": f}));
                write(&g);
                std::process::exit(0);
            }
        }
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker failed");
            std::process::exit(2);
        }
    }
    write(&stats.lock().unwrap());
}
