//! Bounded search for a concrete input on which the crate and the reference disagree, and replay
//! of one such input.  A case is a function of (property, seed, index), so it can be repeated.
//!
//!   replay search PROP --seed N --secs N --out FILE     exit 0: nothing found, 1: found (FILE)
//!   replay run FILE                                     exit 1 if it still fails
//!   replay selftest
mod rng; mod val; mod sem; mod flat; mod gen; mod text; mod peg; mod cases;
use std::cell::RefCell;
use std::io::{Seek, SeekFrom, Write};
use std::panic;
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Out { Pass, Skip, Fail { expected: String, got: String } }
thread_local! {
    static NOTE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
    static LAST: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) };
}
thread_local! { static OURS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static DESCRIBE: AtomicBool = AtomicBool::new(false);
/// What is about to be tried; only kept when a failing case is being described.
pub fn note(key: &str, f: impl FnOnce() -> String) {
    if !DESCRIBE.load(SeqCst) { return; }
    let v = f();
    NOTE.with(|n| if let Some(h) = n.borrow_mut().as_mut() {
        let _ = writeln!(h, "{}", serde_json::json!([key, v]));
        let _ = h.flush();
    });
    LAST.with(|l| l.borrow_mut().push((key.into(), v)));
}
fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into())
}
const STACK: usize = 64 << 20;
const HANG: u64 = 20;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a),
        Some("worker") => worker(&a),
        Some("one") => one(&a),
        Some("run") => run(&a[2]),
        Some("survey") => survey(&a),
        _ => { eprintln!("usage: replay search|run"); exit(2) }
    }
}
/// Run one case on a big stack; a panic is a failure of the case.
fn guarded(prop: &str, seed: u64, idx: u64) -> Out {
    match panic::catch_unwind(|| cases::case(prop, seed, idx)) {
        Ok(o) => o,
        Err(_) if OURS.with(|o| o.get()) => { note("internal error", || "the search itself panicked".into()); Out::Skip }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Fail { expected: "a result".into(), got: format!("panic: {}", m) }
        }
    }
}
fn worker(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let secs: f64 = arg(a, "--secs", "5").parse().unwrap();
    let first: u64 = arg(a, "--first", "0").parse().unwrap();
    let dir = arg(a, "--dir", "/nonexistent");
    let n: u64 = arg(a, "--threads", "8").parse().unwrap();
    panic::set_hook(Box::new(|i| OURS.with(|o| o.set(i.location().map_or(false, |l| l.file().starts_with("src/"))))));
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, String, String)>>> = Arc::new(Mutex::new(None));
    let done: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let skip: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
    let began: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let cur: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let mut hs = vec![];
    for t in 0..n {
        let (prop, stop, found, done, skip, began, cur, dir) = (prop.clone(), stop.clone(), found.clone(), done.clone(), skip.clone(), began.clone(), cur.clone(), dir.clone());
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let mut f = std::fs::File::create(format!("{}/at{}", dir, t)).unwrap();
            let mut idx = first + t;
            while !stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs {
                f.seek(SeekFrom::Start(0)).unwrap();
                f.write_all(format!("{:020}", idx).as_bytes()).unwrap();
                cur[t as usize].store(idx, SeqCst);
                began[t as usize].store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                match guarded(&prop, seed, idx) {
                    Out::Pass => {}
                    Out::Skip => { skip.fetch_add(1, SeqCst); }
                    Out::Fail { expected, got } => {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map_or(true, |x| x.0 > idx) { *g = Some((idx, expected, got)); }
                        stop.store(true, SeqCst);
                    }
                }
                began[t as usize].store(0, SeqCst);
                done[t as usize].fetch_add(1, SeqCst);
                idx += n;
            }
            began[t as usize].store(0, SeqCst);
            f.seek(SeekFrom::Start(0)).unwrap();
            f.write_all(b"-                   ").unwrap();
        }).unwrap());
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        for t in 0..n as usize {
            let b = began[t].load(SeqCst);
            if b != 0 && now > b + HANG * 1000 {
                let mut g = found.lock().unwrap();
                if g.is_none() { *g = Some((cur[t].load(SeqCst), "a result".into(), format!("no result after {} s", HANG))); }
                report(&dir, &g, &done, &skip);
                exit(0);
            }
        }
    }
    let g = found.lock().unwrap();
    report(&dir, &g, &done, &skip);
    exit(0);
}
fn report(dir: &str, g: &Option<(u64, String, String)>, done: &[AtomicU64], skip: &AtomicU64) {
    let d: u64 = done.iter().map(|x| x.load(SeqCst)).sum();
    let j = serde_json::json!({"done": d, "skipped": skip.load(SeqCst), "fail": g.as_ref().map(|(i, e, x)| serde_json::json!({"idx": i, "expected": e, "got": x}))});
    std::fs::write(format!("{}/report", dir), j.to_string()).unwrap();
}
/// Run one case in this process, writing notes; used in a child.
fn one(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let idx: u64 = a[4].parse().unwrap();
    let file = a[5].clone();
    panic::set_hook(Box::new(|i| OURS.with(|o| o.set(i.location().map_or(false, |l| l.file().starts_with("src/"))))));
    DESCRIBE.store(true, SeqCst);
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        NOTE.with(|n| *n.borrow_mut() = std::fs::File::create(&file).ok());
        let o = guarded(&prop, seed, idx);
        match o {
            Out::Fail { expected, got } => { note("expected", || expected); note("got", || got); 1 }
            _ => 0,
        }
    }).unwrap();
    exit(h.join().unwrap_or(3));
}
fn tmpdir() -> String {
    let d = format!("{}/replay-{}-{}", std::env::temp_dir().display(), std::process::id(), Instant::now().elapsed().as_nanos());
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// Some(description) if the case fails.
fn describe(prop: &str, seed: u64, idx: u64) -> Option<serde_json::Value> {
    let d = tmpdir();
    let f = format!("{}/notes", d);
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["one", prop, &seed.to_string(), &idx.to_string(), &f])
        .stderr(std::process::Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() { break Some(s); }
        if t.elapsed().as_secs() > 3 * HANG { let _ = c.kill(); let _ = c.wait(); break None; }
        std::thread::sleep(Duration::from_millis(10));
    };
    let mut m = serde_json::Map::new();
    for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
        if let Ok(serde_json::Value::Array(v)) = serde_json::from_str(l) { m.insert(v[0].as_str().unwrap_or("").into(), v[1].clone()); }
    }
    let _ = std::fs::remove_dir_all(&d);
    let code = status.map(|s| s.code());
    match code {
        Some(Some(0)) => return None,
        Some(Some(1)) => {}
        Some(_) => { m.insert("expected".into(), "a result".into()); m.insert("got".into(), "the process was ended (stack overflow or abort)".into()); }
        None => { m.insert("expected".into(), "a result".into()); m.insert("got".into(), format!("no result after {} s", HANG).into()); }
    }
    m.insert("property".into(), prop.into());
    m.insert("seed".into(), seed.into());
    m.insert("index".into(), idx.into());
    Some(m.into())
}
fn search(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let secs: f64 = arg(a, "--secs", "5").parse().unwrap();
    let out = arg(a, "--out", "/dev/null");
    let threads = arg(a, "--threads", "8");
    let d = tmpdir();
    let start = Instant::now();
    let mut first = 0u64;
    let (mut done, mut skipped) = (0u64, 0u64);
    let mut fail = None;
    while start.elapsed().as_secs_f64() < secs {
        let left = (secs - start.elapsed().as_secs_f64()).max(0.5);
        let _ = std::fs::remove_file(format!("{}/report", d));
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["worker", &prop, "--seed", &seed.to_string(), "--secs", &left.to_string(), "--first", &first.to_string(), "--dir", &d, "--threads", &threads])
            .stderr(std::process::Stdio::null()).status().unwrap();
        if let Ok(r) = std::fs::read_to_string(format!("{}/report", d)) {
            let j: serde_json::Value = serde_json::from_str(&r).unwrap();
            done += j["done"].as_u64().unwrap_or(0);
            skipped += j["skipped"].as_u64().unwrap_or(0);
            if let Some(i) = j["fail"]["idx"].as_u64() { fail = describe(&prop, seed, i); if fail.is_none() { first = i + 1000; continue; } }
            break;
        }
        // the worker died: one of the cases it was at is to blame
        let _ = st;
        let mut top = first;
        for t in 0..8 {
            if let Ok(s) = std::fs::read_to_string(format!("{}/at{}", d, t)) {
                if let Ok(i) = s.trim().parse::<u64>() {
                    top = top.max(i);
                    if let Some(f) = describe(&prop, seed, i) { fail = Some(f); break; }
                }
            }
        }
        if fail.is_some() { break; }
        done += top - first;
        first = top + 1;
    }
    let _ = std::fs::remove_dir_all(&d);
    println!("{}", serde_json::json!({"property": prop, "cases": done, "undecided": skipped, "seconds": start.elapsed().as_secs_f64(), "found": fail.is_some()}));
    if let Some(f) = fail {
        std::fs::write(&out, serde_json::to_string_pretty(&f).unwrap() + "\n").unwrap();
        println!("{}", serde_json::to_string_pretty(&f).unwrap());
        exit(1);
    }
}
/// Of the first cases of a search: how many are distinct and decided, and what a few look like.
fn survey(a: &[String]) {
    let prop = a[2].clone();
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let n: u64 = arg(a, "--n", "2000").parse().unwrap();
    panic::set_hook(Box::new(|i| OURS.with(|o| o.set(i.location().map_or(false, |l| l.file().starts_with("src/"))))));
    DESCRIBE.store(true, SeqCst);
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut seen = std::collections::HashSet::new();
        let mut samples = vec![];
        let start = Instant::now();
        let mut examined = 0;
        for idx in 0..n {
            if start.elapsed().as_secs() > 8 { break; }
            examined += 1;
            LAST.with(|l| l.borrow_mut().clear());
            let o = guarded(&prop, seed, idx);
            let notes = LAST.with(|l| l.borrow().clone());
            if matches!(o, Out::Skip) || notes.is_empty() { continue; }
            let key: Vec<String> = notes.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            if seen.insert(key.join("\n")) && samples.len() < 5 { samples.push(key.join("; ")); }
        }
        println!("{}", serde_json::json!({"examined": examined, "distinct_nontrivial": seen.len(), "samples": samples}));
    }).unwrap();
    let _ = h.join();
}
fn run(file: &str) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    match describe(j["property"].as_str().unwrap(), j["seed"].as_u64().unwrap(), j["index"].as_u64().unwrap()) {
        Some(f) => { println!("{}", serde_json::to_string_pretty(&f).unwrap()); exit(1) }
        None => println!("this case passes"),
    }
}
