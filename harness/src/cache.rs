//! U17 (the cache as a store) and U18 (what caching may and may not change).
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Barrier, Mutex};
use serde_json::{json, Value};
use url_cleaner::glue::*;
use crate::core::*;
use crate::rng::{hash_str, Rng};

/// Absent, stored as nothing, or stored text.
type Got = Option<Option<String>>;

pub fn now() -> u64 { let mut t = libc::timespec {tv_sec: 0, tv_nsec: 0}; // SAFETY: `t` is a valid timespec.
    unsafe {libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);} t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64 }
fn open(p: &Path) -> Cache { Cache::from(CachePath::Path(p.to_string_lossy().into_owned())) }

#[derive(Clone, Debug)]
pub struct Op { pub who: usize, pub key: usize, pub start: u64, /// `u64::MAX`: never answered.
    pub end: u64, /// The value written, or read.
    pub write: bool, pub value: Got }
/// Exact check of one register's history, every written value being different (Gibbons and Korach's zones).
/// Returns what is impossible about it.
pub fn register(ops: &[Op], initial: &Got) -> Option<String> {
    struct Zone { lo: u64, hi: u64, write: Option<(u64, u64)>, value: Got } // lo: earliest end; hi: latest start
    let mut z: Vec<Zone> = vec![Zone {lo: 0, hi: 0, write: Some((0, 0)), value: initial.clone()}];
    let mut reads: Vec<&Op> = Vec::new();
    for o in ops { if o.write {z.push(Zone {lo: o.end, hi: o.start, write: Some((o.start, o.end)), value: o.value.clone()});} else if o.end != u64::MAX {reads.push(o);} }
    for r in &reads {
        let Some(c) = z.iter_mut().find(|c| c.value == r.value) else {return Some(format!("a read returned {:?}, which nobody wrote", r.value))};
        if c.write.unwrap().0 > r.end {return Some(format!("a read returned {:?} before anybody began to write it", r.value));}
        c.lo = c.lo.min(r.end); c.hi = c.hi.max(r.start);
    }
    // Writes that were never answered and never seen may have had no effect.
    z.retain(|c| c.lo != u64::MAX);
    let fwd: Vec<&Zone> = z.iter().filter(|c| c.lo < c.hi).collect();
    for (i, a) in fwd.iter().enumerate() { for b in &fwd[i + 1..] { if a.lo < b.hi && b.lo < a.hi {return Some(format!("the values {:?} and {:?} were each both already there and still there in a way no order of writes explains", a.value, b.value));} } }
    for b in z.iter().filter(|c| c.lo >= c.hi) { for a in &fwd { if a.lo < b.hi && b.lo < a.hi {return Some(format!("the value {:?} was written and over while {:?} stood before and after it", b.value, a.value));} } }
    None
}

/// The worker process: performs the operations it is given, saying before and after each what it does.
/// Usage: mon cache-worker DB LOG OPS-FILE
pub fn worker(a: &[String]) -> i32 {
    let (db, ops) = (&a[1], std::fs::read_to_string(&a[3]).unwrap());
    let ops: Vec<Value> = serde_json::from_str(&ops).unwrap();
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    let mut cache = open(Path::new(db));
    for (i, o) in ops.iter().enumerate() {
        let s = |k: usize| o[k].as_str();
        log.write_all(format!("{}\n", json!(["I", i, now()])).as_bytes()).unwrap();
        let r = match s(0) {
            Some("w") => cache.write(s(1).unwrap(), s(2).unwrap(), s(3)).map(|()| json!(null)).map_err(|e| e.to_string()),
            Some("r") => cache.read(s(1).unwrap(), s(2).unwrap()).map(|x| match x {None => json!("absent"), Some(None) => json!({"is": null}), Some(Some(v)) => json!({"is": v})}).map_err(|e| e.to_string()),
            Some("reopen") => { cache = open(Path::new(db)); Ok(json!(null)) },
            _ => { std::thread::sleep(std::time::Duration::from_micros(o[1].as_u64().unwrap_or(0))); Ok(json!(null)) }
        };
        let t = now();
        log.write_all(format!("{}\n", match r { Ok(v) => json!(["R", i, t, "ok", v]), Err(e) => json!(["R", i, t, "err", e]) }).as_bytes()).unwrap();
    }
    log.write_all(b"[\"END\"]\n").unwrap();
    0
}
fn me() -> PathBuf { std::env::current_exe().unwrap() }
fn shim(cfg: &Cfg) -> PathBuf { cfg.cli.with_file_name("shim.so") }
struct Logged { began: Vec<u64>, ended: Vec<Option<(u64, Result<Value, String>)>>, complete: bool }
fn read_log(p: &Path, n: usize) -> Logged {
    let mut l = Logged {began: vec![0; n], ended: vec![None; n], complete: false};
    for line in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else {continue};
        let i = v[1].as_u64().unwrap_or(0) as usize;
        match v[0].as_str() { Some("I") => l.began[i] = v[2].as_u64().unwrap(), Some("R") => l.ended[i] = Some((v[2].as_u64().unwrap(), if v[3] == "ok" {Ok(v[4].clone())} else {Err(v[4].as_str().unwrap_or("").to_string())})), Some("END") => l.complete = true, _ => {} }
    }
    l
}
fn got(v: &Value) -> Got { if v == "absent" {None} else {Some(v["is"].as_str().map(str::to_string))} }

const CATS: &[&str] = &["redirect", "a", "A", "", "cat'egory", "é", "%", "a%"];
const KEYS: &[&str] = &["https://example.com/", "https://example.com/?a=1", "", "a", "A", "é", "key\"q'", "%", "_", "a%", " a", "a ", "日本\u{1F600}", "--", "null"];
const VALS: &[&str] = &["", "v", "https://example.org/?x=é", "'; drop table cache; --", "NULL", "a\nb", "\u{1F600}", "long"];
fn value(r: &mut Rng) -> Option<String> { match r.below(8) { 0 => None, 1 => Some(if r.chance(1, 6) { let n = *r.pick(&[255, 256, 4096, 32768, 65535, 65536, 65537, 131_072, 1_048_577]); "x".repeat(n) } else {"é".repeat(r.below(10000))}), 2 => Some(r.pick(VALS).to_string()), 3 => { let v = r.pick(VALS); Some(match r.below(6) { 0 => format!("{v} "), 1 => format!(" {v}"), 2 => format!("{v}\n"), 3 => format!("{v}/"), 4 => format!("\t{v}"), _ => format!("{v}\u{feff}") }) }, 4 => Some(crate::make::word(r)), _ => Some(format!("{}{}", r.pick(VALS), r.below(50))) } }
/// A text that could be taken for another.
fn near(r: &mut Rng, k: &str) -> String { let mut x: Vec<char> = k.chars().collect(); match r.below(12) { 0 => {x.pop();}, 1 => {if !x.is_empty() {x.remove(0);}}, 2 => x.push(*r.pick(&['/', ' ', '\n', '#', '?', '%', '.', '&', '\u{301}', '\0'])), 3 => x.insert(0, *r.pick(&[' ', '\t', '/', '\u{feff}'])), 4 => x.reverse(), 5 => return k.to_lowercase(), 6 => return k.to_uppercase(), 7 => return k.replacen("https", "http", 1), 8 => return k.trim().to_string(), 9 => return k.split(['?', '#']).next().unwrap().to_string(), 10 => return k.trim_end_matches('/').to_string(), _ => return format!("{k}{k}") } x.into_iter().collect() }

fn sequential(cfg: &Cfg) -> Rec {
    cases(cfg, "sequential", cfg.n(600, 30_000), |r, rec| {
        let memory = r.chance(1, 2);
        let dir = cfg.scratch.join(format!("s{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let db = dir.join(*r.pick(&["cache.sqlite", "é cache.db", "c"]));
        let path = || if memory {CachePath::Memory} else if rec_url(&db) {CachePath::Path(format!("file://{}", db.display()))} else {CachePath::Path(db.to_string_lossy().into_owned())};
        fn rec_url(p: &Path) -> bool { p.ends_with("c") }
        let mut handles: Vec<Cache> = vec![Cache::from(path())];
        let mut model: HashMap<(String, String), Option<String>> = HashMap::new();
        let mut sig = String::new();
        let n = 5 + r.below(40);
        // A few keys met again and again, among them ones that differ only in which half is which, or in letter case.
        let mut pool: Vec<(String, String)> = (0..1 + r.below(4)).map(|_| (r.pick(CATS).to_string(), r.pick(KEYS).to_string())).collect();
        let (c, k) = pool[0].clone();
        if r.chance(1, 2) {pool.push((k.clone(), c.clone()));}
        if r.chance(1, 2) {pool.push((c.to_uppercase(), k.to_uppercase()));}
        if r.chance(1, 3) {pool.push((format!("{c}{k}"), String::new()));}
        if r.chance(1, 3) {pool.push((c.clone(), format!("{k} ")));}
        for _ in 0..r.below(4) { let (c, k) = r.pick(&pool).clone(); pool.push(if r.chance(2, 3) {let k = near(r, &k); (c, k)} else {(near(r, &c), k)}); }
        // Long names that differ only at the end, and now and then a great many entries.
        if r.chance(1, 10) { let n = *r.pick(&[63usize, 255, 256, 1000, 2000, 4096, 65536, 300_000]); let x = "k".repeat(n); if r.chance(1, 2) {pool.push((c.clone(), format!("{x}1"))); pool.push((c.clone(), format!("{x}2")));} else {pool.push((format!("{x}1"), k.clone())); pool.push((format!("{x}2"), k.clone()));} }
        if r.chance(1, 60) {
            let n = if memory {*r.pick(&[100usize, 257, 1025, 4097, 10_001])} else {*r.pick(&[65usize, 129, 257])};
            for i in 0..n { let v = (i % 7 != 0).then(|| format!("value {i}")); if let Err(e) = handles[0].write(&c, &format!("many{i}"), v.as_deref()) {rec.fail("write error", format!("writing entry {i} of {n} fails: {e}"), json!({"error": e.to_string()})); return;} model.insert((c.clone(), format!("many{i}")), v); }
            rec.add("writes", n as u64);
            for i in 0..n { let want = model.get(&(c.clone(), format!("many{i}"))).cloned(); match handles[0].read(&c, &format!("many{i}")) { Ok(x) if x == want => rec.count("reads of something"), x => {rec.fail("read", format!("reading entry {i} of {n} gives {:?}, last written {want:?}", x.map_err(|e| e.to_string())), json!({"category": c})); return;} } }
        }
        for _ in 0..n {
            let (c, k) = if r.chance(1, 12) {(r.pick(CATS).to_string(), r.pick(KEYS).to_string())} else {r.pick(&pool).clone()};
            let h = r.below(handles.len());
            match r.below(12) {
                0..=4 => { let v = value(r); sig.push_str(&format!("w{c}|{k}|{v:?}"));
                    match handles[h].write(&c, &k, v.as_deref()) { Ok(()) => {model.insert((c, k), v); rec.count("writes");}, Err(e) => {rec.fail("write error", format!("writing ({c:?}, {k:?}) fails: {e}"), json!({"error": e.to_string()})); break;} } },
                5..=9 => { sig.push_str(&format!("r{c}|{k}"));
                    let want = model.get(&(c.clone(), k.clone())).cloned();
                    match handles[h].read(&c, &k) { Ok(x) if x == want => rec.count(if want.is_some() {"reads of something"} else {"reads of nothing"}), Ok(x) => {rec.fail("read", format!("reading ({c:?}, {k:?}) gives {x:?}, last written {want:?} (memory: {memory}, {} handles)", handles.len()), json!({"category": c, "key": k, "got": format!("{x:?}"), "expected": format!("{want:?}")})); break;}, Err(e) => {rec.fail("read error", format!("reading ({c:?}, {k:?}) fails: {e}"), json!({"error": e.to_string()})); break;} } },
                10 => { let x = handles[h].clone(); handles.push(x); },
                _ => if !memory { rec.count("reconnections"); match r.below(3) { 0 => handles.push(Cache::from(path())), 1 => {handles[h] = Cache::from(path());}, _ => handles[h].0.lock().unwrap().disconnect() } }
            }
        }
        rec.eval_hash(hash_str(&sig));
        rec.sample(|| json!({"operations": n, "in memory": memory, "entries": model.len()}));
        drop(handles);
        std::fs::remove_dir_all(&dir).ok();
    })
}

/// Judges a concurrent history, key by key. Returns how many operations overlapped another on the same key.
fn judge(rec: &mut Rec, label: &str, hist: &[Op], initial: &BTreeMap<usize, Got>, detail: impl Fn() -> Value) {
    let keys: std::collections::BTreeSet<usize> = hist.iter().map(|o| o.key).collect();
    let mut order: Vec<(u64, usize, bool)> = Vec::new();
    for k in keys {
        let ops: Vec<Op> = hist.iter().filter(|o| o.key == k).cloned().collect();
        let overlapping = ops.iter().filter(|a| ops.iter().any(|b| b.who != a.who && a.start < b.end && b.start < a.end)).count();
        rec.add(&format!("{label}: operations observed"), ops.len() as u64);
        rec.add(&format!("{label}: operations overlapping another on the same key"), overlapping as u64);
        order.extend(ops.iter().map(|o| (o.end, o.who, o.write)));
        if let Some(why) = register(&ops, initial.get(&k).unwrap_or(&None)) {rec.fail(format!("{label}: not atomic"), format!("{label}: {why}"), json!({"history": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), "key": k, "more": detail()}));}
    }
    order.sort();
    rec.eval_hash(hash_str(&order.iter().map(|o| format!("{}{}", o.1, o.2)).collect::<String>()));
}

fn threads(cfg: &Cfg) -> Rec {
    cases_t(cfg, "threads", cfg.n(120, 6_000), 3, |r, rec| {
        let dir = cfg.scratch.join(format!("t{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let db = dir.join("cache.sqlite");
        let memory = r.chance(1, 3);
        let separate = !memory && r.chance(2, 3);
        let (nt, nk, no) = (2 + r.below(5), 1 + r.below(3), if memory {200} else {25});
        let shared = if memory {Cache::default()} else {open(&db)};
        let hist = Mutex::new(Vec::new());
        let errs = Mutex::new(Vec::new());
        let bar = Barrier::new(nt);
        let seed = r.u64();
        std::thread::scope(|s| for t in 0..nt {
            let (hist, errs, bar, db) = (&hist, &errs, &bar, &db);
            let c = if separate {open(db)} else {shared.clone()};
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut mine = Vec::new();
                bar.wait();
                for i in 0..no {
                    let key = r.below(nk);
                    let write = r.chance(1, 2);
                    let (k, v) = (format!("k{key}"), format!("{t}.{i}"));
                    let start = now();
                    if write {
                        match c.write("c", &k, Some(&v)) { Ok(()) => mine.push(Op {who: t, key, start, end: now(), write, value: Some(Some(v))}), Err(e) => {errs.lock().unwrap().push(e.to_string()); mine.push(Op {who: t, key, start, end: u64::MAX, write, value: Some(Some(v))});} }
                    } else {
                        match c.read("c", &k) { Ok(x) => mine.push(Op {who: t, key, start, end: now(), write, value: x}), Err(e) => errs.lock().unwrap().push(e.to_string()) }
                    }
                    if r.chance(1, 20) {std::thread::yield_now();}
                }
                hist.lock().unwrap().extend(mine);
            });
        });
        let mut hist = hist.into_inner().unwrap();
        for e in errs.into_inner().unwrap().into_iter().take(1) {rec.fail("threads: error", format!("with {nt} threads an operation fails: {e}"), json!({"error": e, "separate connections": separate}));}
        for key in 0..nk { if let Ok(x) = if memory {shared.read("c", &format!("k{key}"))} else {open(&db).read("c", &format!("k{key}"))} { let t = now(); hist.push(Op {who: nt, key, start: t, end: t + 1, write: false, value: x}); } }
        judge(rec, "threads", &hist, &BTreeMap::new(), || json!({"threads": nt, "separate connections": separate, "memory": memory}));
        std::fs::remove_dir_all(&dir).ok();
    })
}

fn processes(cfg: &Cfg) -> Rec {
    cases_t(cfg, "processes", cfg.n(40, 3_000), 2, |r, rec| {
        let dir = cfg.scratch.join(format!("p{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let db = dir.join("cache.sqlite");
        let (np, nk) = (2 + r.below(5), 1 + r.below(3));
        // Sometimes the database is there already, sometimes the processes race to create it.
        let fresh = r.chance(2, 3);
        let mut initial = BTreeMap::new();
        if !fresh { let c = open(&db); for k in 0..nk { if r.chance(1, 2) { let v = format!("init{k}"); c.write("c", &format!("k{k}"), Some(&v)).unwrap(); initial.insert(k, Some(Some(v))); } } }
        let mut children = Vec::new();
        let mut scripts = Vec::new();
        for p in 0..np {
            let n = 8 + r.below(14);
            let ops: Vec<Value> = (0..n).map(|i| { let k = format!("k{}", r.below(nk)); match r.below(10) { 0 => json!(["reopen"]), 1 => json!(["nap", r.below(2000)]), 2..=5 => json!(["r", "c", k]), _ => json!(["w", "c", k, format!("{p}.{i}")]) } }).collect();
            let f = dir.join(format!("ops{p}")); std::fs::write(&f, json!(ops).to_string()).unwrap();
            let log = dir.join(format!("log{p}"));
            let mut c = Command::new(me());
            c.args(["cache-worker".as_ref(), db.as_os_str(), log.as_os_str(), f.as_os_str()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            if shim(cfg).exists() {
                c.env("LD_PRELOAD", shim(cfg)).env("SHIM_PATH", "cache.sqlite");
                if r.chance(2, 3) {c.env("SHIM_DELAY", ["300", "2000", "10000"][r.below(3)]);}
                if r.chance(1, 3) {c.env("SHIM_KILL", (1 + r.below(60)).to_string()); if r.chance(1, 2) {c.env("SHIM_HALF", "1");} rec.count("processes: given a moment to die");}
            }
            scripts.push((ops, log));
            children.push(c.spawn().unwrap());
        }
        let killer = r.chance(1, 3);
        if killer { std::thread::sleep(std::time::Duration::from_micros(r.below(60_000) as u64)); let i = r.below(children.len()); children[i].kill().ok(); rec.count("processes: killed at random"); }
        for mut c in children {c.wait().ok();}
        let mut hist = Vec::new();
        for (p, (ops, log)) in scripts.iter().enumerate() {
            let l = read_log(log, ops.len());
            rec.count(if l.complete {"processes: finished"} else {"processes: died"});
            for (i, o) in ops.iter().enumerate() {
                if l.began[i] == 0 {break;}
                let write = o[0] == "w";
                if !write && o[0] != "r" {continue;}
                let key = o[2].as_str().unwrap()[1..].parse().unwrap();
                let (end, value) = match &l.ended[i] {
                    Some((t, Ok(v))) => (*t, if write {Some(o[3].as_str().map(str::to_string))} else {got(v)}),
                    Some((_, Err(e))) => { rec.fail("processes: error", format!("with {np} processes, one operation fails: {e}"), json!({"operation": o, "error": e, "database existed": !fresh})); (u64::MAX, Some(o[3].as_str().map(str::to_string))) },
                    None => (u64::MAX, Some(o[3].as_str().map(str::to_string))),
                };
                if !write && end == u64::MAX {continue;}
                hist.push(Op {who: p, key, start: l.began[i], end, write, value});
            }
        }
        // Whoever comes next sees a working store.
        let after = open(&db);
        for key in 0..nk {
            let t = now();
            match after.read("c", &format!("k{key}")) { Ok(x) => hist.push(Op {who: np, key, start: t, end: now(), write: false, value: x}), Err(e) => rec.fail("processes: unreadable", format!("after the processes ended, reading fails: {e}"), json!({"error": e.to_string()})) }
        }
        judge(rec, "processes", &hist, &initial, || json!({"processes": np, "database existed": !fresh}));
        rec.sample(|| json!({"processes": np, "keys": nk, "operations": hist.len()}));
        std::fs::remove_dir_all(&dir).ok();
    })
}

/// A script of writes, cut short (or failing) at every single file operation in turn.
fn crashes(cfg: &Cfg) -> Rec {
    cases(cfg, "crashes", cfg.n(16, 900), |r, rec| {
        if !shim(cfg).exists() {rec.count("no preload library: crash points not explored"); return;}
        let dir = cfg.scratch.join(format!("c{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let existing = r.chance(1, 2);
        let mut before: BTreeMap<(String, String), Option<String>> = BTreeMap::new();
        let base = dir.join("base.sqlite");
        if existing { let c = open(&base); for _ in 0..r.below(30) { let (k, v) = (r.pick(KEYS).to_string(), value(r)); c.write("a", &k, v.as_deref()).unwrap(); before.insert(("a".into(), k), v); } if before.is_empty() {c.read("a", "a").unwrap();} }
        let n = 1 + r.below(4);
        let ops: Vec<Value> = (0..n).map(|_| { let v = value(r); json!(["w", "a", if r.chance(1, 2) {"a"} else {*r.pick(KEYS)}, v]) }).collect();
        let f = dir.join("ops"); std::fs::write(&f, json!(ops).to_string()).unwrap();
        let how = r.below(3); // killed before the operation, killed half-way through it, operation fails
        for at in 1..400u32 {
            let run = dir.join("run"); std::fs::create_dir_all(&run).unwrap();
            let (db, log) = (run.join("cache.sqlite"), run.join("log"));
            if existing {std::fs::copy(&base, &db).unwrap();}
            let child = |ops: &Path, log: &Path, at: Option<u32>, how: usize| {
                let mut c = Command::new(me());
                c.args(["cache-worker".as_ref(), db.as_os_str(), log.as_os_str(), ops.as_os_str()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env("LD_PRELOAD", shim(cfg)).env("SHIM_PATH", "cache.sqlite");
                if let Some(at) = at {c.env(if how == 2 {"SHIM_FAIL"} else {"SHIM_KILL"}, at.to_string()); if how == 1 {c.env("SHIM_HALF", "1");}}
                c.status().unwrap()
            };
            let st = child(&f, &log, Some(at), how);
            let l = read_log(&log, ops.len());
            // The possible contents now: every acknowledged write, and perhaps the one in flight.
            let mut must = before.clone();
            let mut maybe: Vec<(usize, (String, String), Option<String>)> = Vec::new();
            for (i, o) in ops.iter().enumerate() {
                let k = (o[1].as_str().unwrap().to_string(), o[2].as_str().unwrap().to_string()); let v = o[3].as_str().map(str::to_string);
                match &l.ended[i] { Some((_, Ok(_))) => {must.insert(k.clone(), v); maybe.retain(|m| m.1 != k);}, Some((_, Err(_))) => maybe.push((i, k, v)), None if l.began[i] != 0 => maybe.push((i, k, v)), None => {} }
            }
            let reached = if how == 2 {l.ended.iter().any(|x| matches!(x, Some((_, Err(_)))))} else {!st.success()};
            let detail = |why: &str| json!({"existing database": existing, "operations": ops, "interruption": (["killed before", "killed half-way through", "failing"][how]), "file operation": at, "why": why});
            // Sometimes the recovery itself is interrupted too.
            if reached && r.chance(1, 3) { let o2 = run.join("ops2"); std::fs::write(&o2, json!([["r", "a", "a"]]).to_string()).unwrap(); child(&o2, &run.join("log2"), Some(1 + r.below(6) as u32), 0); rec.count("crashes: recoveries interrupted"); }
            let after = open(&db);
            let mut keys: Vec<(String, String)> = must.keys().cloned().chain(maybe.iter().map(|m| m.1.clone())).collect(); keys.dedup();
            for k in keys {
                let mut allowed: Vec<Got> = vec![must.get(&k).cloned()];
                allowed.extend(maybe.iter().filter(|m| m.1 == k).map(|m| Some(m.2.clone())));
                match after.read(&k.0, &k.1) {
                    Ok(x) if allowed.contains(&x) => {},
                    Ok(x) => rec.fail("crash: lost or invented", format!("after being {} file operation {at}, {k:?} reads {:?}, allowed {}", ["killed before", "killed half-way through", "refused"][how], x.map(|x| x.map(|x| x.chars().take(40).collect::<String>())), allowed.len()), detail("content")),
                    Err(e) => rec.fail("crash: unreadable", format!("after being {} file operation {at}, the cache cannot be read: {e}", ["killed before", "killed half-way through", "refused"][how]), detail(&e.to_string())),
                }
            }
            if let Err(e) = after.write("z", "z", Some("after")) {rec.fail("crash: unwritable", format!("after an interruption at file operation {at}, the cache cannot be written: {e}"), detail(&e.to_string()));}
            rec.eval_hash(hash_str(&format!("{ops:?}{at}{how}{existing}")));
            rec.count(["crashes: killed before a file operation", "crashes: killed half-way through a write", "crashes: file operation failed"][how]);
            drop(after);
            std::fs::remove_dir_all(&run).ok();
            if how == 2 && l.complete && !reached && at > 60 || how != 2 && st.success() {break;}
        }
        std::fs::remove_dir_all(&dir).ok();
    })
}

/// The program itself, several at once on one cache file.
fn programs(cfg: &Cfg) -> Rec {
    cases_t(cfg, "programs", cfg.n(16, 800), 2, |r, rec| {
        let dir = cfg.scratch.join(format!("x{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let key = json!({"Part": "Path"});
        let conf = json!({"docs": {"name": "c"}, "cache_path": "cache.sqlite", "params": {}, "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"Cache": {"category": "c", "key": key, "value": {"Part": "Query"}}}}}}]});
        std::fs::write(dir.join("config.json"), conf.to_string()).unwrap();
        let (np, nk) = (2 + r.below(4), 1 + r.below(4));
        let mut kids = Vec::new();
        for p in 0..np {
            let lines: Vec<String> = (0..5 + r.below(25)).map(|i| format!("https://e.com/k{}?{p}.{i}", r.below(nk))).collect();
            std::fs::write(dir.join(format!("in{p}")), lines.join("\n")).unwrap();
            let mut c = Command::new(&cfg.cli);
            c.current_dir(&dir).args(["--config", "config.json", "--threads", ["0", "1", "4"][r.below(3)]]).stdin(std::fs::File::open(dir.join(format!("in{p}"))).unwrap()).stdout(Stdio::piped()).stderr(Stdio::piped());
            if shim(cfg).exists() && r.chance(1, 2) {c.env("LD_PRELOAD", shim(cfg)).env("SHIM_PATH", "cache.sqlite").env("SHIM_DELAY", "1500");}
            kids.push((lines, c.spawn().unwrap()));
        }
        let mut stored: HashMap<String, Vec<String>> = HashMap::new();
        for (lines, k) in kids {
            let o = k.wait_with_output().unwrap();
            let out: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
            rec.add("programs: URLs cleaned", out.len() as u64);
            if !o.status.success() || out.len() != lines.len() {rec.fail("programs: error", format!("{np} programs share a cache, and one fails: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()), json!({"exit": o.status.code(), "stderr": String::from_utf8_lossy(&o.stderr).chars().take(2000).collect::<String>()})); continue;}
            for (i, o) in lines.iter().zip(&out) {
                let (u, f) = o.split_once('#').unwrap_or((o, ""));
                if u != i {rec.fail("programs: wrong URL", format!("{i} became {o}"), json!({}));}
                stored.entry(i.split('?').next().unwrap().to_string()).or_default().push(f.to_string());
            }
        }
        // From now on every key has one answer, one that an earlier task could have stored.
        let ask = || -> Vec<String> { let ks: Vec<String> = stored.keys().map(|k| format!("{k}?later")).collect(); let o = Command::new(&cfg.cli).current_dir(&dir).args(["--config", "config.json"]).args(&ks).stdin(Stdio::null()).output().unwrap(); String::from_utf8_lossy(&o.stdout).lines().map(|l| l.split_once('#').map_or("", |x| x.1).to_string()).collect() };
        let (a, b) = (ask(), ask());
        rec.eval_hash(hash_str(&format!("{stored:?}")));
        if a != b || a.len() != stored.len() || a.iter().zip(stored.values()).any(|(x, seen)| x == "later" || !seen.contains(x)) {rec.fail("programs: unstable", format!("after {np} programs, the cache answers {a:?}, then {b:?}"), json!({"stored": stored, "then": a, "and then": b}));}
        std::fs::remove_dir_all(&dir).ok();
    })
}
fn u17(cfg: &Cfg) -> i32 {
    let mut rec = sequential(cfg);
    rec.merge(threads(cfg)); rec.merge(processes(cfg)); rec.merge(crashes(cfg)); rec.merge(programs(cfg));
    finish(cfg, rec, "exploration", "histories of cache operations: sequential ones against a map; concurrent ones (threads, processes, with injected delays and deaths) checked for atomicity key by key; scripts of writes interrupted at every file operation in turn; distinct = different operation sequences, completion orders or crash points",
        vec!["a crash is a killed process or a failing file operation; loss of power is not simulated", "concurrent histories are judged by an exact single-register atomicity check (all written values differ)"])
}
pub fn run(cfg: &Cfg) -> i32 { u17(cfg) }
