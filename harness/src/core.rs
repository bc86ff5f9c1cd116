//! Running cases, recording what was observed, and reporting.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;
use serde_json::{json, Value};
use crate::rng::{hash_str, mix, Rng};

pub struct Cfg {
    pub pid: String, pub thorough: bool, pub seed: u64,
    pub evidence: PathBuf, pub replay_dir: PathBuf, pub only: Option<(String, u64)>,
    pub cli: PathBuf, pub repo: PathBuf, pub scratch: PathBuf, pub known: Vec<(String, String)>, pub start: Instant, pub scale: f64,
}
impl Cfg {
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // The quick tier's cases are cheap for most properties; this many times as many still take well under a minute.
        let quick = quick * match &*self.pid {
            "U05" | "U06" | "U07" | "U08" | "U25" | "U31" | "U32" => 8,
            "U03" | "U09" | "U10" | "U11" | "U12" | "U13" | "U14" | "U16" | "U18" | "U20" | "U22" | "U23" | "U24" | "U29" => 4,
            "U01" | "U02" | "U04" | "U15" | "U17" | "U21" | "U26" => 2,
            _ => 1,
        };
        ((if self.thorough {thorough.max(quick)} else {quick}) as f64 * self.scale).ceil() as u64
    }
}

#[derive(Clone, Debug)]
pub struct Viol { pub sig: String, pub what: String, pub detail: Value, pub case: (String, u64) }
#[derive(Default)]
pub struct Rec {
    pub evals: u64, pub distinct: HashSet<u64>, pub counters: BTreeMap<String, u64>, pub samples: Vec<Value>, pub viol: Vec<Viol>,
    pub case: (String, u64), pub nviol: u64, /// Set after a violation that took so long that looking for more is not worth it.
    pub abort: bool,
}
impl Rec {
    /// One judged observation; `sig` names what was distinct about it, `None` when it was trivial.
    pub fn eval(&mut self, sig: Option<&str>) {
        self.evals += 1;
        if let Some(s) = sig {self.distinct.insert(hash_str(s));}
    }
    pub fn eval_hash(&mut self, h: u64) {self.evals += 1; self.distinct.insert(h);}
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {*x += n;} else {self.counters.insert(k.to_string(), n);}
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) { if self.samples.len() < 3 {self.samples.push(v());} }
    pub fn fail(&mut self, sig: impl Into<String>, what: impl Into<String>, detail: Value) {
        self.nviol += 1;
        if self.viol.len() < 40 {self.viol.push(Viol {sig: sig.into(), what: what.into(), detail, case: self.case.clone()});}
    }
    pub fn merge(&mut self, o: Rec) {
        self.evals += o.evals; self.distinct.extend(o.distinct); self.nviol += o.nviol;
        for (k, n) in o.counters {*self.counters.entry(k).or_insert(0) += n;}
        for s in o.samples { if self.samples.len() < 12 {self.samples.push(s);} }
        self.viol.extend(o.viol);
    }
}

thread_local! { static LAST_PANIC: RefCell<String> = const {RefCell::new(String::new())}; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MON_PANIC").is_some() {eprintln!("panic: {loc}: {m}");}
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {m}"));
    }));
}
/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// A panic's source file without line numbers, for grouping.
pub fn panic_place(m: &str) -> String { m.split(": ").next().unwrap_or("").rsplit("/repo/").next().unwrap_or("").split(':').next().unwrap_or("").to_string() }

fn thread_cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
struct Slot { tid: Mutex<String>, case: AtomicU64, base: Mutex<(u64, u64)> }

pub const CPU_LIMIT_S: u64 = 60;
/// Runs `n` independent cases in parallel; each case has its own generator, so any of them can be
/// re-run alone with `--case label:index`.
pub fn cases(cfg: &Cfg, label: &str, n: u64, f: impl Fn(&mut Rng, &mut Rec) + Sync) -> Rec {
    cases_t(cfg, label, n, std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8), f)
}
/// As `cases`, for enumerations: the case is its index.
pub fn cases_idx(cfg: &Cfg, label: &str, n: u64, f: impl Fn(u64, &mut Rec) + Sync) -> Rec { cases(cfg, label, n, |_, rec| f(rec.case.1, rec)) }
pub fn cases_t(cfg: &Cfg, label: &str, n: u64, threads: usize, f: impl Fn(&mut Rng, &mut Rec) + Sync) -> Rec {
    if let Some((l, i)) = &cfg.only {
        let mut rec = Rec::default();
        if l == label { rec.case = (l.clone(), *i); let mut r = rng_for(cfg, label, *i); run_one(&f, &mut r, &mut rec); }
        return rec;
    }
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let all = Mutex::new(Rec::default());
    let slots: Vec<Slot> = (0..threads).map(|_| Slot {tid: Mutex::new(String::new()), case: AtomicU64::new(u64::MAX), base: Mutex::new((u64::MAX, 0))}).collect();
    let total_viol = AtomicU64::new(0);
    std::fs::create_dir_all(&cfg.scratch).ok();
    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for t in 0..threads {
            let (next, all, slots, f, total_viol) = (&next, &all, &slots, &f, &total_viol);
            handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                use std::os::unix::fs::FileExt;
                let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|x| x.to_string_lossy().into_owned())).unwrap_or_default();
                *slots[t].tid.lock().unwrap() = tid;
                let inflight = std::fs::File::create(cfg.scratch.join(format!("inflight.{t}"))).ok();
                let mut rec = Rec::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || total_viol.load(Ordering::Relaxed) > 200 {break;}
                    slots[t].case.store(i, Ordering::Relaxed);
                    if let Some(x) = &inflight { let _ = x.write_at(format!("{label}:{i}          \n").as_bytes(), 0); }
                    rec.case = (label.to_string(), i);
                    let before = rec.nviol;
                    let mut r = rng_for(cfg, label, i);
                    run_one(f, &mut r, &mut rec);
                    total_viol.fetch_add(rec.nviol - before + if rec.abort {1000} else {0}, Ordering::Relaxed);
                }
                slots[t].case.store(u64::MAX, Ordering::Relaxed);
                if let Some(x) = &inflight { let _ = x.set_len(0); }
                all.lock().unwrap().merge(rec);
            }).unwrap());
        }
        // CPU-time watchdog: a case that burns this much processor time does not terminate.
        let (slots, done2) = (&slots, &done);
        let wd = s.spawn(move || {
            while !done2.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for sl in slots {
                    let c = sl.case.load(Ordering::Relaxed);
                    if c == u64::MAX {continue;}
                    let tid = sl.tid.lock().unwrap().clone();
                    let Some(ticks) = thread_cpu_ticks(&tid) else {continue};
                    let mut b = sl.base.lock().unwrap();
                    if b.0 != c {*b = (c, ticks); continue;}
                    if ticks - b.1 > CPU_LIMIT_S * 100 {
                        let mut rec = Rec {case: (label.to_string(), c), ..Default::default()};
                        rec.fail("runaway", format!("case {label}:{c} used more than {CPU_LIMIT_S} s of processor time"), json!({"case": c}));
                        rec.evals = 1;
                        finish(cfg, rec, "exploration", "cases that end", vec![]);
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles {let _ = h.join();}
        done.store(true, Ordering::Relaxed);
        drop(wd);
    });
    all.into_inner().unwrap()
}
pub fn rng_for(cfg: &Cfg, label: &str, i: u64) -> Rng { Rng::new(mix(cfg.seed) ^ hash_str(&cfg.pid) ^ hash_str(label).rotate_left(17) ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15))) }
fn run_one(f: &(impl Fn(&mut Rng, &mut Rec) + Sync), r: &mut Rng, rec: &mut Rec) {
    if let Err(p) = guarded(|| f(r, rec)) {
        rec.fail(format!("panic in {}", panic_place(&p)), format!("panic: {p}"), json!({"panic": p}));
    }
}

/// Writes the evidence and prints the verdict. Returns the exit code.
pub fn finish(cfg: &Cfg, rec: Rec, level: &str, rule: &str, assumptions: Vec<&str>) -> i32 {
    let mut fresh: Vec<&Viol> = Vec::new();
    let mut hit_known: BTreeMap<&str, &str> = BTreeMap::new();
    for v in &rec.viol {
        match cfg.known.iter().find(|(sig, _)| *sig == v.sig) { Some((s, w)) => {hit_known.insert(s, w);}, None => fresh.push(v) }
    }
    for (_, w) in &cfg.known {println!("KNOWN-FINDING: property={} {}", cfg.pid, w);}
    let mut seen = HashSet::new();
    let mut paths = Vec::new();
    for v in &fresh {
        if !seen.insert(&v.sig) || paths.len() >= 5 {continue;}
        std::fs::create_dir_all(&cfg.replay_dir).ok();
        let p = cfg.replay_dir.join(format!("{}-{}-{}-{}.json", cfg.pid, cfg.seed, v.case.0.replace(['/', ' '], "_"), v.case.1));
        let body = json!({"property": cfg.pid, "seed": cfg.seed, "case": format!("{}:{}", v.case.0, v.case.1), "signature": v.sig, "what": v.what, "detail": v.detail,
            "rerun": format!("/verif/check {} --tier {} --seed {} --case {}:{}", cfg.pid, if cfg.thorough {"thorough"} else {"quick"}, cfg.seed, v.case.0, v.case.1)});
        std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).ok();
        println!("{}", v.what.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", cfg.pid, p.display());
        paths.push(p.display().to_string());
    }
    let nothing = rec.evals == 0 && cfg.only.is_none();
    if nothing && fresh.is_empty() {
        println!("the run observed nothing");
        println!("VIOLATION property={} replay=none", cfg.pid);
    }
    let mut samples = rec.samples.clone(); samples.truncate(8);
    if samples.is_empty() {samples.push(json!("none"));}
    let ev = json!({
        "property": cfg.pid, "tier": if cfg.thorough {"thorough"} else {"quick"}, "seed": cfg.seed, "level": level,
        "coverage": {"evaluations": rec.evals, "distinct_nontrivial": rec.distinct.len(), "rule": rule, "samples": samples, "observed": rec.counters},
        "wall_s": cfg.start.elapsed().as_secs_f64(), "assumptions": assumptions,
        "violations": fresh.len(), "violation_replays": paths, "known_findings_seen": hit_known.keys().collect::<Vec<_>>()
    });
    if cfg.only.is_none() {
        if let Some(d) = cfg.evidence.parent() {std::fs::create_dir_all(d).ok();}
        std::fs::write(&cfg.evidence, serde_json::to_string_pretty(&ev).unwrap()).ok();
    }
    println!("{} {}: {} evaluations, {} distinct, {} violations, {:.1} s", cfg.pid, if cfg.thorough {"thorough"} else {"quick"}, rec.evals, rec.distinct.len(), fresh.len(), cfg.start.elapsed().as_secs_f64());
    if cfg.only.is_some() || std::env::var_os("MON_VERBOSE").is_some() {
        for v in &rec.viol {println!("--- [{}] {}:{} {}\n{}", v.sig, v.case.0, v.case.1, v.what, serde_json::to_string_pretty(&v.detail).unwrap());}
        for (k, n) in &rec.counters {println!("{n:>10} {k}");}
    }
    if !fresh.is_empty() || nothing {1} else {0}
}
