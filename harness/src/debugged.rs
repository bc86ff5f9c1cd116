//! U30: debugging shows what happens and changes none of it.
use std::io::Write;
use std::process::{Command, Stdio};
use serde_json::{json, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::make::{self, G};
use crate::programs::{self, Case};
use crate::real::*;
use crate::rng::{hash_str, Rng};

fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v { Value::Object(o) => for (k, x) in o {pointers(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)}, Value::Array(a) => for (i, x) in a.iter().enumerate() {pointers(x, format!("{at}/{i}"), out)}, _ => {} }
}
/// Without its debugging, and how much of that there was.
fn strip(v: &Value, n: &mut usize) -> Value {
    match v {
        Value::Object(o) if o.len() == 1 && o.contains_key("Debug") => {*n += 1; strip(&o["Debug"], n)},
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), strip(x, n))).collect()),
        Value::Array(a) => { let mut x: Vec<Value> = a.iter().map(|x| strip(x, n)).collect(); if x.iter().all(Value::is_string) {x.sort_by_key(|y| y.to_string());} Value::Array(x) },
        v => v.clone()
    }
}
fn written(kind: Option<Kind>, v: &Value) -> Result<Value, String> {
    fn w<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value) -> Result<Value, String> { serde_json::to_value(de::<T>(v)?).map_err(|e| e.to_string()) }
    match kind {
        None => w::<Commons>(v), Some(Kind::Rule) => w::<Rule>(v), Some(Kind::Rules) => w::<Rules>(v), Some(Kind::Mapper) => w::<Mapper>(v), Some(Kind::Condition) => w::<Condition>(v), Some(Kind::Matcher) => w::<StringMatcher>(v),
        Some(Kind::Modification) => w::<StringModification>(v), Some(Kind::Source) => w::<StringSource>(v), Some(Kind::Location) => w::<StringLocation>(v), Some(Kind::Char) => w::<CharMatcher>(v),
    }
}
/// Puts debugging around some constructs of a program. `None` if it has none to put it around.
fn wrap(r: &mut Rng, kind: Option<Kind>, v: &Value, most: usize, rec: &mut Rec) -> Option<Value> {
    let (mut n0, mut done) = (0, 0);
    let plain = strip(&written(kind, v).ok()?, &mut n0);
    let mut out = v.clone();
    for _ in 0..40 {
        if done == most {break;}
        let mut at = Vec::new(); pointers(&out, String::new(), &mut at);
        let p = if at.len() > 1 && !r.chance(1, 6) {at[1 + r.below(at.len() - 1)].clone()} else {at[0].clone()};
        let mut x = out.clone();
        { let y = x.pointer_mut(&p)?; *y = json!({"Debug": y.take()}); }
        let Ok(w) = written(kind, &x) else {continue};
        let mut n = 0;
        if strip(&w, &mut n) != plain || n != n0 + done + 1 {continue;}
        done += 1; out = x;
        rec.count(&format!("around {}", p.split('/').filter(|x| x.len() > 2 && x.starts_with(|c: char| c.is_ascii_uppercase()) && x[1..].starts_with(|c: char| c.is_ascii_lowercase()) && x.chars().all(|c| c.is_ascii_alphabetic())).next_back().unwrap_or("the whole")));
    }
    (done > 0).then_some(out)
}
/// Standard error goes nowhere while this lives.
struct Quiet(i32);
impl Quiet { fn new() -> Quiet { // SAFETY: plain calls on file descriptors this process owns.
    unsafe { let old = libc::dup(2); let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(null, 2); libc::close(null); Quiet(old) } } }
impl Drop for Quiet { fn drop(&mut self) { // SAFETY: as above.
    unsafe {libc::dup2(self.0, 2); libc::close(self.0);} } }

fn library(cfg: &Cfg) -> Rec {
    let _q = Quiet::new();
    cases(cfg, "library", cfg.n(30_000, 1_000_000), |r, rec| {
        let kind = *r.pick(&[Kind::Rule, Kind::Rules, Kind::Mapper, Kind::Mapper, Kind::Condition, Kind::Matcher, Kind::Modification, Kind::Source, Kind::Location, Kind::Char]);
        let d = 1 + r.below(3);
        let mut c: Case = programs::base(r, kind, 1, 2, |g| match kind { Kind::Rule => g.rule(d), Kind::Rules => g.rules(d), Kind::Mapper => g.mapper(d), Kind::Condition => g.condition(d), Kind::Matcher => g.matcher(d), Kind::Modification => g.modification(d), Kind::Source => g.source(d), Kind::Location => g.location(d), Kind::Char => g.charm(d) });
        let w = programs::fresh(&c.world);
        let before = run_real(&c.p(), &w);
        let plain = c.prog.clone();
        let most = 1 + r.below(3);
        let Some(p) = wrap(r, Some(kind), &c.prog, most, rec) else {return};
        c.prog = p;
        if r.chance(1, 4) { if let Some(p) = wrap(r, None, &c.world.commons, 2, rec) {c.world.commons = p;} }
        let after = run_real(&c.p(), &programs::fresh(&c.world));
        rec.eval_hash(hash_str(&c.prog.to_string()) ^ hash_str(&c.url));
        rec.sample(|| json!({"program": c.prog, "url": c.url}));
        let same = match (&before, &after) { (Ok(Ok(a)), Ok(Ok(b))) => a.result == b.result && a.url == b.url && a.pad == b.pad && a.text == b.text && a.variant == b.variant, (Ok(Err(_)), Ok(Err(_))) => true, _ => false };
        if let Ok(Ok(a)) = &before {rec.count(if a.result.is_err() {"same error"} else if a.url != c.url || a.pad != c.pad {"same change"} else {"same value"});}
        if !same {rec.fail(format!("{} acts differently when debugged", kind.name()), format!("{plain} gives {before:?}, and {} gives {after:?} on {}", c.prog, c.url).chars().take(900).collect::<String>(), json!({"plain": plain, "case": c.json()}));}
    })
}
struct Ran { code: Option<i32>, out: Vec<u8>, err: Vec<u8> }
fn run_cli(exe: &std::path::Path, args: &[String], input: &str) -> Option<Ran> {
    let mut c = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let text = input.to_string();
    let t = std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
    let o = c.wait_with_output().ok()?;
    let _ = t.join();
    Some(Ran {code: o.status.code(), out: o.stdout, err: o.stderr})
}
fn config(r: &mut Rng) -> Value {
    let u = make::url(r);
    let w = { let mut g = G::new(r, &u); g.n_commons = 2; g.cache = false; g.world(1) };
    let d = 1 + r.below(3);
    let rules = { let mut g = G::new(r, &u); g.n_commons = 2; g.cache = false; Value::Array((0..1 + g.r.below(3)).map(|_| g.rule(d)).collect()) };
    json!({"cache_path": ":memory:", "params": w.params, "commons": w.commons, "rules": rules})
}
/// Tasks, and how many of them are ones.
fn tasks(r: &mut Rng, most: usize) -> (String, usize) {
    let mut good = 0;
    let t: Vec<String> = (0..1 + r.below(most)).map(|_| { let u = if r.chance(1, 8) {"no url".to_string()} else {make::url(r).as_str().to_string()}; if u.parse::<TaskConfig>().is_ok() {good += 1;} u }).collect();
    (t.join("\n") + "\n", good)
}
fn lines(b: &[u8], p: &[u8]) -> usize { b.split(|x| *x == b'\n').filter(|l| l.starts_with(p)).count() }
/// The program with a debugged configuration.
fn program(cfg: &Cfg) -> Rec {
    cases(cfg, "program", cfg.n(300, 5_000), |r, rec| {
        let dir = cfg.scratch.join(format!("debug.{}", rec.case.1)); std::fs::create_dir_all(&dir).ok();
        let write = |n: &str, v: &Value| { let p = dir.join(n); std::fs::write(&p, v.to_string()).unwrap(); p.to_string_lossy().into_owned() };
        let mut plain = config(r);
        let log = dir.join("log");
        // A command in the middle says how often it is run.
        let said = json!({"CommandOutput": {"program": "/bin/sh", "args": ["-c", "echo x >>\"$0\"; printf said", log.to_string_lossy()]}});
        let first = json!({"Mapper": {"SetScratchpadVar": {"name": "said", "value": said}}});
        plain["rules"].as_array_mut().unwrap().insert(0, first);
        if de::<Config>(&plain).is_err() {std::fs::remove_dir_all(&dir).ok(); return;}
        let mut bad = plain.clone();
        let Some(x) = wrap(r, Some(Kind::Rules), &plain["rules"], 3, rec) else {std::fs::remove_dir_all(&dir).ok(); return};
        bad["rules"] = x;
        // One wrapper is certain to be reached by every task: the source's or the mapper's.
        let at_source = r.chance(1, 2);
        bad["rules"][0] = if at_source {json!({"Mapper": {"SetScratchpadVar": {"name": "said", "value": {"Debug": said}}}})} else {json!({"Mapper": {"Debug": {"SetScratchpadVar": {"name": "said", "value": said}}}})};
        let head: &[u8] = if at_source {b"=== StringSource::Debug ==="} else {b"=== Mapper::Debug ==="};
        let (input, good) = tasks(r, 6);
        let mut a: Vec<String> = vec!["--cache-path".into(), ":memory:".into(), "--threads".into(), (1 + r.below(4)).to_string(), "--config".into()];
        if r.chance(1, 3) {a.insert(0, "--json".into());}
        let mut go = |v: &Value| { std::fs::remove_file(&log).ok(); a.push(write("c.json", v)); let x = run_cli(&cfg.cli, &a, &input); a.pop(); (x, std::fs::read(&log).map(|x| x.len() / 2).unwrap_or(0)) };
        let ((Some(x), nx), (Some(y), ny)) = (go(&plain), go(&bad)) else {rec.fail("cannot run", "the program does not start", json!({})); return};
        rec.eval_hash(hash_str(&bad.to_string()) ^ hash_str(&input));
        // Messages of JSON output carry the state's debug form; only its results are compared.
        let results = |x: &Ran| if a[0] == "--json" { let v: Value = serde_json::from_slice(&x.out).unwrap_or(Value::Null); v.pointer("/Ok/urls").and_then(Value::as_array).map(|u| u.iter().map(|e| e.pointer("/Ok/Ok").cloned().unwrap_or(json!({"error": e.get("Err").is_some()})).to_string()).collect::<Vec<_>>().join("\n")) } else {Some(String::from_utf8_lossy(&x.out).into_owned())};
        let errors = |x: &Ran| (lines(&x.err, b"DoTaskError\t"), lines(&x.err, b"MakeTaskError\t"));
        let wrong = if x.code != y.code {Some("exit status")} else if results(&x).is_none() || results(&x) != results(&y) {Some("results")} else if errors(&x) != errors(&y) {Some("messages")} else if nx != good || ny != good {Some("times something was done")}
            else if lines(&x.err, b"=== ") != 0 {Some("debugging nobody asked for")} else if lines(&y.err, head) < good {Some("debugging missing")} else {None};
        if let Some(what) = wrong {rec.fail(format!("program: {what}"), format!("{what}: {:?} {:?} {nx} times without, {:?} {:?} {ny} times with debugging ({} of {good} seen) on {input:?}", x.code, String::from_utf8_lossy(&x.out), y.code, String::from_utf8_lossy(&y.out), lines(&y.err, head)).chars().take(900).collect::<String>(), json!({"plain": plain, "debugged": bad, "input": input}));}
        rec.add("debugging blocks on standard error", lines(&y.err, b"=== ") as u64); rec.count("program: same");
        std::fs::remove_dir_all(&dir).ok();
    })
}
/// The program and the library built to say what they do.
fn built(cfg: &Cfg) -> Rec {
    let Some(dir) = cfg.cli.parent() else {return Rec::default()};
    let (dcli, drv) = (dir.join("url-cleaner-debug"), dir.join("debugged"));
    cases(cfg, "built with debugging", cfg.n(60, 1_000), |r, rec| {
        let dir = cfg.scratch.join(format!("built.{}", rec.case.1)); std::fs::create_dir_all(&dir).ok();
        let shipped = r.chance(1, 4);
        let v = if shipped {Value::Null} else {config(r)};
        if !shipped && de::<Config>(&v).is_err() {return;}
        let (input, _) = tasks(r, if shipped {4} else {12});
        if r.chance(1, 2) {
            let mut a: Vec<String> = vec!["--cache-path".into(), ":memory:".into(), "--threads".into(), (1 + r.below(4)).to_string()];
            if shipped {a.extend(["--flag".into(), "no-network".into()]);} else { let p = dir.join("c.json"); std::fs::write(&p, v.to_string()).unwrap(); a.extend(["--config".into(), p.to_string_lossy().into_owned()]); }
            let Some(x) = run_cli(&cfg.cli, &a, &input) else {rec.fail("cannot run", "the program does not start", json!({})); return};
            let just = r.chance(1, 2);
            if just {a.push("--debug-just-print-times".into());}
            let Some(y) = run_cli(&dcli, &a, &input) else {rec.fail("cannot run", "the debugging program does not start", json!({})); return};
            rec.eval_hash(hash_str(&v.to_string()) ^ hash_str(&input));
            if x.code != y.code || x.out != y.out {rec.fail("program built with debugging", format!("{:?} {:?} without, {:?} {:?} with debugging on {input:?} {}", x.code, String::from_utf8_lossy(&x.out), y.code, String::from_utf8_lossy(&y.out), String::from_utf8_lossy(&y.err).lines().find(|l| l.contains("panicked")).unwrap_or("")).chars().take(900).collect::<String>(), json!({"config": v, "input": input, "args": a}));}
            if lines(&x.err, b"        \t") > 0 {rec.fail("debugging nobody asked for", "the ordinary program prints debugging", json!({"config": v, "input": input}));}
            rec.count("same from the program"); rec.add("bytes of debugging", y.err.len() as u64);
        } else {
            // The library, as another program uses it.
            let p = dir.join("cases.json");
            std::fs::write(&p, json!({"config": v, "flags": ["no-network"], "tasks": input.lines().collect::<Vec<_>>()}).to_string()).unwrap();
            let Some(y) = run_cli(&drv, &[p.to_string_lossy().into_owned()], "") else {rec.fail("cannot run", "the program using the debugging library does not start", json!({})); return};
            let mut c: Config = if shipped {Config::get_default_no_cache().unwrap()} else {de(&v).unwrap()};
            c.params.flags.insert("no-network".into());
            let job = JobContext::default();
            let mut want = String::new();
            for t in input.lines() {
                let x = guarded(|| match t.parse::<TaskConfig>() { Ok(t) => match (JobConfig {config: std::borrow::Cow::Borrowed(&c), cache: Cache::default()}).new_task(t, &job).r#do() { Ok(u) => u.as_str().to_string(), Err(_) => "do".into() }, Err(_) => "make".into() });
                want.push_str(&x.unwrap_or_else(|_| "panic".into())); want.push('\n');
            }
            rec.eval_hash(hash_str(&v.to_string()) ^ hash_str(&input));
            if y.out != want.as_bytes() {rec.fail("library built with debugging", format!("{want:?} without, {:?} with debugging on {input:?} {}", String::from_utf8_lossy(&y.out), String::from_utf8_lossy(&y.err).lines().find(|l| l.contains("panicked")).unwrap_or("")).chars().take(900).collect::<String>(), json!({"config": v, "input": input}));}
            rec.count("same from the library"); rec.add("bytes of debugging", y.err.len() as u64);
        }
        std::fs::remove_dir_all(&dir).ok();
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = library(cfg);
    rec.merge(program(cfg));
    rec.merge(built(cfg));
    finish(cfg, rec, "exploration", "random programs run with and without debugging around random constructs, and by the program and library built without and with debugging; distinct by program and URL", vec![])
}
