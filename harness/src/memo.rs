//! U18: what caching may and may not change. Operations are built from counting functions, so the
//! monitor sees every evaluation; a model of the cache says which ones should have happened.
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use serde_json::json;
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::real::de;
use crate::rng::{hash_str, Rng};

const N: usize = 6;
#[derive(Clone, Debug, PartialEq)]
enum Beh { /// The same text always; `None` for nothing.
    Is(Option<String>), /// A text made from the URL.
    FromUrl, /// A text made from the URL and how often it ran.
    Counted, Fails, /// Fails the first n times it runs.
    FailsFirst(u32), /// (mapper) changes the URL, then fails.
    ChangesThenFails }
#[derive(Default, Clone)]
struct Tape { beh: Vec<Beh>, runs: Vec<u32> }
impl Tape {
    fn step(&mut self, k: usize, url: &str) -> Result<Option<String>, ()> {
        self.runs[k] += 1;
        let n = self.runs[k];
        match &self.beh[k] {
            Beh::Is(x) => Ok(x.clone()), Beh::FromUrl => Ok(Some(format!("f{k}-{:x}", hash_str(url) & 0xffff))),
            Beh::Counted => Ok(Some(format!("c{k}-{n}-{:x}", hash_str(url) & 0xff))), Beh::Fails | Beh::ChangesThenFails => Err(()),
            Beh::FailsFirst(m) => if n <= *m {Err(())} else {Ok(Some(format!("late{k}-{:x}", hash_str(url) & 0xff)))}
        }
    }
    /// What mapper function `k` does to a URL.
    fn map(&mut self, k: usize, url: &mut url::Url) -> Result<(), ()> {
        let old = url.to_string();
        let r = self.step(k, &old);
        match r { Ok(Some(x)) => {url.set_path(&x); Ok(())}, Ok(None) => {url.set_path(""); url.set_query(None); Ok(())}, Err(()) => { if self.beh[k] == Beh::ChangesThenFails {url.set_path("half");} Err(()) } }
    }
}
thread_local! { static REAL: RefCell<Tape> = RefCell::new(Tape::default()); }
fn src<'a, const K: usize>(v: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> {
    REAL.with(|t| t.borrow_mut().step(K, v.url.as_str())).map(|x| x.map(Cow::Owned)).map_err(|()| StringSourceError::StringSourceIsNone)
}
fn map<const K: usize>(v: &mut TaskState) -> Result<(), MapperError> {
    let mut u = url::Url::parse(v.url.as_str()).unwrap();
    let r = REAL.with(|t| t.borrow_mut().map(K, &mut u));
    if u.as_str() != v.url.as_str() {*v.url = u.into();}
    r.map_err(|()| MapperError::StringSourceIsNone)
}
const SRC: [for<'a> fn(&'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError>; N] = [src::<0>, src::<1>, src::<2>, src::<3>, src::<4>, src::<5>];
const MAP: [fn(&mut TaskState) -> Result<(), MapperError>; N] = [map::<0>, map::<1>, map::<2>, map::<3>, map::<4>, map::<5>];

#[derive(Clone, Debug)]
enum Src { F(usize), /// The URL's own text, many times over.
    Much(usize), Lit(Option<String>), Whole, Cache(Box<Src>, Box<Src>, Box<Src>), Try(Box<Src>, Box<Src>), NoneTo(Box<Src>, Box<Src>), Upper(Box<Src>) }
#[derive(Clone, Debug)]
enum Map { M(usize), All(Vec<Map>), Cache(Src, Box<Map>), Try(Box<Map>, Box<Map>), Ignore(Box<Map>), Revert(Box<Map>), Frag(Src) }
type Store = BTreeMap<(String, String), Option<String>>;
struct Model { tape: Tape, store: Store, read: bool, write: bool, hits: u64, misses: u64 }

impl Src {
    fn real(&self) -> StringSource { match self {
        Src::F(k) => StringSource::Custom(SRC[*k]), Src::Lit(Some(x)) => StringSource::String(x.clone()), Src::Lit(None) => StringSource::None, Src::Whole => StringSource::Part(UrlPart::Whole), Src::Much(n) => StringSource::Join {sources: vec![StringSource::Part(UrlPart::Whole); *n], join: String::new()},
        Src::Cache(c, k, v) => StringSource::Cache {category: Box::new(c.real()), key: Box::new(k.real()), value: Box::new(v.real())},
        Src::Try(a, b) => StringSource::TryElse {r#try: Box::new(a.real()), r#else: Box::new(b.real())}, Src::NoneTo(a, b) => StringSource::NoneTo {value: Box::new(a.real()), if_none: Box::new(b.real())},
        Src::Upper(a) => StringSource::Modified {value: Box::new(a.real()), modification: Box::new(StringModification::Uppercase)},
    } }
    fn eval(&self, m: &mut Model, url: &str) -> Result<Option<String>, ()> { Ok(match self {
        Src::F(k) => m.tape.step(*k, url)?, Src::Lit(x) => x.clone(), Src::Whole => Some(url.to_string()), Src::Much(n) => Some(url.repeat(*n)),
        Src::Cache(c, k, v) => {
            let (c, k) = (c.eval(m, url)?.ok_or(())?, k.eval(m, url)?.ok_or(())?);
            if m.read { if let Some(x) = m.store.get(&(c.clone(), k.clone())) {m.hits += 1; return Ok(x.clone());} }
            m.misses += 1;
            let x = v.eval(m, url)?;
            if m.write {m.store.insert((c, k), x.clone());}
            x
        },
        Src::Try(a, b) => match a.eval(m, url) { Ok(x) => x, Err(()) => b.eval(m, url)? },
        Src::NoneTo(a, b) => match a.eval(m, url)? { None => b.eval(m, url)?, x => x },
        Src::Upper(a) => a.eval(m, url)?.map(|x| x.to_uppercase()),
    }) }
}
impl Map {
    fn real(&self) -> Mapper { match self {
        Map::M(k) => Mapper::Custom(MAP[*k]), Map::All(x) => Mapper::All(x.iter().map(Map::real).collect()), Map::Cache(c, m) => Mapper::CacheUrl {category: c.real(), mapper: Box::new(m.real())},
        Map::Try(a, b) => Mapper::TryElse {r#try: Box::new(a.real()), r#else: Box::new(b.real())}, Map::Ignore(m) => Mapper::IgnoreError(Box::new(m.real())), Map::Revert(m) => Mapper::RevertOnError(Box::new(m.real())),
        Map::Frag(s) => Mapper::SetPart {part: UrlPart::Fragment, value: s.real()},
    } }
    fn apply(&self, m: &mut Model, url: &mut url::Url) -> Result<(), ()> { match self {
        Map::M(k) => m.tape.map(*k, url), Map::All(x) => x.iter().try_for_each(|x| x.apply(m, url)),
        Map::Cache(c, x) => {
            let key = (c.eval(m, url.as_str())?.ok_or(())?, url.to_string());
            if m.read { if let Some(x) = m.store.get(&key) {m.hits += 1; *url = url::Url::parse(x.as_ref().ok_or(())?).map_err(|_| ())?; return Ok(());} }
            m.misses += 1;
            x.apply(m, url)?;
            if m.write {m.store.insert(key, Some(url.to_string()));}
            Ok(())
        },
        Map::Try(a, b) => a.apply(m, url).or_else(|()| b.apply(m, url)), Map::Ignore(x) => {let _ = x.apply(m, url); Ok(())},
        Map::Revert(x) => { let old = url.clone(); let r = x.apply(m, url); if r.is_err() {*url = old;} r },
        Map::Frag(s) => { let v = s.eval(m, url.as_str())?; url.set_fragment(v.as_deref()); Ok(()) },
    } }
}

struct Gen<'r> { r: &'r mut Rng, /// Every cached operation gets a category of its own, and nothing depends on earlier runs.
    pure: bool, next: usize }
impl Gen<'_> {
    fn cat(&mut self) -> Src {
        if self.pure {self.next += 1; return Src::Lit(Some(format!("cat{}", self.next)));}
        match self.r.below(14) { 0 => Src::Lit(None), 1 => Src::Upper(Box::new(Src::Lit(Some("a".into())))), 2 => Src::Lit(Some(String::new())), n => Src::Lit(Some(["a", "b", "redirect"][n % 3].into())) }
    }
    fn key(&mut self) -> Src {
        if self.pure || self.r.chance(1, 2) {return if self.r.chance(1, 12) {Src::Much(*self.r.pick(&[2, 8, 60, 600, 4000]))} else {Src::Whole};}
        match self.r.below(12) { 0 => Src::Lit(None), 1 => Src::Lit(Some(String::new())), n => Src::Lit(Some(["a", "b", "k"][n % 3].into())) }
    }
    fn cached(&mut self, d: u32) -> Src { let (c, k) = (self.cat(), self.key()); Src::Cache(Box::new(c), Box::new(k), Box::new(self.src(d))) }
    fn src(&mut self, d: u32) -> Src {
        if d == 0 {return if self.r.chance(1, 8) {Src::Lit(None)} else {Src::F(self.r.below(N))};}
        match self.r.below(10) { 0..=3 => Src::F(self.r.below(N)), 4..=6 => self.cached(d - 1), 7 => {let a = self.src(d - 1); Src::Try(Box::new(a), Box::new(self.src(d - 1)))}, 8 => {let a = self.src(d - 1); Src::NoneTo(Box::new(a), Box::new(self.src(d - 1)))}, _ => Src::Upper(Box::new(self.src(d - 1))) }
    }
    fn map(&mut self, d: u32) -> Map {
        if d == 0 {return if self.r.chance(1, 4) {Map::Frag(self.cached(1))} else {Map::M(self.r.below(N))};}
        match self.r.below(12) {
            0..=4 => {let c = self.cat(); Map::Cache(c, Box::new(self.map(d - 1)))}, 5 | 6 => { let n = 1 + self.r.below(3); Map::All((0..n).map(|_| self.map(d - 1)).collect()) },
            7 => {let a = self.map(d - 1); Map::Try(Box::new(a), Box::new(self.map(d - 1)))}, 8 => Map::Ignore(Box::new(self.map(d - 1))), 9 => Map::Revert(Box::new(self.map(d - 1))), 10 => Map::Frag(self.cached(d)), _ => Map::M(self.r.below(N)),
        }
    }
    fn tape(&mut self) -> Tape {
        let beh = (0..N).map(|k| match self.r.below(if self.pure {6} else {12}) { 0 => Beh::Is(None), 1 => Beh::Is(Some(format!("is{k}"))), 2 => Beh::Fails, 3 => Beh::ChangesThenFails, 4 | 5 => Beh::FromUrl, 6 => Beh::FailsFirst(1 + self.r.below(2) as u32), 7 => Beh::Is(Some(String::new())), _ => Beh::Counted }).collect();
        Tape {beh, runs: vec![0; N]}
    }
}
const URLS: &[&str] = &["https://example.com/", "https://example.com/a?b=c", "https://example.com/A", "http://example.com/", "https://example.com/%61", "https://example.com/#f"];

/// Pairs of long URLs that only differ at their ends.
static LONG: std::sync::LazyLock<Vec<[String; 2]>> = std::sync::LazyLock::new(|| [90, 260, 520, 1030, 2050, 4100].iter().map(|n| ["a", "b"].map(|e| format!("https://example.com/{}?q={e}", "long/".repeat(n / 5)))).collect());
fn urls(r: &mut Rng) -> Vec<&'static str> { if r.chance(1, 8) { let p = &LONG[r.below(LONG.len())]; vec![p[0].as_str(), p[1].as_str(), URLS[1]] } else {URLS.to_vec()} }
fn cut(x: &str) -> String { if x.len() > 300 {format!("{}... ({} bytes)", &x[..60], x.len())} else {x.into()} }

enum Do { S(Src), M(Map) }
/// Runs one operation for one task against the real code.
fn real_run(op: &Do, url: &str, p: &Params, cache: &Cache) -> Result<(Result<Option<String>, ()>, String), String> {
    let mut u = BetterUrl::parse(url).unwrap();
    let pad_before = JobScratchpad {flags: ["f".to_string()].into(), vars: [("v".to_string(), "1".to_string()), ("e".to_string(), String::new())].into()};
    let (mut pad, ctx, job, commons) = (pad_before.clone(), TaskContext::default(), JobContext::default(), Commons::default());
    let r = guarded(|| {
        let mut st = TaskState {url: &mut u, scratchpad: &mut pad, common_args: None, context: &ctx, job_context: &job, params: p, commons: &commons, cache};
        match op { Do::S(s) => s.real().get(&st.to_view()).map(|x| x.map(|x| x.into_owned())).map_err(|_| ()), Do::M(m) => m.real().apply(&mut st).map(|()| None).map_err(|_| ()) }
    })?;
    if pad.flags != pad_before.flags || pad.vars != pad_before.vars {return Err(format!("the scratchpad became {pad:?}"));}
    Ok((r, u.as_str().to_string()))
}
fn model_run(op: &Do, url: &str, m: &mut Model) -> (Result<Option<String>, ()>, String) {
    let mut u = url::Url::parse(url).unwrap();
    let r = match op { Do::S(s) => s.eval(m, url), Do::M(x) => x.apply(m, &mut u).map(|()| None) };
    (r, u.to_string())
}
fn op(g: &mut Gen) -> Do { let d = 1 + g.r.below(4) as u32; if g.r.chance(1, 2) {Do::S(if g.r.chance(2, 3) {g.cached(d)} else {g.src(d)})} else {Do::M(g.map(d))} }
fn show(op: &Do) -> String { match op { Do::S(s) => format!("{s:?}"), Do::M(m) => format!("{m:?}") } }

/// Many tasks on one cache, each with its own switches; the model knows what is stored and so what must run.
fn sessions(cfg: &Cfg) -> Rec {
    cases(cfg, "sessions", cfg.n(6000, 400_000), |r, rec| {
        let file = r.chance(1, 40).then(|| cfg.scratch.join(format!("m{}.sqlite", rec.case.1)));
        let cache = match &file {Some(p) => Cache::from(CachePath::Path(p.to_string_lossy().into_owned())), None => Cache::default()};
        let mut g = Gen {r, pure: false, next: 0};
        let tape = g.tape();
        let choice = urls(g.r);
        let ops: Vec<Do> = (0..1 + g.r.below(4)).map(|_| op(&mut g)).collect();
        let mut m = Model {tape: tape.clone(), store: Store::new(), read: true, write: true, hits: 0, misses: 0};
        REAL.with(|t| *t.borrow_mut() = tape.clone());
        // What somebody else left in the cache, useful or not.
        for _ in 0..g.r.below(4) {
            let k = (["a", "b", "redirect", "A"][g.r.below(4)].to_string(), if g.r.chance(1, 2) {g.r.pick(&choice).to_string()} else {["a", "b", "k", ""][g.r.below(4)].to_string()});
            let v = match g.r.below(5) { 0 => None, 1 => Some("not a URL".to_string()), _ => Some(format!("https://stored.example/{}", g.r.below(9))) };
            cache.write(&k.0, &k.1, v.as_deref()).unwrap();
            m.store.insert(k, v);
        }
        let mut log = Vec::new();
        for _ in 0..3 + g.r.below(10) {
            let (o, url) = (&ops[g.r.below(ops.len())], *g.r.pick(&choice));
            (m.read, m.write) = (!g.r.chance(1, 5), !g.r.chance(1, 5));
            let p = Params {read_cache: m.read, write_cache: m.write, ..Params::default()};
            let before = m.store.clone();
            let want = model_run(o, url, &mut m);
            let got = real_run(o, url, &p, &cache);
            log.push(json!({"operation": show(o), "url": cut(url), "read": m.read, "write": m.write, "gives": cut(&format!("{want:?}"))}));
            let runs = REAL.with(|t| t.borrow().runs.clone());
            let mut keys: Vec<(String, String)> = before.keys().cloned().collect();
            for c in ["a", "b", "A", "redirect", ""] { keys.push((c.into(), want.1.clone())); keys.push((c.into(), url.into())); for k in ["a", "b", "k", ""] {keys.push((c.into(), k.into()));} }
            keys.extend(m.store.keys().cloned());
            let wrong_entry = keys.iter().find_map(|k| { let x = cache.read(&k.0, &k.1).map_err(|e| e.to_string()); (x != Ok(m.store.get(k).cloned())).then(|| format!("{k:?} holds {x:?} rather than {:?}", m.store.get(k))) });
            rec.eval_hash(hash_str(&format!("{}{url}{}{}{before:?}", show(o), m.read, m.write)));
            if m.store != before {rec.count("tasks that stored something");}
            if want.0.is_err() {rec.count("tasks that failed");}
            let why = if got.as_ref() != Ok(&want) {Some(("result", format!("the result is {got:?} rather than {want:?}")))}
                else if runs != m.tape.runs {Some(("evaluations", format!("the functions ran {runs:?} times in all rather than {:?}", m.tape.runs)))}
                else {wrong_entry.map(|w| ("stored", w))};
            if let Some((sig, why)) = why {
                rec.fail(format!("session: {sig}"), format!("caching (read {}, write {}): {why}, for {} on {url}", m.read, m.write, show(o)), json!({"functions": format!("{:?}", m.tape.beh), "history": log, "stored before": format!("{before:?}")}));
                break;
            }
        }
        rec.add("hits", m.hits); rec.add("misses", m.misses);
        rec.sample(|| json!({"functions": format!("{:?}", m.tape.beh), "history": log}));
        if let Some(p) = file {drop(cache); std::fs::remove_file(p).ok(); rec.count("sessions on a file");}
    })
}
/// The same deterministic operation with the cache off, cold, warm, read-only and write-only.
fn same(cfg: &Cfg) -> Rec {
    cases(cfg, "same", cfg.n(6000, 400_000), |r, rec| {
        let mut g = Gen {r, pure: true, next: 0};
        let tape = g.tape();
        let choice = urls(g.r);
        let o = op(&mut g);
        let cache = Cache::default();
        let urls: Vec<&str> = (0..1 + g.r.below(3)).map(|_| *g.r.pick(&choice)).collect();
        let run = |url: &str, read, write, cache: &Cache| { REAL.with(|t| *t.borrow_mut() = tape.clone()); let x = real_run(&o, url, &Params {read_cache: read, write_cache: write, ..Params::default()}, cache); (x, REAL.with(|t| t.borrow().runs.iter().sum::<u32>())) };
        for url in &urls {
            let (off, n_off) = run(url, false, false, &cache);
            for (name, read, write) in [("cold", true, true), ("warm", true, true), ("writing only", false, true), ("reading only", true, false)] {
                let (x, n) = run(url, read, write, &cache);
                rec.eval_hash(hash_str(&format!("{}{url}{name}", show(&o))));
                if x != off {rec.fail(format!("same: {name}"), format!("{name}, {} on {url} gives {x:?}; without the cache {off:?}", show(&o)), json!({"functions": format!("{:?}", tape.beh)})); return;}
                if n < n_off {rec.count("runs saved work");}
                if name == "writing only" && n != n_off {rec.fail("same: reads when told not to", format!("with reading off, {} on {url} does {n} evaluations rather than {n_off}", show(&o)), json!({"functions": format!("{:?}", tape.beh)}));}
            }
        }
    })
}
/// A cache that cannot be used: left alone when both switches are off, otherwise an error that leaves the URL as it was.
fn unusable(cfg: &Cfg) -> Rec {
    let bad = cfg.scratch.join("not there").join("cache.sqlite");
    cases(cfg, "unusable", cfg.n(200, 4000), |r, rec| {
        let mut g = Gen {r, pure: true, next: 0};
        let tape = g.tape();
        let o = if g.r.chance(1, 2) {Do::S(g.cached(1))} else {let c = g.cat(); Do::M(Map::Cache(c, Box::new(Map::M(g.r.below(N)))))};
        let url = *g.r.pick(URLS);
        let cache = Cache::from(CachePath::Path(bad.to_string_lossy().into_owned()));
        let mut m = Model {tape: tape.clone(), store: Store::new(), read: false, write: false, hits: 0, misses: 0};
        let want = model_run(&o, url, &mut m);
        for (read, write) in [(false, false), (true, true), (true, false)] {
            REAL.with(|t| *t.borrow_mut() = tape.clone());
            let x = real_run(&o, url, &Params {read_cache: read, write_cache: write, ..Params::default()}, &cache);
            rec.eval_hash(hash_str(&format!("{}{url}{read}{write}", show(&o))));
            let ok = if read {matches!(&x, Ok((Err(()), u)) if u == url)} else {x.as_ref() == Ok(&want)};
            if !ok {rec.fail("unusable cache", format!("with a cache that cannot be opened (read {read}, write {write}), {} on {url} gives {x:?}; without one {want:?}", show(&o)), json!({}));}
        }
    })
}
/// The program, run again and again with different switches on one cache file; a recording command counts evaluations.
fn program(cfg: &Cfg) -> Rec {
    cases(cfg, "program", cfg.n(24, 1500), |r, rec| {
        let dir = cfg.scratch.join(format!("p{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let cmd = json!({"program": "/bin/sh", "args": ["-c", "echo x >>log; case $1 in *bad*) printf '\\377';; esac; printf %s \"v$(wc -l <log)\"", "sh", {"Part": "Whole"}]});
        let rule = if r.chance(1, 2) {json!({"Mapper": {"SetPart": {"part": "Fragment", "value": {"Cache": {"category": "c", "key": {"Part": "Path"}, "value": {"CommandOutput": cmd}}}}}})}
            else {json!({"Mapper": {"CacheUrl": {"category": "c", "mapper": {"SetPart": {"part": "Fragment", "value": {"CommandOutput": cmd}}}}}})};
        let (pr, pw) = (r.chance(1, 2), r.chance(1, 2));
        let conf = json!({"docs": {"name": "c"}, "cache_path": if r.chance(1, 2) {"conf.sqlite"} else {":memory:"}, "params": {"read_cache": pr, "write_cache": pw}, "rules": [rule]});
        std::fs::write(dir.join("config.json"), conf.to_string()).unwrap();
        let mut files: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
        let mut runs = 0u64;
        let mut log = Vec::new();
        for _ in 0..2 + r.below(5) {
            let (mut read, mut write) = (pr, pw);
            let mut args: Vec<String> = vec!["--config".into(), "config.json".into(), "--threads".into(), "1".into()];
            let mut path = conf["cache_path"].as_str().unwrap().to_string();
            match r.below(4) { 0 => {path = "cli.sqlite".into(); args.extend(["--cache-path".into(), path.clone()]);}, 1 if r.chance(1, 2) => {path = ":memory:".into(); args.extend(["--cache-path".into(), path.clone()]);}, _ => {} }
            match r.below(4) { 0 => {read = true; args.push("--read-cache".into()); if r.chance(1, 2) {args.push("true".into());}}, 1 => {read = false; args.extend(["--read-cache".into(), "false".into()]);}, _ => {} }
            match r.below(4) { 0 => {write = true; args.push("--write-cache".into()); if r.chance(1, 2) {args.push("true".into());}}, 1 => {write = false; args.extend(["--write-cache".into(), "false".into()]);}, _ => {} }
            args.push("--json".into());
            let urls: Vec<String> = (0..1 + r.below(5)).map(|_| format!("https://e.com/{}", ["a", "b", "bad", "A"][r.below(4)])).collect();
            let mut mem = BTreeMap::new();
            let store = if path == ":memory:" {&mut mem} else {files.entry(path.clone()).or_default()};
            let want: Vec<Option<String>> = urls.iter().map(|u| {
                if read { if let Some(x) = store.get(u) {return Some(format!("{u}#{x}"));} }
                runs += 1;
                if u.contains("bad") {return None;}
                let x = format!("v{runs}");
                if write {store.insert(u.clone(), x.clone());}
                Some(format!("{u}#{x}"))
            }).collect();
            args.extend(urls.iter().cloned());
            let o = Command::new(&cfg.cli).current_dir(&dir).args(&args).stdin(Stdio::null()).output().unwrap();
            let v: serde_json::Value = de(&serde_json::from_slice(&o.stdout).unwrap_or_default()).unwrap_or_default();
            let got: Vec<Option<String>> = v["Ok"]["urls"].as_array().map(|a| a.iter().map(|x| x["Ok"]["Ok"].as_str().map(str::to_string)).collect()).unwrap_or_default();
            let n = std::fs::read_to_string(dir.join("log")).unwrap_or_default().lines().count() as u64;
            log.push(json!({"arguments": args, "expected": want}));
            rec.eval_hash(hash_str(&format!("{conf}{log:?}")));
            rec.count("programs run");
            let touched = path != ":memory:" && dir.join(&path).exists();
            let why = if got != want {format!("gives {got:?} rather than {want:?}: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())} else if n != runs {format!("has run the command {n} times rather than {runs}")} else if touched && store.is_empty() && !read && !write {"made a cache it was told not to use".into()} else {continue};
            if why.starts_with("made") && log.len() > 1 {continue;}
            rec.fail("program", format!("the program with {args:?} {why}"), json!({"config": conf, "history": log}));
            break;
        }
        std::fs::remove_dir_all(&dir).ok();
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = sessions(cfg);
    rec.merge(same(cfg)); rec.merge(unusable(cfg)); rec.merge(program(cfg)); rec.merge(crate::http::redirects(cfg, 4));
    finish(cfg, rec, "exploration", "tasks run on one cache with random switches, operations built from functions that count their evaluations; each result, evaluation count and the cache's whole content compared with a model; distinct = operation, URL, switches and content before",
        vec!["operations are deterministic where equal results with and without the cache are demanded"])
}
