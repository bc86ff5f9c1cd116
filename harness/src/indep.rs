//! U04: a task's result, alone and in every kind of company.
use std::borrow::Cow;
use std::process::{Command, Stdio};
use std::sync::Barrier;
use serde_json::{json, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::dconf::D;
use crate::make::{self, G};
use crate::model::{Pad, World};
use crate::real::*;
use crate::rng::{hash_str, Rng};

type Res = Result<String, String>;
fn one(conf: &Config, cache: &Cache, t: &Value, job: &JobContext) -> Res {
    match guarded(|| {
        let jc = JobConfig {config: Cow::Borrowed(conf), cache: cache.clone()};
        let tc: TaskConfig = de(t).map_err(|_| "not a task".to_string())?;
        jc.new_task(tc, job).r#do().map(|u| u.to_string()).map_err(|e| variants(&e))
    }) { Ok(x) => x, Err(p) => Err(format!("panic: {p}")) }
}
/// The kinds of error, from the outside in, without what they carry.
fn variants(e: &dyn std::fmt::Debug) -> String { let s = format!("{e:?}"); s.split(|c: char| !c.is_alphanumeric() && c != '(' && c != '_').next().unwrap_or("").split('(').take(6).collect::<Vec<_>>().join("/") }
/// The same URL, or both of them ordinary errors: which of several errors is met first may depend on the order of a map.
fn alike(a: &Res, b: &Res) -> bool { match (a, b) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.starts_with("panic") == b.starts_with("panic"), _ => false } }
/// Many threads on one configuration, starting together, each going through the tasks its own way.
fn together(r: &mut Rng, conf: &Config, tasks: &[Value], job: &JobContext, threads: usize) -> Vec<(usize, Res)> {
    let (barrier, cache) = (Barrier::new(threads), Cache::default());
    let orders: Vec<Vec<usize>> = (0..threads).map(|t| { let mut o: Vec<usize> = (0..tasks.len()).collect(); match t % 3 { 0 => {}, 1 => o.rotate_left(t % tasks.len()), _ => r.shuffle(&mut o) } o }).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = orders.into_iter().map(|o| { let (b, c) = (&barrier, &cache); s.spawn(move || { b.wait(); o.into_iter().map(|i| (i, one(conf, c, &tasks[i], job))).collect::<Vec<_>>() }) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    })
}
thread_local! { static SLOT: std::cell::RefCell<Option<Box<Config>>> = const {std::cell::RefCell::new(None)}; }
struct Batch { conf: Value, tasks: Vec<Value>, job: Value, expect: Vec<Option<Res>> }
/// Everything that must not make a difference.
fn judge(r: &mut Rng, rec: &mut Rec, b: &Batch, fresh: usize, threads: usize, cli: Option<(&Cfg, bool)>) {
    let name = |i: usize| format!("{}", b.tasks[i]).chars().take(200).collect::<String>();
    let conf: Config = match de(&b.conf) { Ok(c) => c, Err(e) => {rec.fail("cannot be loaded", format!("a configuration cannot be loaded: {e}"), b.conf.clone()); return;} };
    let job: JobContext = de(&b.job).unwrap();
    let pristine = conf.clone();
    let detail = |i: usize, a: &Res, how: &str, x: &Res| json!({"configuration": if b.conf.to_string().len() < 20_000 {b.conf.clone()} else {json!({"params": b.conf["params"]["flags"]})}, "tasks": b.tasks, "job": b.job, "task": b.tasks[i], "alone": a, how: x});
    // Alone: nothing but this task has ever happened to the configuration.
    let alone: Vec<Res> = (0..b.tasks.len()).map(|i| { if i < fresh {let c: Config = de(&b.conf).unwrap(); one(&c, &Cache::default(), &b.tasks[i], &job)} else {one(&pristine.clone(), &Cache::default(), &b.tasks[i], &job)} }).collect();
    macro_rules! same { ($i:expr, $x:expr, $how:expr) => {{ let (i, x) = ($i, $x); rec.add("results compared", 1); if !alike(&x, &alone[i]) {rec.fail(format!("{}", $how), format!("{} gives {:?} {} but {:?} alone", name(i), x, $how, alone[i]), detail(i, &alone[i], $how, &x)); return;} }} }
    for (i, e) in b.expect.iter().enumerate() { if let Some(e) = e { rec.count("results also known from the reference"); if !alike(e, &alone[i]) {rec.fail("reference", format!("{} gives {:?} rather than {e:?}", name(i), alone[i]), detail(i, &alone[i], "reference", e)); return;} } }
    let cache = Cache::default();
    for i in 0..b.tasks.len() {same!(i, one(&conf, &cache, &b.tasks[i], &job), "after the tasks before it");}
    for i in (0..b.tasks.len()).rev() {same!(i, one(&conf, &cache, &b.tasks[i], &job), "after all the other tasks");}
    for _ in 0..3 {let i = r.below(b.tasks.len()); for _ in 0..3 {same!(i, one(&conf, &cache, &b.tasks[i], &job), "repeated");}}
    if conf != pristine {rec.fail("configuration", "cleaning changed the configuration", detail(0, &alone[0], "first", &alone[0])); return;}
    // Copies of a used configuration.
    let copy = conf.clone();
    let i = r.below(b.tasks.len()); same!(i, one(&copy, &cache, &b.tasks[i], &job), "with a copy of a used configuration");
    // Where other configurations used to be.
    SLOT.with_borrow_mut(|slot| { match slot { Some(c) => **c = pristine.clone(), None => *slot = Some(Box::new(pristine.clone())) } });
    for _ in 0..3 {let i = r.below(b.tasks.len()); let x = SLOT.with_borrow(|slot| one(slot.as_ref().unwrap(), &cache, &b.tasks[i], &job)); same!(i, x, "in place of another configuration");}
    // Together, on a configuration nobody has used before.
    let shared = pristine.clone();
    for (i, x) in together(r, &shared, &b.tasks, &job, threads) {same!(i, x, "among other threads");}
    rec.add("results of concurrent tasks", (threads * b.tasks.len()) as u64);
    if let Some((cfg, default)) = cli {
        let dir = cfg.scratch.join(format!("u{}", rec.case.1)); std::fs::create_dir_all(&dir).unwrap();
        let mut c = Command::new(&cfg.cli);
        if default {std::fs::write(dir.join("diff.json"), b.conf["monitor"].to_string()).unwrap(); c.arg("--params-diff").arg(dir.join("diff.json"));} else {std::fs::write(dir.join("config.json"), b.conf.to_string()).unwrap(); c.arg("--config").arg(dir.join("config.json"));}
        let mut order: Vec<usize> = (0..b.tasks.len()).chain((0..b.tasks.len()).rev()).collect(); r.shuffle(&mut order);
        let input: String = order.iter().map(|i| format!("{}\n", b.tasks[*i])).collect();
        let threads = *r.pick(&["1", "2", "3", "8"]);
        c.args(["--json", "--cache-path", ":memory:", "--threads", threads, "--job-context", &b.job.to_string()]).current_dir(&dir);
        let mut p = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let mut i = p.stdin.take().unwrap();
        let w = std::thread::spawn(move || {use std::io::Write; let _ = i.write_all(input.as_bytes());});
        let o = p.wait_with_output().unwrap(); let _ = w.join();
        std::fs::remove_dir_all(&dir).ok();
        rec.count("runs of the program");
        let v: Value = serde_json::from_slice(&o.stdout).unwrap_or(Value::Null);
        let got = v["Ok"]["urls"].as_array().cloned().unwrap_or_default();
        if got.len() != order.len() {rec.fail("program", format!("{} tasks gave the program {} results: {}", order.len(), got.len(), String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()), detail(0, &alone[0], "program", &alone[0])); return;}
        for (g, i) in got.iter().zip(order) {
            rec.add("results compared", 1);
            let x: Res = match g["Ok"]["Ok"].as_str() { Some(u) => Ok(u.to_string()), None => Err(g.to_string()) };
            let same = match (&x, &alone[i]) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
            if !same {rec.fail("program", format!("{} gives {x:?} in a run of the program with {threads} threads but {:?} alone", name(i), alone[i]), detail(i, &alone[i], "program", &x)); return;}
        }
    }
    rec.eval_hash(hash_str(&format!("{}{:?}", b.conf["rules"], b.tasks)));
    rec.add("tasks", b.tasks.len() as u64); rec.add("tasks that fail", alone.iter().filter(|x| x.is_err()).count() as u64);
}
fn programs(cfg: &Cfg) -> Rec {
    cases_t(cfg, "programs", cfg.n(12_000, 600_000), 6, |r, rec| {
        let u = make::url(r);
        let mut g = G::new(r, &u);
        g.cache = false; g.n_commons = 3;
        let mut world = g.world(2);
        let mut rules = Value::Null;
        for _ in 0..6 { rules = g.rules(3); if rules.as_array().is_some_and(|a| !a.is_empty()) {break;} }
        let mut rules = rules.as_array().cloned().unwrap_or_default();
        // Whatever the program leaves behind is looked for at the start of the next task.
        if g.r.chance(1, 2) {
            rules.insert(0, json!({"Mapper": {"IgnoreError": {"SetPart": {"part": "Fragment", "value": {"Join": {"sources": [{"NoneTo": {"value": {"Var": {"type": "Scratchpad", "name": "v0"}}, "if_none": "-"}}, {"NoneTo": {"value": {"Var": {"type": "Scratchpad", "name": "v1"}}, "if_none": "-"}}]}}}}}}));
            for f in make::FLAGS { if g.r.chance(1, 2) {rules.insert(0, json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": f}}, "mapper": {"SetPart": {"part": "Path", "value": "/leak"}}}));} rules.push(json!({"Mapper": {"SetScratchpadFlag": {"name": f, "value": true}}})); }
            let t = g.text(); rules.push(json!({"Mapper": {"SetScratchpadVar": {"name": "v0", "value": t}}}));
            rules.push(json!({"condition": {"PartContains": {"part": "Path", "value": "a"}}, "mapper": {"Error": "after setting"}}));
        }
        let n = 2 + g.r.below(7);
        let urls: Vec<(String, Vec<(String, String)>)> = (0..n).map(|i| { let x = if i == 0 {u.to_string()} else {make::url(g.r).to_string()}; let vs = make::VARS.iter().filter_map(|v| g.r.chance(1, 2).then(|| (v.to_string(), make::word(g.r)))).collect(); (x, vs) }).collect();
        let rules = Value::Array(rules);
        let conf = json!({"docs": {"name": "p"}, "cache_path": ":memory:", "params": world.params, "commons": world.commons, "rules": rules});
        let job = json!({"vars": world.job_vars});
        let expect = urls.iter().map(|(x, vs)| {
            world.task_vars = vs.iter().cloned().collect();
            let w = World {params: world.params.clone(), job_vars: world.job_vars.clone(), task_vars: world.task_vars.clone(), env: world.env.clone(), commons: world.commons.clone(), ..Default::default()};
            let m = run_model(&Prog {kind: Kind::Rules, prog: &rules, url: x, pad: &Pad::default(), args: None, text: "", needle: ""}, &w)?;
            Some(m.result.map(|_| m.url).map_err(|()| String::new()))
        }).collect();
        let tasks = urls.into_iter().map(|(x, vs)| json!({"url": x, "context": {"vars": vs.into_iter().collect::<std::collections::BTreeMap<_, _>>()}})).collect();
        let cli = r.chance(1, 16).then_some((cfg, false));
        judge(r, rec, &Batch {conf, tasks, job, expect}, 2, 3, cli);
    })
}
/// Patterns first used by many threads at once.
fn patterns(cfg: &Cfg) -> Rec {
    cases_t(cfg, "patterns", cfg.n(150, 10_000), 1, |r, rec| {
        let u = make::url(r);
        let pats: Vec<Value> = { let mut g = G::new(r, &u); (0..3).map(|_| match g.r.below(6) { 0 => json!(*g.r.pick(&["(", "[a", "*", "\\p{Nope}", "(?z)"])), 1 => json!({"pattern": (*g.r.pick(&["(?:a|b){10,20}c", "\\w{8}", "[a-z]{3}\\d+é*"]))}), _ => g.regex() }).collect() };
        // One pattern under different settings too.
        let mut pats = pats; if let Some(p) = pats[0].get("pattern").cloned().or(pats[0].as_str().map(|s| json!(s))) {pats.push(json!({"pattern": p, "case_insensitive": true})); pats.push(json!({"pattern": p, "unicode": r.chance(1, 2), "dot_matches_new_line": true}));}
        let texts: Vec<String> = (0..8).map(|_| make::word(r)).chain(["ABC".into(), "a\nb".into()]).collect();
        let load = |p: &Value| de::<RegexWrapper>(p).unwrap();
        let show = |w: &RegexWrapper, t: &str| w.get().map(|x| format!("{:?} {}", x.find(t).map(|m| m.range()), x.replace_all(t, "<$0>"))).map_err(|e| e.to_string());
        let want: Vec<Vec<_>> = pats.iter().map(|p| texts.iter().map(|t| { let o = |k: &str, d: bool| p.get(k).and_then(Value::as_bool).unwrap_or(d); let src = p.as_str().or(p["pattern"].as_str()).unwrap();
            ::regex::RegexBuilder::new(src).case_insensitive(o("case_insensitive", false)).dot_matches_new_line(o("dot_matches_new_line", false)).multi_line(o("multi_line", false)).swap_greed(o("swap_greed", false)).ignore_whitespace(o("ignore_whitespace", false)).crlf(o("crlf", false)).unicode(o("unicode", true)).build().map(|x| format!("{:?} {}", x.find(t).map(|m| m.range()), x.replace_all(t, "<$0>"))).map_err(|e| e.to_string()) }).collect()).collect();
        let shared: Vec<RegexWrapper> = pats.iter().map(load).collect();
        let barrier = Barrier::new(8);
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| { for t in 0..8 { let (shared, barrier, bad, texts, want, show) = (&shared, &barrier, &bad, &texts, &want, &show); s.spawn(move || {
            barrier.wait();
            for k in 0..shared.len() * texts.len() {
                let (p, x) = ((k / texts.len() + t % 2) % shared.len(), (k + t) % texts.len());
                let w = if k % 5 == 4 {Cow::Owned(shared[p].clone())} else {Cow::Borrowed(&shared[p])};
                let got = match guarded(|| show(&w, &texts[x])) { Ok(g) => g, Err(p) => Err(format!("panic: {p}")) };
                if got != want[p][x] {*bad.lock().unwrap() = Some((p, x, got)); return;}
            }
        }); } });
        rec.add("concurrent pattern uses", (8 * shared.len() * texts.len()) as u64);
        rec.eval_hash(hash_str(&format!("{pats:?}{texts:?}")));
        if let Some((p, x, got)) = bad.into_inner().unwrap() {rec.fail("pattern", format!("the pattern {} on {:?} gives {got:?} rather than {:?} when several threads use it", pats[p], texts[x], want[p][x]), json!({"patterns": pats, "text": texts[x]}));}
    })
}
fn shipped(cfg: &Cfg) -> Rec {
    let d = D::load(&cfg.repo);
    crate::net::refuse();
    cases_t(cfg, "shipped rules", cfg.n(500, 30_000), 8, |r, rec| {
        let diff = d.params(r, true);
        let mut conf = d.conf.clone();
        conf["params"]["flags"] = diff["flags"].clone();
        for (k, v) in diff["vars"].as_object().unwrap() {conf["params"]["vars"][k] = v.clone();}
        conf["params"]["read_cache"] = json!(false); conf["params"]["write_cache"] = json!(false);
        conf["monitor"] = json!({"flags": diff["flags"], "vars": diff["vars"], "read_cache": false, "write_cache": false});
        let (_, job) = d.context(r);
        let tasks: Vec<Value> = (0..30).filter_map(|_| { let l = d.link(r, 2); url::Url::parse(&l).ok()?; let (t, _) = d.context(r); Some(json!({"url": l, "context": t})) }).collect();
        if tasks.is_empty() {return;}
        let n = tasks.len();
        let cli = r.chance(1, 2).then_some((cfg, true));
        judge(r, rec, &Batch {conf, tasks, job, expect: vec![None; n]}, 3, 4, cli);
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = programs(cfg);
    rec.merge(patterns(cfg));
    rec.merge(shipped(cfg));
    finish(cfg, rec, "exploration", "batches of tasks under random rules and under the shipped rules: each task alone on a configuration of its own, then in order, in reverse, repeated, with copies, on several threads starting together and in the program; every result compared with the one alone (and, for random rules, with the reference); distinct = rules and batches",
        vec!["caching, commands and requests are left out here: they may depend on the outside", "third-party crates are shared by code and reference"])
}
