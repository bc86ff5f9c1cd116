//! U27: the two gates, `--tests` and `--test-suitability`, let through what they should and nothing else.
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use serde_json::{json, Map, Value};
use url_cleaner::types::*;
use crate::core::*;
use crate::make::{self, G};
use crate::model::World;
use crate::real::*;
use crate::rng::{hash_str, Rng};

fn world(r: &mut Rng, u: &url::Url, d: usize) -> (World, Value) {
    let w = { let mut g = G::new(r, u); g.n_commons = 2; g.cache = false; g.world(2) };
    let mut g = G::new(r, u); g.n_commons = 2; g.cache = false;
    let mut rules = Vec::new();
    for _ in 0..1 + g.r.below(3) {rules.push(g.rule(d));}
    (w, Value::Array(rules))
}
struct Ran { code: Option<i32>, out: String, err: String }
fn cli(cfg: &Cfg, args: &[String]) -> Ran {
    match Command::new(&cfg.cli).args(args).stdin(Stdio::null()).output() {
        Ok(o) => Ran {code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned()},
        Err(e) => Ran {code: None, out: String::new(), err: e.to_string()}
    }
}
fn passes(r: &Ran) -> bool { r.code == Some(0) }

// --- tests ---

struct Set { v: Value }
/// What a task gives in a set.
fn truth(base: &Config, outer: Option<&Value>, diff: Option<&Value>, job: &Value, task: &Value) -> Option<Result<String, String>> {
    let mut c = base.clone();
    for d in [outer, diff].into_iter().flatten() {de::<ParamsDiff>(d).ok()?.apply(&mut c.params);}
    let (t, j) = (de::<TaskConfig>(task).ok()?, de::<JobContext>(job).ok()?);
    guarded(|| JobConfig {config: std::borrow::Cow::Owned(c), cache: Default::default()}.new_task(t, &j).r#do().map(|u| u.as_str().to_string()).map_err(|e| variant_of(&e))).ok()
}
fn set(r: &mut Rng, base: &Config, outer: Option<&Value>, w: &World, u: &url::Url, spoil: Option<&str>, spoilt: &mut bool) -> Option<Set> {
    let diff = r.chance(1, 2).then(|| crate::config::diff(r, false));
    let job = match r.below(3) { 0 => json!({}), _ => json!({"vars": w.job_vars}) };
    let want = if spoil.is_some() {1 + r.below(6)} else {r.below(7)};
    let bad_at = spoil.map(|_| r.below(want));
    let mut tests = Vec::new();
    let mut tries = 0;
    while tests.len() < want && tries < 40 {
        tries += 1;
        let url = if r.chance(1, 2) {u.as_str().to_string()} else {make::url(r).as_str().to_string()};
        let task = if r.chance(1, 2) {json!(url)} else {json!({"url": url, "context": {"vars": w.task_vars}})};
        let Some(t) = truth(base, outer, diff.as_ref(), &job, &task) else {continue};
        let here = bad_at == Some(tests.len()) && !*spoilt;
        match (t, here.then_some(spoil).flatten()) {
            // Some results (of file URLs) are read back as others.
            (Ok(x), _) if url::Url::parse(&x).map_or(true, |p| p.as_str() != x) => {},
            (Ok(x), None) => tests.push(json!({"task_config": task, "result": x})),
            (Ok(x), Some(how)) => {
                let bad = match how {
                    "another result" => {
                        let p = url::Url::parse(&x).ok()?;
                        let mut q = p.clone();
                        match r.below(7) { 0 => q.set_fragment(Some("spoilt")), 1 => q.set_query(Some(&format!("{}x", p.query().unwrap_or("")))), 2 => q = url::Url::parse(&format!("{}{}", p.as_str(), "/")).ok()?, 3 => q = url::Url::parse("https://example.com/another").ok()?,
                            4 => {let _ = q.set_host(Some("other.example"));}, 5 => {let _ = q.set_scheme(if p.scheme() == "https" {"http"} else {"https"});}, _ => q = url::Url::parse(&url).ok()? }
                        if q == p {continue;}
                        json!({"task_config": task, "result": q.as_str()})
                    },
                    "an empty difference" => { // With and without an empty query or fragment: not the same.
                        let p = url::Url::parse(&x).ok()?; let mut q = p.clone();
                        if p.query().is_none() {q.set_query(Some(""))} else if p.fragment().is_none() {q.set_fragment(Some(""))} else {continue}
                        json!({"task_config": task, "result": q.as_str()})
                    },
                    "no result" => json!({"task_config": task}),
                    "a result that is no URL" => json!({"task_config": task, "result": *r.pick(&[json!("nope"), json!(""), Value::Null, json!(1), json!(["https://example.com/"])])}),
                    "an input that is no URL" => json!({"task_config": *r.pick(&[json!("nope"), json!({"url": "nope"}), Value::Null, json!({})]), "result": x}),
                    _ => continue
                };
                *spoilt = true; tests.push(bad);
            },
            (Err(_), Some("an error")) => {*spoilt = true; tests.push(json!({"task_config": task, "result": *r.pick(&[url.as_str(), "https://example.com/"])}));},
            (Err(_), _) => {}
        }
    }
    let mut o = Map::new();
    if let Some(d) = diff {o.insert("params_diff".into(), d);} else if r.chance(1, 3) {o.insert("params_diff".into(), Value::Null);}
    if job != json!({}) || r.chance(1, 2) {o.insert("job_context".into(), job);}
    o.insert("tests".into(), json!(tests));
    Some(Set {v: o.into()})
}
const SPOIL: &[&str] = &["another result", "another result", "another result", "an empty difference", "no result", "a result that is no URL", "an input that is no URL", "an error", "an error"];
fn tests(cfg: &Cfg, by_cli: bool) -> Rec {
    cases(cfg, if by_cli {"tests, by the program"} else {"tests"}, if by_cli {cfg.n(1_500, 40_000)} else {cfg.n(12_000, 300_000)}, |r, rec| {
        let u = make::url(r);
        let (w, mut rules) = world(r, &u, 3);
        // Something that always shows what the set and the task set.
        rules.as_array_mut().unwrap().push(json!({"Mapper": {"IgnoreError": {"SetPart": {"part": "Fragment", "value": {"Join": {"sources": ["r", {"NoneTo": {"value": {"Var": *r.pick(make::VARS)}, "if_none": "-"}}, {"IfFlag": {"name": *r.pick(make::FLAGS), "then": "1", "else": "0"}}, {"NoneTo": {"value": {"Var": {"type": "JobContext", "name": *r.pick(make::VARS)}}, "if_none": "-"}}]}}}}}}));
        if r.chance(1, 3) {rules.as_array_mut().unwrap().push(json!({"condition": {"PartContains": {"part": "Path", "value": "a", "where": "Anywhere"}}, "mapper": {"Error": "spoilt"}}));}
        let v = json!({"docs": {"name": "gate"}, "cache_path": ":memory:", "params": w.params, "commons": w.commons, "rules": rules});
        let Ok(base) = de::<Config>(&v) else {return};
        let outer = (by_cli && r.chance(1, 3)).then(|| crate::config::diff(r, false));
        let spoil = r.chance(1, 2).then(|| *r.pick(SPOIL));
        let files = if by_cli {1 + r.below(3)} else {1};
        let mut spoilt = false;
        let bad_file = r.below(files);
        let mut docs = Vec::new();
        let mut n = 0;
        for f in 0..files {
            let k = if r.chance(1, 8) && !(spoil.is_some() && f == bad_file) {0} else {1 + r.below(4)};
            let bad_set = r.below(k.max(1));
            let mut sets = Vec::new();
            for s in 0..k { if let Some(x) = set(r, &base, outer.as_ref(), &w, &u, spoil.filter(|_| f == bad_file && s == bad_set), &mut spoilt) {n += x.v["tests"].as_array().map_or(0, |a| a.len()); sets.push(x.v);} }
            docs.push(json!({"sets": sets}));
        }
        // Whole files can be bad too.
        let mut texts: Vec<Option<String>> = docs.iter().map(|d| Some(d.to_string())).collect();
        let mut how = spoil.filter(|_| spoilt).unwrap_or("all correct");
        if by_cli && !spoilt && r.chance(1, 4) {
            how = *r.pick(&["a missing file", "a file cut short", "a file without sets"]);
            texts[bad_file] = match how { "a missing file" => None, "a file cut short" => {let t = docs[bad_file].to_string(); Some(t[..t.len() - 1].to_string())}, _ => Some("{}".into()) };
        }
        let right = how == "all correct";
        rec.eval_hash(hash_str(&format!("{v}{texts:?}{outer:?}")));
        rec.count(how); rec.add("tests given", n as u64);
        let detail = || json!({"config": v, "tests": docs, "override": outer, "wrong with it": how});
        rec.sample(|| json!({"tests": docs, "wrong with it": how}));
        if by_cli {
            let dir = cfg.scratch.join(format!("g{}", rec.case.1));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("config.json"), v.to_string()).unwrap();
            let mut args = vec!["--config".to_string(), dir.join("config.json").to_string_lossy().into_owned()];
            if let Some(d) = &outer {std::fs::write(dir.join("diff.json"), d.to_string()).unwrap(); args.extend(["--params-diff".into(), dir.join("diff.json").to_string_lossy().into_owned()]);}
            for (i, t) in texts.iter().enumerate() {let p = dir.join(format!("t{i}.json")); if let Some(t) = t {std::fs::write(&p, t).unwrap();} args.extend(["--tests".into(), p.to_string_lossy().into_owned()]);}
            let got = cli(cfg, &args);
            std::fs::remove_dir_all(&dir).ok();
            let said = got.out.contains("All tests passed!");
            if passes(&got) != right || said != right {rec.fail(format!("tests: {how}"), format!("--tests with {how} ends with {:?} and {} \"All tests passed!\": {}", got.code, if said {"says"} else {"does not say"}, got.err.chars().take(300).collect::<String>()), detail());}
        } else {
            let doc = docs[0].to_string();
            let got = guarded(|| serde_json::from_str::<url_cleaner::testing::Tests>(&doc).map(|t| base.run_tests(t)).map_err(|e| e.to_string()));
            let ok = matches!(got, Ok(Ok(_)));
            if ok != right {rec.fail(format!("tests: {how}"), format!("tests with {how} {}: {got:?}", if ok {"pass"} else {"fail"}).chars().take(500).collect::<String>(), detail());}
        }
    })
}

// --- suitability ---

/// What a configuration needs documented, and what nothing makes good.
#[derive(Default, Clone, Debug)]
struct Needs { docs: BTreeSet<(&'static str, String)>, never: Vec<String> }
fn literal(v: &Value) -> Option<&str> { v.as_str().or_else(|| v.as_object().filter(|o| o.len() == 1)?.get("String")?.as_str()) }
fn reference(o: &Value, flag: bool, at: &str, n: &mut Needs) {
    let (ty, name) = match o { Value::String(s) => ("Params", Some(s.as_str())), o => (o["type"].as_str().unwrap_or("Params"), literal(&o["name"])) };
    let Some(name) = name else {n.never.push(format!("{at}: a name that is no literal")); return};
    match ty { "Params" => {n.docs.insert((if flag {"flags"} else {"vars"}, name.into()));}, "JobContext" => {n.docs.insert(("job_context", name.into()));}, "TaskContext" => {n.docs.insert(("task_context", name.into()));}, "Env" => {n.docs.insert(("environment_vars", name.into()));}, _ => {} }
}
fn needs(v: &Value, at: String, n: &mut Needs) {
    match v {
        Value::Object(o) => for (k, x) in o {
            let p = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
            match k.as_str() {
                "map" | "vars" | "headers" | "Form" | "Object" | "default_headers" if x.is_object() => {for (k2, y) in x.as_object().unwrap() {needs(y, format!("{p}/{}", k2.replace('~', "~0").replace('/', "~1")), n);} continue;},
                "Debug" => n.never.push(format!("{p}: Debug")),
                "FlagIsSet" | "IfFlag" => reference(x, true, &p, n), "Var" | "VarIs" => reference(x, false, &p, n),
                "InSet" => if let Some(s) = literal(x) {n.docs.insert(("sets", s.into()));},
                "ParamsMap" => if let Some(s) = literal(&x["name"]) {n.docs.insert(("maps", s.into()));},
                "ParamsNamedPartitioning" => if let Some(s) = literal(&x["name"]) {n.docs.insert(("named_partitionings", s.into()));},
                "CommandOutput" | "CommandExists" | "CommandExitStatus" => n.never.push(format!("{p}: a command")),
                _ => {}
            }
            needs(x, p, n);
        },
        Value::Array(a) => for (i, x) in a.iter().enumerate() {needs(x, format!("{at}/{i}"), n)},
        _ => {}
    }
}
fn in_commons(v: &Value, n: &mut Needs) { for (k, x) in v.as_object().into_iter().flatten() { for (k2, y) in x.as_object().into_iter().flatten() {needs(y, format!("/commons/{k}/{k2}"), n);} } }
/// Names that are no literals become some.
fn literals(v: &mut Value) {
    match v {
        Value::Object(o) => for (k, x) in o.iter_mut() {
            if matches!(k.as_str(), "FlagIsSet" | "IfFlag" | "Var" | "VarIs") && x.is_object() && literal(&x["name"]).is_none() {x["name"] = json!("v0");}
            literals(x);
        },
        Value::Array(a) => a.iter_mut().for_each(literals),
        _ => {}
    }
}
fn docs_for(n: &Needs, without: Option<&(&'static str, String)>, r: &mut Rng) -> Value {
    let mut d = json!({"title": "gate", "flags": {}, "vars": {}, "environment_vars": {}, "sets": {}, "maps": {}, "named_partitionings": {}, "lists": {}, "job_context": {"vars": {}}, "task_context": {"vars": {}}});
    let mut put = |k: &str, name: &str| { let o = if k.ends_with("_context") {&mut d[k]["vars"]} else {&mut d[k]}; o[name] = json!("documented"); };
    for x in &n.docs { if Some(x) != without {put(x.0, &x.1);} else { for k in ["flags", "vars", "environment_vars", "sets", "maps", "named_partitionings", "lists", "job_context", "task_context"] { if k != x.0 && r.chance(1, 2) {put(k, &x.1);} } } }
    d
}
fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v { Value::Object(o) => for (k, x) in o {pointers(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)}, Value::Array(a) => for (i, x) in a.iter().enumerate() {pointers(x, format!("{at}/{i}"), out)}, _ => {} }
}
fn offence(r: &mut Rng, x: &Value) -> (&'static str, Value) {
    let undoc = "not documented anywhere";
    match r.below(16) {
        0..=5 => ("Debug", json!({"Debug": x})),
        6 => ("an undocumented variable", json!({"Var": undoc})),
        7 => ("an undocumented variable of the job", json!({"Var": {"type": "JobContext", "name": undoc}})),
        8 => ("an undocumented variable of the task", json!({"Var": {"type": "TaskContext", "name": undoc}})),
        9 => ("an undocumented flag", json!({"FlagIsSet": undoc})),
        10 => ("an undocumented flag", json!({"IfFlag": {"name": undoc, "then": "a", "else": "b"}})),
        11 => ("an undocumented set", json!({"InSet": undoc})),
        12 => ("an undocumented map", json!({"ParamsMap": {"name": undoc, "key": "a"}})),
        13 => ("a command", json!({"CommandOutput": {"program": "true"}})),
        14 => ("a name that is no literal", json!({"Var": {"type": *r.pick(&["Params", "Scratchpad", "Common", "Env"]), "name": {"Join": {"sources": ["v", "0"]}}}})),
        _ => ("an undocumented partitioning", json!({"ParamsNamedPartitioning": {"name": undoc, "element": "a"}})),
    }
}
fn suitability(cfg: &Cfg, by_cli: bool) -> Rec {
    cases(cfg, if by_cli {"suitability, by the program"} else {"suitability"}, if by_cli {cfg.n(1_500, 40_000)} else {cfg.n(40_000, 1_000_000)}, |r, rec| {
        let u = make::url(r);
        let (w, mut rules) = world(r, &u, 4);
        let mut commons = w.commons.clone();
        if r.chance(1, 3) {let q = crate::forms::request(r); rules.as_array_mut().unwrap().push(json!({"Mapper": {"SetScratchpadVar": {"name": "h", "value": {"HttpRequest": q}}}}));}
        if !r.chance(1, 10) {literals(&mut rules); literals(&mut commons);}
        let mut n = Needs::default();
        needs(&rules, "/rules".into(), &mut n); in_commons(&commons, &mut n);
        let leave = (r.chance(1, 3) && !n.docs.is_empty()).then(|| {let a: Vec<_> = n.docs.iter().collect(); (*r.pick(&a)).clone()});
        let docs = docs_for(&n, leave.as_ref(), r);
        let mut how = if !n.never.is_empty() {"a name that is no literal or the like"} else { match &leave { Some(x) => x.0, None => "suitable" } }.to_string();
        let mut v = json!({"docs": docs, "cache_path": ":memory:", "params": w.params, "commons": commons, "rules": rules});
        let Ok(mut c) = de::<Config>(&v) else {return};
        if how == "suitable" && r.chance(2, 3) {
            // An offence, put wherever the configuration still loads and is another one.
            let mut at = Vec::new(); pointers(&v["rules"], "/rules".into(), &mut at); for (k, x) in v["commons"].as_object().into_iter().flatten() { for (k2, y) in x.as_object().into_iter().flatten() {pointers(y, format!("/commons/{k}/{k2}"), &mut at);} }
            for _ in 0..30 {
                let p = r.pick(&at).clone();
                let mut bad = v.clone();
                let Some(x) = bad.pointer_mut(&p) else {continue};
                let (what, y) = offence(r, x);
                *x = y;
                let Ok(c2) = de::<Config>(&bad) else {continue};
                if c2 == c {continue;}
                // It must be there still, not something that loading ignores.
                let kept = serde_json::to_value(&c2).unwrap_or(Value::Null);
                let mut m = Needs::default(); needs(&kept["rules"], "/rules".into(), &mut m); in_commons(&kept["commons"], &mut m);
                if m.never.is_empty() && m.docs.iter().all(|x| n.docs.contains(x)) {continue;}
                how = what.to_string(); v = bad; c = c2;
                rec.count(&format!("put in {}", p.split('/').filter(|x| x.starts_with(|c: char| c.is_ascii_uppercase())).next_back().unwrap_or("?")));
                break;
            }
        }
        let right = how == "suitable";
        rec.eval_hash(hash_str(&v.to_string())); rec.count(&how);
        let detail = || json!({"config": v, "wrong with it": how, "left out": leave});
        rec.sample(|| json!({"rules": v["rules"], "wrong with it": how}));
        if by_cli {
            let f = cfg.scratch.join(format!("s{}.json", rec.case.1));
            std::fs::write(&f, v.to_string()).unwrap();
            let got = cli(cfg, &["--config".into(), f.to_string_lossy().into_owned(), "--test-suitability".into()]);
            std::fs::remove_file(&f).ok();
            if passes(&got) != right {rec.fail(format!("suitability: {how}"), format!("--test-suitability ends with {:?} for a configuration with {how}: {}", got.code, got.err.chars().take(300).collect::<String>()), detail());}
        } else {
            let got = guarded(|| c.assert_suitability());
            if got.is_ok() != right {rec.fail(format!("suitability: {how}"), format!("a configuration with {how} is held {}: {got:?}", if got.is_ok() {"suitable"} else {"unsuitable"}).chars().take(500).collect::<String>(), detail());}
        }
    })
}
/// A great many tests, sets and rules (or long, or deep ones), and at most one thing wrong among them.
fn sizes(cfg: &Cfg) -> Rec {
    cases(cfg, "sizes", cfg.n(700, 20_000), |r, rec| {
        let n = *r.pick(&[7usize, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1025]);
        let at = r.chance(2, 3).then(|| match r.below(4) { 0 => n - 1, 1 => 0, 2 => n / 2, _ => r.below(n) });
        if r.chance(1, 2) {
            let c: Config = de(&json!({"docs": {"name": "gate"}, "cache_path": ":memory:", "params": {}, "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"Var": {"type": "TaskContext", "name": "v"}}}}}]})).unwrap();
            let long = if r.chance(1, 5) {"l".repeat(*r.pick(&[255, 256, 1000, 2000, 2048, 4096, 8192, 65_536]) + r.below(3))} else {String::new()};
            let one = |i: usize| json!({"task_config": {"url": format!("https://example.com/{i}"), "context": {"vars": {"v": format!("{long}{i}")}}}, "result": format!("https://example.com/{i}#{long}{i}{}", if at == Some(i) {"x"} else {""})});
            let sets: Vec<Value> = match r.below(3) { 0 => vec![json!({"tests": (0..n).map(one).collect::<Vec<_>>()})], 1 => (0..n).map(|i| json!({"tests": [one(i)]})).collect(), _ => { let k = 1 + r.below(n); (0..n).collect::<Vec<_>>().chunks(k).map(|x| json!({"job_context": {}, "tests": x.iter().map(|i| one(*i)).collect::<Vec<_>>()})).collect() } };
            if !long.is_empty() && n > 300 {return;}
            let doc = json!({"sets": sets}).to_string();
            rec.eval_hash(hash_str(&doc)); rec.add("tests given", n as u64);
            let ok = matches!(guarded(|| serde_json::from_str::<url_cleaner::testing::Tests>(&doc).map(|t| c.run_tests(t)).map_err(|e| e.to_string())), Ok(Ok(_)));
            if ok != at.is_none() {rec.fail("tests: sizes", format!("{n} tests in {} sets, {}, {}", sets.len(), match at {Some(i) => format!("test {i} wrong"), None => "all right".into()}, if ok {"pass"} else {"fail"}), json!({"first set": sets[0]}));}
        } else {
            let deep = r.chance(1, 4);
            let (n, at) = if deep {let n = 1 + n.min(30); (n, at)} else {(n, at)};
            let offence = match r.below(6) { 0 => json!({"Var": "undocumented"}), 1 => json!({"ParamsMap": {"name": "undocumented", "key": "k"}}), 2 => json!({"Debug": "x"}), 3 => json!({"CommandOutput": {"program": "true"}}), 4 => json!({"Var": {"type": "JobContext", "name": "undocumented"}}), _ => json!({"IfFlag": {"name": "undocumented", "then": "a", "else": "b"}}) };
            let good = |i: usize| match i % 4 { 0 => json!({"Var": "v"}), 1 => json!("text"), 2 => json!({"ParamsMap": {"name": "m", "key": "k"}}), _ => json!({"Var": {"type": "JobContext", "name": "j"}}) };
            let x = |i: usize| if at == Some(i) {offence.clone()} else {good(i)};
            let set = |v: Value| json!({"SetPart": {"part": "Fragment", "value": v}});
            let (rules, commons) = if deep {
                let mut v = x(0); for i in 1..n {v = match i % 3 { 0 => json!({"NoneTo": {"value": x(i), "if_none": v}}), 1 => json!({"Join": {"sources": [v, x(i)]}}), _ => json!({"TryElse": {"try": v, "else": x(i)}}) };}
                (json!([{"Mapper": set(v)}]), json!({}))
            } else { match r.below(7) {
                0 => (Value::Array((0..n).map(|i| json!({"Mapper": set(x(i))})).collect()), json!({})),
                1 => (json!([{"Mapper": {"All": (0..n).map(|i| set(x(i))).collect::<Vec<_>>()}}]), json!({})),
                2 => (json!([{"Mapper": set(json!({"Join": {"sources": (0..n).map(x).collect::<Vec<_>>()}}))}]), json!({})),
                3 => (json!([]), json!({"string_sources": (0..n).map(|i| (format!("c{i}"), x(i))).collect::<Map<_, _>>()})),
                4 => (json!([{"condition": {"All": (0..n).map(|i| json!({"StringIs": {"left": x(i), "right": "x"}})).collect::<Vec<_>>()}, "mapper": "None"}]), json!({})),
                5 => (json!([{"PartMap": {"part": "Host", "map": (0..n).map(|i| (format!("k{i}"), set(x(i)))).collect::<Map<_, _>>()}}]), json!({})),
                _ => (json!([{"Rules": (0..n).map(|i| json!({"Mapper": set(x(i))})).collect::<Vec<_>>()}]), json!({})),
            } };
            let v = json!({"docs": {"title": "g", "vars": {"v": "d"}, "maps": {"m": "d"}, "job_context": {"vars": {"j": "d"}}}, "cache_path": ":memory:", "params": {}, "commons": commons, "rules": rules});
            let c: Config = match de(&v) { Ok(c) => c, Err(e) => {rec.fail("sizes: cannot be loaded", format!("a configuration of {n} cannot be loaded: {e}"), v); return;} };
            let right = at.is_none_or(|i| i >= n);
            rec.eval_hash(hash_str(&v.to_string())); rec.count(if deep {"deep configurations"} else {"large configurations"});
            let got = guarded(|| c.assert_suitability());
            if got.is_ok() != right {rec.fail("suitability: sizes", format!("a configuration of {n} ({}), {}, is held {}", if deep {"nested"} else {"side by side"}, match at {Some(i) if !right => format!("one at {i} unsuitable: {offence}"), _ => "all suitable".into()}, if got.is_ok() {"suitable"} else {"unsuitable"}), v);}
        }
    })
}
/// The shipped configuration and the shipped tests.
fn shipped(cfg: &Cfg) -> Rec {
    cases_idx(cfg, "shipped", 4, |i, rec| {
        let t = cfg.repo.join("tests.json").to_string_lossy().into_owned();
        let (what, args): (&str, Vec<String>) = match i { 0 => ("--test-suitability", vec!["--test-suitability".into()]), 1 => ("--tests", vec!["--tests".into(), t]), 2 => ("both", vec!["--test-suitability".into(), "--tests".into(), t]),
            _ => ("suitability of the file", vec!["--config".into(), cfg.repo.join("default-config.json").to_string_lossy().into_owned(), "--test-suitability".into()]) };
        rec.eval(Some(what));
        let got = cli(cfg, &args);
        if !passes(&got) {rec.fail(format!("shipped: {what}"), format!("{what} fails for what is shipped: {:?}: {}", got.code, got.err.chars().take(400).collect::<String>()), json!(null));}
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = tests(cfg, false);
    for x in [tests(cfg, true), suitability(cfg, false), suitability(cfg, true), sizes(cfg), shipped(cfg)] {rec.merge(x);}
    finish(cfg, rec, "exploration", "distinct test files and configurations put to the gates, right ones and ones with a single thing wrong", vec!["what a test should expect is what the library gives for the task on its own (U01, U05 and U16 judge that)"])
}
