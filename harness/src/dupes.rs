//! U29: what a configuration says twice is refused; what it says once is there.
use std::process::{Command, Stdio};
use serde_json::{json, Map, Value};
use url_cleaner::types::*;
use crate::core::*;
use crate::make::{self, G};
use crate::real::*;
use crate::rng::{hash_str, Rng};

/// JSON that can say things twice.
#[derive(Clone, Debug)]
enum J { Leaf(Value), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
    fn from(v: &Value, r: &mut Rng) -> J {
        match v {
            Value::Array(a) => J::Arr(a.iter().map(|x| J::from(x, r)).collect()),
            Value::Object(o) => { let mut x: Vec<(String, J)> = o.iter().map(|(k, y)| (k.clone(), J::from(y, r))).collect(); if r.chance(1, 2) {r.shuffle(&mut x);} J::Obj(x) },
            v => J::Leaf(v.clone())
        }
    }
    fn at(&mut self, path: &[usize]) -> &mut J {
        match path.split_first() { None => self, Some((i, rest)) => match self { J::Arr(a) => a[*i].at(rest), J::Obj(o) => o[*i].1.at(rest), J::Leaf(_) => unreachable!() } }
    }
    fn write(&self, r: &mut Rng, out: &mut String) {
        let ws = |r: &mut Rng, out: &mut String| if r.chance(1, 8) {out.push_str(r.pick(&[" ", "\n", "\t", "  "]));};
        match self {
            J::Leaf(Value::String(s)) => text(s, r, out),
            J::Leaf(v) => out.push_str(&v.to_string()),
            J::Arr(a) => { out.push('['); for (i, x) in a.iter().enumerate() { if i > 0 {out.push(',');} ws(r, out); x.write(r, out); } out.push(']'); },
            J::Obj(o) => { out.push('{'); for (i, (k, x)) in o.iter().enumerate() { if i > 0 {out.push(',');} ws(r, out); text(k, r, out); ws(r, out); out.push(':'); x.write(r, out); } out.push('}'); }
        }
    }
    fn render(&self, r: &mut Rng) -> String { let mut s = String::new(); self.write(r, &mut s); s }
}
/// A JSON string, some characters written as escapes.
fn text(s: &str, r: &mut Rng, out: &mut String) {
    if r.chance(3, 4) {out.push_str(&Value::from(s).to_string()); return;}
    out.push('"');
    for c in s.chars() {
        if r.chance(1, 3) { let mut b = [0u16; 2]; for x in c.encode_utf16(&mut b) {out.push_str(&if r.chance(1, 2) {format!("\\u{x:04x}")} else {format!("\\u{x:04X}")});} }
        else { let q = Value::from(c.to_string()).to_string(); out.push_str(&q[1..q.len() - 1]); }
    }
    out.push('"');
}

/// What kind of place this is, for naming the violation.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { /// An object whose keys are names that must differ.
    Names, /// A list of names that must differ.
    Members, /// An object of partitions: keys must differ, and so must all the values in all of them.
    Partitions, /// A construct's fields: each at most once.
    Fields, /// Names that may repeat.
    Free }
fn walk(j: &J, path: &mut Vec<usize>, up: &[&str], out: &mut Vec<(Vec<usize>, Place, String)>) {
    let here = up.last().copied().unwrap_or("");
    let parent = up.iter().rev().nth(1).copied().unwrap_or("");
    match j {
        J::Leaf(_) => {},
        J::Arr(a) => {
            let place = match here {
                "RemoveQueryParams" | "AllowQueryParams" => Some(Place::Members),
                "flags" if matches!(parent, "params" | "params_diff") => Some(Place::Members),
                "unflags" | "unvars" if parent == "params_diff" => Some(Place::Members),
                "remove_from_map" => Some(Place::Members),
                _ if matches!(parent, "sets" | "lists" | "insert_into_sets" | "remove_from_sets") => Some(Place::Free),
                "init_sets" | "delete_sets" | "init_maps" | "delete_maps" => Some(Place::Free),
                _ => None
            };
            if let Some(p) = place {out.push((path.clone(), p, format!("{parent}/{here}").replace("0", "")));}
            for (i, x) in a.iter().enumerate() { path.push(i); let mut u = up.to_vec(); u.push("0"); walk(x, path, &u, out); path.pop(); }
        },
        J::Obj(o) => {
            let named_by_user = |h: &str, p: &str| matches!(h, "map" | "insert_into_map" | "map_diffs" | "insert_into_sets" | "remove_from_sets")
                || (matches!(p, "params" | "params_diff") && matches!(h, "vars" | "sets" | "lists" | "maps" | "named_partitionings"))
                || (p == "docs" && matches!(h, "flags" | "vars" | "environment_vars" | "sets" | "lists" | "maps" | "named_partitionings"))
                || (h == "vars" && matches!(p, "context" | "job_context" | "task_context"));
            // The first construct named here is taken, the rest is nobody's.
            let shared = matches!(here, "TreatErrorAsPass" | "TreatErrorAsFail");
            // Names whose repetition nothing is said about.
            let silent = (matches!(here, "vars") && !named_by_user(here, parent)) || matches!(here, "headers" | "envs" | "Form" | "Object" | "default_headers" | "add_default_headers")
                || (parent == "commons") || matches!(here, "functions") || matches!(parent, "functions");
            let place = if named_by_user(here, parent) {Some(Place::Names)} else if parent == "named_partitionings" {Some(Place::Partitions)} else if silent {None} else {Some(Place::Fields)};
            let judged = if shared {None} else {place};
            let tag = if place == Some(Place::Fields) && o.len() == 1 {"a construct's name"} else if place == Some(Place::Fields) {"a construct's field"} else {""};
            if let Some(p) = judged {out.push((path.clone(), p, if tag.is_empty() { if here == "map" {"map".into()} else if parent == "named_partitionings" {"partitions".into()} else {format!("{parent}/{here}")} } else {tag.into()}));}
            for (i, (k, x)) in o.iter().enumerate() {
                path.push(i);
                let mut u: Vec<&str> = up.to_vec();
                // What users name must not be taken for one of the names above.
                let k2: &str = if matches!(place, Some(Place::Names) | Some(Place::Partitions) | None) {"*"} else {k};
                u.push(k2); walk(x, path, &u, out); path.pop();
            }
        }
    }
}
fn name(r: &mut Rng) -> String { if r.chance(1, 3) {make::word(r)} else {(*r.pick(&["a", "b", "flag", "0", "é", "日本", "", " ", "a\"b", "x\\y", "\u{1F600}", "A", "https://example.com/", "if_null", "map"])).to_string()} }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Doc { Config, Diff, Task, Job, Tests }
impl Doc {
    fn name(self) -> &'static str { match self { Doc::Config => "configuration", Doc::Diff => "override", Doc::Task => "task", Doc::Job => "job context", Doc::Tests => "test file" } }
    fn root(self) -> Vec<&'static str> { match self { Doc::Config => vec![], Doc::Diff => vec!["params_diff"], Doc::Task => vec![], Doc::Job => vec!["job_context"], Doc::Tests => vec![] } }
    /// Loads the text and gives back what was understood.
    fn load(self, text: &str) -> Result<Value, String> {
        fn l<T: serde::de::DeserializeOwned + serde::Serialize>(t: &str) -> Result<Value, String> { serde_json::from_str::<T>(t).map_err(|e| e.to_string()).and_then(|x| serde_json::to_value(x).map_err(|e| format!("write: {e}"))) }
        match self { Doc::Config => l::<Config>(text), Doc::Diff => l::<ParamsDiff>(text), Doc::Task => text.parse::<TaskConfig>().map_err(|e| e.to_string()).and_then(|x| serde_json::to_value(x).map_err(|e| e.to_string())), Doc::Job => l::<JobContext>(text), Doc::Tests => l::<url_cleaner::testing::Tests>(text) }
    }
}
fn params(r: &mut Rng) -> Value {
    let mut o = Map::new();
    let list = |r: &mut Rng, n: usize| { let mut v: Vec<String> = (0..r.below(n)).map(|_| name(r)).collect(); more(r, &mut v); v.sort(); v.dedup(); r.shuffle(&mut v); v };
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(3, 4) { let v = $v; o.insert($k.into(), json!(v)); } } }
    put!("flags", list(r, 4));
    put!("vars", list(r, 4).into_iter().map(|k| (k, json!(name(r)))).collect::<Map<_, _>>());
    put!("sets", list(r, 4).into_iter().map(|k| (k, json!(list(r, 4)))).collect::<Map<_, _>>());
    put!("lists", list(r, 3).into_iter().map(|k| (k, json!(list(r, 4)))).collect::<Map<_, _>>());
    put!("maps", list(r, 3).into_iter().map(|k| { let mut m = Map::new(); m.insert("map".into(), json!(list(r, 4).into_iter().map(|k| (k, json!(name(r)))).collect::<Map<_, _>>())); for f in ["if_null", "else"] { if r.chance(1, 3) {m.insert(f.into(), json!(name(r)));} } (k, Value::Object(m)) }).collect::<Map<_, _>>());
    put!("named_partitionings", list(r, 3).into_iter().map(|k| { let mut vs = list(r, 6); let n = r.below(vs.len() + 1); let rest = vs.split_off(n); (k, json!({name(r): vs, format!("{}~", name(r)): rest})) }).collect::<Map<_, _>>());
    put!("read_cache", r.chance(1, 2)); put!("write_cache", r.chance(1, 2));
    Value::Object(o)
}
fn diff(r: &mut Rng) -> Value {
    let mut o = Map::new();
    let list = |r: &mut Rng, n: usize| { let mut v: Vec<String> = (0..r.below(n)).map(|_| name(r)).collect(); more(r, &mut v); v.sort(); v.dedup(); r.shuffle(&mut v); v };
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(1, 2) { let v = $v; o.insert($k.into(), json!(v)); } } }
    for k in ["flags", "unflags", "unvars", "init_sets", "delete_sets", "init_maps", "delete_maps"] {put!(k, list(r, 4));}
    put!("vars", list(r, 4).into_iter().map(|k| (k, json!(name(r)))).collect::<Map<_, _>>());
    for k in ["insert_into_sets", "remove_from_sets"] {put!(k, list(r, 4).into_iter().map(|k| (k, json!(list(r, 4)))).collect::<Map<_, _>>());}
    put!("map_diffs", list(r, 3).into_iter().map(|k| { let mut m = Map::new(); if r.chance(2, 3) {m.insert("insert_into_map".into(), json!(list(r, 4).into_iter().map(|k| (k, json!(name(r)))).collect::<Map<_, _>>()));} if r.chance(2, 3) {m.insert("remove_from_map".into(), json!(list(r, 4)));} (k, Value::Object(m)) }).collect::<Map<_, _>>());
    put!("read_cache", r.chance(1, 2));
    Value::Object(o)
}
fn vars(r: &mut Rng) -> Value { let mut v: Vec<String> = (0..r.below(5)).map(|_| name(r)).collect(); more(r, &mut v); v.into_iter().map(|k| (k, json!(name(r)))).collect::<Map<_, _>>().into() }
/// Now and then, a great many names, or a long one.
fn more(r: &mut Rng, v: &mut Vec<String>) {
    if r.chance(1, 120) {let n = *r.pick(&[8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 500]); v.extend((0..n).map(|i| format!("n{i}")));}
    if r.chance(1, 120) {let n = *r.pick(&[31usize, 32, 63, 64, 127, 128, 255, 256, 1000, 4096]); v.push(format!("{}1", "l".repeat(n))); v.push(format!("{}2", "l".repeat(n)));}
}
fn document(r: &mut Rng, kind: Doc) -> Value {
    let u = make::url(r);
    match kind {
        Doc::Config => {
            let mut o = Map::new();
            if r.chance(2, 3) {
                let mut d = Map::new();
                for k in ["flags", "vars", "environment_vars", "sets", "lists", "maps", "named_partitionings"] { if r.chance(1, 2) {d.insert(k.into(), vars(r));} }
                if r.chance(1, 2) {d.insert("title".into(), json!("t"));}
                for k in ["job_context", "task_context"] { if r.chance(1, 2) {d.insert(k.into(), json!({"vars": vars(r)}));} }
                o.insert("docs".into(), Value::Object(d));
            }
            if r.chance(3, 4) {o.insert("params".into(), params(r));}
            if r.chance(1, 2) {o.insert("cache_path".into(), json!(":memory:"));}
            if r.chance(1, 3) { let mut g = G::new(r, &u); g.n_commons = 1; o.insert("commons".into(), g.commons(2)); }
            let d = 1 + r.below(3);
            let rules = if r.chance(1, 4) {json!([])} else { let mut g = G::new(r, &u); g.n_commons = 1; g.rules(d) };
            o.insert("rules".into(), rules);
            Value::Object(o)
        },
        Doc::Diff => diff(r),
        Doc::Task => { let mut o = Map::new(); o.insert("url".into(), json!(u.as_str())); if r.chance(5, 6) {o.insert("context".into(), json!({"vars": vars(r)}));} Value::Object(o) },
        Doc::Job => json!({"vars": vars(r)}),
        Doc::Tests => json!({"sets": [{"params_diff": diff(r), "job_context": {"vars": vars(r)}, "tests": [{"task_config": {"url": u.as_str(), "context": {"vars": vars(r)}}, "result": "https://example.com/"}]}]}),
    }
}
/// Says one thing twice at a random place; what and where, and whether that is allowed.
fn spoil(r: &mut Rng, j: &mut J, kind: Doc) -> Option<(String, bool)> {
    let mut places = Vec::new();
    walk(j, &mut Vec::new(), &kind.root(), &mut places);
    // Kinds of place come up equally often.
    let mut kinds: Vec<&String> = places.iter().map(|x| &x.2).collect(); kinds.sort(); kinds.dedup();
    if kinds.is_empty() {return None;}
    let k = r.pick(&kinds).to_string();
    let here: Vec<_> = places.iter().filter(|x| x.2 == k).collect();
    let (path, place, what) = (*r.pick(&here)).clone();
    let other = |r: &mut Rng, x: &J| if r.chance(1, 2) {x.clone()} else { match x { J::Leaf(Value::String(s)) => J::Leaf(json!(format!("{s}2"))), J::Leaf(Value::Bool(b)) => J::Leaf(json!(!b)), J::Arr(_) => J::Arr(vec![]), x => x.clone() } };
    match (j.at(&path), place) {
        (J::Obj(o), Place::Names | Place::Fields) => {
            if o.is_empty() {
                if place == Place::Fields {return None;}
                // Nothing to say twice yet.
                return None;
            }
            let (k, v) = r.pick(o).clone();
            let v = other(r, &v);
            let at = r.below(o.len() + 1);
            o.insert(at, (k, v));
            Some((what, false))
        },
        (J::Obj(o), Place::Partitions) => {
            if r.chance(1, 3) { let (k, v) = r.pick(o).clone(); let v = if r.chance(1, 2) {J::Arr(vec![])} else {v}; let at = r.below(o.len() + 1); o.insert(at, (k, v)); return Some(("a partition".into(), false)); }
            let all: Vec<J> = o.iter().flat_map(|(_, v)| match v { J::Arr(a) => a.clone(), _ => vec![] }).collect();
            if all.is_empty() {return None;}
            let x = r.pick(&all).clone();
            let i = r.below(o.len());
            let J::Arr(a) = &mut o[i].1 else {return None};
            let at = r.below(a.len() + 1); a.insert(at, x);
            Some(("a value in a partitioning".into(), false))
        },
        (J::Arr(a), Place::Members | Place::Free) => { if a.is_empty() {return None;} let x = r.pick(a).clone(); let at = r.below(a.len() + 1); a.insert(at, x); Some((what, place == Place::Free)) },
        _ => None
    }
}
/// What is said once is there: the named things of the loaded document are those of the written one.
fn missing(said: &Value, got: &Value, at: &str) -> Option<String> {
    match (said, got) {
        (Value::Object(a), Value::Object(b)) => a.iter().find_map(|(k, x)| match b.get(k) { Some(y) => missing(x, y, &format!("{at}/{k}")),
            None => if matches!(x, Value::Bool(true) | Value::Null) || x.as_object().is_some_and(Map::is_empty) || x.as_array().is_some_and(Vec::is_empty) || x.as_object().is_some_and(|o| o.values().all(|y| y.as_object().is_some_and(Map::is_empty))) {None} else {Some(format!("{at}/{k} is gone"))} }),
        (Value::Array(a), Value::Array(b)) => { let s = |v: &[Value]| { let mut x: Vec<String> = v.iter().map(|y| y.to_string()).collect(); x.sort(); x.dedup(); x }; (s(a) != s(b)).then(|| format!("{at} is {got}")) },
        (a, b) => (a != b).then(|| format!("{at} is {b}"))
    }
}
fn documents(cfg: &Cfg) -> Rec {
    cases(cfg, "documents", cfg.n(60_000, 1_500_000), |r, rec| {
        let kind = *r.pick(&[Doc::Config, Doc::Config, Doc::Config, Doc::Diff, Doc::Diff, Doc::Task, Doc::Job, Doc::Tests]);
        let v = document(r, kind);
        let clean = J::from(&v, r);
        let t = clean.render(r);
        match guarded(|| kind.load(&t)) {
            Err(p) => return rec.fail("panic", p, json!({"text": t})),
            Ok(Err(e)) => return rec.fail(format!("{}: refused although nothing is said twice", kind.name()), format!("{e}: {t}").chars().take(500).collect::<String>(), json!({"text": t, "error": e})),
            Ok(Ok(got)) => {
                // The parts whose written form is their plain form.
                for k in ["/params", "/docs", "/context", "/vars"] {
                    if let (Some(a), Some(b)) = (v.pointer(k), got.pointer(k)) { if let Some(m) = missing(a, b, k) {return rec.fail(format!("{}: not loaded as written", kind.name()), format!("{m}: {t}").chars().take(500).collect::<String>(), json!({"text": t, "loaded": got}));} }
                }
                if kind == Doc::Diff { if let Some(m) = missing(&v, &got, "") {return rec.fail("override: not loaded as written", m, json!({"text": t, "loaded": got}));} }
            }
        }
        rec.eval_hash(hash_str(&v.to_string())); rec.count("said once: loaded");
        for _ in 0..3 {
            let mut j = clean.clone();
            let Some((what, allowed)) = spoil(r, &mut j, kind) else {continue};
            let t = j.render(r);
            rec.eval_hash(hash_str(&t));
            rec.sample(|| json!({"twice": what, "text": t.chars().take(300).collect::<String>()}));
            match (guarded(|| kind.load(&t)), allowed) {
                (Err(p), _) => return rec.fail("panic", p, json!({"text": t})),
                (Ok(Ok(_)), true) => rec.count(&format!("may repeat: {what}")),
                (Ok(Err(_)), false) => rec.count(&format!("refused: {what}")),
                (Ok(Ok(_)), false) => return rec.fail(format!("{}: {what} twice is accepted", kind.name()), format!("{what} said twice, and loaded: {t}").chars().take(600).collect::<String>(), json!({"text": t})),
                (Ok(Err(e)), true) => return rec.fail(format!("{}: {what} may repeat, but is refused", kind.name()), format!("{e}: {t}").chars().take(600).collect::<String>(), json!({"text": t, "error": e})),
            }
        }
    })
}
/// The same, as the program sees it.
fn program(cfg: &Cfg) -> Rec {
    cases(cfg, "program", cfg.n(150, 2_000), |r, rec| {
        let kind = *r.pick(&[Doc::Config, Doc::Diff, Doc::Task, Doc::Job, Doc::Tests]);
        let dir = cfg.scratch.join(format!("dupes.{}", rec.case.1)); std::fs::create_dir_all(&dir).ok();
        let write = |n: &str, t: &str| { let p = dir.join(n); std::fs::write(&p, t).unwrap(); p.to_string_lossy().into_owned() };
        let clean = { let mut v = document(r, kind); if kind == Doc::Config {v["rules"] = json!([]);} J::from(&v, r) };
        let mut bad = clean.clone();
        let Some((what, false)) = spoil(r, &mut bad, kind) else {return};
        for (j, twice) in [(&clean, false), (&bad, true)] {
            let t = j.render(r).replace(['\n', '\t'], " ");
            let mut a: Vec<String> = vec!["--config".into(), if kind == Doc::Config {write("c.json", &t)} else {write("c.json", r#"{"cache_path":":memory:","rules":[]}"#)}, "--cache-path".into(), ":memory:".into()];
            if t.contains('\0') {return;}
            match kind { Doc::Config => {}, Doc::Diff => a.extend(["--params-diff".into(), write("d.json", &t)]), Doc::Job => a.extend(["--job-context".into(), t.clone()]), Doc::Task => a.push(t.clone()), Doc::Tests => a.extend(["--tests".into(), write("t.json", &t)]) }
            if kind != Doc::Task {a.push("https://example.com/".into());}
            let Ok(o) = Command::new(&cfg.cli).args(&a).stdin(Stdio::null()).output() else {rec.fail("cannot run", "the program does not start", json!({})); return};
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            // A test file's expectations are not met either way; it must be refused before any is tried.
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let refused = if kind == Doc::Tests {err.contains("CantParseTests")} else {o.status.code() == Some(1) && out.trim().is_empty() && !err.contains("panicked")};
            rec.eval_hash(hash_str(&t));
            if refused != twice {rec.fail(format!("program: {}: {}", kind.name(), if twice {format!("{what} twice is accepted")} else {"refused although nothing is said twice".into()}), format!("{:?} {out:?} {err}: {t}", o.status.code()).chars().take(600).collect::<String>(), json!({"args": a, "text": t})); break;}
            rec.count(if twice {"program: refused"} else {"program: accepted"});
        }
        std::fs::remove_dir_all(&dir).ok();
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = documents(cfg);
    rec.merge(program(cfg));
    finish(cfg, rec, "exploration", "documents (configurations, overrides, tasks, contexts, test files) that say nothing twice, and ones with exactly one repetition at a random place, in random spellings; distinct by text", vec![])
}
