//! U26: configurations written out and read back.
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{json, Map, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::make::{self, G};
use crate::model::{self, World};
use crate::real::*;
use crate::rng::{hash_str, Rng};

/// Reads, writes, reads again; gives the written form when all is well.
pub fn there_and_back<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(v: &Value) -> Result<Value, (String, String)> {
    let a: T = de(v).map_err(|e| ("load".to_string(), e))?;
    let text = serde_json::to_string(&a).map_err(|e| ("write".to_string(), e.to_string()))?;
    let b: T = serde_json::from_str(&text).map_err(|e| ("read back".to_string(), format!("{e}, written as {text}")))?;
    if a != b {return Err(("changed".into(), format!("written as {text}")));}
    // The indented form and the form by way of a JSON value say the same.
    let pretty: T = serde_json::to_string_pretty(&a).ok().and_then(|t| serde_json::from_str(&t).ok()).ok_or(("indented".to_string(), text.clone()))?;
    let value: Value = serde_json::to_value(&a).map_err(|e| ("value".to_string(), e.to_string()))?;
    let by_value: T = serde_json::from_value(value.clone()).map_err(|e| ("value back".to_string(), format!("{e}, written as {text}")))?;
    if pretty != a || by_value != a {return Err(("changed by indenting".into(), text));}
    if serde_json::to_value(&b).ok().map(|x| sorted(&x)) != Some(sorted(&value)) {return Err(("written differently".into(), text));}
    Ok(value)
}
/// Sets have no order: arrays are compared as bags.
fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => { let mut x: Vec<Value> = a.iter().map(sorted).collect(); x.sort_by_key(|y| y.to_string()); Value::Array(x) },
        Value::Object(o) => { let mut x: Vec<(String, Value)> = o.iter().map(|(k, y)| (k.clone(), sorted(y))).collect(); x.sort_by(|a, b| a.0.cmp(&b.0)); Value::Array(x.into_iter().map(|(k, y)| json!([k, y])).collect()) },
        v => v.clone()
    }
}
fn by_kind(kind: Kind, v: &Value) -> Result<Value, (String, String)> {
    match kind {
        Kind::Rule => there_and_back::<Rule>(v), Kind::Rules => there_and_back::<Rules>(v), Kind::Mapper => there_and_back::<Mapper>(v), Kind::Condition => there_and_back::<Condition>(v),
        Kind::Matcher => there_and_back::<StringMatcher>(v), Kind::Modification => there_and_back::<StringModification>(v), Kind::Source => there_and_back::<StringSource>(v),
        Kind::Location => there_and_back::<StringLocation>(v), Kind::Char => there_and_back::<CharMatcher>(v),
    }
}
fn opt(r: &mut Rng, o: &mut Map<String, Value>, k: &str, v: impl FnOnce(&mut Rng) -> Value) { if r.chance(1, 2) { let x = v(r); o.insert(k.into(), x); } }
fn src(r: &mut Rng) -> Value { let u = url::Url::parse("https://example.com/a?b=c").unwrap(); G::new(r, &u).source(2) }
fn json_source(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 {5} else {9}) { 0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(*r.pick(&[0.0, -1.0, 1.5, 1e30, 123456789.0])), 3 => json!(r.below(1000) as i64 - 500), 4 => json!(make::word(r)),
        5 => json!({"String": src(r)}), 6 => Value::Array((0..r.below(4)).map(|_| json_source(r, d - 1)).collect()), 7 => json!({"Array": (0..r.below(4)).map(|_| json_source(r, d - 1)).collect::<Vec<_>>()}),
        _ => json!({"Object": (0..r.below(4)).map(|i| (format!("k{i}"), json_source(r, d - 1))).collect::<Map<_, _>>()}) }
}
pub fn request(r: &mut Rng) -> Value {
    let mut o = Map::new();
    opt(r, &mut o, "url", |r| if r.chance(1, 4) {json!({"Part": "Whole"})} else {src(r)});
    opt(r, &mut o, "method", |r| json!(*r.pick(&["GET", "POST", "HEAD", "PUT", "PATCH", "FROB"])));
    opt(r, &mut o, "headers", |r| (0..r.below(3)).map(|i| (format!("x-{i}"), src(r))).collect::<Map<_, _>>().into());
    opt(r, &mut o, "body", |r| match r.below(4) { 0 => Value::Null, 1 => json!({"Text": src(r)}), 2 => json!({"Form": (0..r.below(3)).map(|i| (format!("f{i}"), src(r))).collect::<Map<_, _>>()}), _ => json!({"Json": json_source(r, 3)}) });
    opt(r, &mut o, "response_handler", |r| match r.below(4) { 0 => json!("Body"), 1 => json!("Url"), 2 => json!({"Header": src(r)}), _ => json!({"Cookie": src(r)}) });
    opt(r, &mut o, "client_config_diff", |r| if r.chance(1, 5) {Value::Null} else {crate::config::http_diff(r)});
    Value::Object(o)
}
fn command(r: &mut Rng) -> Value {
    if r.chance(1, 5) {return json!("true");}
    let mut o = Map::new();
    o.insert("program".into(), json!(make::word(r)));
    opt(r, &mut o, "args", |r| (0..r.below(3)).map(|_| src(r)).collect::<Vec<_>>().into()); opt(r, &mut o, "current_dir", |_| json!("/tmp/a b"));
    opt(r, &mut o, "envs", |r| (0..r.below(3)).map(|i| (format!("E{i}"), src(r))).collect::<Map<_, _>>().into()); opt(r, &mut o, "stdin", src);
    Value::Object(o)
}
fn regex_parts(r: &mut Rng) -> Value {
    let p = *r.pick(&["a", "", "^(x)$", "a b # c", "\\d+", "é.", "[", "(?i)q"]);
    if r.chance(1, 3) {return json!(p);}
    let mut o = Map::new(); o.insert("pattern".into(), json!(p));
    for k in ["case_insensitive", "crlf", "dot_matches_new_line", "ignore_whitespace", "multi_line", "octal", "swap_greed", "unicode"] { opt(r, &mut o, k, |r| json!(r.chance(1, 2))); }
    opt(r, &mut o, "line_terminator", |r| json!(*r.pick(&[10, 0, 13, 255])));
    Value::Object(o)
}
fn docs(r: &mut Rng) -> Value {
    let mut o = Map::new();
    opt(r, &mut o, "title", |r| json!(make::word(r))); opt(r, &mut o, "description", |r| json!(["a", make::word(r)]));
    for k in ["flags", "vars", "environment_vars", "sets", "lists", "maps", "named_partitionings"] { opt(r, &mut o, k, |r| json!({"a": make::word(r), "b": ""})); }
    opt(r, &mut o, "job_context", |r| json!({"vars": {"SOURCE_HOST": make::word(r)}})); opt(r, &mut o, "task_context", |r| json!({"vars": {"x": make::word(r)}}));
    Value::Object(o)
}
fn any_world(r: &mut Rng, u: &url::Url, n: usize, d: usize) -> World { let mut g = G::new(r, u); g.n_commons = n; g.cache = false; g.world(d) }

/// Every kind of value a configuration is made of.
fn values(cfg: &Cfg) -> Rec {
    cases(cfg, "values", cfg.n(150_000, 3_000_000), |r, rec| {
        let u = make::url(r);
        let pick = r.below(24);
        let d = 1 + r.below(5);
        let (what, v, res): (&str, Value, _) = match pick {
            0..=11 => {
                let kind = *r.pick(&[Kind::Rule, Kind::Rules, Kind::Mapper, Kind::Condition, Kind::Matcher, Kind::Modification, Kind::Source, Kind::Location, Kind::Char]);
                let mut g = G::new(r, &u); g.n_commons = 2;
                let v = match kind { Kind::Rule => g.rule(d), Kind::Rules => g.rules(d), Kind::Mapper => g.mapper(d), Kind::Condition => g.condition(d), Kind::Matcher => g.matcher(d), Kind::Modification => g.modification(d), Kind::Source => g.source(d), Kind::Location => g.location(d), Kind::Char => g.charm(d) };
                let x = by_kind(kind, &v); (kind.name(), v, x)
            },
            12 => {let v = request(r); let x = there_and_back::<RequestConfig>(&v); ("request", v, x)},
            13 => {let v = command(r); let x = there_and_back::<CommandConfig>(&v); ("command", v, x)},
            14 => {let v = regex_parts(r); let x = there_and_back::<RegexWrapper>(&v).and_then(|_| there_and_back::<RegexParts>(&v)); ("regex", v, x)},
            15 => {let mut g = G::new(r, &u); let v = g.glob(); let x = there_and_back::<GlobWrapper>(&v); ("glob", v, x)},
            16 => {let v = crate::config::params(r); let x = there_and_back::<Params>(&v); ("params", v, x)},
            17 => {let v = crate::config::diff(r, true); let x = there_and_back::<ParamsDiff>(&v); ("override", v, x)},
            18 => {let mut g = G::new(r, &u); let v = g.part(); let x = there_and_back::<UrlPart>(&v); ("part", v, x)},
            19 => {let v = json_source(r, 3); let x = there_and_back::<StringSourceJsonValue>(&v); ("json", v, x)},
            20 => {let v = docs(r); let x = there_and_back::<ConfigDocs>(&v); ("docs", v, x)},
            21 => {let v = if r.chance(1, 4) {json!(u.as_str())} else {json!({"url": u.as_str(), "context": {"vars": {"a": make::word(r)}}})}; let x = there_and_back::<TaskConfig>(&v); ("task", v, x)},
            22 => {let v = if r.chance(1, 3) {json!({})} else {json!({"vars": {"a": make::word(r)}})}; let x = there_and_back::<JobContext>(&v); ("job context", v, x)},
            _ => {let v = json!({"sets": [{"params_diff": crate::config::diff(r, false), "job_context": {"vars": {"a": "b"}}, "tests": [{"task_config": u.as_str(), "result": "https://example.com/"}]}]}); let x = there_and_back::<url_cleaner::testing::Tests>(&v); ("tests", v, x)},
        };
        rec.eval_hash(hash_str(&v.to_string()));
        match res { Ok(_) => rec.count(what), Err((how, e)) => {
            if what == "regex" && how == "load" {rec.count("refused"); return;}
            rec.fail(format!("{what}: {how}"), format!("{what} {v}: {how}: {e}").chars().take(900).collect::<String>(), json!({"value": v, "how": how, "error": e}));
        } }
    })
}
/// Values of a great many parts, or long ones.
fn sizes(cfg: &Cfg) -> Rec {
    cases(cfg, "sizes", cfg.n(2_500, 60_000), |r, rec| {
        let u = make::url(r);
        let n = *r.pick(&[8usize, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
        let long = format!("{}{}", r.pick(&["l", "é", "\"", "\\", " ", "\n"]).repeat(*r.pick(&[127, 128, 255, 256, 1000, 1024, 4096, 65_535, 65_536, 70_000])), r.below(10));
        let (what, v, res): (&str, Value, _) = match r.below(12) {
            0 => {let mut g = G::new(r, &u); let v: Value = (0..n).map(|_| g.rule(1)).collect::<Vec<_>>().into(); let x = by_kind(Kind::Rules, &v); ("rules", v, x)},
            1 => {let mut g = G::new(r, &u); let v = json!({"All": (0..n).map(|_| g.mapper(1)).collect::<Vec<_>>()}); let x = by_kind(Kind::Mapper, &v); ("mapper", v, x)},
            2 => {let mut g = G::new(r, &u); let v = json!({"Any": (0..n).map(|_| g.condition(1)).collect::<Vec<_>>()}); let x = by_kind(Kind::Condition, &v); ("condition", v, x)},
            3 => {let mut g = G::new(r, &u); let v = json!({"Join": {"sources": (0..n).map(|_| g.source(1)).collect::<Vec<_>>()}}); let x = by_kind(Kind::Source, &v); ("string source", v, x)},
            4 => {let mut g = G::new(r, &u); let v = json!({"All": (0..n).map(|_| g.modification(1)).collect::<Vec<_>>()}); let x = by_kind(Kind::Modification, &v); ("modification", v, x)},
            5 => {let mut g = G::new(r, &u); let v = json!({"All": (0..n).map(|_| g.matcher(1)).collect::<Vec<_>>()}); let x = by_kind(Kind::Matcher, &v); ("matcher", v, x)},
            6 => {let mut g = G::new(r, &u); let v = json!({"PartMap": {"part": "Host", "map": (0..n).map(|i| (format!("k{i}"), g.mapper(1))).collect::<Map<_, _>>()}}); let x = by_kind(Kind::Mapper, &v); ("map", v, x)},
            7 => {let v = json!({"method": "POST", "headers": (0..n).map(|i| (format!("x-{i}"), src(r))).collect::<Map<_, _>>(), "body": {"Form": (0..n).map(|i| (format!("f{i}"), src(r))).collect::<Map<_, _>>()}}); let x = there_and_back::<RequestConfig>(&v); ("request", v, x)},
            8 => {let v = json!({"program": "p", "args": (0..n).map(|_| src(r)).collect::<Vec<_>>(), "envs": (0..n).map(|i| (format!("E{i}"), src(r))).collect::<Map<_, _>>(), "stdin": long}); let x = there_and_back::<CommandConfig>(&v); ("command", v, x)},
            9 => {let v = if r.chance(1, 2) {json!(long)} else {json!({"Join": {"sources": [long, "x"], "join": long}})}; let x = by_kind(Kind::Source, &v); ("long text", v, x)},
            10 => {let v = json!({"RemoveQueryParams": (0..n).map(|i| format!("p{i}{}", if i == n / 2 {&*long} else {""})).collect::<Vec<_>>()}); let x = by_kind(Kind::Mapper, &v); ("set", v, x)},
            _ => {let k = 1 + n % 30; let mut v = json!(long); for i in 0..k {v = match i % 4 { 0 => json!({"NoneTo": {"value": v, "if_none": "x"}}), 1 => json!({"Modified": {"value": v, "modification": "Lowercase"}}), 2 => json!({"TryElse": {"try": v, "else": "y"}}), _ => json!({"Join": {"sources": ["a", v]}}) };} let x = by_kind(Kind::Source, &v); ("deep", v, x)},
        };
        rec.eval_hash(hash_str(&v.to_string()));
        match res { Ok(_) => rec.count(&format!("sizes: {what}")), Err((how, e)) => rec.fail(format!("sizes: {what}: {how}"), format!("{what} of {n}: {how}: {e}").chars().take(900).collect::<String>(), json!({"value": v, "how": how, "error": e.chars().take(2000).collect::<String>()})) }
    })
}
/// Whole configurations: equal after being read back, and doing the same.
fn whole(cfg: &Cfg) -> Rec {
    cases(cfg, "whole", cfg.n(6_000, 100_000), |r, rec| {
        let u = make::url(r);
        let w = any_world(r, &u, 2, 2);
        let rules = { let mut g = G::new(r, &u); g.n_commons = 2; g.cache = false; g.rules(4) };
        let mut o = Map::new();
        opt(r, &mut o, "docs", docs);
        opt(r, &mut o, "cache_path", |r| json!(*r.pick(&[":memory:", "a.sqlite", "/x/é y", "file:///a/b"])));
        o.insert("params".into(), w.params.clone()); o.insert("commons".into(), w.commons.clone()); o.insert("rules".into(), rules);
        let v = Value::Object(o);
        let written = match there_and_back::<Config>(&v) { Ok(x) => x, Err((how, e)) => {rec.fail(format!("config: {how}"), format!("{how}: {}", e.chars().take(600).collect::<String>()), json!({"config": v, "error": e})); return;} };
        let (Ok(a), Ok(b)) = (de::<Config>(&v), de::<Config>(&written)) else {rec.fail("config: load", "loads only once", json!({"config": v})); return};
        let job: JobContext = de(&json!({"vars": w.job_vars})).unwrap();
        for _ in 0..4 {
            let t = json!({"url": if r.chance(1, 2) {u.as_str().to_string()} else {make::url_text(r)}, "context": {"vars": w.task_vars}});
            if de::<TaskConfig>(&t).is_err() {continue;}
            let run = |c: &Config| guarded(|| JobConfig {config: std::borrow::Cow::Borrowed(c), cache: Cache::default()}.new_task(de(&t).unwrap(), &job).r#do().map(|u| u.as_str().to_string()).map_err(|e| variant_of(&e)));
            let (x, y) = (run(&a), run(&b));
            rec.eval_hash(hash_str(&t.to_string()) ^ hash_str(&v.to_string()));
            if x != y {rec.fail("config: acts differently", format!("{t}: {x:?} before, {y:?} after being written and read back"), json!({"config": v, "written": written, "task": t})); return;}
            rec.count(if matches!(x, Ok(Ok(_))) {"same result"} else {"same error"});
        }
    })
}
/// The places of a program where a variant stands, as pointers (never inside the keys of a `map` or of variables).
fn variants(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => for (k, x) in o {
            let p = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
            if k == "map" || k == "vars" || k == "insert_into_map" { if let Value::Object(m) = x { for (k2, y) in m {variants(y, format!("{p}/{}", k2.replace('~', "~0").replace('/', "~1")), out);} } continue; }
            if k.starts_with(|c: char| c.is_ascii_uppercase()) && o.len() == 1 {out.push(p.clone());}
            variants(x, p, out);
        },
        Value::Array(a) => for (i, x) in a.iter().enumerate() {variants(x, format!("{at}/{i}"), out)},
        _ => {}
    }
}
/// Constructs there are none of, and values of the wrong type, are refused.
fn refused(cfg: &Cfg) -> Rec {
    cases(cfg, "refused", cfg.n(60_000, 1_000_000), |r, rec| {
        let u = make::url(r);
        let kind = *r.pick(&[Kind::Rule, Kind::Mapper, Kind::Condition, Kind::Matcher, Kind::Modification, Kind::Source, Kind::Location, Kind::Char]);
        let d = 1 + r.below(4);
        let v = { let mut g = G::new(r, &u); g.n_commons = 2; match kind { Kind::Rule => g.rule(d), Kind::Mapper => g.mapper(d), Kind::Condition => g.condition(d), Kind::Matcher => g.matcher(d), Kind::Modification => g.modification(d), Kind::Source => g.source(d), Kind::Location => g.location(d), _ => g.charm(d) } };
        let mut at = Vec::new();
        variants(&v, String::new(), &mut at);
        if at.is_empty() {return;}
        let p = r.pick(&at).clone();
        let (up, key) = p.rsplit_once('/').unwrap();
        let mut bad = v.clone();
        let Some(Value::Object(o)) = bad.pointer_mut(up) else {return};
        let Some(inner) = o.remove(key) else {return};
        let how = match r.below(6) {
            0 | 1 => { o.insert(format!("{key}x"), inner); "no such variant" }
            2 => { o.insert(key.to_lowercase(), inner); "a variant's name in lower case" }
            3 => { o.insert(key.into(), json!(17.5)); "a number in place of a variant's content" }
            4 => { o.insert(key.into(), inner); o.insert(format!("{key}2"), json!(1)); "two variants at once" }
            _ => { o.insert(key.into(), json!([[[]]])); "a list in place of a variant's content" }
        };
        // Flattened positions ignore what they don't know, and a number can be a position or a radix.
        let flat = matches!(key, "TreatErrorAsPass" | "TreatErrorAsFail") || up.rsplit('/').next().is_some_and(|x| matches!(x, "TreatErrorAsPass" | "TreatErrorAsFail"));
        if flat || (how.starts_with("two") && up.is_empty() && kind == Kind::Rule) {rec.count("flattened, not judged"); return;}
        let res = guarded(|| by_kind(kind, &bad));
        rec.eval_hash(hash_str(&bad.to_string()));
        match res {
            Ok(Err((how, _))) if how == "load" => rec.count("refused"),
            Ok(x) => rec.fail(format!("{}: accepted: {how}: {key}", kind.name()), format!("{bad} is accepted although it has {how} at {p}: {x:?}").chars().take(700).collect::<String>(), json!({"program": bad, "from": v})),
            Err(p) => rec.fail("panic", p, json!({"program": bad})),
        }
    })
}
/// The shipped configuration: the same from its file and from the program; survives; and so do its pieces.
fn shipped(cfg: &Cfg) -> Rec {
    let file = std::fs::read_to_string(cfg.repo.join("default-config.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&file).unwrap_or(Value::Null);
    cases_idx(cfg, "shipped", 3, |i, rec| {
        let (Ok(a), Ok(b)) = (Config::load_from_file(cfg.repo.join("default-config.json")), Config::get_default_no_cache()) else {rec.fail("shipped: load", "the shipped configuration does not load", json!(null)); return};
        match i {
            0 => {
                rec.eval(Some("file and program"));
                if a != b {rec.fail("shipped: file and program", "the configuration in the program is not the one in the file", json!(null));}
                if Config::get_default().ok() != Some(&a) {rec.fail("shipped: kept copy", "get_default gives another configuration", json!(null));}
                for (how, c) in [("load_or_get_default(None)", Config::load_or_get_default::<&str>(None).ok().map(|c| c.into_owned())), ("load_or_get_default_no_cache(None)", Config::load_or_get_default_no_cache::<&str>(None).ok()), ("load_or_get_default(file)", Config::load_or_get_default(Some(cfg.repo.join("default-config.json"))).ok().map(|c| c.into_owned()))] {
                    rec.eval(Some(how)); if c.as_ref() != Some(&a) {rec.fail(format!("shipped: {how}"), format!("{how} gives another configuration"), json!(null));}
                }
            },
            1 => { rec.eval(Some("written and read")); if let Err((how, e)) = there_and_back::<Config>(&v) {rec.fail(format!("shipped: {how}"), format!("{how}: {}", e.chars().take(300).collect::<String>()), json!(null));} },
            _ => { // What the file says is all in what is written of it.
                rec.eval(Some("nothing dropped"));
                let w = serde_json::to_value(&a).unwrap_or(Value::Null);
                let again: Value = serde_json::to_value(de::<Config>(&w).ok()).unwrap_or(Value::Null);
                if sorted(&w) != sorted(&again) {rec.fail("shipped: written differently", "the shipped configuration is written differently after being read back", json!(null));}
                let count = |v: &Value| { let mut n = Vec::new(); variants(v, String::new(), &mut n); n.len() };
                let (x, y) = (count(&v["rules"]), count(&w["rules"]));
                rec.add("variants in the shipped rules", x as u64);
                if y < x {rec.fail("shipped: dropped", format!("the rules have {x} variants with content in the file, {y} as written"), json!(null));}
            }
        }
    })
}
/// Overrides' and parameters' fields: what is written is what was named.
fn fields(cfg: &Cfg) -> Rec {
    cases(cfg, "fields", cfg.n(20_000, 400_000), |r, rec| {
        // Loading ignores the order of keys, and a value left at its default may be left out.
        let u = make::url(r);
        let w = any_world(r, &u, 1, 2);
        let v = json!({"params": w.params, "commons": w.commons, "rules": []});
        let Ok(a) = de::<Config>(&v) else {rec.fail("config: load", "generated configuration does not load", json!({"config": v})); return};
        let out = serde_json::to_value(&a).unwrap_or(Value::Null);
        rec.eval_hash(hash_str(&v.to_string()));
        for k in ["flags", "vars", "sets", "lists", "maps", "named_partitionings"] {
            let (x, y) = (&v["params"][k], &out["params"][k]);
            let empty = x.as_object().is_some_and(|o| o.is_empty()) || x.as_array().is_some_and(|o| o.is_empty());
            if !(empty && y.is_null()) && sorted(x) != sorted(y) && k != "maps" && k != "named_partitionings" {rec.fail(format!("params: {k}"), format!("parameters with {k} {x} are written with {y}"), json!({"params": v["params"]})); return;}
            if y.as_object().map(|o| o.len()) != x.as_object().map(|o| o.len()) && !empty {rec.fail(format!("params: {k}"), format!("parameters with {k} {x} are written with {y}"), json!({"params": v["params"]})); return;}
        }
        for (k, x) in v["commons"].as_object().into_iter().flatten() {
            let n = x.as_object().map_or(0, |o| o.len());
            let m = out["commons"][k].as_object().map_or(0, |o| o.len());
            if n != m {rec.fail(format!("commons: {k}"), format!("{n} common {k} are written as {m}"), json!({"commons": v["commons"]})); return;}
        }
        rec.count("fields kept");
    })
}
/// What a short form, or a form with fields left out, stands for.
fn defaults(cfg: &Cfg) -> Rec {
    cases(cfg, "defaults", cfg.n(4_000, 60_000), |r, rec| {
        let u = make::url(r);
        let (s1, s2, m, c, mo, l, ru) = { let mut g = G::new(r, &u); g.n_commons = 1; (g.source(1), g.source(1), g.mapper(1), g.condition(1), g.modification(1), g.part(), g.rules(1)) };
        let w = make::word(r);
        let re = *r.pick(make::REGEXES);
        macro_rules! same { ($($t:ty: $name:expr, $a:expr, $b:expr;)*) => { $({
            let (a, b): (Value, Value) = ($a, $b);
            rec.eval_hash(hash_str(&format!("{a}{b}"))); rec.count($name);
            match (de::<$t>(&a), de::<$t>(&b)) {
                (Ok(x), Ok(y)) => if x != y {rec.fail(format!("default: {}", $name), format!("{a} is not the same {} as {b}", $name).chars().take(600).collect::<String>(), json!({"short": a, "full": b})); return;},
                (x, y) => {rec.fail(format!("default: load: {}", $name), format!("{} {a} or {b} does not load: {:?} {:?}", $name, x.err(), y.err()).chars().take(600).collect::<String>(), json!({"short": a, "full": b})); return;}
            }
        })* } }
        let re_full = json!({"pattern": re, "case_insensitive": false, "crlf": false, "dot_matches_new_line": false, "ignore_whitespace": false, "line_terminator": 10, "multi_line": false, "octal": false, "swap_greed": false, "unicode": true});
        same! {
            RegexParts: "regex", json!(re), re_full.clone();
            RegexParts: "regex", json!({"pattern": re}), re_full.clone();
            RegexWrapper: "regex wrapper", json!(re), re_full.clone();
            Params: "params", json!({}), json!({"flags": [], "vars": {}, "sets": {}, "lists": {}, "maps": {}, "named_partitionings": {}, "read_cache": true, "write_cache": true, "http_client_config": {}});
            Config: "config", json!({"rules": ru}), json!({"docs": {}, "cache_path": ":memory:", "params": {"read_cache": true, "write_cache": true}, "commons": {}, "rules": ru});
            Config: "config without parameters", json!({"rules": ru}), json!({"params": {}, "rules": ru});
            Commons: "commons", json!({}), json!({"rules": {}, "conditions": {}, "mappers": {}, "string_sources": {}, "string_modifications": {}, "string_matchers": {}});
            HttpClientConfig: "HTTP client", json!({}), json!({"default_headers": {}, "redirect_policy": {"Limited": 10}, "https_only": false, "proxies": [], "no_proxy": false, "referer": false, "extra_certificates": []});
            ProxyConfig: "proxy", json!("http://p.example:1/"), json!({"url": "http://p.example:1/", "mode": "All", "auth": null});
            RequestConfig: "request", json!({}), json!({"url": {"Part": "Whole"}, "method": "GET", "headers": {}, "body": null, "response_handler": "Body", "client_config_diff": null});
            Base64Config: "Base64", json!({}), json!({"alphabet": "UrlSafe", "encode_padding": true, "decode_padding": "Indifferent"});
            Condition: "PartContains", json!({"PartContains": {"part": l, "value": s1}}), json!({"PartContains": {"part": l, "value": s1, "where": "Anywhere"}});
            Condition: "StringContains", json!({"StringContains": {"value": s1, "substring": s2}}), json!({"StringContains": {"value": s1, "substring": s2, "where": "Anywhere"}});
            Condition: "FlagIsSet", json!({"FlagIsSet": w}), json!({"FlagIsSet": {"type": "Params", "name": {"String": w}}});
            Mapper: "If", json!({"If": {"condition": c, "mapper": m}}), json!({"If": {"condition": c, "mapper": m, "else_mapper": null}});
            Mapper: "Retry", json!({"Retry": {"mapper": m, "delay": 0.5}}), json!({"Retry": {"mapper": m, "delay": 0.5, "limit": 10}});
            Mapper: "ExpandRedirect", json!({"ExpandRedirect": {}}), json!({"ExpandRedirect": {"headers": {}, "http_client_config_diff": null}});
            Rule: "Repeat", json!({"Repeat": {"rules": ru}}), json!({"Repeat": {"rules": ru, "limit": 10}});
            StringModification: "IfMatches", json!({"IfMatches": {"matcher": "Always", "then": mo}}), json!({"IfMatches": {"matcher": "Always", "then": mo, "else": null}});
            StringModification: "If", json!({"If": {"condition": c, "then": mo}}), json!({"If": {"condition": c, "then": mo, "else": null}});
            StringSource: "Join", json!({"Join": {"sources": [s1, s2]}}), json!({"Join": {"sources": [s1, s2], "join": ""}});
            StringSource: "literal", json!(w), json!({"String": w});
            StringSource: "Var", json!({"Var": w}), json!({"Var": {"type": "Params", "name": {"String": w}}});
            StringSource: "QueryParam", json!({"Part": {"QueryParam": w}}), json!({"Part": {"QueryParam": {"name": w, "index": 0}}});
            Mapper: "Common", json!({"Common": w}), json!({"Common": {"name": {"String": w}, "args": {"flags": [], "vars": {}}}});
            CommandConfig: "command", json!(w), json!({"program": w, "args": [], "envs": {}, "current_dir": null, "stdin": null});
            TaskConfig: "task", json!(u.as_str()), json!({"url": u.as_str(), "context": {"vars": {}}});
            JobContext: "job context", json!({}), json!({"vars": {}});
            CachePath: "cache path", json!(":memory:"), json!(":memory:");
        }
        rec.eval(Some("library defaults"));
        if de::<Params>(&json!({})).ok() != Some(Params::default()) {rec.fail("default: library: params", "Params::default() is not what {} stands for", json!(null));}
        if de::<HttpClientConfig>(&json!({})).ok() != Some(HttpClientConfig::default()) {rec.fail("default: library: client", "HttpClientConfig::default() is not what {} stands for", json!(null));}
        if de::<Base64Config>(&json!({})).ok() != Some(Base64Config::default()) {rec.fail("default: library: Base64", "Base64Config::default() is not what {} stands for", json!(null));}
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = values(cfg);
    for x in [sizes(cfg), whole(cfg), defaults(cfg), refused(cfg), shipped(cfg), fields(cfg)] {rec.merge(x);}
    let _ = model::var;
    finish(cfg, rec, "exploration", "distinct values and configurations written and read back, run before and after, or refused", vec!["serde and serde_json read and write the JSON that the types' implementations ask for", "fields no type has are ignored by design (serde's default) and not judged"])
}
