//! U16 (parameter overrides).
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use clap::Parser;
use serde_json::{json, Map, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::real::de;
use crate::rng::{hash_str, Rng};

/// The parameters, in a form that can be compared.
#[derive(Clone, Debug, PartialEq, Default)]
struct P {
    flags: BTreeSet<String>, vars: BTreeMap<String, String>, sets: BTreeMap<String, BTreeSet<String>>, lists: BTreeMap<String, Vec<String>>,
    maps: BTreeMap<String, (BTreeMap<String, String>, Option<String>, Option<String>)>, parts: BTreeMap<String, BTreeMap<String, String>>, read: bool, write: bool,
    headers: BTreeMap<String, String>, policy: Option<u64>, https_only: bool, proxies: Vec<Value>, no_proxy: bool, referer: bool, certs: BTreeSet<String>,
}
fn strs(v: &Value) -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect() }
fn smap(v: &Value) -> BTreeMap<String, String> { v.as_object().into_iter().flatten().filter_map(|(k, x)| Some((k.clone(), x.as_str()?.to_string()))).collect() }
fn obj(v: &Value) -> impl Iterator<Item = (&String, &Value)> { v.as_object().into_iter().flatten() }
fn proxy(v: &Value) -> Value { match v { Value::String(s) => json!({"url": s, "mode": "All", "auth": null}), v => json!({"url": v["url"], "mode": v.get("mode").cloned().unwrap_or(json!("All")), "auth": v.get("auth").cloned().unwrap_or(Value::Null)}) } }
fn policy(v: &Value) -> Option<u64> { if v == "None" {None} else {v["Limited"].as_u64()} }
fn parse(v: &Value) -> P {
    let h = &v["http_client_config"];
    P {
        flags: strs(&v["flags"]).into_iter().collect(), vars: smap(&v["vars"]), sets: obj(&v["sets"]).map(|(k, x)| (k.clone(), strs(x).into_iter().collect())).collect(), lists: obj(&v["lists"]).map(|(k, x)| (k.clone(), strs(x))).collect(),
        maps: obj(&v["maps"]).map(|(k, x)| (k.clone(), (smap(&x["map"]), x["if_null"].as_str().map(Into::into), x["else"].as_str().map(Into::into)))).collect(),
        parts: obj(&v["named_partitionings"]).map(|(k, x)| (k.clone(), obj(x).flat_map(|(n, es)| strs(es).into_iter().map(move |e| (e, n.clone()))).collect())).collect(),
        read: v["read_cache"].as_bool().unwrap_or(true), write: v["write_cache"].as_bool().unwrap_or(true),
        headers: smap(&h["default_headers"]), policy: h.get("redirect_policy").map_or(Some(10), policy), https_only: h["https_only"].as_bool().unwrap_or(false),
        proxies: h["proxies"].as_array().into_iter().flatten().map(proxy).collect(), no_proxy: h["no_proxy"].as_bool().unwrap_or(false), referer: h["referer"].as_bool().unwrap_or(false), certs: strs(&h["extra_certificates"]).into_iter().collect(),
    }
}
/// The documented effect of an override.
fn apply(p: &mut P, d: &Value) {
    p.flags.extend(strs(&d["flags"])); for x in strs(&d["unflags"]) {p.flags.remove(&x);}
    p.vars.extend(smap(&d["vars"])); for x in strs(&d["unvars"]) {p.vars.remove(&x);}
    for k in strs(&d["init_sets"]) {p.sets.entry(k).or_default();}
    for (k, vs) in obj(&d["insert_into_sets"]) {p.sets.entry(k.clone()).or_default().extend(strs(vs));}
    for (k, vs) in obj(&d["remove_from_sets"]) { if let Some(s) = p.sets.get_mut(k) { for v in strs(vs) {s.remove(&v);} } }
    for k in strs(&d["delete_sets"]) {p.sets.remove(&k);}
    for k in strs(&d["init_maps"]) {p.maps.entry(k).or_default();}
    for (k, m) in obj(&d["map_diffs"]) { let e = p.maps.entry(k.clone()).or_default(); e.0.extend(smap(&m["insert_into_map"])); for x in strs(&m["remove_from_map"]) {e.0.remove(&x);} }
    for k in strs(&d["delete_maps"]) {p.maps.remove(&k);}
    if let Some(b) = d["read_cache"].as_bool() {p.read = b;}
    if let Some(b) = d["write_cache"].as_bool() {p.write = b;}
    let h = &d["http_client_config_diff"];
    if let Some(x) = h.get("redirect_policy").filter(|x| !x.is_null()) {p.policy = policy(x);}
    p.headers.extend(smap(&h["add_default_headers"]));
    if let Some(b) = h["https_only"].as_bool() {p.https_only = b;}
    if let Some(x) = h["set_proxies"].as_array() {p.proxies = x.iter().map(proxy).collect();}
    p.proxies.extend(h["add_proxies"].as_array().into_iter().flatten().map(proxy));
    if let Some(b) = h["no_proxy"].as_bool() {p.no_proxy = b;}
    if let Some(b) = h["referer"].as_bool() {p.referer = b;}
    p.certs.extend(strs(&h["add_extra_certificates"]));
    for x in strs(&h["remove_extra_certificates"]) {p.certs.remove(&x);}
}
/// Reads the fields of the real thing.
fn observe(x: &Params) -> P {
    let h = &x.http_client_config;
    P {
        flags: x.flags.iter().cloned().collect(), vars: x.vars.clone().into_iter().collect(), sets: x.sets.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect(), lists: x.lists.clone().into_iter().collect(),
        maps: x.maps.iter().map(|(k, m)| (k.clone(), (m.map.clone().into_iter().collect(), m.if_null.as_deref().cloned(), m.r#else.as_deref().cloned()))).collect(),
        parts: x.named_partitionings.iter().map(|(k, p)| (k.clone(), VALS.iter().filter_map(|v| Some((v.to_string(), p.get_partition(v)?.to_string()))).collect())).collect(),
        read: x.read_cache, write: x.write_cache,
        headers: h.default_headers.iter().map(|(k, v)| (k.as_str().to_string(), v.to_str().unwrap_or("?").to_string())).collect(),
        policy: match h.redirect_policy { RedirectPolicy::None => None, RedirectPolicy::Limited(n) => Some(n as u64) }, https_only: h.https_only,
        proxies: h.proxies.iter().map(|p| json!({"url": p.url.as_str(), "mode": format!("{:?}", p.mode), "auth": match &p.auth { None => Value::Null, Some(ProxyAuth::Basic {username, password}) => json!({"Basic": {"username": username, "password": password}}), Some(ProxyAuth::Custom(v)) => json!({"Custom": v.to_str().unwrap_or("?")}) }})).collect(),
        no_proxy: h.no_proxy, referer: h.referer, certs: h.extra_certificates.iter().cloned().collect(),
    }
}
/// Which fields differ.
fn fields(a: &P, b: &P) -> String {
    let mut o = Vec::new();
    macro_rules! f { ($($x:ident)*) => {$(if a.$x != b.$x {o.push(stringify!($x));})*} }
    f!(flags vars sets lists maps parts read write headers policy https_only proxies no_proxy referer certs);
    o.join("+")
}

const NAMES: &[&str] = &["a", "b", "c", "dd", "é", "A", "", " a", "a=b"];
const VALS: &[&str] = &["x", "y", "z", "xx", "", "日", "X", " x", "x=y"];
/// What the command line is given.
const GIVEN: &[&str] = &["x", "y", "z", "xx", "x", "y", "", "日", "X", " x", "x=y"];
/// A great many entries, or long ones: to parameters, and to what overrides them.
fn bulk(r: &mut Rng, o: &mut Map<String, Value>, over: bool) {
    let n = *r.pick(&[7usize, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257, 600]);
    let pad = if r.chance(1, 4) {"p".repeat(*r.pick(&[31, 32, 64, 255, 256, 1000, 5000]))} else {String::new()};
    let n = if pad.len() > 500 {n.min(40)} else {n};
    let half = |r: &mut Rng| -> Vec<String> { let (k, m) = (1 + r.below(3), r.below(3)); (0..n).filter(|i| i % k == 0 || i % 3 == m).map(|i| format!("{pad}{i}")).collect() };
    let list = |o: &mut Map<String, Value>, k: &str, x: Vec<String>| { let a = o.entry(k).or_insert(json!([])).as_array_mut().unwrap(); a.extend(x.into_iter().map(Value::from)); };
    let dict = |x: Vec<String>, v: &str| -> Map<String, Value> { x.into_iter().map(|k| (k.clone(), json!(format!("{v}{k}")))).collect() };
    let nest = |o: &mut Map<String, Value>, k: &str, n: &str, v: Value| { o.entry(k).or_insert(json!({})).as_object_mut().unwrap().insert(n.into(), v); };
    for what in 0..6 {
        if !r.chance(1, 2) {continue;}
        let x = half(r); let y = half(r);
        match (what, over) {
            (0, _) => {list(o, "flags", x); if over {list(o, "unflags", y);}},
            (1, _) => {o.entry("vars").or_insert(json!({})).as_object_mut().unwrap().extend(dict(x, if over {"new"} else {""})); if over {list(o, "unvars", y);}},
            (2, false) => nest(o, "sets", "big", json!(x)), (2, true) => {nest(o, "insert_into_sets", "big", json!(x)); nest(o, "remove_from_sets", "big", json!(y));},
            (3, false) => nest(o, "maps", "big", json!({"map": dict(x, "")})), (3, true) => nest(o, "map_diffs", "big", json!({"insert_into_map": dict(x, "new"), "remove_from_map": y})),
            (4, false) => {for k in x {nest(o, "sets", &k.clone(), json!([k]));}}, (4, true) => {for k in x {nest(o, "insert_into_sets", &k, json!(["x"]));} list(o, "delete_sets", y.into_iter().filter(|x| !x.ends_with('1')).collect());},
            (_, false) => {for k in x {nest(o, "maps", &k.clone(), json!({"map": {"x": k}}));}}, (_, true) => {for k in x {nest(o, "map_diffs", &k, json!({"insert_into_map": {"y": "z"}}));} list(o, "delete_maps", y.into_iter().filter(|x| !x.ends_with('1')).collect());},
        }
    }
}
const HDRS: &[&str] = &["x-a", "x-b", "user-agent", "accept"];
fn some(r: &mut Rng, xs: &[&str], n: usize) -> Vec<String> { let mut v: Vec<String> = Vec::new(); for _ in 0..r.below(n + 1) { let x = r.pick(xs).to_string(); if !v.contains(&x) {v.push(x);} } v }
fn kv(r: &mut Rng, ks: &[&str], vs: &[&str], n: usize) -> Map<String, Value> { some(r, ks, n).into_iter().map(|k| (k, json!(*r.pick(vs)))).collect() }
fn a_proxy(r: &mut Rng) -> Value {
    let u = *r.pick(&["http://p.example/", "socks5://q.example:1/", "https://r.example:8443/"]);
    match r.below(4) { 0 => json!(u), 1 => json!({"url": u}), 2 => json!({"url": u, "mode": (*r.pick(&["Http", "Https", "All"]))}), _ => json!({"url": u, "mode": "Http", "auth": if r.chance(1, 2) {json!({"Basic": {"username": "u", "password": "p"}})} else {json!({"Custom": "tok"})}}) }
}
fn a_policy(r: &mut Rng) -> Value { if r.chance(1, 3) {json!("None")} else {json!({"Limited": r.below(12)})} }
pub fn params(r: &mut Rng) -> Value {
    let mut o = Map::new();
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(3, 4) { let v = $v; o.insert($k.into(), json!(v)); } } }
    put!("flags", some(r, NAMES, 4)); put!("vars", kv(r, NAMES, VALS, 4));
    put!("sets", some(r, NAMES, 4).into_iter().map(|k| (k, json!(some(r, VALS, 4)))).collect::<Map<_, _>>());
    put!("lists", some(r, NAMES, 3).into_iter().map(|k| (k, json!((0..r.below(4)).map(|_| *r.pick(VALS)).collect::<Vec<_>>()))).collect::<Map<_, _>>());
    put!("maps", some(r, NAMES, 4).into_iter().map(|k| { let mut m = Map::new(); m.insert("map".into(), json!(kv(r, VALS, VALS, 4))); for f in ["if_null", "else"] { if r.chance(1, 3) {m.insert(f.into(), json!(*r.pick(VALS)));} } (k, Value::Object(m)) }).collect::<Map<_, _>>());
    put!("named_partitionings", some(r, NAMES, 2).into_iter().map(|k| { let mut vs = some(r, VALS, 5); let n = r.below(vs.len() + 1); let rest = vs.split_off(n); (k, json!({"A": vs, "B": rest})) }).collect::<Map<_, _>>());
    put!("read_cache", r.chance(1, 2)); put!("write_cache", r.chance(1, 2));
    put!("http_client_config", http(r));
    if r.chance(1, 60) {bulk(r, &mut o, false);}
    Value::Object(o)
}
fn http(r: &mut Rng) -> Value {
    let mut o = Map::new();
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(1, 2) { let v = $v; o.insert($k.into(), json!(v)); } } }
    put!("default_headers", kv(r, HDRS, &["1", "2", "ab c"], 3)); put!("redirect_policy", a_policy(r)); put!("https_only", r.chance(1, 2));
    put!("proxies", (0..r.below(3)).map(|_| a_proxy(r)).collect::<Vec<_>>()); put!("no_proxy", r.chance(1, 2)); put!("referer", r.chance(1, 2)); put!("extra_certificates", some(r, VALS, 3));
    Value::Object(o)
}
pub fn http_diff(r: &mut Rng) -> Value {
    let mut o = Map::new();
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(1, 3) { let v = $v; o.insert($k.into(), json!(v)); } } }
    put!("redirect_policy", a_policy(r)); put!("add_default_headers", kv(r, HDRS, &["1", "2", "3"], 3)); put!("https_only", r.chance(1, 2)); put!("set_proxies", (0..r.below(3)).map(|_| a_proxy(r)).collect::<Vec<_>>());
    put!("add_proxies", (0..r.below(3)).map(|_| a_proxy(r)).collect::<Vec<_>>()); put!("no_proxy", r.chance(1, 2)); put!("referer", r.chance(1, 2)); put!("add_extra_certificates", some(r, VALS, 3)); put!("remove_extra_certificates", some(r, VALS, 3));
    Value::Object(o)
}
pub fn diff(r: &mut Rng, with_http: bool) -> Value {
    let mut o = Map::new();
    macro_rules! put { ($k:expr, $v:expr) => { if r.chance(1, 2) { let v = $v; o.insert($k.into(), json!(v)); } } }
    put!("flags", some(r, NAMES, 3)); put!("unflags", some(r, NAMES, 3)); put!("vars", kv(r, NAMES, VALS, 3)); put!("unvars", some(r, NAMES, 3));
    put!("init_sets", some(r, NAMES, 2)); put!("delete_sets", some(r, NAMES, 1)); put!("init_maps", some(r, NAMES, 2)); put!("delete_maps", some(r, NAMES, 1));
    for k in ["insert_into_sets", "remove_from_sets"] { put!(k, some(r, NAMES, 3).into_iter().map(|k| (k, json!(some(r, VALS, 3)))).collect::<Map<_, _>>()); }
    put!("map_diffs", some(r, NAMES, 3).into_iter().map(|k| { let mut m = Map::new(); if r.chance(2, 3) {m.insert("insert_into_map".into(), json!(kv(r, VALS, VALS, 3)));} if r.chance(2, 3) {m.insert("remove_from_map".into(), json!(some(r, VALS, 3)));} (k, Value::Object(m)) }).collect::<Map<_, _>>());
    put!("read_cache", r.chance(1, 2)); put!("write_cache", r.chance(1, 2));
    if with_http {put!("http_client_config_diff", http_diff(r));}
    if r.chance(1, 60) {bulk(r, &mut o, true);}
    Value::Object(o)
}

#[derive(clap::Parser)]
struct A { #[command(flatten)] p: ParamsDiffArgParser }

/// Command line overrides and what they mean; `None`: they are refused.
fn cli_args(r: &mut Rng, http: bool) -> (Vec<String>, Option<Value>) {
    let mut a: Vec<String> = Vec::new();
    let mut d = json!({"flags": [], "unflags": [], "vars": {}, "unvars": [], "insert_into_sets": {}, "remove_from_sets": {}, "map_diffs": {}, "http_client_config_diff": {}});
    let mut ok = true;
    let (mut ps, mut np, mut rc, mut wc) = (false, false, false, false);
    for _ in 0..r.below(7) {
        let (n, v) = (r.pick(NAMES).to_string(), r.pick(GIVEN).to_string());
        match r.below(if http {12} else {9}) {
            0 | 1 => { match r.below(3) { 0 => a.extend(["-f".into(), n.clone()]), 1 => a.extend(["--flag".into(), n.clone()]), _ => a.push(format!("--flag={n}")) } d["flags"].as_array_mut().unwrap().push(json!(n)); },
            2 => { if r.chance(1, 2) && !n.is_empty() {a.push(format!("-F{n}"));} else {a.extend(["--unflag".into(), n.clone()]);} d["unflags"].as_array_mut().unwrap().push(json!(n)); },
            3 | 4 => { a.extend([if r.chance(1, 2) {"-v"} else {"--var"}.into(), n.clone(), v.clone()]); d["vars"][&n] = json!(v); },
            5 => { a.extend([if r.chance(1, 2) {"-V"} else {"--unvar"}.into(), n.clone()]); d["unvars"].as_array_mut().unwrap().push(json!(n)); },
            k @ (6 | 7) => {
                let (o, f) = if k == 6 {("--insert-into-set", "insert_into_sets")} else {("--remove-from-set", "remove_from_sets")};
                let vs: Vec<String> = (0..r.below(4)).map(|_| r.pick(GIVEN).to_string()).collect();
                a.extend([o.to_string(), n.clone()]); a.extend(vs.iter().cloned());
                if d[f].get(&n).is_none() {d[f][&n] = json!([]);}
                d[f][&n].as_array_mut().unwrap().extend(vs.into_iter().map(|x| json!(x)));
            },
            8 => {
                if d["map_diffs"].get(&n).is_none() {d["map_diffs"][&n] = json!({"insert_into_map": {}, "remove_from_map": []});}
                if r.chance(2, 3) {
                    a.extend(["--insert-into-map".to_string(), n.clone()]);
                    let pairs = 1 + r.below(3);
                    for _ in 0..pairs { let (k, v) = (*r.pick(GIVEN), *r.pick(GIVEN)); a.extend([k.to_string(), v.to_string()]); d["map_diffs"][&n]["insert_into_map"][k] = json!(v); }
                    if r.chance(1, 12) {a.push("odd".into()); ok = false;}
                } else {
                    a.extend(["--remove-from-map".to_string(), n.clone()]);
                    for _ in 0..r.below(3) { let k = *r.pick(GIVEN); a.push(k.to_string()); d["map_diffs"][&n]["remove_from_map"].as_array_mut().unwrap().push(json!(k)); }
                }
            },
            9 if !ps => { ps = true; let u = *r.pick(&["http://p.example/", "socks5://q.example:1/"]); a.extend(["--proxy".to_string(), u.to_string()]); d["http_client_config_diff"]["set_proxies"] = json!([u]); },
            10 if !np => { np = true; let b = boolean(r, &mut a, "--no-proxy"); d["http_client_config_diff"]["no_proxy"] = json!(b); },
            11 if !rc => { rc = true; let b = boolean(r, &mut a, "--read-cache"); d["read_cache"] = json!(b); },
            _ if http && !wc => { wc = true; let b = boolean(r, &mut a, "--write-cache"); d["write_cache"] = json!(b); },
            _ => {}
        }
    }
    (a, ok.then_some(d))
}
fn boolean(r: &mut Rng, a: &mut Vec<String>, k: &str) -> bool {
    match r.below(4) { 0 => {a.push(k.into()); true}, 1 => {a.extend([k.into(), "true".into()]); true}, 2 => {a.extend([k.into(), "false".into()]); false}, _ => {a.push(format!("{k}=false")); false} }
}

/// A configuration whose only rule writes what the parameters say into the fragment.
fn probe_config(params: &Value) -> Value {
    let mut s: Vec<Value> = Vec::new();
    for n in NAMES {
        s.push(json!({"IfFlag": {"type": "Params", "name": n, "then": "1", "else": "0"}}));
        s.push(json!({"NoneTo": {"value": {"Var": {"type": "Params", "name": n}}, "if_none": "-"}}));
        for v in VALS {
            s.push(json!({"IfStringMatches": {"value": v, "matcher": {"InSet": n}, "then": "1", "else": "0"}}));
            s.push(json!({"NoneTo": {"value": {"ErrorToNone": {"ParamsMap": {"name": n, "key": v}}}, "if_none": "-"}}));
        }
    }
    json!({"docs": {"name": "probe"}, "cache_path": ":memory:", "params": params, "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"Join": {"sources": s, "join": "|"}}}}}]})
}
fn probe_expect(p: &P) -> String {
    let mut s: Vec<String> = Vec::new();
    for n in NAMES {
        s.push(if p.flags.contains(*n) {"1"} else {"0"}.into());
        s.push(p.vars.get(*n).cloned().unwrap_or("-".into()));
        for v in VALS {
            s.push(if p.sets.get(*n).is_some_and(|x| x.contains(*v)) {"1"} else {"0"}.into());
            s.push(p.maps.get(*n).and_then(|m| m.0.get(*v).or(m.2.as_ref())).cloned().unwrap_or("-".into()));
        }
    }
    let mut u = url::Url::parse("https://example.com/").unwrap();
    u.set_fragment(Some(&s.join("|")));
    u.to_string()
}

fn u16(cfg: &Cfg) -> i32 {
    let mut rec = cases(cfg, "files", cfg.n(150_000, 8_000_000), |r, rec| {
        let base = params(r);
        let diffs: Vec<Value> = (0..1 + r.below(3)).map(|_| diff(r, true)).collect();
        let mut want = parse(&base);
        let mut real: Params = match de(&base) { Ok(x) => x, Err(e) => {rec.fail("load", format!("parameters {base} do not load: {e}"), base.clone()); return;} };
        let loaded = observe(&real);
        if loaded != want {rec.fail(format!("loading {}", fields(&loaded, &want)), format!("parameters {base} load as {loaded:?}"), json!({"params": base, "expected": format!("{want:?}")}));}
        for d in &diffs {
            let x: ParamsDiff = match de(d) { Ok(x) => x, Err(e) => {rec.fail("load", format!("override {d} does not load: {e}"), d.clone()); return;} };
            if let Err(p) = guarded(|| x.apply(&mut real)) {rec.fail("panic", format!("applying {d} panics: {p}"), d.clone()); return;}
            let before = want.clone();
            apply(&mut want, d);
            rec.eval_hash(hash_str(&d.to_string()) ^ hash_str(&format!("{before:?}")));
            for f in fields(&before, &want).split('+').filter(|x| !x.is_empty()) {rec.count(&format!("override changed {f}"));}
            let got = observe(&real);
            if got != want {rec.fail(format!("override {}", fields(&got, &want)), format!("override {d} on {base} gives {got:?}, expected {want:?}"), json!({"params": base, "overrides": diffs, "failing": d})); return;}
        }
        rec.sample(|| json!({"params": base, "overrides": diffs, "after": format!("{want:?}")}));
    });
    rec.merge(cases(cfg, "arguments", cfg.n(30_000, 1_500_000), |r, rec| {
        let (args, meaning) = cli_args(r, true);
        let base = params(r);
        let Ok(mut real) = de::<Params>(&base) else {return};
        rec.eval_hash(hash_str(&args.join("\0")) ^ hash_str(&base.to_string()));
        let parsed = match A::try_parse_from(std::iter::once("x".to_string()).chain(args.iter().cloned())) { Ok(x) => x.p, Err(e) => {rec.fail("arguments refused", format!("{args:?} is refused: {e}"), json!(args)); return;} };
        let does = parsed.does_anything();
        let built = guarded(|| parsed.build());
        match (built, meaning) {
            (Err(p), _) => rec.fail("panic", format!("{args:?} panics: {p}"), json!(args)),
            (Ok(Err(_)), None) => rec.count("malformed argument lists refused"),
            (Ok(Ok(_)), None) => rec.fail("malformed accepted", format!("{args:?} is accepted"), json!(args)),
            (Ok(Err(e)), Some(_)) => rec.fail("arguments refused", format!("{args:?} is refused: {e}"), json!(args)),
            (Ok(Ok(d)), Some(m)) => {
                rec.count("argument lists applied");
                let mut want = parse(&base);
                let before = want.clone();
                apply(&mut want, &m);
                if want != before && !does {rec.fail("change overlooked", format!("{args:?} changes {}, but is reported to do nothing", fields(&before, &want)), json!({"arguments": args, "params": base}));}
                d.apply(&mut real);
                let got = observe(&real);
                if got != want {rec.fail(format!("arguments {}", fields(&got, &want)), format!("{args:?} on {base} gives {got:?}, expected {want:?}"), json!({"arguments": args, "params": base}));}
            }
        }
    }));
    // The program itself: files in order, then its arguments, seen from inside a task.
    rec.merge(cases(cfg, "program", cfg.n(400, 20_000), |r, rec| {
        let dir = cfg.scratch.join(format!("p{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let base = { let mut b = params(r); b.as_object_mut().unwrap().remove("http_client_config"); b };
        std::fs::write(dir.join("config.json"), probe_config(&base).to_string()).unwrap();
        let diffs: Vec<Value> = (0..r.below(4)).map(|_| diff(r, false)).collect();
        let (args, meaning) = cli_args(r, false);
        let mut c = Command::new(&cfg.cli);
        c.current_dir(&dir).arg("--config").arg("config.json");
        let broken = r.chance(1, 20);
        for (i, d) in diffs.iter().enumerate() { std::fs::write(dir.join(format!("d{i}.json")), d.to_string()).unwrap(); c.arg("--params-diff").arg(format!("d{i}.json")); }
        if broken { if r.chance(1, 2) {std::fs::write(dir.join("bad.json"), "{\"flags\": [").unwrap();} c.args(["--params-diff", "bad.json"]); }
        c.args(&args).arg("--").arg("https://example.com/").stdin(std::process::Stdio::null());
        let out = c.output().unwrap();
        let mut want = parse(&base);
        for d in &diffs {apply(&mut want, d);}
        if let Some(m) = &meaning {apply(&mut want, m);}
        rec.eval_hash(hash_str(&format!("{base}{diffs:?}{args:?}")));
        let text = String::from_utf8_lossy(&out.stdout).trim_end().to_string();
        let detail = json!({"params": base, "files": diffs, "arguments": args, "stdout": text, "stderr": String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>(), "exit": out.status.code()});
        if broken || meaning.is_none() {
            rec.count("program runs refused");
            if out.status.success() || !text.is_empty() {rec.fail("bad override accepted", "the program runs although an override cannot be read", detail);}
        } else {
            rec.count("program runs observed");
            let w = probe_expect(&want);
            if !out.status.success() || text != w {rec.fail("program", format!("with files {diffs:?} and arguments {args:?} a task sees {text}, expected {w}"), detail);}
        }
        std::fs::remove_dir_all(&dir).ok();
    }));
    finish(cfg, rec, "exploration", "overrides applied to random parameters: sequences of override files (all fields), argument lists parsed as the program parses them, and runs of the program whose configuration reports the parameters a task sees; distinct = different (parameters, override)",
        vec!["overrides are compared field by field with the documented effect: additions, then removals, within one override"])
}
pub fn run(cfg: &Cfg) -> i32 { u16(cfg) }
