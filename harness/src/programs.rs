//! Differential monitoring: random programs run by the real code and by the reference interpreter.
use serde_json::{json, Value};
use crate::core::*;
use crate::make::{self, G};
use crate::model::{self, Args, Pad, World};
use url_cleaner::types::*;
use crate::real::*;
use crate::rng::{hash_str, Rng};

pub struct Case { pub kind: Kind, pub prog: Value, pub url: String, pub pad: Pad, pub args: Option<Args>, pub text: String, pub needle: String, pub world: World }
impl Case {
    pub fn p(&self) -> Prog<'_> { Prog {kind: self.kind, prog: &self.prog, url: &self.url, pad: &self.pad, args: self.args.as_ref(), text: &self.text, needle: &self.needle} }
    pub fn json(&self) -> Value {
        json!({"kind": self.kind.name(), "program": self.prog, "url": self.url, "scratch": {"flags": self.pad.flags, "vars": self.pad.vars}, "args": self.args.as_ref().map(|a| json!({"flags": a.flags, "vars": a.vars})),
            "text": self.text, "needle": self.needle, "params": self.world.params, "commons": self.world.commons, "job_vars": self.world.job_vars, "task_vars": self.world.task_vars})
    }
}
pub fn fresh(w: &World) -> World { World {params: w.params.clone(), job_vars: w.job_vars.clone(), task_vars: w.task_vars.clone(), env: w.env.clone(), commons: w.commons.clone(), roomy: w.roomy, ..Default::default()} }

/// How real and model differ, if they do.
pub fn differs(c: &Case) -> Option<(String, Value)> {
    let w = fresh(&c.world);
    let m = run_model(&c.p(), &w)?;
    match run_real(&c.p(), &w) {
        Err(e) => Some((format!("load: {}", e.split(" at line").next().unwrap_or("")), json!({"load error": e}))),
        Ok(Err(p)) => Some((format!("panic in {}", panic_place(&p)), json!({"panic": p}))),
        Ok(Ok(r)) => diff(&r, &m).map(|d| (d, json!({"real": format!("{r:?}"), "expected": format!("{m:?}")}))),
    }
}
pub fn diff(r: &Outcome, m: &Outcome) -> Option<String> {
    if r.result != m.result {return Some("result".into());}
    if r.url != m.url {return Some("url".into());}
    if r.pad != m.pad {return Some("scratchpad".into());}
    if r.text != m.text {return Some("text".into());}
    None
}

/// Greedy structural shrinking; a candidate counts when it fails in the same way.
pub fn shrink(c: &mut Case, how: &str) {
    let mut budget = 3000;
    let still = |c: &Case| -> bool { differs(c).is_some_and(|d| d.0 == how) };
    loop {
        let mut progress = false;
        for root in 0..5 {
            let mut paths = Vec::new();
            collect(get_root(c, root), String::new(), &mut paths);
            for p in paths {
                if budget == 0 {return;}
                let Some(old) = get_root(c, root).pointer(&p).cloned() else {continue};
                for cand in candidates(&old) {
                    budget -= 1; if budget == 0 {return;}
                    let keep = get_root(c, root).clone();
                    *get_root_mut(c, root).pointer_mut(&p).unwrap() = cand;
                    if still(c) {progress = true; break;}
                    *get_root_mut(c, root) = keep;
                }
            }
        }
        let pad = std::mem::take(&mut c.pad); if still(c) && pad != Pad::default() {progress = true;} else {c.pad = pad;}
        if let Some(a) = c.args.take() { if still(c) {progress = true;} else {c.args = Some(a);} }
        for u in ["https://example.com/", "https://a.example.com/a/b?a=1&b=2#f"] {
            if c.url.len() > u.len() { let old = std::mem::replace(&mut c.url, u.into()); if still(c) {progress = true;} else {c.url = old;} }
        }
        if !progress {return;}
    }
}
fn get_root(c: &Case, i: usize) -> &Value { match i { 0 => &c.prog, 1 => &c.world.commons, 2 => &c.world.params, _ => &c.prog } }
fn get_root_mut(c: &mut Case, i: usize) -> &mut Value { match i { 1 => &mut c.world.commons, 2 => &mut c.world.params, _ => &mut c.prog } }
fn collect(v: &Value, p: String, out: &mut Vec<String>) {
    out.push(p.clone());
    match v {
        Value::Object(o) => for (k, x) in o {collect(x, format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), out);},
        Value::Array(a) => for (i, x) in a.iter().enumerate() {collect(x, format!("{p}/{i}"), out);},
        _ => {}
    }
}
fn candidates(v: &Value) -> Vec<Value> {
    let mut o: Vec<Value> = Vec::new();
    match v {
        Value::Object(m) => {
            for x in m.values() {o.push(x.clone()); if let Value::Object(m2) = x { for y in m2.values() {o.push(y.clone());} } if let Value::Array(a) = x {o.extend(a.iter().cloned());}}
            for k in m.keys() {let mut n = m.clone(); n.remove(k); o.push(Value::Object(n));}
            o.push(json!("None"));o.push(json!("Always"));
            o.push(Value::Null);
        },
        Value::Array(a) => for i in 0..a.len() {let mut n = a.clone(); n.remove(i); o.push(Value::Array(n));},
        Value::String(s) if !s.is_empty() => {o.push(json!("")); if s != "a" && s.len() > 1 {o.push(json!("a"));}},
        _ => {}
    }
    o
}

pub fn check(cfg: &Cfg, label: &str, n: u64, make: impl Fn(&mut Rng) -> Case + Sync) -> Rec {
    cases(cfg, label, n, |r, rec| {
        let mut c = make(r);
        let w = fresh(&c.world);
        let Some(m) = run_model(&c.p(), &w) else {rec.count("model gave no opinion"); return};
        let bad = match run_real(&c.p(), &w) {
            Err(e) => Some((format!("load: {}", e.split(" at line").next().unwrap_or("")), json!({"load error": e}))),
            Ok(Err(p)) => Some((format!("panic in {}", panic_place(&p)), json!({"panic": p}))),
            Ok(Ok(o)) => diff(&o, &m).map(|d| (d, json!({"real": format!("{o:?}"), "expected": format!("{m:?}")}))),
        };
        for (k, n) in w.visited.borrow().iter() {rec.add(k, *n);}
        rec.count(if m.result.is_ok() {"outcome: ok"} else {"outcome: error"});
        let changed = m.url != c.url || m.pad != c.pad || m.text.as_ref().is_some_and(|t| *t != c.text);
        if changed {rec.count("outcome: state changed");}
        if changed || w.steps.get() > 0 || m.result.is_err() || c.kind != Kind::Mapper { rec.eval_hash(hash_str(&c.prog.to_string()) ^ hash_str(&c.url).rotate_left(1) ^ hash_str(&c.text).rotate_left(2)); } else {rec.eval(None);}
        rec.sample(|| json!({"kind": c.kind.name(), "program": c.prog, "url": c.url, "result": format!("{:?}", m.result), "url after": m.url}));
        if let Some((how, _)) = bad {
            if !how.starts_with("load") {shrink(&mut c, &how);}
            let detail = differs(&c).map(|d| d.1).unwrap_or(json!(null));
            let root = { match &c.prog { Value::Object(o) if o.len() == 1 => o.keys().next().unwrap().clone(), Value::String(x) => x.clone(), _ => "list".to_string() } };
            rec.fail(format!("{label}: {how}: {root}"), format!("{} differs from the reference ({how}): program {} on {} gives {}", c.kind.name(), c.prog, c.url, detail), json!({"case": c.json(), "outcome": detail}));
        }
    })
}

pub fn base(r: &mut Rng, kind: Kind, cd: usize, ncommons: usize, f: impl FnOnce(&mut G) -> Value) -> Case {
    let url = make::url(r);
    let in_common = r.chance(1, 3);
    let text = make::word(r); let needle = make::word(r);
    let mut g = G::new(r, &url);
    g.n_commons = ncommons;
    g.pool.push(text.clone());
    if matches!(kind, Kind::Modification | Kind::Location | Kind::Matcher) {g.focus = Some(text.clone());}
    let world = g.world(cd);
    let pad = g.pad();
    let args = in_common.then(|| g.args());
    g.in_common = in_common;
    let prog = f(&mut g);
    let (text, needle) = match kind {
        Kind::Location => {let t = if g.r.chance(2, 3) {text} else {g.text()}; let n = if g.r.chance(2, 3) && !t.is_empty() {let cs: Vec<char> = t.chars().collect(); let a = g.r.below(cs.len()); let b = a + g.r.below(cs.len() - a + 1); cs[a..b].iter().collect()} else {needle}; (t, n)},
        Kind::Char => (g.ch().as_str().unwrap().to_string(), String::new()),
        _ => (if g.r.chance(3, 4) {text} else {g.text()}, needle)
    };
    Case {kind, prog, url: url.as_str().to_string(), pad, args, text, needle, world}
}
fn one(k: &str, v: Value) -> Value { let mut m = serde_json::Map::new(); m.insert(k.into(), v); Value::Object(m) }

/// Retrying: as many attempts as are needed or allowed, each but the last failed one followed by the wait asked for,
/// what failed attempts did staying done.
fn retries(cfg: &Cfg) -> Rec {
    cases(cfg, "retries", cfg.n(60, 3000), |r, rec| {
        let (delay, limit, good) = (r.below(4) as f64 * 0.008, 1 + r.below(4), 1 + r.below(5));
        let mark = json!({"SetScratchpadVar": {"name": "n", "value": {"Join": {"sources": [{"NoneTo": {"value": {"Var": {"type": "Scratchpad", "name": "n"}}, "if_none": ""}}, "x"]}}}});
        let unless = json!({"Rules": [{"condition": {"Not": {"VarIs": {"type": "Scratchpad", "name": "n", "value": "x".repeat(good)}}}, "mapper": {"Error": "not yet"}}]});
        let mut prog = json!({"Retry": {"mapper": {"All": [mark, unless]}, "delay": delay, "limit": limit}});
        if r.chance(1, 3) {prog = json!({"IgnoreError": prog});}
        let world = World {params: json!({}), commons: json!({}), ..World::default()};
        let c = Case {kind: Kind::Mapper, prog: prog.clone(), url: "https://example.com/".into(), pad: Pad::default(), args: None, text: String::new(), needle: String::new(), world};
        let t = std::time::Instant::now();
        let out = run_real(&c.p(), &c.world);
        let took = t.elapsed().as_secs_f64();
        let ok = good <= limit || prog.get("IgnoreError").is_some();
        let attempts = good.min(limit);
        rec.eval_hash(hash_str(&prog.to_string())); rec.add("attempts seen", attempts as u64);
        match out {
            Ok(Ok(o)) if o.result.is_ok() == ok && o.pad.vars.get("n").map(|x| x.len()) == Some(attempts) => {
                let least = (attempts - 1) as f64 * delay;
                if least > 0.0 {rec.count("waits timed");}
                if took < least {rec.fail("retry: did not wait", format!("{prog} took {took} s for {attempts} attempts"), json!({"program": prog}));}
            },
            o => rec.fail("retry: attempts", format!("{prog} should make {attempts} attempts and {}, but gives {o:?}", if ok {"succeed"} else {"fail"}), json!({"program": prog}))
        }
    })
}

/// Every class of characters on every character there is.
fn classes(cfg: &Cfg) -> Rec {
    let mut all: Vec<Value> = ["Always", "Never", "Error", "IsAlphabetic", "IsAlphanumeric", "IsAscii", "IsAsciiAlphabetic", "IsAsciiAlphanumeric", "IsAsciiControl", "IsAsciiDigit", "IsAsciiGraphic", "IsAsciiHexdigit", "IsAsciiLowercase",
        "IsAsciiPunctuation", "IsAsciiUppercase", "IsAsciiWhitespace", "IsControl", "IsDigit", "IsLowercase", "IsNumeric", "IsUppercase", "IsWhitespace"].iter().map(|x| json!(x)).collect();
    all.extend((0..=40).chain([255, u32::MAX]).map(|x| json!({"IsDigitRadix": x})));
    for (a, b) in [('a', 'z'), ('z', 'a'), ('\0', '\u{10ffff}'), ('\u{d7ff}', '\u{e000}'), ('é', 'é'), ('日', '本')] {all.extend([json!({"Between": {"min": a, "max": b}}), json!({"Equals": a}), json!({"IsOneOf": [a, b]})]);}
    let (parts, step) = (16u64, if cfg.thorough {1} else {3});
    cases_idx(cfg, "every character", all.len() as u64 * parts, |i, rec| {
        let (prog, part) = (&all[(i / parts) as usize], (i % parts) as u32);
        let real: CharMatcher = match de(prog) { Ok(x) => x, Err(e) => {rec.fail("load", format!("{prog}: {e}"), json!(null)); return} };
        // The first planes are tried in full; quick runs take every third character beyond them.
        let mut last = None; let mut yes = 0;
        for c in (part..0x110000).step_by(parts as usize).filter(|c| *c < 0x30000 || c / parts as u32 % step == 0).filter_map(char::from_u32) {
            let want = model::charm(prog, c).map_err(|_| ());
            let got = guarded(|| real.satisfied_by(c).map_err(|_| ()));
            rec.evals += 1;
            if got != Ok(want) {last.get_or_insert((c, format!("{got:?}, expected {want:?}")));}
            yes += (want == Ok(true)) as u64;
        }
        rec.eval_hash(hash_str(&prog.to_string()) ^ part as u64); rec.add("characters held to be in the class", yes);
        if let Some((c, how)) = last {rec.fail(format!("every character: {prog}"), format!("{prog} says of {c:?}: {how}"), json!({"program": prog, "character": c}));}
    })
}
/// Modifications that look at single characters, on a text around every character.
fn characters(cfg: &Cfg) -> Rec {
    let mods = [json!("Lowercase"), json!("Uppercase"), json!({"UrlEncode": "JsEncodeUriComponent"}), json!({"UrlEncode": "JsEncodeUri"}), json!({"UrlEncode": "NonAlphanumeric"}), json!("UrlDecode"), json!("Base64Encode"), json!("Base64Decode"),
        json!({"RemoveChar": 1}), json!({"RemoveChar": -2}), json!({"KeepRange": {"start": 0, "end": 1}}), json!({"KeepRange": {"start": 1, "end": -1}}), json!({"Insert": {"index": 2, "value": "-"}}), json!({"Insert": {"index": -2, "value": "-"}})];
    let mods: Vec<Value> = mods.into_iter().filter(|m| de::<StringModification>(m).is_ok()).collect();
    let make_world = || { let u = make::url(&mut rng_for(cfg, "world", 0)); let mut r = rng_for(cfg, "world", 1); let mut g = G::new(&mut r, &u); g.n_commons = 0; g.world(0) };
    let all: Vec<char> = (0..0x110000u32).filter(|c| *c < 0x600 || (*c < 0x3000 && c % 3 == 0) || c % if cfg.thorough {23} else {611} == 0 || (0xFF00..0xFFF0).contains(c)).filter_map(char::from_u32).collect();
    cases_idx(cfg, "every character", all.len().div_ceil(32) as u64, |i, rec| {
        let world = make_world();
        let rw = match real_world(&world) { Ok(x) => x, Err(e) => {rec.fail("load", e, json!(null)); return} };
        for c in all.iter().skip(i as usize * 32).take(32) { for m in &mods { for t in [c.to_string(), format!("a{c}b"), format!("%{:02X}{c}%c3%{:02x}", *c as u32 & 255, (*c as u32 & 63) | 128)] {
            let case = Case {kind: Kind::Modification, prog: m.clone(), url: "https://example.com/".into(), pad: Default::default(), args: None, text: t, needle: String::new(), world: fresh(&world)};
            let Some(want) = run_model(&case.p(), &case.world) else {continue};
            let got = run_real_in(&case.p(), &rw);
            rec.eval_hash(hash_str(&m.to_string()) ^ hash_str(&case.text));
            let bad = match &got { Ok(Ok(o)) => diff(o, &want).map(|d| d.to_string()), x => Some(format!("{x:?}")) };
            if let Some(how) = bad {rec.fail(format!("every character: {how}: {m}"), format!("{m} on {:?} gives {got:?}, expected {want:?}", case.text), case.json());}
        } } }
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = crate::sizes::sizes(cfg);
    if cfg.pid == "U12" {rec.merge(characters(cfg));}
    if cfg.pid == "U13" {rec.merge(classes(cfg));}
    if cfg.pid == "U09" {rec.merge(retries(cfg));}
    let mut go = |label: &str, q: u64, t: u64, f: &(dyn Fn(&mut Rng) -> Case + Sync)| { let n = cfg.n(q, t); rec.merge(check(cfg, label, n, f)); };
    match &*cfg.pid {
        "U08" => {
            go("query mapper", 60000, 3000000, &|r| base(r, Kind::Mapper, 1, 1, |g| match g.r.below(9) {
                0 => {let t = if g.r.chance(3, 4) {g.r.pick(make::QNAMES).to_string()} else {g.text()}; one("RemoveQueryParam", g.lit(&t))},
                1 => one("RemoveQueryParams", g.set_of(5)), 2 => one("AllowQueryParams", g.set_of(5)),
                3 => one("RemoveQueryParamsMatching", g.matcher(2)), 4 => one("AllowQueryParamsMatching", g.matcher(2)),
                5 => {let t = g.r.pick(make::QNAMES).to_string(); one("GetUrlFromQueryParam", json!(t))},
                6 => json!("RemoveQuery"),
                7 => {let p = g.qparam(); let x = g.ostr(); json!({"SetPart": {"part": p, "value": x}})},
                _ => {let p = g.qparam(); let q = g.qparam(); let k = *g.r.pick(&["CopyPart", "MovePart"]); one(k, json!({"from": p, "to": q}))},
            }));
            go("query sequence", 15000, 1000000, &|r| base(r, Kind::Mapper, 1, 1, |g| {let n = 1 + g.r.below(4); one("All", json!((0..n).map(|_| match g.r.below(5) {
                0 => one("RemoveQueryParams", g.set_of(3)), 1 => one("AllowQueryParamsMatching", g.matcher(1)), 2 => one("RemoveQueryParamsMatching", g.matcher(1)),
                3 => {let p = g.qparam(); let x = g.ostr(); json!({"SetPart": {"part": p, "value": x}})},
                _ => {let p = g.qparam(); json!({"ModifyPart": {"part": p, "modification": g.modification(1)}})},
            }).collect::<Vec<_>>()))}));
            go("query text modification", 15000, 500000, &|r| { let q = make::query(r); let mut c = base(r, Kind::Modification, 1, 1, |g| {let k = *g.r.pick(&["RemoveQueryParamsMatching", "AllowQueryParamsMatching"]); one(k, g.matcher(2))}); c.text = q; c });
        },
        "U09" => {
            go("error handling", 60000, 3000000, &|r| base(r, Kind::Mapper, 2, 3, |g| { let k = g.r.below(8); let inner = |g: &mut G| {let n = 2 + g.r.below(4); one("All", json!((0..n).map(|_| g.mapper(2)).collect::<Vec<_>>()))}; match k {
                0 => one("IgnoreError", inner(g)), 1 | 2 => one("RevertOnError", inner(g)), 3 => json!({"TryElse": {"try": inner(g), "else": inner(g)}}),
                4 => {let n = 1 + g.r.below(4); one("FirstNotError", json!((0..n).map(|_| inner(g)).collect::<Vec<_>>()))},
                5 => json!({"All": [one("IgnoreError", inner(g)), g.mapper(2), g.mapper(2)]}),
                6 => {let f = g.part(); let t = g.part(); one("MovePart", json!({"from": f, "to": t}))},
                _ => json!({"All": [g.mapper(1), one("IgnoreError", one("RevertOnError", inner(g))), g.mapper(1)]}),
            }}));
            go("part transfer", 30000, 1000000, &|r| base(r, Kind::Mapper, 1, 1, |g| {let f = g.part(); let t = g.part(); let k = *g.r.pick(&["CopyPart", "MovePart", "MovePart", "ModifyPart"]); if k == "ModifyPart" {json!({"ModifyPart": {"part": f, "modification": g.modification(1)}})} else {one(k, json!({"from": f, "to": t}))}}));
        },
        "U10" => {
            go("rule", 50000, 3000000, &|r| base(r, Kind::Rule, 2, 3, |g| g.rule(3)));
            go("rules", 15000, 1000000, &|r| base(r, Kind::Rules, 2, 3, |g| g.rules(3)));
            go("mapper", 30000, 2000000, &|r| base(r, Kind::Mapper, 2, 3, |g| g.mapper(4)));
            go("repeat", 30000, 1000000, &|r| base(r, Kind::Rule, 1, 2, |g| {
                // bodies that take several passes to settle
                let n = 1 + g.r.below(3);
                let body: Vec<Value> = (0..n).map(|_| match g.r.below(7) {
                    0 => json!({"Mapper": {"ModifyPart": {"part": "Path", "modification": {"StripMaybePrefix": "/a"}}}}),
                    1 => json!({"Mapper": {"IgnoreError": {"SetPart": {"part": {"PathSegment": 0}, "value": null}}}}),
                    2 => json!({"Mapper": {"IgnoreError": {"GetUrlFromQueryParam": (*g.r.pick(&["a", "b"]))}}}),
                    3 => json!({"condition": {"VarIs": {"type": "Scratchpad", "name": "v0", "value": "ab"}}, "mapper": {"SetScratchpadVar": {"name": "v0", "value": "abc"}}}),
                    4 => json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "f0"}}, "mapper": {"SetScratchpadFlag": {"name": "f1", "value": true}}, "else_mapper": {"SetScratchpadFlag": {"name": "f0", "value": true}}}),
                    5 => json!({"Mapper": {"ModifyScratchpadVar": {"name": "v1", "modification": {"IgnoreError": {"KeepRange": {"start": 1, "end": null}}}}}}),
                    _ => g.rule(1)
                }).collect();
                let lim = g.r.below(8);
                if g.r.chance(1, 4) {json!({"Repeat": {"rules": body}})} else {json!({"Repeat": {"rules": body, "limit": lim}})}
            }));
        },
        "U11" => {
            go("condition", 80000, 5000000, &|r| base(r, Kind::Condition, 2, 3, |g| g.condition(3)));
            go("shallow condition", 60000, 2000000, &|r| base(r, Kind::Condition, 1, 1, |g| g.condition(1)));
        },
        "U12" => {
            go("modification", 60000, 4000000, &|r| base(r, Kind::Modification, 1, 2, |g| g.modification(0)));
            go("nested modification", 50000, 3000000, &|r| base(r, Kind::Modification, 2, 2, |g| g.modification(3)));
        },
        "U13" => {
            go("location", 80000, 4000000, &|r| base(r, Kind::Location, 1, 0, |g| g.location(3)));
            go("character", 60000, 3000000, &|r| base(r, Kind::Char, 1, 0, |g| g.charm(2)));
            go("matcher", 60000, 4000000, &|r| base(r, Kind::Matcher, 2, 2, |g| g.matcher(3)));
        },
        "U14" => {
            go("source", 70000, 4000000, &|r| base(r, Kind::Source, 2, 3, |g| g.source(3)));
            go("reference", 40000, 1500000, &|r| base(r, Kind::Condition, 1, 1, |g| if g.r.chance(1, 2) {let o = g.flagref(1); one("FlagIsSet", Value::Object(o))} else {let mut o = g.varref(1); o.insert("value".into(), g.ostr()); one("VarIs", Value::Object(o))}));
            go("variable", 40000, 1500000, &|r| base(r, Kind::Source, 1, 1, |g| {let o = g.varref(1); one("Var", Value::Object(o))}));
        },
        "U15" => {
            go("mapper call", 40000, 2000000, &|r| base(r, Kind::Mapper, 2, 4, |g| {let n = 1 + g.r.below(3); one("All", json!((0..n).map(|_| if g.r.chance(3, 4) {one("Common", g.call(2))} else {g.mapper(1)}).collect::<Vec<_>>()))}));
            go("rule call", 20000, 1000000, &|r| base(r, Kind::Rules, 2, 4, |g| {let n = 1 + g.r.below(3); json!((0..n).map(|_| if g.r.chance(3, 4) {one("Common", g.call(2))} else {g.rule(1)}).collect::<Vec<_>>())}));
            go("condition call", 20000, 1000000, &|r| base(r, Kind::Condition, 2, 4, |g| {let a = one("Common", g.call(2)); let o = g.flagref(1); json!({"Any": [a, one("FlagIsSet", Value::Object(o))]})}));
            go("matcher call", 20000, 1000000, &|r| base(r, Kind::Matcher, 2, 4, |g| one("Common", g.call(2))));
            go("modification call", 20000, 1000000, &|r| base(r, Kind::Modification, 2, 4, |g| {let o = g.varref(0); let c = one("Common", g.call(2)); json!({"All": [c, {"Append": {"NoneToEmptyString": {"Var": o}}}]})}));
            go("source call", 20000, 1000000, &|r| base(r, Kind::Source, 2, 4, |g| {let o = g.varref(0); let c = one("Common", g.call(2)); json!({"Join": {"sources": [{"NoneToEmptyString": c}, {"NoneToEmptyString": {"Var": o}}], "join": "|"}})}));
        },
        _ => {}
    }
    finish(cfg, rec, "exploration", "random programs of the named construct over random URLs, strings, parameters, scratch state and call arguments, run by the real interpreter and by an independent reference; a case is non-trivial when it errs, changes state, yields a value or evaluates at least one construct, and distinct by program, URL and text",
        vec!["third-party crates (url, psl, regex, glob) are shared by code and reference", "commons are acyclic and work is bounded"])
}
