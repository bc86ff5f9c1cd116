//! U01, U02: the program's results, as printed, against the tasks it was given.
use std::borrow::Cow;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use serde_json::{json, Value};
use url_cleaner::types::*;
use crate::core::*;
use crate::real::de;
use crate::rng::{hash_str, Rng};

#[derive(Clone, Debug, PartialEq)]
enum Exp { Ok(String), Do, Make }
#[derive(Clone, Debug)]
struct Task { bytes: Vec<u8>, exp: Exp, arg: bool }

/// The rules: mark what other tasks might see, wait, fail on some hosts, note what was seen.
fn config(log: Option<&Path>) -> Value {
    let fails = |ms: f64| json!({"IgnoreError": {"Retry": {"mapper": {"Error": "not yet"}, "delay": ms / 1000.0, "limit": 2}}});
    let or = |v: Value| json!({"NoneTo": {"value": v, "if_none": "-"}});
    let mut rules = vec![
        json!({"Mapper": {"SetScratchpadVar": {"name": "seen", "value": {"Join": {"sources": [or(json!({"Var": {"type": "Scratchpad", "name": "mark"}}))]}}}}}),
        json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "marked"}}, "mapper": {"SetScratchpadVar": {"name": "seen", "value": "leak"}}}),
        json!({"condition": {"PartContains": {"part": "Path", "value": "/set", "where": "Anywhere"}}, "mapper": {"All": [{"SetScratchpadFlag": {"name": "marked", "value": true}}, {"SetScratchpadVar": {"name": "mark", "value": {"Part": "Path"}}}]}}),
        json!({"PartMap": {"part": "Subdomain", "map": {"d1": fails(1.0), "d2": fails(6.0), "d3": fails(40.0)}}}),
        json!({"condition": {"RegDomainIs": "fail.example"}, "mapper": {"Error": "this one fails"}}),
        json!({"Mapper": {"SetPart": {"part": "Fragment", "value": {"Join": {"sources": ["r", {"Var": {"type": "Scratchpad", "name": "seen"}}, or(json!({"Var": {"type": "TaskContext", "name": "x"}})), or(json!({"Var": {"type": "JobContext", "name": "j"}})), or(json!({"Var": "p"}))]}}}}}),
    ];
    if let Some(l) = log {rules.insert(4, json!({"Mapper": {"IgnoreError": {"SetScratchpadVar": {"name": "log", "value": {"CommandOutput": {"program": "/bin/sh", "args": ["-c", "echo \"$1\" >>\"$0\"", l.to_string_lossy(), {"Part": "Path"}]}}}}}}));}
    json!({"docs": {"name": "order"}, "cache_path": ":memory:", "params": {"vars": {"p": "P"}}, "rules": rules})
}
/// What cleaning a URL with these rules gives.
fn cleaned(u: url::Url, x: Option<&str>, j: Option<&str>) -> Exp {
    let mut u = u;
    if u.host_str().is_some_and(|h| h.trim_end_matches('.') == "fail.example" || h.trim_end_matches('.').ends_with(".fail.example")) {return Exp::Do;}
    u.set_fragment(Some(&format!("r-{}{}P", x.unwrap_or("-"), j.unwrap_or("-"))));
    Exp::Ok(u.to_string())
}
const BAD: &[&str] = &["", " ", "\t", "not a url", "//e.com/x", "http://", "https://[::1", "https://exa mple.com/", "http://e.com:99999/", "{bad", "{}", "{\"url\":1}", "{\"url\":\"nope\"}", "{\"url\":\"https://e.com\",\"context\":{\"vars\":{\"x\":1}}}", "{\"url\":\"https://e.com/\"} trailing",
    "\"\"", "\"https://e.com", "\"not\"", "\"https://e.com/\"x", "[\"https://e.com/\"]", "null", "{\"context\":{}}", "\u{feff}", "{\"url\":\"https://e.com/\",\"url\":\"https://e.com/2\"}", "{\"url\":null}", "\"\\ud800\"", "/etc/passwd", "https://%", "http://a.b.c.d:x/", "\u{feff}https://e.com/", "\u{feff}{\"url\":\"https://e.com/\"}", "https", ":", "?", "#", "https:", "https:/", "https://", "e.com", "'https://e.com/'", "<https://e.com/>", "{\"url\":\"https://e.com/\"},"];
fn task(r: &mut Rng, id: usize, fails: usize, j: Option<&str>) -> Task {
    let path = format!("{}{}{}", id, r.pick(&["", "", "/set", "/set", "?q=1&r", "/a%20b", "/é", "//", "/x?y#frag", "/{a}", "/\"q\"", "?{\"url\":1}"]), "");
    let slow = r.chance(1, 3);
    let host = match r.below(20) { 0 => "127.0.0.1".into(), 1 => "[::1]:81".into(), 2 => "user:pw@d1.ok.example".into(), 3 => "EXAMPLE.com".into(), _ => format!("{}{}", r.pick(if slow {&["", "d1.", "d2.", "d3.", "x."][..]} else {&["", "", "d1.", "d2."]}), if r.chance(fails, 10) {"fail.example"} else {["ok.example", "éx.example", "a.b.co.uk"][r.below(3)]}) };
    let url = match r.below(25) { 0 => format!("mailto:{path}"), 1 => format!("data:text/plain,{id}"), 2 => format!("https://{host}/{path}{}", "l".repeat(r.below(20_000))), _ => format!("{}://{host}/{path}", r.pick(&["https", "https", "http", "foo"])) };
    let bad = |s: &[u8]| Task {bytes: s.to_vec(), exp: Exp::Make, arg: false};
    if r.chance(fails, 20) {return bad(r.pick(BAD).as_bytes());}
    if r.chance(fails, 60) { let mut b = url.into_bytes(); let i = r.below(b.len() + 1); b.insert(i, *r.pick(&[0xff, 0xc3, 0x80, 0xed])); if std::str::from_utf8(&b).is_err() {return bad(&b);} return bad(b""); }
    let Ok(u) = url::Url::parse(&url) else {return bad(url.as_bytes())};
    let (text, x) = match r.below(8) {
        0 => (serde_json::to_string(&url).unwrap(), None),
        1 => (json!({"url": url}).to_string(), None),
        2 => (json!({"url": url, "context": {"vars": {}}}).to_string(), None),
        3 | 4 => {let x = format!("x{id}"); (json!({"url": url, "context": {"vars": {"x": x, "y": "z"}}}).to_string(), Some(x))},
        5 => (format!(" \t{url}  "), None),
        _ => (url.clone(), None)
    };
    Task {bytes: text.into_bytes(), exp: cleaned(u, x.as_deref(), j), arg: false}
}
struct Run { out: Vec<u8>, err: String, code: Option<i32>, late: bool }
/// How the input is fed and the output drained.
#[derive(Clone, Copy, Debug)]
struct Pace { chunk: usize, pause: u64, drain: Option<usize> }
fn drive(cmd: &mut Command, input: Vec<u8>, p: Pace) -> Run {
    let mut c = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let (mut i, mut o, mut e) = (c.stdin.take().unwrap(), c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let w = std::thread::spawn(move || { for (n, x) in input.chunks(p.chunk.max(1)).enumerate() { if i.write_all(x).is_err() {break;} if p.pause > 0 && n < 60 {std::thread::sleep(Duration::from_micros(p.pause));} } });
    let ho = std::thread::spawn(move || { let mut v = Vec::new(); match p.drain { None => {let _ = o.read_to_end(&mut v);}, Some(k) => { let mut b = vec![0; k]; let mut n = 0; while let Ok(m @ 1..) = o.read(&mut b) {v.extend_from_slice(&b[..m]); n += 1; if n < 40 {std::thread::sleep(Duration::from_millis(1));}} } } v });
    let he = std::thread::spawn(move || { let mut v = Vec::new(); let _ = e.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let (s, late) = wait(&mut c, 100);
    let _ = w.join();
    Run {out: ho.join().unwrap(), err: he.join().unwrap(), code: s, late}
}
fn wait(c: &mut std::process::Child, secs: u64) -> (Option<i32>, bool) {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        match c.try_wait() { Ok(Some(s)) => return (s.code(), false), Ok(None) if t.elapsed().as_secs() >= secs => {let _ = c.kill(); let _ = c.wait(); return (None, true);}, _ => {std::thread::sleep(Duration::from_millis(nap)); nap = (nap * 2).min(10);} }
    }
}
/// Splits plain output into results: each is followed by one line break.
fn lines(out: &[u8]) -> Result<Vec<String>, String> {
    let s = std::str::from_utf8(out).map_err(|_| "the output is not text".to_string())?;
    if s.is_empty() {return Ok(vec![]);}
    Ok(s.strip_suffix('\n').ok_or("the last result has no line break")?.split('\n').map(str::to_string).collect())
}
/// One result, as printed.
#[derive(Clone, Debug, PartialEq)]
enum Got { Ok(String), Do(String), Make(String), Odd(String) }
fn results(json: bool, run: &Run) -> Result<Vec<Got>, String> {
    if json {
        if !run.err.is_empty() {return Err(format!("standard error has {:?}", cut(&run.err)));}
        let v: Value = serde_json::from_slice(&run.out).map_err(|e| format!("the output is not a JSON document: {e}"))?;
        let o = v.as_object().filter(|o| o.len() == 1).and_then(|o| o.get("Ok")?.as_object()).filter(|o| o.len() == 1).and_then(|o| o.get("urls")?.as_array()).ok_or("the document has no list of results")?;
        let err = |e: &Value| (e.as_object().is_some_and(|o| o.len() == 2) && e["message"].as_str().is_some_and(|m| !m.is_empty()) && e["variant"].is_string()).then(|| format!("{}|{}", e["message"].as_str().unwrap(), e["variant"].as_str().unwrap()));
        Ok(o.iter().map(|x| match x.as_object().filter(|o| o.len() == 1).and_then(|o| o.iter().next()) {
            Some((k, v)) if k == "Ok" => match v.as_object().filter(|o| o.len() == 1).and_then(|o| o.iter().next()) {
                Some((k, Value::String(u))) if k == "Ok" => Got::Ok(u.clone()), Some((k, e)) if k == "Err" => err(e).map_or(Got::Odd(x.to_string()), Got::Do), _ => Got::Odd(x.to_string()) },
            Some((k, e)) if k == "Err" => err(e).map_or(Got::Odd(x.to_string()), Got::Make),
            _ => Got::Odd(x.to_string())
        }).collect())
    } else {
        let mut errs = run.err.lines();
        let mut v = Vec::new();
        for l in lines(&run.out)? {
            v.push(if !l.is_empty() {Got::Ok(l)} else { match errs.next() {
                Some(m) => if let Some(x) = m.strip_prefix("DoTaskError\t") {Got::Do(x.into())} else if let Some(x) = m.strip_prefix("MakeTaskError\t") {Got::Make(x.into())} else {Got::Odd(m.into())},
                None => return Err("there are more blank lines than messages".into()) } });
        }
        if let Some(m) = errs.next() {return Err(format!("there is a message too many: {:?}", cut(m)));}
        Ok(v)
    }
}
fn cut(s: &str) -> String { s.chars().take(200).collect() }
fn agrees(g: &Got, e: &Exp) -> bool { match (g, e) { (Got::Ok(a), Exp::Ok(b)) => a == b, (Got::Do(_), Exp::Do) | (Got::Make(_), Exp::Make) => true, _ => false } }
fn show(t: &Task) -> String { cut(&String::from_utf8_lossy(&t.bytes)) }

fn batches(cfg: &Cfg) -> Rec {
    let failures = cfg.pid == "U02";
    cases(cfg, "batches", cfg.n(if failures {700} else {900}, 40_000), |r, rec| {
        let dir = cfg.scratch.join(format!("b{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let big = r.chance(1, 25);
        let n = if big {200 + r.below(2500)} else { match r.below(8) { 0 => r.below(3), 1 => 1 + r.below(5), _ => 3 + r.below(50) } };
        let j = r.chance(1, 4).then_some("job");
        let fails = if failures {[1, 4, 10, 3, 0][r.below(5)]} else {[0, 1, 2][r.below(3)]};
        let mut tasks: Vec<Task> = (0..n).map(|i| task(r, i, if i % 7 == 3 && fails == 1 {5} else {fails}, j)).collect();
        if big { for t in &mut tasks { if r.chance(9, 10) { if let Exp::Ok(_) = t.exp {*t = plain(r, j);} } } }
        // Some come first, as arguments.
        let nargs = if r.chance(1, 2) {0} else if r.chance(1, 5) {n} else {r.below(n + 1)}.min(200);
        let mut order: Vec<Task> = Vec::new();
        for (i, mut t) in tasks.into_iter().enumerate() {
            t.arg = i < nargs;
            if t.arg && (std::str::from_utf8(&t.bytes).is_err() || t.bytes.len() > 50_000) {t = Task {bytes: b"".to_vec(), exp: Exp::Make, arg: true};}
            order.push(t);
        }
        let tasks = order;
        let log = (!big && r.chance(1, 6)).then(|| dir.join("log"));
        std::fs::write(dir.join("config.json"), config(log.as_deref()).to_string()).unwrap();
        let threads = *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 8, 16, 64]);
        let js = r.chance(1, 2);
        let pace = Pace {chunk: match r.below(4) { 0 => 1 + r.below(30), 1 => 200 + r.below(2000), _ => usize::MAX }, pause: [0, 200, 3000][r.below(3)], drain: r.chance(1, 6).then(|| 1 + r.below(5000))};
        let crlf = r.chance(1, 6); let last = r.chance(2, 3);
        let input: Vec<u8> = { let mut v = Vec::new(); let ts: Vec<&Task> = tasks.iter().filter(|t| !t.arg).collect(); for (i, t) in ts.iter().enumerate() { v.extend_from_slice(&t.bytes); if i + 1 < ts.len() || last || t.bytes.is_empty() { if crlf && r.chance(1, 2) {v.push(b'\r');} v.push(b'\n'); } } v };
        let run = |ts: &[&Task], input: Vec<u8>, threads: usize, pace: Pace| {
            let mut c = Command::new(&cfg.cli);
            c.arg("--config").arg(dir.join("config.json")).args(["--threads", &threads.to_string()]);
            if js {c.arg("--json");}
            if let Some(j) = j {c.args(["--job-context", &json!({"vars": {"j": j}}).to_string()]);}
            c.arg("--"); for t in ts.iter().filter(|t| t.arg) {c.arg(String::from_utf8(t.bytes.clone()).unwrap());}
            drive(&mut c, input, pace)
        };
        let all: Vec<&Task> = tasks.iter().collect();
        let got = run(&all, input, threads, pace);
        rec.eval_hash(hash_str(&format!("{threads}{js}{pace:?}{:?}", tasks)));
        rec.add("tasks given", tasks.len() as u64); rec.count(if js {"JSON runs"} else {"text runs"}); rec.count(&format!("runs with {threads} threads"));
        let detail = |k: usize| json!({"threads": threads, "json": js, "pace": format!("{pace:?}"), "tasks": tasks.len(), "arguments": nargs.min(tasks.len()), "around": tasks.iter().enumerate().skip(k.saturating_sub(2)).take(5).map(|(i, t)| json!([i, show(t), format!("{:?}", t.exp).chars().take(200).collect::<String>()])).collect::<Vec<_>>(), "stdout": cut(&String::from_utf8_lossy(&got.out)), "stderr": cut(&got.err), "status": got.code});
        rec.sample(|| detail(2));
        macro_rules! bad { ($sig:expr, $k:expr, $($x:tt)*) => {{ rec.fail($sig, format!($($x)*), detail($k)); std::fs::remove_dir_all(&dir).ok(); return; }} }
        if got.late {rec.abort = true; bad!("hang", 0, "{} tasks with {threads} threads were not over after 100 s", tasks.len());}
        let res = match results(js, &got) { Ok(x) => x, Err(e) => bad!(if failures {"report"} else {"results"}, 0, "{e} ({} tasks, {threads} threads, status {:?})", tasks.len(), got.code) };
        if res.len() != tasks.len() {bad!("number of results", res.iter().zip(&tasks).position(|(g, t)| !agrees(g, &t.exp)).unwrap_or(0), "{} tasks give {} results with {threads} threads", tasks.len(), res.len());}
        if let Some(k) = res.iter().zip(&tasks).position(|(g, t)| !agrees(g, &t.exp)) {
            bad!("result", k, "task {k} of {}, {:?}, gives {:?} rather than {:?} ({threads} threads)", tasks.len(), show(&tasks[k]), cut(&format!("{:?}", res[k])), cut(&format!("{:?}", tasks[k].exp)));
        }
        rec.add("results compared", res.len() as u64);
        let (ok, err) = (tasks.iter().filter(|t| matches!(t.exp, Exp::Ok(_))).count(), tasks.iter().filter(|t| !matches!(t.exp, Exp::Ok(_))).count());
        rec.add("failures reported", err as u64);
        let want = match (ok, err) { (_, 0) => 0, (0, _) => 1, _ => 2 };
        rec.count(&format!("exit status {want}"));
        if got.code != Some(want) {bad!("exit status", 0, "the exit status is {:?} rather than {want} after {ok} successes and {err} failures", got.code);}
        // The order tasks really ended in.
        if let Some(l) = &log {
            let ends: Vec<usize> = std::fs::read_to_string(l).unwrap_or_default().lines().filter_map(|l| l.trim_start_matches('/').split(['/', '?']).next()?.parse().ok()).collect();
            let over = ends.windows(2).filter(|w| w[0] > w[1]).count();
            rec.add("tasks overtaken by later ones", over as u64);
            if over > 0 {rec.count("runs whose tasks ended out of order"); rec.eval_hash(hash_str(&format!("{ends:?}")));}
        }
        // Failures must not touch the others: some alone.
        if failures && !tasks.is_empty() && r.chance(1, 4) {
            for _ in 0..2 {
                let k = r.below(tasks.len());
                let mut input = Vec::new(); if !tasks[k].arg {input.extend_from_slice(&tasks[k].bytes); input.push(b'\n');}
                let alone = run(&[&tasks[k]], input, *r.pick(&[1, 4]), Pace {chunk: usize::MAX, pause: 0, drain: None});
                let x = results(js, &alone);
                rec.count("tasks also run alone");
                if x.as_ref().ok() != Some(&vec![res[k].clone()]) {bad!("alone", k, "task {k}, {:?}, gives {:?} among {} others and {:?} alone", show(&tasks[k]), cut(&format!("{:?}", res[k])), tasks.len() - 1, x);}
            }
        }
        std::fs::remove_dir_all(&dir).ok();
    })
}
fn plain(r: &mut Rng, j: Option<&str>) -> Task { let t = format!("https://{}ok.example/{}{}", ["", "d1."][r.below(2)], r.below(100_000), r.pick(&["", "/set"])); Task {exp: cleaned(url::Url::parse(&t).unwrap(), None, j), bytes: t.into_bytes(), arg: false} }

/// Tasks that take far longer than their neighbours, at the head of workers that wait for them.
fn slow(cfg: &Cfg) -> Rec {
    cases_t(cfg, "slow", cfg.n(32, 600), 16, |r, rec| {
        let dir = cfg.scratch.join(format!("s{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        let mut conf = config(None);
        let secs = *r.pick(&[0.3, 0.7, 1.2, 2.5, 2.5, 5.5]);
        let wait = json!({"IgnoreError": {"Retry": {"mapper": {"Error": "not yet"}, "delay": secs, "limit": 2}}});
        conf["rules"].as_array_mut().unwrap().insert(0, json!({"condition": {"PartContains": {"part": "Path", "value": "/slow", "where": "Start"}}, "mapper": wait}));
        std::fs::write(dir.join("config.json"), conf.to_string()).unwrap();
        let threads = *r.pick(&[2, 3, 4, 8, 16]);
        let n = 2 + r.below(3 * threads + 4);
        let first = r.below(n.min(threads)); let more = r.chance(1, 3).then(|| r.below(n));
        let fails = r.chance(1, 3);
        let mut tasks: Vec<Task> = (0..n).map(|i| { let t = format!("https://{}.example/{}{i}", if fails && r.chance(1, 3) {"fail"} else {"ok"}, if i == first || Some(i) == more {"slow/"} else {""}); Task {exp: cleaned(url::Url::parse(&t).unwrap(), None, None), bytes: t.into_bytes(), arg: false} }).collect();
        if r.chance(1, 4) {let k = r.below(n); tasks[k] = Task {bytes: b"not a url".to_vec(), exp: Exp::Make, arg: false};}
        let js = r.chance(1, 2);
        let input: Vec<u8> = tasks.iter().flat_map(|t| t.bytes.iter().copied().chain([b'\n'])).collect();
        let mut c = Command::new(&cfg.cli);
        c.arg("--config").arg(dir.join("config.json")).args(["--threads", &threads.to_string()]);
        if js {c.arg("--json");}
        let got = drive(&mut c, input, Pace {chunk: usize::MAX, pause: 0, drain: None});
        std::fs::remove_dir_all(&dir).ok();
        rec.eval_hash(hash_str(&format!("{threads}{js}{secs}{tasks:?}")));
        rec.count(&format!("runs with tasks of {secs} s"));
        let res = results(js, &got);
        let ok = res.as_ref().is_ok_and(|g| g.len() == n && g.iter().zip(&tasks).all(|(g, t)| agrees(g, &t.exp)));
        if !ok {rec.fail("slow tasks", format!("{n} tasks, the one at {first} of {secs} s, with {threads} threads give {}", cut(&format!("{res:?}"))), json!({"threads": threads, "json": js, "seconds": secs, "tasks": tasks.iter().map(show).collect::<Vec<_>>(), "stdout": String::from_utf8_lossy(&got.out).chars().take(2000).collect::<String>(), "stderr": cut(&got.err), "status": got.code}));}
    })
}
/// Standard inputs that cannot be read, or are not there.
fn inputs(cfg: &Cfg) -> Rec {
    cases(cfg, "inputs", cfg.n(60, 400), |r, rec| {
        let dir = cfg.scratch.join(format!("i{}", rec.case.1));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("config.json"), config(None).to_string()).unwrap();
        let nargs = r.below(5);
        let tasks: Vec<Task> = (0..nargs).map(|_| plain(r, None)).collect();
        let js = r.chance(1, 2);
        let mut c = Command::new(&cfg.cli);
        c.arg("--config").arg(dir.join("config.json")).args(["--threads", ["0", "1", "3", "8"][r.below(4)]]).current_dir(&dir);
        if js {c.arg("--json");}
        let kind = r.below(6);
        // Starting with something that cannot be loaded does nothing at all.
        match kind { 3 => {c.args(["--job-context", "{\"vars\": 1}"]);}, 4 => {c.args(["--params-diff", "missing.json"]);}, 5 => {std::fs::write(dir.join("config.json"), r.pick(&["", "{", "{\"rules\": [\"Nothing\"]}", "[]"])).unwrap();}, _ => {} }
        c.arg("--"); for t in &tasks {c.arg(String::from_utf8(t.bytes.clone()).unwrap());}
        let mut child = c.stdin(match kind { 0 => std::fs::File::open(&dir).unwrap().into(), _ => Stdio::null() }).stdout(std::fs::File::create(dir.join("out")).unwrap()).stderr(std::fs::File::create(dir.join("err")).unwrap()).spawn().unwrap();
        let (code, late) = wait_small(&mut child, &dir);
        let run = Run {out: std::fs::read(dir.join("out")).unwrap_or_default(), err: String::from_utf8_lossy(&std::fs::read(dir.join("err")).unwrap_or_default()).into_owned(), code, late};
        let mut exp: Vec<Exp> = tasks.iter().map(|t| t.exp.clone()).collect();
        let name = ["a directory", "nothing", "nothing", "nothing, and a bad context", "nothing, and missing overrides", "nothing, and a bad configuration"][kind];
        rec.eval_hash(hash_str(&format!("{kind}{js}{tasks:?}")));
        rec.count(&format!("standard input: {name}"));
        let detail = json!({"standard input": name, "json": js, "arguments": nargs, "stdout": cut(&String::from_utf8_lossy(&run.out)), "stderr": cut(&run.err), "status": code});
        std::fs::remove_dir_all(&dir).ok();
        if late {rec.abort = true; rec.fail("no end", format!("with {name} as standard input the program does not end ({} bytes of output)", run.out.len()), detail); return;}
        if kind >= 3 {
            if !run.out.is_empty() || run.err.is_empty() || code != Some(1) {rec.fail("start", format!("with {name} the program prints {:?} and {:?} and ends with {code:?}", cut(&String::from_utf8_lossy(&run.out)), cut(&run.err)), detail);}
            return;
        }
        if kind == 0 {exp.push(Exp::Make);}
        let res = results(js, &run);
        let want = match (nargs > 0, kind == 0) { (_, false) => 0, (false, true) => 1, _ => 2 };
        if !res.as_ref().is_ok_and(|g| g.len() == exp.len() && g.iter().zip(&exp).all(|(g, e)| agrees(g, e))) || code != Some(want) {rec.fail("standard input", format!("with {name} as standard input, the results are {} and the status {code:?}", cut(&format!("{res:?}"))), detail);}
    })
}
/// Waits for an end, a minute, or far too much output.
fn wait_small(c: &mut std::process::Child, dir: &Path) -> (Option<i32>, bool) {
    let t = Instant::now();
    loop {
        match c.try_wait() { Ok(Some(s)) => return (s.code(), false), _ => std::thread::sleep(Duration::from_millis(2)) }
        let len = |n: &str| std::fs::metadata(dir.join(n)).map_or(0, |m| m.len());
        if t.elapsed().as_secs() > 60 || len("out") > 4 << 20 || len("err") > 4 << 20 {let _ = c.kill(); let _ = c.wait(); return (None, true);}
    }
}
/// The library's own iterator over tasks.
fn library(cfg: &Cfg) -> Rec {
    let conf: Config = de(&config(None)).unwrap();
    cases(cfg, "library", cfg.n(400, 20_000), |r, rec| {
        let n = r.below(30);
        let tasks: Vec<Task> = (0..n).map(|i| loop { let t = task(r, i, 3, Some("job")); if !String::from_utf8_lossy(&t.bytes).contains("d3.") && std::str::from_utf8(&t.bytes).is_ok() {break t;} }).collect();
        let texts: Vec<String> = tasks.iter().map(|t| String::from_utf8(t.bytes.clone()).unwrap()).collect();
        let mut job = Job {config: JobConfig {config: Cow::Borrowed(&conf), cache: Default::default()}, context: Cow::Owned(de(&json!({"vars": {"j": "job"}})).unwrap()), task_configs_source: Box::new(texts.into_iter().map(|t| t.parse::<TaskConfig>()))};
        let got: Vec<Got> = job.iter().map(|t| match t { Err(e) => Got::Make(e.to_string()), Ok(t) => match t.r#do() { Ok(u) => Got::Ok(u.to_string()), Err(e) => Got::Do(e.to_string()) } }).collect();
        rec.eval_hash(hash_str(&format!("{tasks:?}")));
        rec.add("tasks given to the library", n as u64);
        let k = got.iter().zip(&tasks).position(|(g, t)| !agrees(g, &t.exp)).or_else(|| (got.len() != n).then_some(got.len().min(n)));
        if let Some(k) = k {rec.fail("library", format!("the library's iterator gives {:?} for task {k} of {n}, {:?}", got.get(k), tasks.get(k).map(show)), json!({"tasks": tasks.iter().map(show).collect::<Vec<_>>(), "results": format!("{got:?}")}));}
    })
}
/// Very many tasks, very long ones, and very many failures.
fn sizes(cfg: &Cfg) -> Rec {
    let failures = cfg.pid == "U02";
    let mut todo: Vec<(&'static str, usize)> = Vec::new();
    if failures { for n in [127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 1000, 1024, 1025, 2048, 4096] {todo.extend([("do", n), ("make", n), ("both", n), ("ok but one", n)]);} for n in [32768, 65535, 65536] {todo.extend([("do", n), ("make", n)]); if cfg.thorough {todo.extend([("both", n), ("ok but one", n)]);}} }
    else { for n in [1023, 1024, 1025, 4096, 10_000, 16_384, 32_768, 65_537] {todo.push(("ok but one", n));} for n in [200, 1000, 1024, 4000] {todo.push(("arguments", n));} }
    for n in [1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100_000, 131_072, 262_144, 262_145, 1 << 20, (1 << 20) + 1, 3 << 20] {todo.push(("long", n));}
    todo.sort_by_key(|x| std::cmp::Reverse(x.1));
    cases_idx(cfg, "sizes", todo.len() as u64, |i, rec| {
        let (kind, n) = todo[i as usize];
        let dir = cfg.scratch.join(format!("z{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("config.json"), config(None).to_string()).unwrap();
        let ok = |text: &str| Task {bytes: text.as_bytes().to_vec(), exp: cleaned(url::Url::parse(text).unwrap(), None, None), arg: false};
        let good = |i: usize| ok(&format!("https://ok.example/{i}"));
        let fails = |i: usize| if kind == "make" || kind == "both" && i % 2 == 0 {Task {bytes: format!("no url {i}").into_bytes(), exp: Exp::Make, arg: false}} else {ok(&format!("https://fail.example/{i}"))};
        let mixes: Vec<Vec<Task>> = match kind {
            "ok but one" => vec![(0..n).map(|i| if failures && i == n / 2 {fails(i)} else {good(i)}).collect()],
            "arguments" => vec![(0..n).map(|i| Task {arg: true, ..good(i)}).collect()],
            "long" => {
                let t: String = (0..).map(|i| format!("/{i}")).scan(0, |l, x| {let more = *l < n; *l += x.len(); more.then_some(x)}).collect();
                let t = format!("https://ok.example{t}"); let t = &t[..n]; let (bad, x) = ("z".repeat(n), "v".repeat(n));
                let with = json!({"url": t, "context": {"vars": {"x": x}}}).to_string();
                vec![vec![good(0), ok(t), good(1), Task {bytes: bad.into_bytes(), exp: Exp::Make, arg: false}, good(2), ok(&t.replace("//ok", "//fail")), Task {bytes: json!(t).to_string().into_bytes(), ..ok(t)}, Task {bytes: with.into_bytes(), exp: cleaned(url::Url::parse(t).unwrap(), Some(&x), None), arg: false}, good(3)]]
            },
            _ => vec![(0..n).map(fails).collect(), (0..n).map(fails).chain([good(n)]).collect()]
        };
        for (mix, tasks) in mixes.iter().enumerate() { for js in [false, true] {
            let threads = [1, 3, 8, 2][(i as usize + mix + js as usize) % 4];
            let mut c = Command::new(&cfg.cli);
            c.arg("--config").arg(dir.join("config.json")).args(["--threads", &threads.to_string()]);
            if js {c.arg("--json");}
            c.arg("--"); for t in tasks.iter().filter(|t| t.arg) {c.arg(String::from_utf8(t.bytes.clone()).unwrap());}
            let input: Vec<u8> = tasks.iter().filter(|t| !t.arg).flat_map(|t| t.bytes.iter().copied().chain([b'\n'])).collect();
            let got = drive(&mut c, input, Pace {chunk: usize::MAX, pause: 0, drain: None});
            rec.eval_hash(hash_str(&format!("{kind}{n}{mix}{js}"))); rec.count(&format!("sizes: {kind}")); rec.add("results compared", tasks.len() as u64);
            let res = results(js, &got);
            let (good, bad) = (tasks.iter().filter(|t| matches!(t.exp, Exp::Ok(_))).count(), tasks.iter().filter(|t| !matches!(t.exp, Exp::Ok(_))).count());
            let want = match (good, bad) { (_, 0) => 0, (0, _) => 1, _ => 2 };
            let detail = json!({"kind": kind, "n": n, "json": js, "threads": threads, "status": got.code, "stdout": cut(&String::from_utf8_lossy(&got.out)), "stderr": cut(&got.err)});
            let how = match &res {
                _ if got.late => "no end".to_string(), Err(e) => e.clone(),
                Ok(g) if g.len() != tasks.len() => format!("{} results", g.len()),
                Ok(g) => match g.iter().zip(tasks).position(|(g, t)| !agrees(g, &t.exp)) { Some(k) => format!("for task {k}, {:?}, {:?} rather than {:?}", show(&tasks[k]), cut(&format!("{:?}", g[k])), cut(&format!("{:?}", tasks[k].exp))), None if got.code != Some(want) => format!("the exit status {:?} rather than {want}", got.code), None => continue }
            };
            rec.fail(format!("sizes: {kind}"), format!("{kind}, {n}: {good} good and {bad} failing tasks with {threads} threads give {how}"), detail);
        } }
        std::fs::remove_dir_all(&dir).ok();
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let _ = PathBuf::new();
    let mut rec = batches(cfg);
    rec.merge(sizes(cfg));
    rec.merge(library(cfg));
    rec.merge(slow(cfg));
    if cfg.pid == "U02" {rec.merge(inputs(cfg));}
    finish(cfg, rec, "exploration", "runs of the program over random mixtures of tasks (texts, JSON, contexts, malformed, failing, slow; arguments and input lines fed in pieces; 1 to 64 threads; both output forms; slow readers), every printed result compared with its own task's; distinct = runs, and orders in which tasks really ended",
        vec!["a run that is not over in 100 s counts as hanging", "thread schedules are varied by delays inside tasks, by the pace of input and output and by the number of threads, not enumerated"])
}
