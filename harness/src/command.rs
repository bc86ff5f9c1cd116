//! U28: external commands. The command run is this program itself, recording what it was given and
//! behaving as told.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;
use serde_json::{json, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::real::de;
use crate::rng::{hash_str, Rng};

fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| b"0123456789abcdef\n"[i % 17]).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
/// mon child RECORD-DIRECTORY SCRIPT ARGUMENT...
/// The script: {"steps": [{"read": n | null} | {"write": n} | {"text": s} | {"bytes": [..]} | {"close": true} | {"sleep": ms}], "exit": code | "signal": n}
pub fn child(a: &[std::ffi::OsString]) -> i32 {
    use std::os::unix::ffi::OsStrExt;
    // SAFETY: plain libc calls.
    unsafe {libc::alarm(100);}
    let script: Value = serde_json::from_slice(a[2].as_bytes()).unwrap();
    let mut got = Vec::new();
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    let file = PathBuf::from(&a[1]).join(format!("run.{}", std::process::id()));
    let record = |got: &[u8], done: bool| {
        let v = json!({"args": a[3..].iter().map(|x| hex(x.as_bytes())).collect::<Vec<_>>(), "env": std::env::vars_os().map(|(k, v)| (hex(k.as_bytes()), hex(v.as_bytes()))).collect::<BTreeMap<_, _>>(),
            "cwd": std::env::current_dir().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default(), "stdin": hex(&got[..got.len().min(200)]), "stdin length": got.len(), "stdin hash": hash_str(&hex(got)).to_string(), "done": done});
        let t = PathBuf::from(&a[1]).join(format!("new.{}", std::process::id())); std::fs::write(&t, v.to_string()).unwrap(); std::fs::rename(&t, &file).unwrap();
    };
    record(&got, false);
    for s in script["steps"].as_array().unwrap() {
        if let Some(n) = s.get("read") { match n.as_u64() { None => {let _ = i.read_to_end(&mut got);}, Some(n) => {let mut b = vec![0; n as usize]; let mut k = 0; while k < b.len() { match i.read(&mut b[k..]) { Ok(0) | Err(_) => break, Ok(m) => k += m } } got.extend_from_slice(&b[..k]);} } }
        if let Some(n) = s["write"].as_u64() { if o.write_all(&pattern(n as usize)).and_then(|()| o.flush()).is_err() {return 99;} }
        if let Some(t) = s["text"].as_str() { let _ = o.write_all(t.as_bytes()).and_then(|()| o.flush()); }
        if let Some(b) = s["bytes"].as_array() { let b: Vec<u8> = b.iter().map(|x| x.as_u64().unwrap() as u8).collect(); let _ = o.write_all(&b).and_then(|()| o.flush()); }
        if let Some(t) = s["err"].as_u64() { let _ = std::io::stderr().write_all(&pattern(t as usize)); }
        if s["close"] == json!(true) { unsafe {libc::close(0);} } // SAFETY: nothing else uses the descriptor.
        if let Some(ms) = s["sleep"].as_u64() {std::thread::sleep(Duration::from_millis(ms));}
    }
    record(&got, true);
    if let Some(n) = script["signal"].as_i64() { unsafe {libc::signal(n as i32, libc::SIG_DFL); libc::kill(libc::getpid(), n as i32); libc::pause();} } // SAFETY: plain libc calls, to ourselves.
    script["exit"].as_i64().unwrap_or(0) as i32
}
fn me() -> String { std::env::current_exe().unwrap().to_string_lossy().into_owned() }
fn runs(d: &Path) -> Vec<Value> { let mut v: Vec<Value> = std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).filter(|e| e.file_name().to_string_lossy().starts_with("run.")).filter_map(|e| serde_json::from_str(&std::fs::read_to_string(e.path()).ok()?).ok()).collect()).unwrap_or_default(); v.sort_by_key(|x| x["pid"].to_string()); v }

const ARGS: &[&str] = &["", "a", "--flag", "-", "a b", "\"q\"", "'", "$HOME", "*", "é\u{1F600}", "line\nbreak", "\\", "&& echo", "=", "{}", "ends\n", "\n", "\r\n", " ", " both ", "\ttab\t", "--", "-x=1 2", "%20", "ß\u{feff}", "a\\", "\"", "~", "$(x)", "NaN"];
/// Any text that can be an argument.
fn anything(r: &mut Rng) -> String { if r.chance(1, 2) {r.pick(ARGS).to_string()} else { let w = crate::make::word(r).replace('\0', ""); match r.below(6) { 0 => format!("{w}\n"), 1 => format!(" {w}"), 2 => format!("{w}{w}"), _ => w } } }
fn source(r: &mut Rng, v: &str) -> Value { match r.below(4) { 0 => json!({"NoneTo": {"value": {"Var": "unset"}, "if_none": v}}), 1 => json!({"Join": {"sources": ["", v]}}), _ => json!(v) } }
fn nothing(r: &mut Rng) -> Value { if r.chance(1, 2) {Value::Null} else {json!({"Var": "unset"})} }

fn commands(cfg: &Cfg) -> Rec {
    cases(cfg, "commands", cfg.n(6000, 120_000), |r, rec| {
        let dir = cfg.scratch.join(format!("c{}", rec.case.1));
        std::fs::create_dir_all(dir.join("rec")).unwrap();
        let big = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(100), 3 => 65536, 4 => 65537 + r.below(3), _ => if r.chance(1, 30) {1_048_575 + r.below(2_000_000)} else {60_000 + r.below(400_000)} };
        // What the command does.
        let mut steps = Vec::new(); let mut out: Vec<u8> = Vec::new(); let mut reads: Vec<Option<usize>> = Vec::new(); let mut closed = false;
        for _ in 0..r.below(4) {
            match r.below(8) {
                0 | 1 => {let n = big(r); steps.push(json!({"write": n})); out.extend(pattern(n));}, 2 => {let s = *r.pick(&["https://out.example/\r\n", "é", "", "x\n", "\0", "\u{feff}", "\u{feff}https://bom.example/", " ", "\t x \n\n", "\r", "\u{1b}[0m", "\u{85}", "\u{a0}", "\\n", "\"q\"", "%41"]); steps.push(json!({"text": s})); out.extend_from_slice(s.as_bytes());},
                3 if !closed => {steps.push(json!({"read": null})); reads.push(None);}, 4 if !closed => {let n = r.below(80_000); steps.push(json!({"read": n})); reads.push(Some(n));}, 5 => {steps.push(json!({"close": true})); closed = true;},
                6 => {let n = r.below(90_000); steps.push(json!({"err": n}));}, _ => if r.chance(1, 4) {steps.push(json!({"bytes": [0xff, 0x41]})); out.extend_from_slice(&[0xff, 0x41]);}
            }
        }
        if r.chance(1, 2) && !closed {steps.push(json!({"read": null})); reads.push(None);}
        if r.chance(1, 3) {steps.insert(0, json!({"write": 70_000})); out.splice(0..0, pattern(70_000));}
        let how = r.below(8);
        // Asking for an exit code leaves the command's output to the terminal.
        if how == 0 {steps.retain(|s| s.get("read").is_some() || s.get("close").is_some()); out.clear();}
        let signal = r.chance(1, 8).then(|| [9, 15, 6, 11][r.below(4)]);
        let exit = if r.chance(1, 2) {0} else {r.below(256)};
        let mut script = json!({"steps": steps, "exit": exit});
        if let Some(s) = signal {script["signal"] = json!(s);}
        // What it is given.
        let mut args: Vec<String> = (0..if r.chance(1, 12) {*r.pick(&[8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000])} else {r.below(5)}).map(|_| anything(r)).collect();
        if r.chance(1, 20) {args.push("x".repeat(*r.pick(&[255, 256, 1024, 4096, 4097, 32_768, 60_000, 65_536, 100_000])));}
        let stdin: Option<Vec<u8>> = if r.chance(2, 3) {let n = big(r); Some(if r.chance(1, 4) {"né\n\0".repeat(n / 5).into_bytes()} else {pattern(n)})} else {None};
        let mut envs: Vec<(&str, Option<String>)> = Vec::new();
        for (k, v) in [("UCM_A", "over é"), ("UCM_NEW", "n=1;2"), ("UCM_EMPTY", ""), ("PATH", "/nowhere"), ("UCM_B", "x\ny"), ("ucm_a", "?"), ("HOME", "/h\n")] { if r.chance(1, 4) {let v = if r.chance(1, 30) {"v".repeat(*r.pick(&[255, 256, 4096, 32_768, 100_000]))} else if r.chance(1, 2) {anything(r)} else {v.to_string()}; envs.push((k, (!r.chance(1, 4)).then_some(v)));} }
        let more: Vec<String> = if r.chance(1, 20) {(0..*r.pick(&[15, 16, 17, 32, 64, 65, 128, 300])).map(|i| format!("UCM_MORE{i}")).collect()} else {vec![]};
        for k in &more {envs.push((k, Some(anything(r))));}
        let cwd = r.chance(1, 3).then(|| dir.join("wörk dir"));
        if let Some(c) = &cwd {std::fs::create_dir_all(c).unwrap();}
        let mut c = json!({"program": me(), "args": ["child", dir.join("rec").to_string_lossy(), script.to_string()]});
        // Faults of the configuration.
        let fault = if r.chance(1, 8) {1 + r.below(8)} else {0};
        for a in &args {let v = source(r, a); c["args"].as_array_mut().unwrap().push(v);}
        if let Some(s) = &stdin {c["stdin"] = source(r, std::str::from_utf8(s).unwrap());}
        for (k, v) in &envs {c["envs"][k] = match v {Some(v) => source(r, v), None => nothing(r)};}
        if let Some(d) = &cwd {c["current_dir"] = json!(d.to_string_lossy());}
        match fault {
            1 => c["program"] = json!(dir.join("missing").to_string_lossy()), 2 => c["program"] = json!(dir.to_string_lossy()), 3 => {std::fs::write(dir.join("plain"), "x").unwrap(); c["program"] = json!(dir.join("plain").to_string_lossy());},
            4 => c["args"].as_array_mut().unwrap().push(nothing(r)), 5 => c["args"].as_array_mut().unwrap().push(json!("a\0b")), 6 => c["stdin"] = nothing_some(r), 7 => c["current_dir"] = json!(dir.join("missing dir").to_string_lossy()), 8 => c["envs"]["UCM_Z"] = json!("a\0b"), _ => {}
        }
        let conf: CommandConfig = match de(&c) { Ok(x) => x, Err(e) => {rec.fail("cannot be loaded", format!("a command cannot be loaded: {e}"), c); return;} };
        let exists = guarded(|| conf.exists());
        let (tx, rx) = std::sync::mpsc::channel();
        let (conf2, c2) = (conf.clone(), c.clone());
        std::thread::spawn(move || {
            let mut url = BetterUrl::parse("https://example.com/").unwrap();
            let (mut pad, ctx, job, params, commons, cache) = (JobScratchpad::default(), TaskContext::default(), JobContext::default(), Params::default(), Commons::default(), Cache::default());
            let st = TaskState {url: &mut url, scratchpad: &mut pad, common_args: None, context: &ctx, job_context: &job, params: &params, commons: &commons, cache: &cache};
            let v = st.to_view();
            let x = guarded(|| match how { 0 => conf2.exit_code(&v).map(|x| x.to_string().into_bytes()).map_err(|e| e.to_string()), 1 => conf2.get_url(&v).map(|x| x.to_string().into_bytes()).map_err(|e| e.to_string()),
                2..=4 => conf2.output(&v).map(String::into_bytes).map_err(|e| e.to_string()), _ => de::<StringSource>(&json!({"CommandOutput": c2})).unwrap().get(&v).map(|x| x.unwrap().into_owned().into_bytes()).map_err(|e| e.to_string()) });
            let _ = tx.send(x);
        });
        let got = rx.recv_timeout(Duration::from_secs(60));
        let seen = runs(&dir.join("rec"));
        let cut = |s: &[u8]| String::from_utf8_lossy(s).chars().take(80).collect::<String>();
        let mut cj = c.clone(); if let Some(a) = cj["args"].as_array_mut() {for x in a {if x.as_str().is_some_and(|x| x.len() > 2000) {*x = json!("(long)");}}}
        if cj["stdin"].to_string().len() > 2000 {cj["stdin"] = json!(format!("({} bytes)", stdin.as_ref().map_or(0, Vec::len)));}
        let detail = json!({"command": cj, "asked for": (["exit code", "URL", "output", "output", "output", "string source", "string source", "string source"][how]), "input bytes": stdin.as_ref().map(Vec::len), "recorded": seen.iter().map(|x| {let mut x = x.clone(); x["env"] = json!("..."); x}).collect::<Vec<_>>()});
        macro_rules! bad { ($sig:expr, $($x:tt)*) => {{ rec.fail($sig, format!($($x)*), detail.clone()); std::fs::remove_dir_all(&dir).ok(); return; }} }
        rec.eval_hash(hash_str(&c.to_string()));
        rec.sample(|| detail.clone());
        if r.chance(1, 10) { for (name, there) in [("sh", true), ("cat", true), ("no such program é", false), ("/bin/sh", true), ("/bin/no such", false), ("sh ", false)] { let x = de::<CommandConfig>(&json!(name)).map(|c| guarded(|| c.exists())); if x != Ok(Ok(there)) {bad!("exists", "{name:?} is said to exist: {x:?}");} } }
        if exists != Ok(!matches!(fault, 1)) {bad!("exists", "the program is said to exist: {exists:?}");}
        let got = match got { Err(_) => { rec.abort = true; bad!("hang", "the command was not over after a minute ({:?} bytes of input, {} of output)", stdin.as_ref().map(Vec::len), out.len()) }, Ok(Err(p)) => bad!("panic", "panic: {p}"), Ok(Ok(x)) => x };
        if fault != 0 {
            rec.count("commands that cannot be run");
            if !seen.is_empty() {bad!("run all the same", "a command that cannot be run (fault {fault}) was run");}
            if got.is_ok() {bad!("no error", "a command that cannot be run (fault {fault}) gives {:?}", got.map(|x| cut(&x)));}
            std::fs::remove_dir_all(&dir).ok();
            return;
        }
        if seen.len() != 1 {bad!("runs", "the command was run {} times", seen.len());}
        let s = &seen[0];
        let want_args: Vec<String> = args.iter().map(|x| hex(x.as_bytes())).collect();
        if s["args"] != json!(want_args) {bad!("arguments", "the arguments are {} rather than {args:?}", s["args"]);}
        use std::os::unix::ffi::OsStrExt;
        let mut env: BTreeMap<String, String> = std::env::vars_os().map(|(k, v)| (hex(k.as_bytes()), hex(v.as_bytes()))).collect();
        for (k, v) in &envs { if let Some(v) = v {env.insert(hex(k.as_bytes()), hex(v.as_bytes()));} }
        if s["env"] != json!(env) {bad!("environment", "the environment is not this program's with {envs:?} set");}
        let want_cwd = cwd.clone().unwrap_or_else(|| std::env::current_dir().unwrap());
        if s["cwd"] != json!(want_cwd.to_string_lossy()) {bad!("directory", "the directory is {} rather than {want_cwd:?}", s["cwd"]);}
        if s["done"] != json!(true) {bad!("cut short", "the command did not get to do all it does");}
        let input = stdin.clone().unwrap_or_default();
        let n = reads.iter().fold(0usize, |a, x| x.map_or(input.len(), |x| (a + x).min(input.len())));
        if s["stdin length"] != json!(n) || s["stdin hash"] != json!(hash_str(&hex(&input[..n])).to_string()) {bad!("input", "the command read {} bytes of input rather than the {n} it was to read", s["stdin length"]);}
        rec.add("bytes of input passed", n as u64); rec.add("bytes of output passed", out.len() as u64);
        if n < input.len() {rec.count("commands that ignored some input");}
        if out.len() > 65536 && input.len() > 65536 {rec.count("commands with more than a pipe's worth both ways");}
        let expect: Result<Vec<u8>, ()> = match how {
            0 => {rec.count("exit codes"); if signal.is_some() {Err(())} else {Ok(exit.to_string().into_bytes())}},
            1 => std::str::from_utf8(&out).ok().and_then(|x| url::Url::parse(x.trim_end_matches(['\r', '\n'])).ok()).map(|x| x.to_string().into_bytes()).ok_or(()),
            _ => if std::str::from_utf8(&out).is_ok() {Ok(out.clone())} else {Err(())},
        };
        if got.clone().map_err(|_| ()) != expect {bad!(["result: exit code", "result: URL", "result: output"][how.min(2)], "the result is {:?} ({:?} bytes) rather than {:?} ({:?} bytes)", got.as_ref().map(|x| cut(x)), got.as_ref().map(Vec::len), expect.as_ref().map(|x| cut(x)), expect.as_ref().map(Vec::len));}
        rec.count(if expect.is_ok() {"results compared"} else {"errors expected"});
        std::fs::remove_dir_all(&dir).ok();
    })
}
fn nothing_some(r: &mut Rng) -> Value { if r.chance(1, 2) {json!({"Var": "unset"})} else {json!({"NoneTo": {"value": {"Var": "unset"}, "if_none": {"Var": "unset"}}})} }

/// Commands run by the program for each of its tasks: none of them may take, or write among, the tasks.
fn tasks(cfg: &Cfg) -> Rec {
    cases(cfg, "tasks", cfg.n(60, 1500), |r, rec| {
        let dir = cfg.scratch.join(format!("t{}", rec.case.1));
        std::fs::create_dir_all(dir.join("rec")).unwrap();
        let own = r.chance(1, 2);
        let mut steps = vec![json!({"text": "v"})];
        if r.chance(2, 3) {steps.push(json!({"read": null}));}
        if r.chance(1, 3) {steps.push(json!({"err": 500}));}
        let mut c = json!({"program": me(), "args": ["child", dir.join("rec").to_string_lossy(), json!({"steps": steps}).to_string(), {"Part": "Path"}]});
        if own {c["stdin"] = json!("own input\n");}
        std::fs::write(dir.join("config.json"), json!({"docs": {"name": "c"}, "cache_path": ":memory:", "params": {}, "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"CommandOutput": c}}}}]}).to_string()).unwrap();
        let lines: Vec<String> = (0..1 + r.below(12)).map(|i| format!("https://e.com/{i}")).collect();
        let mut p = Command::new(&cfg.cli).args(["--config".as_ref(), dir.join("config.json").as_os_str()]).args(["--threads", ["0", "1", "3"][r.below(3)]]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let mut i = p.stdin.take().unwrap();
        let (text, late) = (lines.join("\n"), r.chance(1, 2));
        let w = std::thread::spawn(move || { for l in text.split_inclusive('\n') {let _ = i.write_all(l.as_bytes()); if late {std::thread::sleep(Duration::from_millis(3));}} });
        let o = p.wait_with_output().unwrap();
        w.join().unwrap();
        let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
        let want: Vec<String> = lines.iter().map(|x| format!("{x}#v")).collect();
        let seen = runs(&dir.join("rec"));
        rec.eval_hash(hash_str(&format!("{c}{lines:?}{late}")));
        rec.add("tasks run by the program", lines.len() as u64);
        let err = String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>();
        let detail = json!({"command": c, "lines": lines, "output": got, "stderr": err});
        if got != want || !o.status.success() {rec.fail("tasks: results", format!("{} tasks running a command give {got:?} (status {:?}): {err}", lines.len(), o.status.code()), detail);}
        else if !o.stderr.is_empty() {rec.fail("tasks: error output", format!("what a command writes to its standard error comes out of the program: {err}"), detail);}
        else if seen.len() != lines.len() {rec.fail("tasks: runs", format!("{} tasks ran the command {} times", lines.len(), seen.len()), detail);}
        else if let Some(x) = seen.iter().find(|x| x["stdin length"].as_u64() != Some(if own && steps.len() > 1 && steps[1].get("read").is_some() {10} else {0})) {rec.fail("tasks: input", format!("a task's command read {} bytes of input", x["stdin length"]), detail);}
        std::fs::remove_dir_all(&dir).ok();
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = commands(cfg);
    rec.merge(tasks(cfg));
    finish(cfg, rec, "exploration", "commands with random arguments, environments, directories, inputs and outputs of up to hundreds of kilobytes, faults and deaths, each run of a recording child compared with what was configured and its result with what the child did; distinct = command configurations",
        vec!["a command that does not end in a minute counts as hanging", "a command's output is its result whatever its exit status, as documented"])
}
