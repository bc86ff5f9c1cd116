//! U03, U21, U22 and U23: what the shipped rules make of links, offline, with the network refused, and with scripted answers.
use std::borrow::Cow;
use std::collections::BTreeSet;
use serde_json::{json, Value};
use url::Url;
use url_cleaner::types::*;
use crate::core::*;
use crate::dconf::{self, D};
use crate::http::Srv;
use crate::make;
use crate::model::{self, decode_pairs, host_facts};
use crate::real::de;
use crate::rng::{hash_str, Rng};

pub type Res = Result<String, String>;
pub struct Base { pub conf: Config, pub d: D }
impl Base {
    pub fn load(cfg: &Cfg) -> Base {
        crate::net::refuse();
        let d = D::load(&cfg.repo);
        let conf: Config = de(&d.conf).expect("the shipped configuration loads");
        Base {conf, d}
    }
    pub fn with(&self, diff: &Value) -> Config {
        let mut c = self.conf.clone();
        let mut x = diff.clone();
        if let Some(f) = x["flags"].as_array() { let mut f = f.clone(); f.sort_by_key(|x| x.to_string()); f.dedup(); x["flags"] = json!(f); }
        x["read_cache"] = json!(false); x["write_cache"] = json!(false);
        de::<ParamsDiff>(&x).expect("a diff").apply(&mut c.params);
        c
    }
}
fn clean(conf: &Config, t: TaskConfig, job: &JobContext) -> Res {
    match guarded(|| {
        let jc = JobConfig {config: Cow::Borrowed(conf), cache: Default::default()};
        jc.new_task(t, job).r#do().map(|u| u.to_string()).map_err(|e| format!("{e:?}").chars().take(200).collect::<String>())
    }) { Ok(x) => x, Err(p) => Err(format!("panic: {p}")) }
}
pub fn clean_json(conf: &Config, t: &Value, job: &JobContext) -> Res { match de::<TaskConfig>(t) { Ok(t) => clean(conf, t, job), Err(e) => Err(format!("not a task: {e}")) } }
fn web(u: &str) -> bool { ["http:", "https:", "ws:", "wss:", "ftp:"].iter().any(|s| u.starts_with(s)) }
/// How a link came out, for counting what was seen.
fn shape(d: &D, link: &str, x: &Res) -> String {
    let h = Url::parse(link).ok().and_then(|u| host_facts(&u).domain).unwrap_or_default();
    let h = h.strip_prefix("www.").unwrap_or(&h);
    let k = if d.hosts.binary_search_by(|x| (**x).cmp(h)).is_ok() {h} else {"other"};
    format!("{k} {}", match x { Ok(u) if u == link => "unchanged".into(), Ok(_) => "changed".into(), Err(e) => e.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() })
}

// ---- U03 ----

/// What a failed or hostile page may look like.
fn page(r: &mut Rng, d: &D) -> Vec<u8> {
    const BITS: &[&str] = &["<a id=\"download\" href=\"", "href=\"", "window.location = \"", "value=\"", "\"/>", "\"", "replace(", ")", "let url = \"", "destination = ", ";\n", "\"originalUrl\":\"", "\\/", "{\"url\":\"", "{\"result\":", "null", "\\u", "\\x4", "\\u{110000}", "\\", "'", "<", "&amp", "&#x110000;", "é", "\u{0}", "{", "}", "[", "1e999", "http:\\/\\/example.com\\/", "\n"];
    let mut s = Vec::new();
    let n = r.below(12);
    for _ in 0..n { match r.below(4) { 0 => s.extend(d.target(r).as_bytes()), 1 if r.chance(1, 8) => s.extend([0xff, 0xc3, 0x28]), _ => s.extend(r.pick(BITS).as_bytes()) } }
    s
}
fn answer(r: &mut Rng, d: &D) -> Vec<u8> {
    if r.chance(1, 12) {return Vec::new();}
    if r.chance(1, 15) {return page(r, d);}
    let code = *r.pick(&[200, 200, 200, 301, 302, 303, 307, 308, 304, 404, 500, 204, 600]);
    let mut o = format!("HTTP/1.1 {code} x\r\nConnection: close\r\n").into_bytes();
    if r.chance(2, 3) { let mut t = match r.below(6) { 0 => "/relative".into(), 1 => "//".into(), 2 => "http://[".into(), 3 => "\u{e9}\u{0}".replace('\0', ""), _ => d.target(r) }; t.retain(|c| c != '\r' && c != '\n'); o.extend(format!("Location: {t}\r\n").as_bytes()); }
    if r.chance(1, 10) {o.extend(b"Content-Encoding: gzip\r\n");}
    let b = page(r, d);
    if r.chance(9, 10) {o.extend(format!("Content-Length: {}\r\n", b.len() + if r.chance(1, 20) {7} else {0}).as_bytes());}
    o.extend(b"\r\n"); o.extend(b); o
}
fn long(r: &mut Rng, d: &D) -> String {
    let h = d.host(r); let n = *r.pick(&[300usize, 2000, 20_000]);
    match r.below(9) {
        0 => format!("https://{h}/{}", "a/".repeat(n)), 1 => format!("https://{h}/?{}", "utm_x=1&a=2&".repeat(n / 4)), 2 => format!("https://{h}/#{}", "utm_x=1&".repeat(n / 2)), 3 => format!("https://{}{h}/", "m.".repeat(n.min(100))),
        // Links inside links, as deep as they go.
        4 => { let mut s = d.target(r); for _ in 0..(n / 20).min(400) {s = format!("https://{}/?{s}", r.pick(&["href.li", "www.href.li"]));} s },
        5 => { let mut s = "https://example.com/".to_string(); for _ in 0..7 { s = format!("https://{}{}", r.pick(&["l.instagram.com/?u=", "out.reddit.com/?url=", "t.umblr.com/?z=", "youtube.com/redirect?q=", "google.com/url?q=", "vk.com/away.php?to=", "www.google.de/url?q=", "deviantart.com/users/outgoing?", "l.threads.com/?u="]), dconf::enc(&s)); } s },
        6 => format!("https://urldefense.com/v3/__{};!!{}", d.target(r), "a".repeat(n)), 7 => format!("https://{h}/{}", "%".repeat(n)), _ => format!("https://{h}/{}?{}", make::word(r).repeat(n / 10), d.query(r, 200))
    }
}
/// Text that stands where a task should be.
fn raw(r: &mut Rng, d: &D) -> String {
    let l = d.link(r, 2);
    match r.below(10) {
        0 => make::word(r), 1 => make::url_text(r), 2 => json!({"url": l, "context": d.context(r).0}).to_string(), 3 => format!("\"{l}\""), 4 => format!(" {l}\t"), 5 => l.chars().rev().collect(),
        6 => { let s = json!({"url": l, "context": d.context(r).0}).to_string(); let n = r.below(s.len() + 1); s.chars().take(n).collect() }, 7 => format!("{}{}", "{\"url\":".repeat(r.below(200)), l), 8 => { let mut c: Vec<char> = l.chars().collect(); for _ in 0..3 {let i = r.below(c.len() + 1); c.insert(i, *r.pick(&['\u{0}', '[', ']', '@', ':', '\\', '\u{202e}', '\u{ad}', '%', '.', '/']));} c.into_iter().collect() }, _ => l
    }
}
fn judge_end(rec: &mut Rec, d: &D, link: &str, how: &str, x: &Res, detail: impl Fn() -> Value) {
    rec.eval_hash(hash_str(&format!("{how} {}", shape(d, link, x))));
    match x {
        Err(p) if p.starts_with("panic") => { let place = panic_place(p.strip_prefix("panic: ").unwrap_or(p)); rec.fail(format!("panic in {place}"), format!("cleaning {} ends with a {p}", link.chars().take(300).collect::<String>()), detail()) },
        Err(e) => {rec.count("ended with an ordinary error"); if e.starts_with("not a task") {rec.count("not a task");}},
        Ok(u) => {
            rec.count("ended with a URL");
            if web(u) { match Url::parse(u) {
                Ok(v) if v.as_str() == u => {},
                v => rec.fail("result", format!("cleaning {} gives {u}, which parses to {v:?}", link.chars().take(300).collect::<String>()), detail())
            } }
        }
    }
}
fn u03(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg);
    let d = &b.d;
    let mut all = cases(cfg, "links", cfg.n(2500, 120_000), |r, rec| {
        let offline = r.chance(1, 2);
        let diff = d.params(r, offline); let conf = b.with(&diff);
        let (_, job) = d.context(r); let jc: JobContext = de(&job).unwrap();
        for _ in 0..12 {
            let (t, _) = d.context(r);
            let task = if r.chance(1, 4) {None} else {Some(json!({"url": d.link(r, 2), "context": t}))};
            let (link, x) = match &task { Some(t) => (t["url"].as_str().unwrap().to_string(), clean_json(&conf, t, &jc)), None => {let s = raw(r, d); let x = match guarded(|| s.parse::<TaskConfig>()) { Ok(Ok(t)) => clean(&conf, t, &jc), Ok(Err(e)) => Err(format!("not a task: {e:?}")), Err(p) => Err(format!("panic: {p}")) }; (s, x)} };
            judge_end(rec, d, &link, if offline {"no-network"} else {"refused"}, &x, || json!({"link": link, "task": task, "params": diff, "job": job, "result": x}));
        }
        rec.count(if offline {"batches under no-network"} else {"batches with every connection refused"});
    });
    // Every link in the project's own tests under each flag alone, and every host the configuration mentions.
    let flags: Vec<Option<&String>> = std::iter::once(None).chain(d.flags.iter().map(Some)).collect();
    let n = (d.links.len() + d.hosts.len()) as u64;
    all.merge(cases_idx(cfg, "every host", n, |i, rec| {
        let i = i as usize;
        for f in &flags {
            let fl: Vec<&str> = std::iter::once("no-network").chain(f.map(|x| &**x)).collect();
            let diff = json!({"flags": fl}); let conf = b.with(&diff);
            let links: Vec<String> = if i < d.links.len() {vec![d.links[i].clone()]} else {let h = &d.hosts[i - d.links.len()]; ["", "/", "/a", "/a/b/c?x=y#z", "//", "/?", "/?a"].iter().flat_map(|p| [format!("https://{h}{p}"), format!("http://www.{h}.{p}")]).collect()};
            for l in links { let x = clean_json(&conf, &json!(l), &JobContext::default()); judge_end(rec, d, &l, "every", &x, || json!({"link": l, "params": diff, "result": x})); }
        }
    }));
    all.merge(cases(cfg, "long", cfg.n(160, 4000), |r, rec| {
        let diff = d.params(r, true); let conf = b.with(&diff);
        let l = long(r, d);
        let x = clean_json(&conf, &json!(l), &JobContext::default());
        rec.count("long or deeply nested inputs");
        judge_end(rec, d, &l, "long", &x, || json!({"link": l.chars().take(2000).collect::<String>(), "length": l.len(), "params": diff, "result": x}));
    }));
    all.merge(served(cfg, &b, cfg.n(400, 15_000), false));
    all
}
/// With a proxy that answers every request, from hostile to plausible.
fn served(cfg: &Cfg, b: &Base, n: u64, judge_hosts: bool) -> Rec {
    let d = &b.d;
    let named = Named::of(d);
    let srvs: Vec<std::sync::Mutex<Srv>> = (0..8).map(|_| std::sync::Mutex::new(Srv::start(|_| Vec::new()))).collect();
    for s in &srvs {crate::net::allow(s.lock().unwrap().port);}
    cases_t(cfg, "served", n, 8, |r, rec| {
        let Some(s) = srvs.iter().find_map(|s| s.try_lock().ok()) else {return};
        let answers: Vec<Vec<u8>> = (0..6).map(|_| answer(r, d)).collect();
        let a2 = answers.clone(); let next = std::sync::atomic::AtomicUsize::new(0);
        s.reset(move |_| a2[next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) % a2.len()].clone());
        let mut diff = d.params(r, false);
        if let Some(f) = diff["flags"].as_array_mut() { if !f.iter().any(|x| x == "no-https-upgrade") {f.push(json!("no-https-upgrade"));} }
        let mut conf = b.with(&diff);
        conf.params.http_client_config.proxies = vec![de(&json!(format!("http://127.0.0.1:{}/", s.port))).unwrap()];
        let (_, job) = d.context(r); let jc: JobContext = de(&job).unwrap();
        for _ in 0..3 {
            let (t, _) = d.context(r);
            let l = if r.chance(1, 2) {format!("http://{}{}", r.pick(&named.all), if r.chance(1, 2) {d.path(r)} else {(*r.pick(&["/abc", "/r.cfm", "/s/abc", "/link/out", "/share/x", "/redirect/2/x", "/app-link/post", "/lic", "/page/email/click/1", "/url_shortener/1", "/oauth_authentications/1", "/cread.php", "/?p=1"])).to_string()})} else {d.link(r, 2).replacen("https:", "http:", 1)};
            let task = json!({"url": l, "context": t});
            let before = s.seen().len();
            let x = clean_json(&conf, &task, &jc);
            let seen = s.seen();
            rec.add("requests answered", (seen.len() - before) as u64);
            let detail = || json!({"task": task, "params": diff, "job": job, "answers": answers.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect::<Vec<_>>(), "requests": seen.iter().map(|q| q.show()).collect::<Vec<_>>(), "result": x});
            judge_end(rec, d, &l, "served", &x, detail);
            if seen.len() - before > 40 {rec.fail("requests", format!("cleaning {l} sends {} requests", seen.len() - before), detail());}
            if judge_hosts { for q in &seen[before..] {
                let target = if q.method == "CONNECT" {format!("https://{}", q.target.trim_end_matches(":443"))} else {q.target.clone()};
                rec.count("requests judged");
                if !named.allows(&target, q.method == "CONNECT") {rec.fail("unnamed host", format!("cleaning {l} requests {target}, which no rule names"), detail()); return;}
            } }
        }
    })
}

// ---- U21 ----

/// Which links the shipped configuration says need a request.
struct Named { redirect: BTreeSet<String>, regs: BTreeSet<String>, bypass: BTreeSet<String>, email: BTreeSet<String>, all: Vec<String> }
/// Hosts (without www) with a request of their own in the rules, for some paths.
const OWN: &[&str] = &["1link.club", "awin1.com", "bfy.tw", "gprivate.com", "reurl.cc", "shareasale-analytics.com", "shareasale.com", "smarturl.it", "tinyurl.com", "pawoo.net", "api.pinterest.com", "allmylinks.com", "substack.com", "sketchfab.com", "qudsnen.co", "facebook.com", "reddit.com", "old.reddit.com", "teepublic.com", "api.bypass.vip"];
/// Registrable domains with one.
const OWN_REGS: &[&str] = &["lnk.to", "overpass-turbo.eu"];
impl Named {
    fn of(d: &D) -> Named {
        let set = |n: &str| -> BTreeSet<String> { d.conf["params"]["sets"][n].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect() };
        let (redirect, regs, bypass, email) = (set("redirect-hwwwwdpafqdnps"), set("redirect-reg-domains"), set("bypass.vip-hwwwwdpafqdnps"), set("email-link-format-1-hosts"));
        let all = redirect.iter().chain(&regs).chain(&bypass).chain(&email).cloned().chain(OWN.iter().chain(OWN_REGS).map(|x| x.to_string())).collect();
        Named {redirect, regs, bypass, email, all}
    }
    fn facts(u: &Url) -> (String, Option<String>) { let f = host_facts(u); let h = f.domain.unwrap_or_default(); (h.strip_prefix("www.").unwrap_or(&h).to_string(), f.reg) }
    /// Whether a link like this may be requested (for https through a proxy only the host is known).
    fn allows(&self, u: &str, host_only: bool) -> bool {
        let Ok(u) = Url::parse(u) else {return false};
        let (h, reg) = Self::facts(&u);
        if self.redirect.contains(&h) || reg.as_ref().is_some_and(|x| self.regs.contains(x)) || h == "api.bypass.vip" {return true;}
        if host_only {return OWN.contains(&&*h) || self.email.contains(&h) || reg.as_ref().is_some_and(|x| OWN_REGS.contains(&&**x));}
        let seg: Vec<&str> = u.path().trim_start_matches('/').split('/').collect();
        match &*h {
            "1link.club" | "bfy.tw" | "gprivate.com" | "reurl.cc" | "smarturl.it" | "tinyurl.com" => return true,
            "awin1.com" => return u.path() == "/cread.php", "shareasale-analytics.com" | "shareasale.com" => return u.path() == "/r.cfm",
            "pawoo.net" => return seg[0] == "oauth_authentications", "api.pinterest.com" => return seg[0] == "url_shortener", "allmylinks.com" => return u.path() == "/link/out",
            "substack.com" => return (seg[0] == "redirect" && seg.get(1) != Some(&"2")) || u.path() == "/app-link/post", "sketchfab.com" => return seg[0] == "s",
            "qudsnen.co" => return decode_pairs(u.query()).iter().any(|p| p.0 == "p"), "facebook.com" => return u.path().starts_with("/share/"), "reddit.com" | "old.reddit.com" => return u.path().contains("/s/"),
            "teepublic.com" => return seg[0] == "lic", _ => {}
        }
        if reg.as_deref() == Some("lnk.to") {return true;}
        if reg.as_deref() == Some("overpass-turbo.eu") {return seg[0] == "s";}
        self.email.contains(&h) && u.path().starts_with("/page/email/click")
    }
}
fn batch(b: &Base, r: &mut Rng, offline: bool) -> (Value, Value, Vec<Value>) {
    let d = &b.d;
    let diff = d.params(r, offline); let (_, job) = d.context(r);
    let tasks = (0..10).map(|_| { let l = if r.chance(1, 3) {let h = Named::of(d); format!("{}://{}{}{}", r.pick(&["http", "https"]), r.pick(&["", "www.", "a."]), r.pick(&h.all), d.path(r))} else {d.link(r, 2)}; let (t, _) = d.context(r); json!({"url": l, "context": t}) }).collect();
    (diff, job, tasks)
}
fn u21(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg);
    let d = &b.d;
    let n = cfg.n(3000, 150_000);
    // With the flag: nothing at all. Only if something is seen is it worth finding out which link did it.
    let judge = |r: &mut Rng, rec: &mut Rec, alone: bool| {
        let (diff, job, tasks) = batch(&b, r, true);
        let conf = b.with(&diff); let jc: JobContext = de(&job).unwrap();
        for t in &tasks {
            if alone {crate::net::take();}
            let x = clean_json(&conf, t, &jc);
            rec.eval_hash(hash_str(&shape(d, t["url"].as_str().unwrap(), &x)));
            if alone {let s = crate::net::take(); if !s.is_empty() {rec.fail(format!("no-network {}", s[0]), format!("with no-network set, cleaning {} causes {}", t["url"], s[0]), json!({"task": t, "params": diff, "job": job, "network": s, "result": x}));}}
        }
        rec.add("links cleaned under no-network", tasks.len() as u64);
    };
    crate::net::take(); let before = crate::net::count();
    let mut all = cases(cfg, "no-network", n, |r, rec| judge(r, rec, cfg.only.is_some()));
    let named = Named::of(d);
    let paths = ["", "/", "/abc", "/r.cfm", "/r.cfm?u=1&m=2", "/r.cfm?urllink=example.com", "/s/abc", "/link/out?id=1", "/share/x", "/redirect/3/x", "/app-link/post?post_id=1", "/lic/x", "/page/email/click/1", "/url_shortener/1/redirect", "/oauth_authentications/1", "/cread.php?a=b", "/?p=1", "/preview/abc", "/app/abc", "/r/x/s/y"];
    let hosts: Vec<String> = named.all.iter().chain(&d.hosts).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    let each = |i: u64, rec: &mut Rec, alone: bool| {
        for diff in [json!({"flags": ["no-network"]}), json!({"flags": d.flags})] {
            let conf = b.with(&diff); let h = &hosts[i as usize];
            for p in paths { for pre in ["", "www.", "x."] {
                let l = format!("https://{pre}{h}{p}");
                if alone {crate::net::take();}
                let x = clean_json(&conf, &json!(l), &JobContext::default());
                rec.eval_hash(hash_str(&shape(d, &l, &x)));
                if alone {let s = crate::net::take(); if !s.is_empty() {rec.fail(format!("no-network {}", s[0]), format!("with no-network set, cleaning {l} causes {}", s[0]), json!({"link": l, "params": diff, "network": s, "result": x}));}}
            } }
        }
        rec.add("links cleaned under no-network", 2 * 3 * paths.len() as u64);
    };
    all.merge(cases_idx(cfg, "no-network, every host", hosts.len() as u64, |i, rec| each(i, rec, cfg.only.is_some())));
    let noted = crate::net::count() - before;
    all.add("connections and lookups under no-network", noted);
    if noted > 0 {
        all.merge(cases_t(cfg, "no-network", n, 1, |r, rec| { if rec.nviol < 20 {judge(r, rec, true)} }));
        all.merge(cases_t(cfg, "no-network, every host", hosts.len() as u64, 1, |_, rec| { if rec.nviol < 20 {let i = rec.case.1; each(i, rec, true)} }));
        if all.nviol == 0 {all.fail("no-network", format!("{noted} connections or lookups with no-network set"), json!({"seen": noted}));}
    }
    // One configuration whose flag is set and unset where it lies.
    all.merge(cases_t(cfg, "switching", cfg.n(150, 5_000), 1, |r, rec| {
        let mut conf = Box::new(b.with(&json!({"flags": []})));
        let switch = |conf: &mut Config, on: bool| { let d = if on {json!({"flags": ["no-network"]})} else {json!({"unflags": ["no-network"]})}; de::<ParamsDiff>(&d).unwrap().apply(&mut conf.params); };
        let mut log = Vec::new();
        for _ in 0..6 {
            let on = r.chance(1, 2);
            if r.chance(1, 5) {*conf = b.with(&if on {json!({"flags": ["no-network"]})} else {json!({"flags": []})});} else {switch(&mut conf, on);}
            for _ in 0..2 {
                let l = if r.chance(1, 4) {d.link(r, 1)} else {format!("https://{}/{}", r.pick(&hosts), r.pick(&["abc", "r/x", "share/x", "s/abc"]))};
                crate::net::take();
                let x = clean_json(&conf, &json!(l), &JobContext::default());
                let s = crate::net::take();
                log.push(json!({"no-network": on, "link": l, "network": s}));
                rec.add(if on {"links cleaned after setting the flag"} else {"connections and lookups before setting the flag"}, if on {1} else {s.len() as u64});
                if on && !s.is_empty() {rec.fail(format!("no-network {}", s[0]), format!("with no-network set on a configuration used without it before, cleaning {l} causes {}", s[0]), json!({"history": log, "result": x})); return;}
            }
        }
        rec.eval_hash(hash_str(&format!("{log:?}")));
    }));
    // Without it: only what is named, and those that are do.
    all.merge(cases_t(cfg, "with network", cfg.n(500, 10_000), 1, |r, rec| {
        let (diff, job, tasks) = batch(&b, r, false);
        let conf = b.with(&diff); let jc: JobContext = de(&job).unwrap();
        for t in &tasks {
            crate::net::take();
            let x = clean_json(&conf, t, &jc);
            let s = crate::net::take();
            rec.eval_hash(hash_str(&format!("{} {}", shape(d, t["url"].as_str().unwrap(), &x), s.len())));
            rec.add("connections and lookups without it", s.len() as u64);
            for s in &s {
                let h = s.strip_prefix("lookup ").unwrap_or(s).trim_end_matches('.');
                if !named.allows(&format!("https://{h}/"), true) {rec.fail(format!("unnamed {h}"), format!("cleaning {} causes {s}, which no rule names", t["url"]), json!({"task": t, "params": diff, "job": job, "network": s, "result": x})); return;}
            }
        }
    }));
    let listed: Vec<&String> = named.redirect.iter().chain(&named.regs).collect();
    all.merge(cases_t(cfg, "listed", listed.len() as u64, 1, |_, rec| {
        let h = listed[rec.case.1 as usize];
        // Some of them have a rule of their own that gets by without a request, or leads to another host.
        if d.ruled.contains(h) {return;}
        let conf = b.with(&json!({"flags": []}));
        for (l, proper) in [(format!("https://{h}/abc"), true), (format!("http://www.{h}/abc?utm_source=x"), true), (format!("https://x{h}/abc"), false)] {
            crate::net::take();
            let x = clean_json(&conf, &json!(l), &JobContext::default());
            let s = crate::net::take();
            let want = named.allows(&l, false);
            rec.eval_hash(hash_str(&l)); if !s.is_empty() {rec.count("listed hosts requested");}
            if proper && s.is_empty() || !want && !s.is_empty() || (want && x.is_ok()) {rec.fail("listed", format!("cleaning {l} causes {s:?} and gives {x:?} with every lookup refused"), json!({"link": l, "network": s, "result": x})); return;}
        }
    }));
    all.merge(served(cfg, &b, cfg.n(300, 10_000), true));
    all
}

// ---- U22 ----

/// Parameters everyone calls tracking.
const CORE: &[&str] = &["utm_source", "utm_medium", "utm_campaign", "utm_term", "utm_content", "utm_anything", "fbclid", "gclid", "msclkid", "mc_eid", "dclid", "_hsenc", "yclid", "twclid"];
struct Lists { utps: BTreeSet<String>, prefixes: Vec<String>, whitelist: BTreeSet<String>, nohttps: BTreeSet<String>, keepwww: BTreeSet<String>, nounmobile: BTreeSet<String> }
impl Lists {
    fn of(d: &D) -> Lists {
        let set = |v: &Value| -> BTreeSet<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect() };
        let s = &d.conf["params"]["sets"];
        Lists {utps: set(&s["utps"]), prefixes: set(&d.conf["params"]["lists"]["utp-prefixes"]).into_iter().collect(), whitelist: set(&s["utps-reg-domain-whitelist"]), nohttps: set(&s["https-upgrade-host-blacklist"]), keepwww: set(&s["remove-www-subdomain-reg-domain-blacklist"]), nounmobile: set(&s["unmobile-reg-domain-blacklist"])}
    }
    fn tracking(&self, n: &str) -> bool { self.utps.contains(n) || self.prefixes.iter().any(|p| n.starts_with(&**p)) }
}
/// What the documentation says becomes of a link to a host without rules of its own.
fn expect(u: &Url, l: &Lists, flags: &[String]) -> Option<Url> {
    let on = |f: &str| flags.iter().any(|x| x == f);
    let host = u.host_str()?;
    let ip = !matches!(u.host(), Some(url::Host::Domain(_)));
    let f0 = host_facts(u);
    let mut host = host.to_string();
    if on("unmobile") && !ip && !f0.reg.as_ref().is_some_and(|x| l.nounmobile.contains(x)) { if let Some(sub) = &f0.sub {
        let reg = &host[sub.len() + 1..];
        let mut segs: Vec<&str> = sub.split('.').collect();
        loop { let n = segs.len(); for i in [0, 1] { if segs.get(i).is_some_and(|x| ["m", "mobile"].contains(x)) {segs.remove(i);} } if segs.len() == n {break;} }
        host = if segs.is_empty() {reg.to_string()} else {format!("{}.{reg}", segs.join("."))};
    } }
    let mut v = u.clone(); v.set_host(Some(&host)).ok()?;
    let f = host_facts(&v);
    let scheme = if u.scheme() == "http" && !on("no-https-upgrade") && !ip && !l.nohttps.contains(&host) {"https"} else {u.scheme()};
    let mut query = u.query().map(|_| decode_pairs(u.query()));
    let mut fragment = u.fragment().map(str::to_string);
    if let Some(reg) = &f.reg {
        if !l.whitelist.contains(reg) {
            if let Some(q) = &mut query {q.retain(|p| !l.tracking(&p.0));}
            fragment = fragment.map(|x| x.split('&').filter(|kv| !l.tracking(kv.split('=').next().unwrap_or(""))).collect::<Vec<_>>().join("&"));
        }
        if f.sub.as_deref() == Some("www") && !l.keepwww.contains(reg) {host = host[4..].to_string();}
        host = host.strip_suffix('.').map(str::to_string).unwrap_or(host);
        if query.as_ref().is_some_and(|q| q.is_empty()) {query = None;}
        if fragment.as_deref() == Some("") {fragment = None;}
    }
    if !on("keep-lang") { if let Some(q) = &mut query { q.retain(|p| p.0 != "lang"); if q.is_empty() {query = None;} } }
    let mut s = format!("{scheme}://");
    if !u.username().is_empty() || u.password().is_some() {s.push_str(u.username()); if let Some(p) = u.password() {s.push(':'); s.push_str(p);} s.push('@');}
    s.push_str(&host);
    if let Some(p) = u.port() {s.push_str(&format!(":{p}"));}
    s.push_str(u.path());
    if let Some(q) = query {s.push('?'); s.push_str(&model::encode_pairs(&q));}
    if let Some(f) = fragment {s.push('#'); s.push_str(&f);}
    Url::parse(&s).ok()
}
/// Equal up to how parameters are written.
fn same(a: &Url, b: &Url) -> bool {
    let strip = |u: &Url| { let mut v = u.clone(); v.set_query(None); v.set_fragment(None); v };
    strip(a) == strip(b) && a.fragment() == b.fragment() && decode_pairs(a.query()) == decode_pairs(b.query()) && a.query().is_some() == b.query().is_some()
}
fn unruled(d: &D, u: &Url) -> bool {
    let f = host_facts(u);
    let Some(h) = f.domain else {return true};
    if h.split('.').any(str::is_empty) {return false;}
    // With and without the parts that other rules may take away.
    let segs: Vec<&str> = h.split('.').collect();
    if (0..segs.len()).any(|i| d.hosts.binary_search_by(|x| (**x).cmp(&segs[i..].join("."))).is_ok() || d.ruled.contains(&segs[i..].join("."))) {return false;}
    if h.contains("google") {return false;}
    !segs.iter().any(|s| d.middles.iter().any(|m| m == s))
}
fn plain_host(r: &mut Rng, d: &D) -> String {
    let base = match r.below(12) {
        0..=3 => format!("{}.{}", r.pick(&["example", "shop", "a", "my-site", "news", "xn--bcher-kva", "utm", "m", "www", "mobile"]), r.pick(&["com", "co.uk", "org", "kawasaki.jp", "nosuchtld", "xn--p1ai", "b.com.au"])),
        4 => make::host(r), 5 => (*r.pick(&["bambulab.com", "orteil.dashnet.org", "proozy.com", "localhost", "com", "github.io", "dashnet.org", "x.proozy.com"])).to_string(),
        6 => format!("x{}", r.pick(&d.hosts)), 7 => format!("{}.example.net", r.pick(&d.hosts).replace('.', "-")), 8 => format!("{}x", r.pick(&d.hosts)), 9 => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256)), 10 => "[2001:db8::1]".into(), _ => "example.com".into()
    };
    let pre = match r.below(14) { 0..=5 => "", 6 | 7 => "www.", 8 => "m.", 9 => "mobile.", 10 => "a.m.", 11 => "www.mobile.", 12 => "m.m.", _ => "www.a." };
    if base.starts_with('[') {base} else {format!("{pre}{base}{}", if r.chance(1, 8) {"."} else {""})}
}
fn near(r: &mut Rng, l: &Lists) -> String {
    let u: Vec<&String> = l.utps.iter().collect();
    match r.below(12) { 0..=2 => r.pick(&u).to_string(), 3 => r.pick(CORE).to_string(), 4 => format!("{}x", r.pick(&l.prefixes)), 5 => format!("x{}", r.pick(&u)), 6 => format!("{}x", r.pick(&u)), 7 => r.pick(&u).to_uppercase(), 8 => { let p = r.pick(&l.prefixes); p[..p.len() - 1].to_string() }, 9 => (*r.pick(&["lang", "hl", "Lang", "lang[]"])).to_string(), 10 => { let s = r.pick(&u).to_string(); s.replacen('_', "%5F", 1).replacen('c', "%63", 1) }, _ => (*r.pick(&["a", "id", "q", "", "b+c", "%C3%A9", "é"])).to_string() }
}
fn plain_link(r: &mut Rng, d: &D, l: &Lists) -> String {
    let params = |r: &mut Rng| -> String { let n = if r.chance(1, 100) {*r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 300])} else {r.below(6)}; (0..n).map(|_| { let k = near(r, l); match r.below(8) { 0 => k, 1 => format!("{k}="), 2 => format!("{k}=a=b"), 3 => String::new(), _ => format!("{k}={}", r.pick(&["1", "x+y", "%20", "%26", "é", "a%3Db", "utm_source", "%FF"])) } }).collect::<Vec<_>>().join("&") };
    let mut s = format!("{}://", match r.below(20) { 0..=9 => "https", 10..=17 => "http", 18 => "ftp", _ => "ws" });
    if r.chance(1, 10) {s.push_str(r.pick(&["user@", "u:p@", ":p@", "u%40:@"]));}
    s.push_str(&plain_host(r, d));
    if r.chance(1, 8) {s.push_str(r.pick(&[":80", ":443", ":8080"]));}
    if r.chance(1, 150) {s.push('/'); s.push_str(&"p".repeat(*r.pick(&[127, 255, 256, 1000, 2000, 2048, 4096, 8192, 65536])));}
    for _ in 0..if r.chance(1, 150) {*r.pick(&[16, 17, 33, 65, 129])} else {r.below(4)} {s.push('/'); s.push_str(r.pick(&["a", "utm_source=1", "m", "www", "", "dp", "é", "%2F", "a;b", "s"]));}
    if r.chance(3, 4) {s.push('?'); s.push_str(&params(r));}
    if r.chance(1, 3) {s.push('#'); s.push_str(&match r.below(3) { 0 => params(r), 1 => make::word(r), _ => String::new() });}
    s
}
fn u22(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg);
    let (d, l) = (&b.d, Lists::of(&b.d));
    let mut all = cases(cfg, "plain", cfg.n(40_000, 1_000_000), |r, rec| {
        let mut diff = d.params(r, r.clone().chance(1, 2));
        for f in ["no-https-upgrade", "unmobile", "keep-lang"] { let have = diff["flags"].as_array_mut().unwrap(); if r.chance(1, 5) && !have.contains(&json!(f)) {have.push(json!(f));} }
        let flags: Vec<String> = diff["flags"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let conf = b.with(&diff);
        for _ in 0..12 {
            let text = plain_link(r, d, &l);
            let Ok(u) = Url::parse(&text) else {rec.count("not a URL"); continue};
            if u.host_str().is_some_and(|h| h.split('.').rev().skip(h.ends_with('.') as usize).any(str::is_empty)) {rec.count("left out: no proper host name"); continue;}
            let x = clean_json(&conf, &json!(text), &JobContext::default());
            if !unruled(d, &u) && !["bambulab.com", "orteil.dashnet.org", "proozy.com", "localhost"].iter().any(|h| u.host_str().is_some_and(|x| x.trim_end_matches('.') == *h || x.trim_end_matches('.').ends_with(&format!(".{h}")))) {rec.count("left out: host with rules of its own"); continue;}
            let want = if ["http", "https"].contains(&u.scheme()) {expect(&u, &l, &flags)} else {Some(u.clone())};
            let Some(want) = want else {rec.count("left out: no expectation"); continue};
            rec.count(if want == u {"nothing to do"} else {"something to do"});
            let gone = decode_pairs(u.query()).len() - decode_pairs(want.query()).len();
            rec.add("parameters to remove", gone as u64); rec.add("parameters to keep", decode_pairs(want.query()).len() as u64);
            rec.eval_hash(hash_str(&text));
            // Where clean-ups of queries do not apply, one of nothing but separators may stay.
            let f = host_facts(&u).reg; let lax = f.is_none_or(|f| l.whitelist.contains(&f));
            let bare = |v: &Url| { let mut v = v.clone(); if lax && decode_pairs(v.query()).is_empty() {v.set_query(None);} v };
            let ok = match &x { Ok(g) => Url::parse(g).is_ok_and(|g| same(&bare(&g), &bare(&want))), Err(_) => false };
            if !ok { let part = match &x { Err(_) => "error", Ok(g) => { let g = Url::parse(g).unwrap(); if g.scheme() != want.scheme() {"scheme"} else if g.host() != want.host() {"host"} else if g.path() != want.path() {"path"} else if decode_pairs(g.query()) != decode_pairs(want.query()) {"query"} else if g.fragment() != want.fragment() {"fragment"} else {"other"} } };
                rec.fail(format!("plain {part}"), format!("{text} should become {want}, not {x:?} ({part})"), json!({"link": text, "params": diff, "result": x, "expected": want.as_str()})); return; }
        }
    });
    // Every listed name, and everything close to one, on its own.
    let names: Vec<String> = l.utps.iter().cloned().chain(CORE.iter().map(|x| x.to_string())).chain(l.prefixes.iter().flat_map(|p| [p.clone(), format!("{p}x"), format!("{p}source")])).collect::<BTreeSet<_>>().into_iter().collect();
    let conf = b.with(&json!({}));
    all.merge(cases_idx(cfg, "names", names.len() as u64, |i, rec| {
        let n = &names[i as usize];
        let e = dconf::enc(n);
        for (q, want) in [(format!("?{e}=1"), String::new()), (format!("?a=1&{e}=2&b=3&{e}"), "?a=1&b=3".into()), (format!("?{e}"), String::new()), (format!("?q={e}"), format!("?q={}", model::encode_pairs(&[("".into(), n.clone())]).trim_start_matches('='))), (format!("?a=1&x{e}=2"), format!("?a=1&x{n}=2")), (format!("?{}=2", n.to_uppercase() + "Z"), format!("?{}=2", n.to_uppercase() + "Z")), (format!("#{n}=1&b"), "#b".into()), (format!("#/{n}=1"), format!("#/{n}=1"))] {
            for h in ["https://example.com/", "https://sub.domain.example.co.uk/p/a.html"] {
                let text = format!("{h}{q}");
                if l.tracking(&format!("x{n}")) || l.tracking(&(n.to_uppercase() + "Z")) {rec.count("left out: near names that are listed too"); continue;}
                let x = clean_json(&conf, &json!(text), &JobContext::default());
                rec.eval_hash(hash_str(&text)); rec.count("names tried");
                let w = Url::parse(&format!("{h}{want}")).unwrap();
                if !x.as_ref().is_ok_and(|g| Url::parse(g).is_ok_and(|g| same(&g, &w))) {rec.fail("name", format!("{text} should become {w}, not {x:?}"), json!({"link": text, "name": n, "result": x, "expected": w.as_str()}));}
            }
        }
    }));
    // The exceptions keep their parameters.
    let wl: Vec<&String> = l.whitelist.iter().collect();
    all.merge(cases_idx(cfg, "exceptions", (wl.len() * names.len()) as u64, |i, rec| {
        let (h, n) = (wl[i as usize % wl.len()], dconf::enc(&names[i as usize / wl.len()]));
        for pre in ["", "store.", "a.b."] { let text = format!("https://{pre}{h}/p?{n}=1&a=2#{n}=1"); let x = clean_json(&conf, &json!(text), &JobContext::default()); rec.eval_hash(hash_str(&text)); rec.count("exceptions tried");
            let w = Url::parse(&text).unwrap();
            if !x.as_ref().is_ok_and(|g| Url::parse(g).is_ok_and(|g| same(&g, &w))) {rec.fail("exception", format!("{text} should stay as it is, not become {x:?}"), json!({"link": text, "result": x}));} }
    }));
    all
}

// ---- U23 ----

fn host_key(d: &D, u: &str) -> String {
    let Some(u) = Url::parse(u).ok() else {return "?".into()};
    let f = host_facts(&u); let h = f.domain.unwrap_or_default(); let h = h.strip_prefix("www.").unwrap_or(&h).to_string();
    if d.ruled.contains(&h) {return h;}
    if let Some(r) = &f.reg { if d.ruled.contains(r) {return format!("*.{r}");} }
    if let Some(m) = h.split('.').find(|x| d.middles.iter().any(|m| m == x)) {return format!("middle {m}");}
    "any".into()
}
/// Other ways to write the same URL.
fn respell(r: &mut Rng, u: &Url) -> Option<String> {
    let mut s = u.to_string();
    let hs = u.host_str()?.to_string();
    let i = s.find(&hs)?;
    if !u.username().is_empty() || u.password().is_some() {return None;}
    for _ in 0..1 + r.below(3) { match r.below(9) {
        0 => { let up: String = hs.chars().map(|c| if r.chance(1, 2) {c.to_ascii_uppercase()} else {c}).collect(); s.replace_range(i..i + hs.len(), &up); },
        1 if u.port().is_none() && s[i + hs.len()..].starts_with('/') => s.insert_str(i + hs.len(), if u.scheme() == "https" {":443"} else {":80"}),
        2 => s = s.replacen(u.scheme(), &u.scheme().to_uppercase(), 1), 3 => s = format!(" {s}\n"),
        4 => s = s.replace("%C3%A9", "é"), 5 => s = s.replace("%20", " ").trim().to_string(), 6 => s = s.replace("%22", "\""), 7 => { let k = s.find(":")? + 1; s.insert(k, '\t'); return Some(s) }, _ => s = s.replacen("://", ":\\\\", 1)
    } }
    Some(s)
}
/// Hosts to move to as somebody would choose them: one of their own, or a known one of that kind.
fn sensible(mut diff: Value, d: &D, r: &mut Rng) -> Value {
    let cats = &d.conf["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"];
    for (v, c) in [("breezewiki-host", "breezewiki"), ("nitter-host", "nitter"), ("invidious-host", "invidious"), ("twitter-embed-host", ""), ("bluesky-embed-host", "")] {
        if diff["vars"].get(v).is_none() {continue;}
        let known: Vec<&str> = cats[c].as_array().into_iter().flatten().filter_map(Value::as_str).filter(|h| dconf::hostish(h)).collect();
        let h = if known.is_empty() || r.chance(1, 2) {"my.host.example"} else {*r.pick(&known)};
        diff["vars"][v] = json!(h);
    }
    diff
}
fn u23(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg);
    let d = &b.d;
    let all = cases(cfg, "again", cfg.n(20_000, 600_000), |r, rec| {
        let diff = sensible(d.params(r, true), d, r); let conf = b.with(&diff); let jc = JobContext::default();
        for _ in 0..12 {
            let l = d.link(r, 2);
            let Ok(u) = Url::parse(&l) else {continue};
            if u.host_str().is_some_and(|h| h.trim_end_matches('.').len() + 1 < h.len()) {rec.count("left out: no proper host name"); continue;}
            // A mirror's dangling redirect link, and a wiki whose name is a mobile site's prefix.
            let first = u.path().trim_start_matches('/').split(['/', '.']).next().unwrap_or("");
            if ["/redirect", "/users/outgoing"].contains(&u.path()) || u.path().starts_with("/safe-mode") || u.fragment().is_some_and(|f| f.contains("&INT=") || f.contains("&link")) || ["m", "mobile"].contains(&first) {rec.count("left out: dangling redirect or m"); continue;}
            let x = clean_json(&conf, &json!(l), &jc);
            if let Ok(a) = &x {
                let y = clean_json(&conf, &json!(a), &jc);
                rec.eval_hash(hash_str(&shape(d, &l, &x))); rec.count("cleaned twice"); if *a != u.as_str() {rec.count("changed the first time");}
                if a.starts_with("file:") {continue;}
                if y != x { rec.fail(format!("again {}", host_key(d, a)), format!("{l} becomes {a}, which becomes {y:?}"), json!({"link": l, "params": diff, "first": x, "second": y})); }
            }
            for _ in 0..2 { let Some(s) = respell(r, &u) else {continue};
                if Url::parse(&s) != Ok(u.clone()) {rec.count("left out: spelt differently"); continue;}
                let y = clean_json(&conf, &json!(s), &jc);
                rec.count("other spellings");
                let same = match (&x, &y) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.starts_with("panic") == b.starts_with("panic"), _ => false };
                if !same {rec.fail("spelling", format!("{l} becomes {x:?}, but spelt {s:?} it becomes {y:?}"), json!({"link": l, "spelling": s, "params": diff, "results": [x, y]}));}
            }
        }
    });
    all
}
pub fn run(cfg: &Cfg) -> i32 {
    match &*cfg.pid {
        "U03" => { let rec = u03(cfg); finish(cfg, rec, "exploration", "links to every kind of host the shipped configuration knows under random flags, variables and contexts, raw and damaged task texts, very long and deeply nested links, and hostile answers from a scripted proxy; each must end with a URL that parses to itself or an ordinary error, within a budget of processor time; distinct = way of running, host and kind of outcome", vec!["file URLs and URLs without authority are left out of the re-parsing oracle"]) },
        "U21" => { let rec = u21(cfg); finish(cfg, rec, "exploration", "links to every kind of host under random flags with no-network set, while every connection and name lookup of the process is intercepted; without the flag, every intercepted host compared with those the configuration names; distinct = host and kind of outcome", vec!["the network is only reached through libc's connect and getaddrinfo"]) },
        "U22" => { let rec = u22(cfg); finish(cfg, rec, "exploration", "links to hosts without rules of their own (and hosts that look like listed ones) under random flags, compared with the result the documentation describes; every listed name and its neighbours on their own; every exception; distinct = links", vec!["left out: host names with empty labels"]) },
        _ => { let rec = u23(cfg); finish(cfg, rec, "exploration", "links under random flags cleaned offline, their results cleaned again, and other spellings of them cleaned; distinct = host and kind of outcome", vec!["left out: redirect links without a destination on mirrors of a site, wikis named m or mobile, fragments in which a tracking parameter precedes the one a site's rule looks for, file URLs (whose host the url crate may drop when reading its own text back) and host names with empty labels"]) }
    }
}
