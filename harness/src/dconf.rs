//! The shipped configuration: links made from what it mentions.
use std::collections::BTreeSet;
use std::path::Path;
use serde_json::{json, Value};
use crate::make;
use crate::rng::Rng;

pub struct D { pub conf: Value, /// Everything in it that looks like a host, and things that look like parameter names, paths and other texts.
    pub hosts: Vec<String>, pub middles: Vec<String>, pub names: Vec<String>, pub paths: Vec<String>, pub segs: Vec<String>, /// Hosts with something of their own in the rules (not just in sets).
    pub ruled: BTreeSet<String>, /// Links from the project's tests.
    pub links: Vec<String>, pub flags: Vec<String>, pub vars: Vec<String>, pub ctx: Vec<String> }
fn texts(v: &Value, out: &mut Vec<String>) { match v {
    Value::String(s) => out.push(s.clone()), Value::Array(a) => for x in a {texts(x, out);},
    Value::Object(o) => for (k, x) in o { if !k.starts_with("comment") {out.push(k.clone()); texts(x, out);} },
    _ => {} } }
pub fn hostish(s: &str) -> bool { s.contains('.') && !s.contains("..") && s.len() < 80 && s.split('.').all(|l| !l.is_empty() && l.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'-')) && s.rsplit('.').next().unwrap().bytes().all(|b| b.is_ascii_lowercase()) }
fn uniq(v: impl IntoIterator<Item = String>) -> Vec<String> { v.into_iter().collect::<BTreeSet<_>>().into_iter().collect() }
impl D {
    pub fn load(repo: &Path) -> D {
        let read = |n: &str| -> Value { std::fs::read_to_string(repo.join(n)).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null) };
        let conf = read("default-config.json");
        let mut all = Vec::new(); texts(&conf["params"], &mut all); texts(&conf["rules"], &mut all); texts(&conf["commons"], &mut all);
        let mut ruled = Vec::new(); texts(&conf["rules"], &mut ruled);
        let mut parts = Vec::new(); texts(&conf["params"]["named_partitionings"], &mut parts);
        let mut links = Vec::new(); texts(&read("tests.json")["sets"], &mut links); texts(&read("network-tests.json"), &mut links);
        let host = |s: &String| hostish(s);
        let keys = |v: &Value| v.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
        let name = |s: &String| !s.is_empty() && s.len() < 40 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"_-.:".contains(&b)) && !hostish(s);
        let mut middles = Vec::new();
        find(&conf["rules"], "DomainMiddle", &mut |o| middles.extend(keys(&o["map"])));
        D {
            hosts: uniq(all.iter().filter(|s| host(s)).cloned()), middles, names: uniq(all.iter().filter(|s| name(s)).cloned()), paths: uniq(all.iter().filter(|s| s.starts_with('/') && s.len() < 60).cloned()),
            segs: uniq(all.iter().filter(|s| !s.is_empty() && s.len() < 40 && !s.contains(['/', ' ', '?', '#'])).cloned()), ruled: ruled.iter().chain(&parts).filter(|s| host(s)).cloned().collect(),
            links: uniq(links.into_iter().filter(|s| s.starts_with("http"))), flags: keys(&conf["docs"]["flags"]), vars: keys(&conf["docs"]["vars"]),
            ctx: uniq(keys(&conf["docs"]["environment_vars"]).into_iter().chain(["redirect_shortcut", "bsky_handle", "faci_site_name", "link_text", "alt_text"].map(String::from))), conf
        }
    }
    fn seg(&self, r: &mut Rng) -> String { match r.below(12) { 0..=4 => r.pick(&self.segs).clone(), 5 => r.pick(make::SEGS).to_string(), 6 => format!("{}", r.below(100_000_000)), 7 => format!("{}-{}", r.pick(&self.segs), r.below(100)), 8 => (*r.pick(&["ref=x_1", "B0C6DX66TN", "did:plc:abc", "dp", "h_1", "status", "m", "@name", "Special:Search", "A-B-C"])).to_string(), 9 => enc(&self.target(r)), 10 => self.target(r), _ => make::word(r).replace(['?', '#'], "") } }
    /// Something a redirecting link might hold.
    pub fn target(&self, r: &mut Rng) -> String {
        let u = match r.below(8) { 0 => self.link(r, 0), 1 => format!("https://{}/", r.pick(&self.hosts)), 2 => "https://example.com/a?b=c&utm_source=d#e".into(), 3 => "not a url".into(), 4 => "http://www.example.org/x".into(), 5 => format!("//{}/x", r.pick(&self.hosts)), 6 => "javascript:alert(1)".into(), _ => r.pick(&self.links).clone() };
        match r.below(6) { 0 => enc(&enc(&u)), 1 => base64::Engine::encode(&base64::engine::general_purpose::STANDARD, &u), 2 => u, _ => enc(&u) }
    }
    pub fn host(&self, r: &mut Rng) -> String {
        let base = match r.below(20) { 0..=12 => r.pick(&self.hosts).clone(), 13 | 14 if !self.middles.is_empty() => format!("{}.{}", r.pick(&self.middles), r.pick(&["com", "co.uk", "de", "ca", "com.au", "jp"])), 15 => format!("abc.onion.{}", r.pick(&["ly", "ws", "pet"])), 16 => make::host(r), _ => r.pick(&self.hosts).clone() };
        let pre = match r.below(16) { 0..=7 => "", 8 | 9 => "www.", 10 => "m.", 11 => "mobile.", 12 => "a.", 13 => "www.m.", 14 => "a.mobile.", _ => "user.blog." };
        format!("{pre}{base}{}", if r.chance(1, 20) {"."} else {""})
    }
    pub fn value(&self, r: &mut Rng) -> String { match r.below(10) { 0 => String::new(), 1..=3 => self.target(r), 4 => r.pick(&self.segs).clone(), 5 => enc(&make::word(r)), 6 => (*r.pick(&["g", "w", "i", "v", "post", "1", "true", "%FF", "a+b", "x=y"])).to_string(), _ => format!("{:x}", r.below(1 << 30)) } }
    pub fn query(&self, r: &mut Rng, n: usize) -> String { (0..n).map(|_| { let k = match r.below(8) { 0 => r.pick(make::QNAMES).to_string(), 1 => (*r.pick(&["utm_x", "pd_rd", "ref", "at_x", "a", "id", "q", "u", "url"])).to_string(), 2 => enc(&make::word(r)), _ => r.pick(&self.names).clone() }; match r.below(8) { 0 => k, 1 => format!("{k}="), _ => format!("{k}={}", self.value(r)) } }).collect::<Vec<_>>().join("&") }
    pub fn path(&self, r: &mut Rng) -> String {
        if r.chance(1, 4) && !self.paths.is_empty() { let p = r.pick(&self.paths).clone(); return if r.chance(1, 2) {p} else {format!("{}/{}", p.trim_end_matches('/'), self.seg(r))}; }
        let n = r.below(6); let mut s = String::new(); for _ in 0..n {s.push('/'); s.push_str(&self.seg(r));}
        if r.chance(1, 5) {s.push('/');} s
    }
    pub fn link(&self, r: &mut Rng, depth: usize) -> String {
        if r.chance(1, 5) && !self.links.is_empty() { return self.mutate(r); }
        if depth > 0 && r.chance(1, 30) {return make::url_text(r);}
        let mut s = format!("{}://", if r.chance(1, 5) {"http"} else {"https"});
        if r.chance(1, 25) {s.push_str(r.pick(&["user@", "u:p@"]));}
        s.push_str(&self.host(r));
        if r.chance(1, 20) {s.push_str(r.pick(&[":8080", ":80", ":443"]));}
        s.push_str(&self.path(r));
        if r.chance(3, 5) && depth > 0 {s.push('?'); let n = r.below(6); let q = self.query(r, n); s.push_str(&q);} else if r.chance(1, 12) {s.push('?'); s.push_str(&enc("https://example.com/t"));}
        if r.chance(1, 5) {s.push('#'); let n = r.below(4); let q = if r.chance(1, 2) {self.query(r, n)} else {make::word(r)}; s.push_str(&q);}
        s
    }
    fn mutate(&self, r: &mut Rng) -> String {
        let l = r.pick(&self.links).clone();
        let Ok(mut u) = url::Url::parse(&l) else {return l};
        match r.below(8) {
            0 => {let h = self.host(r); let _ = u.set_host(Some(&h));}, 1 => {let q = self.query(r, 2); let old = u.query().unwrap_or("").to_string(); u.set_query(Some(&format!("{old}&{q}")));},
            2 => {let p = format!("{}/{}", u.path(), self.seg(r)); u.set_path(&p);}, 3 => {let q = self.query(r, 2); u.set_fragment(Some(&q));}, 4 => {let _ = u.set_scheme("http");},
            5 => {let h = format!("www.{}", u.host_str().unwrap_or("")); let _ = u.set_host(Some(&h));}, 6 => { let mut b: Vec<char> = l.chars().collect(); let i = r.below(b.len()); if r.chance(1, 2) {b.remove(i);} else {b.insert(i, *r.pick(&['/', '?', '&', '=', '%', 'é', '#', 'x']));} return b.into_iter().collect(); }, _ => {}
        }
        u.into()
    }
    /// A set of parameter changes the documentation allows; `offline` adds the flag that forbids requests.
    pub fn params(&self, r: &mut Rng, offline: bool) -> Value {
        let p = *r.pick(&[0, 0, 1, 3, 6]);
        let mut flags: Vec<String> = self.flags.iter().filter(|_| r.chance(p, 10)).filter(|f| *f != "no-network").cloned().collect();
        if offline {flags.push("no-network".into());}
        let mut vars = serde_json::Map::new();
        for v in &self.vars { if r.chance(1, 8) {let h = match r.below(4) { 0 => "my.host.example".into(), 1 => make::host(r), _ => r.pick(&self.hosts).clone() }; vars.insert(v.clone(), json!(h));} }
        json!({"flags": flags, "vars": vars})
    }
    /// A task's own context and the job's.
    pub fn context(&self, r: &mut Rng) -> (Value, Value) {
        let (mut t, mut j) = (serde_json::Map::new(), serde_json::Map::new());
        if r.chance(1, 5) {
            for k in &self.ctx { if r.chance(1, 3) {let v = match r.below(4) { 0 => self.target(r), 1 => r.pick(&self.segs).clone(), 2 => "https://example.com/short?utm_source=x".into(), _ => make::word(r) }; t.insert(k.clone(), json!(v));} }
            let h = if r.chance(1, 2) {(*r.pick(&["furaffinity.net", "allmylinks.com", "x.com", "www.alibaba.com", "bsky.app", "lnk.bio"])).to_string()} else {self.host(r)};
            if r.chance(3, 4) {j.insert("SOURCE_HOST".into(), json!(h));}
            if r.chance(3, 4) {j.insert("SOURCE_REG_DOMAIN".into(), json!(h.strip_prefix("www.").unwrap_or(&h)));}
        }
        (json!({"vars": t}), json!({"vars": j}))
    }
}
/// The maps in the rules that branch on this part.
fn find(v: &Value, part: &str, f: &mut impl FnMut(&Value)) { match v {
    Value::Object(o) => { if o.get("part").is_some_and(|p| p == part) && o.contains_key("map") {f(v);} for x in o.values() {find(x, part, f);} },
    Value::Array(a) => for x in a {find(x, part, f);}, _ => {} } }
pub fn enc(s: &str) -> String { percent_encoding::utf8_percent_encode(s, percent_encoding::NON_ALPHANUMERIC).to_string() }
