//! U05 (host facts), U06 (part reads and writes) and U07 (segment lists).
use std::borrow::Cow;
use serde_json::{json, Value};
use url::Url;
use url_cleaner::types::*;
use crate::core::*;
use crate::make::{self, G};
use crate::model::{self, HostFacts, World};
use crate::real::*;
use crate::rng::{hash_str, Rng};

/// Everything the URL object itself says about its host.
pub fn real_facts(u: &BetterUrl) -> HostFacts {
    let o = |x: Option<&str>| x.map(str::to_string);
    HostFacts {
        kind: match u.host_details() { None => "none", Some(HostDetails::Domain(_)) => "domain", Some(HostDetails::Ipv4(_)) => "v4", Some(HostDetails::Ipv6(_)) => "v6" },
        host: o(u.host_str()), fqdn: u.domain_details().is_some_and(|d| d.is_fqdn()),
        domain: o(u.domain()), sub: o(u.subdomain()), reg: o(u.reg_domain()), not_suffix: o(u.not_domain_suffix()), middle: o(u.domain_middle()), suffix: o(u.domain_suffix()),
    }
}
/// What else the accessors say must follow from the facts.
fn side_facts(u: &BetterUrl, f: &HostFacts) -> Option<String> {
    let want = (f.kind == "domain", f.kind == "v4", f.kind == "v6");
    let got = (u.domain_details().is_some(), u.ipv4_details().is_some(), u.ipv6_details().is_some());
    if want != got {return Some(format!("details accessors say {got:?}, the host is {}", f.kind));}
    let p = u.fqdn_period();
    if p != f.fqdn.then_some(".") {return Some(format!("fqdn_period() is {p:?}"));}
    None
}
fn facts_bad(u: &BetterUrl) -> Option<(String, Value)> {
    let got = match guarded(|| real_facts(u)) { Ok(x) => x, Err(p) => return Some((format!("panic in {}", panic_place(&p)), json!({"panic": p}))) };
    let plain: &Url = u;
    let want = model::host_facts(plain);
    if got != want {return Some(("host facts".into(), json!({"reported": format!("{got:?}"), "current host": format!("{want:?}")})));}
    if let Some(x) = side_facts(u, &want) {return Some(("detail accessors".into(), json!({"reported": x})));}
    // A second object built from the text agrees, wherever the text is a faithful spelling of the URL.
    if let Ok(again) = Url::parse(u.as_str()) { if again.host() == plain.host() {
        match BetterUrl::parse(u.as_str()) { Ok(b) if real_facts(&b) == want => {}, o => return Some(("facts after parsing again".into(), json!({"parsed again": format!("{o:?}"), "current host": format!("{want:?}")}))) }
        let conv: BetterUrl = again.into();
        if real_facts(&conv) != want {return Some(("facts after conversion".into(), json!({"converted": format!("{conv:?}")})));}
    } }
    None
}

#[derive(Debug, Clone)]
enum Edit { Part(Value, Option<String>), Call(&'static str, Option<String>), Ip(std::net::IpAddr), Port(Option<u16>), Fqdn(bool), Pairs(Vec<(String, String)>), Segs(u8, String) }
/// A host that looks much like this one: another label in one place, most often of the same length.
fn near(r: &mut Rng, h: &str) -> String {
    let mut ls: Vec<String> = h.split('.').map(str::to_string).collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(ls.len()); let n = ls[i].chars().count();
        let same: Vec<&str> = ["uk", "co", "jp", "de", "ac", "io", "ab", "zz", "ck", "com", "org", "net", "www", "abc", "edu", "gov", "kyoto", "tokyo", "osaka", "github", "gitlab", "city", "info", "blog"].into_iter().filter(|x| x.len() == n).collect();
        ls[i] = match r.below(4) { 0 | 1 if !same.is_empty() => r.pick(&same).to_string(), 2 if ls.len() > 1 => {let j = r.below(ls.len()); let x = ls[j].clone(); ls[j] = ls[i].clone(); x}, _ => (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() };
    }
    ls.join(".")
}
fn edit(r: &mut Rng, u: &Url) -> Edit {
    if r.chance(1, 6) { if let Some(h) = u.host_str() {
        let v = near(r, h);
        return match r.below(6) { 0 | 1 => Edit::Part(json!("Host"), Some(v)), 2 => Edit::Part(json!("Domain"), Some(v)), 3 => Edit::Call("set_host", Some(v)), 4 => Edit::Call("set_domain_host", Some(v)), _ => Edit::Call("set_domain", Some(v)) };
    } }
    let mut g = G::new(r, u);
    match g.r.below(20) {
        0..=9 => {
            let p = if g.r.chance(1, 2) {g.part()} else {json!(*g.r.pick(&["Host", "Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod", "HostWithoutWWWDotPrefixAndFqdnPeriod", "Whole", "Scheme"]))};
            let v = g.partval(&p, 0);
            let v = match v { Value::String(x) => Some(x), _ => (!g.r.chance(1, 3)).then(|| g.text()) };
            Edit::Part(p, v)
        },
        10..=14 => {
            let k = *g.r.pick(&["set_domain", "set_subdomain", "set_not_domain_suffix", "set_domain_middle", "set_reg_domain", "set_domain_suffix", "set_domain_host", "set_host"]);
            let v = match g.r.below(5) { 0 => None, 1 | 2 => Some(make::host(g.r)), 3 => Some(g.r.pick(make::SEGS).to_string()), _ => Some(g.text()) };
            Edit::Call(k, v)
        },
        15 => Edit::Call(*g.r.pick(&["set_scheme", "set_username", "set_password", "set_path", "set_query", "set_fragment"]), if g.r.chance(1, 2) {Some(g.text())} else {g.r.chance(1, 2).then(|| g.r.pick(&["https", "file", "foo", "//x", "/a/b"]).to_string())}),
        16 => Edit::Ip(if g.r.chance(1, 2) {std::net::Ipv4Addr::from(g.r.u64() as u32).into()} else {std::net::Ipv6Addr::from(((g.r.u64() as u128) << 64) | g.r.below(3) as u128).into()}),
        17 => if g.r.chance(1, 2) {Edit::Port(g.r.chance(2, 3).then(|| *g.r.pick(&[80, 443, 21, 8080, 0])))} else {Edit::Segs(g.r.below(4) as u8, g.text())},
        18 => Edit::Fqdn(g.r.chance(1, 2)),
        _ => Edit::Pairs((0..g.r.below(3)).map(|_| (g.text(), g.text())).collect()),
    }
}
/// Whether the edit succeeded.
fn apply(u: &mut BetterUrl, e: &Edit) -> Result<bool, String> {
    Ok(match e {
        Edit::Part(p, v) => {let p: UrlPart = de(p)?; p.set(u, v.as_deref()).is_ok()},
        Edit::Call(k, v) => { let v = v.as_deref(); match *k {
            "set_domain" => u.set_domain(v).is_ok(), "set_subdomain" => u.set_subdomain(v).is_ok(), "set_not_domain_suffix" => u.set_not_domain_suffix(v).is_ok(), "set_domain_middle" => u.set_domain_middle(v).is_ok(),
            "set_reg_domain" => u.set_reg_domain(v).is_ok(), "set_domain_suffix" => u.set_domain_suffix(v).is_ok(), "set_domain_host" => u.set_domain_host(v.unwrap_or("")).is_ok(), "set_host" => u.set_host(v).is_ok(),
            "set_scheme" => u.set_scheme(v.unwrap_or("")).is_ok(), "set_username" => u.set_username(v.unwrap_or("")).is_ok(), "set_password" => u.set_password(v).is_ok(),
            "set_path" => {u.set_path(v.unwrap_or("")); true}, "set_query" => {u.set_query(v); true}, _ => {u.set_fragment(v); true}
        } },
        Edit::Ip(a) => u.set_ip_host(*a).is_ok(), Edit::Port(p) => u.set_port(*p).is_ok(), Edit::Fqdn(b) => u.set_fqdn(*b).is_ok(),
        Edit::Pairs(ps) => {u.query_pairs_mut().clear().extend_pairs(ps); true},
        Edit::Segs(k, x) => match u.path_segments_mut() { Err(_) => false, Ok(mut s) => { match k { 0 => {s.push(x);}, 1 => {s.pop();}, 2 => {s.clear();}, _ => {s.pop_if_empty();} } true } },
    })
}
fn u05_case(r: &mut Rng, rec: &mut Rec) {
    let start = make::url(r);
    let mut u = match BetterUrl::parse(start.as_str()) { Ok(x) => x, Err(e) => {rec.fail("parse", format!("{start} does not parse: {e:?}"), json!(null)); return;} };
    let n = 1 + r.below(8);
    let mut log: Vec<Value> = Vec::new();
    let mut kinds = String::new();
    if let Some((sig, d)) = facts_bad(&u) {rec.fail(sig.clone(), format!("{sig} of freshly parsed {}: {d}", u.as_str()), d); return;}
    for _ in 0..n {
        let e = edit(r, &u);
        let before = u.as_str().to_string();
        let old_kind = real_facts(&u).kind;
        let res = guarded(|| apply(&mut u, &e));
        log.push(json!({"edit": format!("{e:?}"), "url before": before}));
        let name = match &e { Edit::Part(p, _) => model::var(p).0.to_string(), Edit::Call(k, _) => k.to_string(), o => format!("{o:?}").split('(').next().unwrap_or("").to_string() };
        let ok = match res {
            Ok(Ok(x)) => x, Ok(Err(e)) => {rec.fail("load", e, json!(log)); return;},
            Err(p) => {rec.fail(format!("panic in {} ({name})", panic_place(&p)), format!("edit {e:?} of {before} panicked: {p}"), json!({"history": log, "panic": p})); return;}
        };
        let changed = before != u.as_str();
        rec.count(&format!("edit {name}: {}", if !ok {"refused"} else if changed {"changed"} else {"no change"}));
        if !ok && changed {rec.fail(format!("failed edit changed the URL ({name})"), format!("the failed edit {e:?} changed {before} into {}", u.as_str()), json!({"history": log})); return;}
        let as_asked = match &e { Edit::Ip(a) => u.host() == Some(match a { std::net::IpAddr::V4(x) => url::Host::Ipv4(*x), std::net::IpAddr::V6(x) => url::Host::Ipv6(*x) }), Edit::Port(p) => u.port() == p.filter(|p| Some(*p) != match u.scheme() { "https" => Some(443), "http" => Some(80), "ftp" => Some(21), "ws" => Some(80), "wss" => Some(443), _ => None }), Edit::Fqdn(b) => before.contains("..") || u.host_str().is_some_and(|h| h.ends_with('.')) == *b, _ => true };
        if ok && !as_asked {rec.fail(format!("not done ({name})"), format!("{e:?} of {before} succeeds and gives {}", u.as_str()), json!({"history": log})); return;}
        if let Some((sig, d)) = facts_bad(&u) {
            rec.fail(format!("{sig} ({name})"), format!("{sig} wrong after edit {e:?} of {before} giving {}: {d}", u.as_str()), json!({"history": log, "facts": d})); return;
        }
        // (The url crate spells some file URLs, and "/." before a hostless path, in ways it reads differently.)
        if ok && changed && u.scheme() != "file" && !before.starts_with("file") && !u.as_str().contains(":/.") && !before.contains(":/.") && !u.as_str().contains("/.//") && !u.cannot_be_a_base() && Url::parse(&before).is_ok_and(|x| x.as_str() == before) && !Url::parse(u.as_str()).is_ok_and(|x| x.as_str() == u.as_str()) {rec.fail(format!("roundtrip ({name})"), format!("{e:?} on {before} gives {} -> {:?}", u.as_str(), Url::parse(u.as_str()).map(|x| x.to_string())), json!(log)); return;}
        let k = real_facts(&u).kind;
        if k != old_kind {rec.count(&format!("host kind {old_kind} -> {k}"));}
        kinds.push_str(&format!("{name}{}>{k};", ok as u8));
        rec.eval_hash(hash_str(&kinds) ^ hash_str(start.as_str()));
        // Copies keep the facts.
        if r.chance(1, 8) { let c = u.clone(); if real_facts(&c) != real_facts(&u) {rec.fail("facts of a copy", format!("a copy of {} reports other facts", u.as_str()), json!(log)); return;} u = c; }
    }
    rec.sample(|| json!({"start": start.as_str(), "history": log, "end": u.as_str(), "facts": format!("{:?}", real_facts(&u))}));
}

// ---------- U06 ----------
#[derive(Debug, Clone, PartialEq)]
struct Comps { scheme: String, user: String, pass: Option<String>, host: Option<String>, port: Option<u16>, path: String, query: Option<String>, fragment: Option<String> }
fn comps(u: &Url) -> Comps { let o = |x: Option<&str>| x.map(str::to_string); Comps {scheme: u.scheme().into(), user: u.username().into(), pass: o(u.password()), host: o(u.host_str()), port: u.port(), path: u.path().into(), query: o(u.query()), fragment: o(u.fragment())} }
fn component(part: &str) -> &'static str {
    match part {
        "Whole" => "whole", "Scheme" => "scheme", "Username" => "user", "Password" => "pass", "Port" => "port", "Query" | "QueryParam" => "query", "Fragment" => "fragment",
        p if p.contains("Path") => "path", _ => "host"
    }
}
/// What changed outside the written component and is not a consequence the URL standard prescribes.
fn frame_bad(before: &Url, after: &Url, comp: &str) -> Option<String> {
    let (b, mut a) = (comps(before), comps(after));
    match comp {
        "whole" => return None,
        "scheme" => {a.scheme = b.scheme.clone(); if a.port.is_none() {a.port = b.port;}},
        "user" => a.user = b.user.clone(), "pass" => a.pass = b.pass.clone(),
        // Only a URL with a host has credentials and a port.
        "host" => { if a.host.is_none() {a.user = b.user.clone(); a.pass = b.pass.clone(); a.port = b.port; if b.path.is_empty() && a.path == "/" {a.path.clear();}} a.host = b.host.clone(); },
        "port" => a.port = b.port, "path" => a.path = b.path.clone(), "query" => a.query = b.query.clone(), _ => a.fragment = b.fragment.clone()
    }
    // Opaque paths lose trailing spaces when nothing follows them any more.
    if before.cannot_be_a_base() && matches!(comp, "query" | "fragment") && a.path.trim_end() == b.path.trim_end() {a.path = b.path.clone();}
    (a != b).then(|| format!("{b:?} became {:?}", comps(after)))
}
fn write_once(rec: &mut Rec, url: &Url, part: &Value, val: Option<&str>, sigmore: &str) {
    let (name, _) = model::var(part);
    let up: UrlPart = match de(part) { Ok(x) => x, Err(e) => {rec.fail("load", format!("{part}: {e}"), json!(null)); return;} };
    let mut b: BetterUrl = url.clone().into();
    // read
    let got = match guarded(|| up.get(&b).map(Cow::into_owned)) { Ok(x) => x, Err(p) => {rec.fail(format!("panic reading {name}"), format!("reading {part} of {url} panicked: {p}"), json!(null)); return;} };
    let want = model::part_get(url, part);
    if got != want {rec.fail(format!("read {name}"), format!("{part} of {url} reads {got:?}, defined as {want:?}"), json!({"url": url.as_str(), "part": part})); return;}
    rec.count(&format!("read {name}: {}", if got.is_some() {"present"} else {"absent"}));
    // write
    let mut m = url.clone();
    let Ok(mr) = guarded(|| model::part_set(&mut m, part, val)) else {rec.count("model gave no opinion"); return};
    let rr = match guarded(|| up.set(&mut b, val)) { Ok(x) => x, Err(p) => {rec.fail(format!("panic writing {name}"), format!("writing {val:?} to {part} of {url} panicked: {p}"), json!({"url": url.as_str(), "part": part, "value": val})); return;} };
    let d = || json!({"url": url.as_str(), "part": part, "value": val, "after": b.as_str(), "result": format!("{rr:?}"), "expected": m.as_str(), "expected result": format!("{mr:?}")});
    if rr.is_err() && b.as_str() != url.as_str() {rec.fail(format!("failed write of {name} changed the URL"), format!("the failed write of {val:?} to {part} turned {url} into {}", b.as_str()), d()); return;}
    if rr.is_ok() != mr.is_ok() {rec.fail(format!("write {name}: {}", if rr.is_ok() {"accepted"} else {"refused"}), format!("writing {val:?} to {part} of {url}: {rr:?}, expected {mr:?}"), d()); return;}
    if std::env::var_os("MON_PANIC").is_some() {eprintln!("{url} {part} {val:?} -> {}", b.as_str());}
    if rr.is_ok() {
        if b.as_str() != m.as_str() {rec.fail(format!("write {name}: value"), format!("writing {val:?} to {part} of {url} gives {}, expected {m}", b.as_str()), d()); return;}
        if let Some(x) = frame_bad(url, &b, component(name)) {rec.fail(format!("write {name}: other parts"), format!("writing {val:?} to {part} of {url} changed other parts: {x}"), d()); return;}
        // Writing back what is read changes nothing.
        let back = up.get(&b).map(Cow::into_owned);
        if back != model::part_get(&b, part) {rec.fail(format!("read {name} after write"), format!("{part} of {} reads {back:?}", b.as_str()), d()); return;}
    }
    rec.count(&format!("write {name}: {}", match (rr.is_ok(), b.as_str() != url.as_str()) { (true, true) => "changed", (true, false) => "no change", _ => "refused" }));
    rec.eval_hash(hash_str(url.as_str()) ^ hash_str(&part.to_string()).rotate_left(1) ^ hash_str(&format!("{val:?}{sigmore}")).rotate_left(2));
    rec.sample(d);
}
const ALL_PARTS: &[&str] = &["Whole", "Scheme", "Username", "Password", "Host", "HostWithoutWWWDotPrefixAndFqdnPeriod", "NextDomainSegment", "NextSubdomainSegment", "NextDomainSuffixSegment", "Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod", "Port", "Path", "NextPathSegment", "Query", "Fragment"];
const SEG_PARTS: &[&str] = &["DomainSegment", "BeforeDomainSegment", "AfterDomainSegment", "SubdomainSegment", "BeforeSubdomainSegment", "AfterSubdomainSegment", "DomainSuffixSegment", "BeforeDomainSuffixSegment", "AfterDomainSuffixSegment", "PathSegment", "BeforePathSegment", "AfterPathSegment"];
fn every_part() -> Vec<Value> {
    let mut v: Vec<Value> = ALL_PARTS.iter().map(|x| json!(x)).collect();
    for p in SEG_PARTS { for n in [-3, -2, -1, 0, 1, 2] { let mut m = serde_json::Map::new(); m.insert(p.to_string(), json!(n)); v.push(Value::Object(m)); } }
    for q in make::QNAMES { for i in [0, 1, 2] {v.push(json!({"QueryParam": {"name": q, "index": i}}));} v.push(json!({"QueryParam": q})); }
    v
}
const VALUES: &[Option<&str>] = &[None, Some(""), Some("a"), Some("www.example.org"), Some("b.c"), Some("é"), Some("日本"), Some("%20"), Some("a b"), Some("a&b=c"), Some("?x#y"), Some("/a//b"), Some("."), Some(".."), Some("80"), Some("443"), Some("65536"), Some("https"), Some("foo"), Some("127.0.0.1"), Some("[::1]"), Some("com"), Some("co.uk"), Some("example.com."), Some("+"), Some("\u{0}"), Some("a\tb"), Some("user:pw@h"), Some("http://other.test/p?q#f")];
pub const FIXED_URLS: &[&str] = &[
    "https://example.com/", "https://user:pw@a.b.example.co.uk:8080/a/b//c/?a=1&b=2&a=3&=x&b#frag", "http://www.example.com./x/", "http://127.0.0.1:80/?", "https://[2001:db8::1]:444/a#", "file:///etc/x", "file://host/a/b", "foo://h.example.com/a/b?c#d",
    "foo:/a/b", "foo:opaque?q#f", "mailto:a@b.c", "data:text/plain,a b  #x", "https://com/", "https://github.io/a", "https://a.github.io/a", "https://localhost:1/", "foo://user@h/", "foo:///x", "https://xn--bcher-kva.example/%E9?%61=%62+c&d=%FF#%20", "https://co.uk./", "ftp://f.example.com/a;b", "https://a.b.kawasaki.jp/?a&a&a=", "https://www.ck/?&&a=b&&", "wss://x.example.net/..?a=b=c#a=b&c=d",
];
fn u06_fixed(idx: u64, rec: &mut Rec) {
    let url = Url::parse(FIXED_URLS[idx as usize % FIXED_URLS.len()]).unwrap();
    for p in every_part() { for v in VALUES {write_once(rec, &url, &p, *v, "");} }
}
fn u06_random(r: &mut Rng, rec: &mut Rec) {
    let url = make::url(r);
    for _ in 0..6 {
        let (p, v) = { let mut g = G::new(r, &url); let p = g.part(); let v = g.partval(&p, 0); let v = match v { Value::String(x) => Some(x), _ => (!g.r.chance(1, 3)).then(|| g.text()) }; (p, v) };
        write_once(rec, &url, &p, v.as_deref(), "");
    }
}
/// Every part given every character.
fn u06_character(c: char, rec: &mut Rec) {
    let mut parts: Vec<Value> = ALL_PARTS.iter().map(|x| json!(x)).collect();
    for p in SEG_PARTS { let mut m = serde_json::Map::new(); m.insert(p.to_string(), json!(0)); parts.push(Value::Object(m)); }
    parts.push(json!({"QueryParam": {"name": "b", "index": 0}})); parts.push(json!({"QueryParam": c.to_string()}));
    for u in ["https://user:pw@a.b.example.co.uk:8080/a/b/c?a=1&b=2#frag", "foo://h/p?q#f"] {
        let url = Url::parse(u).unwrap();
        for p in &parts { for v in [c.to_string(), format!("x{c}y"), format!("{c}z")] {write_once(rec, &url, p, Some(&v), "");} }
    }
}
/// A history of writes, each judged.
fn u06_history(r: &mut Rng, rec: &mut Rec) {
    let mut url = make::url(r);
    for _ in 0..5 {
        let (p, v) = { let mut g = G::new(r, &url); let p = g.part(); let v = g.partval(&p, 0); let v = match v { Value::String(x) => Some(x), _ => (!g.r.chance(1, 3)).then(|| g.text()) }; (p, v) };
        write_once(rec, &url, &p, v.as_deref(), "h");
        let mut b: BetterUrl = url.clone().into();
        if let Ok(up) = de::<UrlPart>(&p) {let _ = guarded(|| up.set(&mut b, v.as_deref()).is_ok());}
        let next: Url = b.into();
        // The histories stay on texts that are faithful spellings.
        if Url::parse(next.as_str()).is_ok_and(|x| x == next) && next.as_str().len() < 2000 {url = next;}
    }
}

// ---------- U07 ----------
/// The list a segment part edits.
fn seg_list(u: &Url, base: &str) -> Option<Vec<String>> {
    let f = model::host_facts(u);
    let x = match base { "Path" => {if u.cannot_be_a_base() {return None;} return Some(u.path().strip_prefix('/')?.split('/').map(str::to_string).collect())}, "Domain" => f.domain, "Subdomain" => f.sub, _ => f.suffix };
    x.map(|x| x.split('.').map(str::to_string).collect())
}
fn list_edit(l: &[String], rel: &str, n: i64, v: Option<&str>) -> Result<Vec<String>, ()> {
    let len = l.len() as i64;
    let i = if n < 0 {n + len} else {n};
    let inside = i >= 0 && i < len;
    let mut out = l.to_vec();
    match (inside, v) {
        (false, None) => {}, (false, Some(_)) => return Err(()),
        (true, Some(x)) => match rel { "Before" => out.insert(i as usize, x.into()), "After" => out.insert(i as usize + 1, x.into()), _ => out[i as usize] = x.into() },
        (true, None) => if rel.is_empty() {out.remove(i as usize);}
    }
    Ok(out)
}
/// Every position of every list of one URL, judged against the list operation.
fn u07_url(url: &Url, values: &[Option<&str>], rec: &mut Rec) {
    for base in ["Path", "Domain", "Subdomain", "DomainSuffix"] {
        let list = seg_list(url, base);
        let len = list.as_ref().map_or(1, |l| l.len()) as i64;
        for n in (-len - 2..=len + 2).chain([i64::MIN, i64::MAX, -len * 2, len * 2]) {
            let mut m = serde_json::Map::new(); m.insert(format!("{base}Segment"), json!(n));
            let part: UrlPart = match de(&Value::Object(m)) { Ok(x) => x, Err(e) => {rec.fail("load", e, json!(null)); return;} };
            let b: BetterUrl = url.clone().into();
            let got = match guarded(|| part.get(&b).map(Cow::into_owned)) { Ok(x) => x, Err(p) => {rec.fail(format!("panic reading {base} segment"), format!("reading segment {n} of {base} of {url} panicked: {p}"), json!(null)); return;} };
            let want = list.as_ref().and_then(|l| { let i = if n < 0 {n.checked_add(len)?} else {n}; (i >= 0 && i < len).then(|| l[i as usize].clone()) });
            rec.eval_hash(hash_str(url.as_str()) ^ hash_str(base).rotate_left(1) ^ (n as u64).rotate_left(9));
            if got != want {rec.fail(format!("read {base} segment"), format!("segment {n} of the {base} of {url} reads {got:?}, the list has {want:?}"), json!({"url": url.as_str()})); return;}
            for rel in ["Before", "", "After"] { for v in values {
                let mut m = serde_json::Map::new(); m.insert(format!("{rel}{base}Segment"), json!(n));
                let pj = Value::Object(m);
                let Ok(part) = de::<UrlPart>(&pj) else {rec.fail("load", format!("{pj}"), json!(null)); return};
                let mut b: BetterUrl = url.clone().into();
                let rr = match guarded(|| part.set(&mut b, *v)) { Ok(x) => x, Err(p) => {rec.fail(format!("panic editing {base} segment"), format!("writing {v:?} to {pj} of {url} panicked: {p}"), json!(null)); return;} };
                rec.eval_hash(hash_str(url.as_str()) ^ hash_str(&format!("{pj}{v:?}")).rotate_left(3));
                let d = json!({"url": url.as_str(), "part": pj, "value": v, "after": b.as_str(), "result": format!("{rr:?}")});
                let sig = format!("edit {rel}{base} segment");
                if rr.is_err() && b.as_str() != url.as_str() {rec.fail(format!("{sig}: failed but changed"), format!("the failed write of {v:?} to {pj} turned {url} into {}", b.as_str()), d); return;}
                if let Some(x) = frame_bad(url, &b, if base == "Path" {"path"} else {"host"}) {rec.fail(format!("{sig}: other parts"), format!("writing {v:?} to {pj} of {url} changed other parts: {x}"), d); return;}
                let Some(l) = &list else { if rr.is_ok() {rec.fail(format!("{sig}: no list"), format!("{url} has no {base} segments but writing {v:?} to {pj} succeeded"), d); return;} continue; };
                let Ok(want) = list_edit(l, rel, n, *v) else { if rr.is_ok() {rec.fail(format!("{sig}: out of range"), format!("writing {v:?} to {pj} of {url} succeeded, giving {}", b.as_str()), d); return;} rec.count("out of range, refused"); continue; };
                // A list that spells nothing cannot be written (the first path segment and a host cannot be absent).
                if want.join(if base == "Path" {"/"} else {"."}).is_empty() {rec.count("nothing left"); continue;}
                if rr.is_err() {
                    // Hosts have rules of their own (validity, and files need not have one); paths accept every list.
                    if base == "Path" {rec.fail(format!("{sig}: refused"), format!("writing {v:?} to {pj} of {url} failed: {rr:?}"), d); return;}
                    rec.count("host refused"); continue;
                }
                if base != "Path" {
                    // The host is the edited list in place of the old one.
                    let f = model::host_facts(url);
                    if base == "DomainSuffix" && f.not_suffix.is_none() { rec.count("suffix only"); continue; }
                    let whole = match base { "Domain" => want.join("."), "Subdomain" => format!("{}.{}", want.join("."), f.reg.clone().unwrap_or_default()), _ => format!("{}.{}", f.not_suffix.clone().unwrap_or_default(), want.join(".")) };
                    let whole = if f.fqdn {format!("{whole}.")} else {whole};
                    let mut m = url.clone();
                    if m.set_host(Some(&whole)).is_ok() && m.as_str() != b.as_str() {rec.fail(format!("{sig}: host"), format!("writing {v:?} to {pj} of {url} gives {}, the list gives host {whole}", b.as_str()), d); return;}
                } else {
                    let got = seg_list(&b, "Path").unwrap_or_default();
                    if got != want {rec.fail(format!("{sig}: list"), format!("writing {v:?} to {pj} of {url} gives segments {got:?}, the list operation gives {want:?}"), d); return;}
                }
                rec.count(&format!("{rel}{base} edited"));
                rec.sample(|| d);
            } }
        }
    }
}
fn plain_path_url(r: &mut Rng) -> Url {
    // Segments that the standard's parser keeps as they are.
    let mut o = format!("{}://{}", r.pick(&["https", "http", "ftp", "foo"]), r.pick(&["example.com", "a.b.example.co.uk", "www.x.example.com.", "127.0.0.1", "[::1]", "localhost", "a.github.io", "p.q.r.s.kawasaki.jp"]));
    for _ in 0..1 + r.below(6) {o.push('/'); o.push_str(r.pick(&["a", "b", "c", "", "", "%20", "%2F", "%C3%A9", "x.y", "a;b", "a:b", "~", "A", "a=b&c", "...", "a"]));}
    if r.chance(1, 3) {o.push_str("?a=b/c&d");}
    if r.chance(1, 4) {o.push_str("#e/f");}
    Url::parse(&o).unwrap()
}
/// Appending a segment: the list (less an empty last segment, for paths) with one more.
fn u07_next(r: &mut Rng, rec: &mut Rec) {
    let url = if r.chance(1, 2) {plain_path_url(r)} else {make::url(r)};
    if url.scheme() == "file" {return;}
    for base in ["Path", "Domain", "Subdomain", "DomainSuffix"] {
        let list = if base == "Path" && !url.cannot_be_a_base() && url.path().is_empty() {Some(Vec::new())} else {seg_list(&url, base)};
        let v = match r.below(8) { 0 => None, 1..=3 => Some(r.pick(make::SEGS).to_string()), 4 => Some(make::word(r)), 5 => Some(r.pick(&["a/b", "%2F", "a%b", "x y", "é", "", "a?b#c", "a\\b", "..a", "/", "//", "a."]).to_string()), _ => Some(r.pick(&["new", "x-y", "0", "co", "uk", "www"]).to_string()) };
        let name = format!("Next{base}Segment");
        let Ok(part) = de::<UrlPart>(&json!(name)) else {rec.fail("load", name, json!(null)); return};
        let mut b: BetterUrl = url.clone().into();
        let read = guarded(|| part.get(&b).map(Cow::into_owned));
        if read != Ok(None) {rec.fail(format!("read {name}"), format!("{name} of {url} reads {read:?}"), json!(null)); return;}
        let rr = match guarded(|| part.set(&mut b, v.as_deref())) { Ok(x) => x, Err(p) => {rec.fail(format!("panic editing {name}"), format!("writing {v:?} to {name} of {url} panicked: {p}"), json!(null)); return;} };
        rec.eval_hash(hash_str(url.as_str()) ^ hash_str(&format!("{name}{v:?}")).rotate_left(3));
        let d = json!({"url": url.as_str(), "part": name, "value": v, "after": b.as_str(), "result": format!("{rr:?}")});
        if (rr.is_err() || v.is_none()) && b.as_str() != url.as_str() {rec.fail(format!("{name}: nothing to add but changed"), format!("writing {v:?} to {name} of {url} ({rr:?}) gave {}", b.as_str()), d); return;}
        if let Some(x) = frame_bad(&url, &b, if base == "Path" {"path"} else {"host"}) {rec.fail(format!("{name}: other parts"), format!("writing {v:?} to {name} of {url} changed other parts: {x}"), d); return;}
        let Some(mut l) = list else { if rr.is_ok() && v.is_some() {rec.fail(format!("{name}: no list"), format!("{url} has no {base} segments but writing {v:?} to {name} succeeded"), d); return;} continue; };
        let Some(v) = v else {rec.count("nothing appended"); continue};
        if base == "Path" {
            if rr.is_err() {rec.fail(format!("{name}: refused"), format!("writing {v:?} to {name} of {url} failed: {rr:?}"), d); return;}
            if l.last().is_some_and(|x| x.is_empty()) {l.pop();}
            let got = seg_list(&b, "Path").unwrap_or_default();
            // (Segments of dots, and tabs and line breaks, are dropped as in every URL.)
            if matches!(&*v, "." | "..") || v.contains(['\t', '\n', '\r']) {rec.count("dots and breaks"); continue;}
            let dec = got.last().map(|x| percent_encoding::percent_decode_str(x).decode_utf8_lossy().into_owned());
            // The url crate puts a segment after `//` in the place of both its empty ones.
            if l == [""] && got.len() == 1 {l.pop();}
            if got.len() != l.len() + 1 || got[..l.len()] != l[..] || dec.as_deref() != Some(&*v) { rec.fail(format!("{name}: list"), format!("writing {v:?} to {name} of {url} gives segments {got:?}, not {l:?} and that"), d); return; }
        } else {
            if rr.is_err() {rec.count("host refused"); continue;}
            let f = model::host_facts(&url);
            if base == "DomainSuffix" && f.not_suffix.is_none() {rec.count("suffix only"); continue;}
            l.push(v.clone());
            let whole = match base { "Domain" => l.join("."), "Subdomain" => format!("{}.{}", l.join("."), f.reg.clone().unwrap_or_default()), _ => format!("{}.{}", f.not_suffix.clone().unwrap_or_default(), l.join(".")) };
            let whole = if f.fqdn {format!("{whole}.")} else {whole};
            let mut m = url.clone();
            if m.set_host(Some(&whole)).is_ok() && m.as_str() != b.as_str() {rec.fail(format!("{name}: host"), format!("writing {v:?} to {name} of {url} gives {}, the list gives host {whole}", b.as_str()), d); return;}
        }
        rec.count(&format!("{name} appended"));
    }
}
/// String segments: every position of split lists, against the list operations.
fn u07_strings(r: &mut Rng, rec: &mut Rec) {
    let sep = *r.pick(&["/", "-", "ab", ".", "日", "&", "aa", " "]);
    let n = r.below(6);
    let words: Vec<String> = (0..=n).map(|_| r.pick(&["", "x", "y", "zz", "é", "q", "w.w", "1", ""]).replace(sep, "_")).collect();
    let text = words.join(sep);
    let list: Vec<String> = text.split(sep).map(str::to_string).collect();
    let len = list.len() as i64;
    let val = *r.pick(&["", "new", "é", "N"]);
    let w = World {params: json!({}), commons: json!({}), ..Default::default()};
    let Ok(rw) = real_world(&w) else {rec.fail("load", "empty world", json!(null)); return};
    let idx = |i: i64| -> Option<usize> { let j = if i < 0 {i + len} else {i}; (j >= 0 && j < len).then_some(j as usize) };
    let ins = |i: i64| -> Option<usize> { if i == len {Some(len as usize)} else {idx(i)} };
    let mut judge = |prog: Value, want: Option<String>| -> bool {
        let p = Prog {kind: Kind::Modification, prog: &prog, url: "https://example.com/", pad: &Default::default(), args: None, text: &text, needle: ""};
        rec.eval_hash(hash_str(&prog.to_string()) ^ hash_str(&text).rotate_left(1));
        match run_real_in(&p, &rw) {
            Err(e) => rec.fail("load", e, json!({"program": prog})),
            Ok(Err(p)) => rec.fail(format!("panic in {}", panic_place(&p)), format!("{prog} on {text:?} panicked: {p}"), json!({"program": prog, "text": text})),
            Ok(Ok(o)) => {
                let got = o.result.is_ok().then(|| o.text.clone().unwrap_or_default());
                if got == want && (want.is_some() || o.text.as_deref() == Some(&text)) {rec.count(if want.is_some() {"string edit"} else {"string edit refused"}); return true;}
                rec.fail(format!("string {}", model::var(&prog).0), format!("{prog} on {text:?} gives {got:?} (text {:?}), the list operation gives {want:?}", o.text), json!({"program": prog, "text": text}));
            }
        }
        false
    };
    for i in -len - 2..=len + 2 {
        if !judge(json!({"KeepNthSegment": {"split": sep, "index": i}}), idx(i).map(|j| list[j].clone())) {return;}
        if !judge(json!({"SetSegment": {"split": sep, "index": i, "value": val}}), idx(i).map(|j| {let mut l = list.clone(); l[j] = val.into(); l.join(sep)})) {return;}
        if !judge(json!({"SetSegment": {"split": sep, "index": i, "value": null}}), idx(i).map(|j| {let mut l = list.clone(); l.remove(j); l.join(sep)})) {return;}
        if !judge(json!({"InsertSegment": {"split": sep, "index": i, "value": val}}), ins(i).map(|j| {let mut l = list.clone(); l.insert(j, val.into()); l.join(sep)})) {return;}
        for e in (-len - 2..=len + 2).map(Some).chain([None]) {
            let want = ins(i).and_then(|a| { let b = match e { Some(e) => ins(e)?, None => len as usize }; (a <= b).then(|| list[a..b].join(sep)) });
            if !judge(json!({"KeepSegmentRange": {"split": sep, "start": i, "end": e}}), want) {return;}
        }
    }
}
/// A sequence of path edits keeps acting on the list.
fn u07_history(r: &mut Rng, rec: &mut Rec) {
    let mut b: BetterUrl = plain_path_url(r).into();
    let mut list = seg_list(&b, "Path").unwrap_or_default();
    let start = b.as_str().to_string();
    let mut log = Vec::new();
    for _ in 0..8 {
        let len = list.len() as i64;
        let n = r.range(-len - 1, len + 1);
        let rel = *r.pick(&["Before", "", "After"]);
        let v = (!r.chance(1, 3)).then(|| *r.pick(&["n", "m", "", "%41", "x.y"]));
        let mut m = serde_json::Map::new(); m.insert(format!("{rel}PathSegment"), json!(n));
        let pj = Value::Object(m);
        let Ok(part) = de::<UrlPart>(&pj) else {return};
        log.push(json!({"part": pj, "value": v}));
        let before = b.as_str().to_string();
        let rr = guarded(|| part.set(&mut b, v).is_ok());
        let want = list_edit(&list, rel, n, v).ok().filter(|l| !l.join("/").is_empty());
        match (&rr, &want) {
            (Ok(true), Some(l)) => list = l.clone(),
            (Ok(false), None) => if b.as_str() != before {rec.fail("history: failed but changed", format!("{before} became {}", b.as_str()), json!(log)); return;},
            _ => {rec.fail("history: outcome", format!("{pj} := {v:?} on {before}: {rr:?}, list operation {want:?}"), json!({"start": start, "history": log})); return;}
        }
        let got = seg_list(&b, "Path").unwrap_or_default();
        rec.eval_hash(hash_str(&format!("{start}{log:?}")));
        if got != list {rec.fail("history: list", format!("after {pj} := {v:?} on {before} the segments are {got:?}, the list is {list:?}"), json!({"start": start, "history": log})); return;}
    }
    rec.count("histories");
}

pub fn run(cfg: &Cfg) -> i32 {
    let mut rec = crate::sizes::sizes(cfg);
    match &*cfg.pid {
        "U05" => {
            rec.merge(cases(cfg, "history", cfg.n(150_000, 8_000_000), u05_case));
            finish(cfg, rec, "exploration", "random edit histories (up to 8 edits by part writes and by direct setters) over URLs of all schemes and host kinds; after every edit, successful or not, all host accessors are compared with facts computed afresh from the current host and the public suffix list, and failed edits must not change the text; distinct by start URL and history of edit kinds, outcomes and host kinds",
                vec!["the psl and url crates define suffixes and host parsing for code and oracle alike"])
        },
        "U06" => {
            rec.merge(cases_idx(cfg, "fixed", FIXED_URLS.len() as u64, u06_fixed));
            let chars: Vec<char> = (0..0x110000u32).filter(|c| *c < 0x180 || (*c < 0x3100 && c % 29 == 0) || c % if cfg.thorough {97} else {4999} == 0 || (0xFE00..0xFFF0).contains(c) && c % 4 == 2).filter_map(char::from_u32).collect();
            rec.merge(cases_idx(cfg, "every character", chars.len() as u64, |i, rec| u06_character(chars[i as usize], rec)));
            rec.merge(cases(cfg, "random", cfg.n(60_000, 4_000_000), u06_random));
            rec.merge(cases(cfg, "history", cfg.n(20_000, 1_000_000), u06_history));
            finish(cfg, rec, "exploration", "every part x a fixed list of hostile values x fixed URLs of every shape, and every (quick: every Latin, some other) character in every part, plus random parts, values and URLs; each read and write is compared with an independent definition of the part, and all other components must be unchanged; distinct by URL, part and value",
                vec!["the url crate's own component setters define percent-encoding and validity"])
        },
        _ => {
            rec.merge(cases(cfg, "positions", cfg.n(1_500, 60_000), |r, rec| {let u = plain_path_url(r); u07_url(&u, &[None, Some("n"), Some(""), Some("%2F")], rec)}));
            rec.merge(cases(cfg, "any url", cfg.n(800, 30_000), |r, rec| {let u = make::url(r); if u.scheme() != "file" {u07_url(&u, &[None, Some("n")], rec)}}));
            rec.merge(cases(cfg, "next", cfg.n(60_000, 2_000_000), u07_next));
            rec.merge(cases(cfg, "strings", cfg.n(2_500, 100_000), u07_strings));
            rec.merge(cases(cfg, "path history", cfg.n(20_000, 1_000_000), u07_history));
            finish(cfg, rec, "exploration", "for each generated URL or string, every position from two before the start to two past the end (and the extreme integers), every edit (read, replace, remove, insert before/after, keep range) is compared with the same operation on a plain list; distinct by URL or text, position, edit and value",
                vec!["file URLs are left out (the url crate normalises their paths on its own)"])
        }
    }
}
