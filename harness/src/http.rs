//! U19 and U20: what is sent over HTTP on behalf of a task, and what is made of the answer.
//! Loopback servers record every request byte for byte and answer from a script.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use serde_json::{json, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;
use crate::core::*;
use crate::model::decode_pairs;
use crate::real::de;
use crate::rng::{hash_str, Rng};

#[derive(Clone, Debug, PartialEq)]
pub struct Req { pub method: String, pub target: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Req {
    pub fn all(&self, k: &str) -> Vec<&str> { self.headers.iter().filter(|h| h.0 == k).map(|h| &*h.1).collect() }
    pub fn show(&self) -> Value { json!({"method": self.method, "target": self.target, "headers": self.headers, "body": String::from_utf8_lossy(&self.body)}) }
}
type Script = Box<dyn Fn(&Req) -> Vec<u8> + Send>;
pub struct Srv { pub port: u16, script: Arc<Mutex<Script>>, log: Arc<Mutex<Vec<Req>>>, stop: Arc<AtomicBool>, thread: Option<std::thread::JoinHandle<()>>, pub conns: Arc<std::sync::atomic::AtomicU64> }
impl Srv {
    /// The answer is the bytes to send; an empty answer closes the connection.
    pub fn start(f: impl Fn(&Req) -> Vec<u8> + Send + 'static) -> Srv {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let (log, stop) = (Arc::new(Mutex::new(Vec::new())), Arc::new(AtomicBool::new(false)));
        let conns = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let script: Arc<Mutex<Script>> = Arc::new(Mutex::new(Box::new(f)));
        let (log2, stop2, conns2, f) = (log.clone(), stop.clone(), conns.clone(), script.clone());
        let thread = std::thread::spawn(move || {
            for c in l.incoming() {
                if stop2.load(Ordering::SeqCst) {break;}
                let Ok(mut c) = c else {continue};
                conns2.fetch_add(1, Ordering::SeqCst);
                c.set_read_timeout(Some(std::time::Duration::from_secs(10))).ok();
                if let Some(q) = read_request(&mut c) {
                    let a = (f.lock().unwrap())(&q);
                    log2.lock().unwrap().push(q);
                    let _ = c.write_all(&a);
                    let _ = c.flush();
                }
                let _ = c.shutdown(std::net::Shutdown::Write);
            }
        });
        Srv {port, script, log, stop, thread: Some(thread), conns}
    }
    pub fn seen(&self) -> Vec<Req> { self.log.lock().unwrap().clone() }
    /// Forgets what was seen, and answers from another script.
    pub fn reset(&self, f: impl Fn(&Req) -> Vec<u8> + Send + 'static) { *self.script.lock().unwrap() = Box::new(f); self.log.lock().unwrap().clear(); self.conns.store(0, Ordering::SeqCst); }
}
impl Drop for Srv { fn drop(&mut self) { self.stop.store(true, Ordering::SeqCst); let _ = TcpStream::connect(("127.0.0.1", self.port)); if let Some(t) = self.thread.take() {let _ = t.join();} } }
/// A port that is taken but on which nothing listens: connecting to it is refused.
pub fn dead_port() -> u16 {
    // SAFETY: plain socket calls on a descriptor of our own, with a valid address.
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16; a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        assert!(libc::bind(fd, (&raw const a).cast(), n) == 0 && libc::getsockname(fd, (&raw mut a).cast(), &raw mut n) == 0);
        u16::from_be(a.sin_port)
    }
}
thread_local! { static POOL: std::cell::RefCell<(Vec<Arc<Srv>>, u16, u32)> = const {std::cell::RefCell::new((Vec::new(), 0, 0))}; }
/// This thread's servers, and its dead port. (New ones now and then, not to run out of connection numbers.)
pub fn pool(n: usize) -> (Vec<Arc<Srv>>, u16) { POOL.with(|p| { let mut p = p.borrow_mut(); p.2 += 1; if p.2 % 3000 == 0 {p.0.clear();} while p.0.len() < n {p.0.push(Arc::new(Srv::start(|_| Vec::new())));} if p.1 == 0 {p.1 = dead_port();} (p.0[..n].to_vec(), p.1) }) }
fn read_request(c: &mut TcpStream) -> Option<Req> {
    let mut b = Vec::new();
    let mut buf = [0; 4096];
    let head = loop {
        if let Some(i) = b.windows(4).position(|w| w == b"\r\n\r\n") {break i;}
        let n = c.read(&mut buf).ok()?;
        if n == 0 {return None;}
        b.extend_from_slice(&buf[..n]);
    };
    let text = String::from_utf8_lossy(&b[..head]).into_owned();
    let mut lines = text.split("\r\n");
    let mut first = lines.next()?.split(' ');
    let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string()))).collect();
    let want: Option<usize> = headers.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok());
    let mut body = b[head + 4..].to_vec();
    while body.len() < want.unwrap_or(0) { let n = c.read(&mut buf).ok()?; if n == 0 {break;} body.extend_from_slice(&buf[..n]); }
    Some(Req {method, target, headers, body})
}
pub fn answer(status: u16, headers: &[(String, String)], body: &[u8]) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {status} X\r\nconnection: close\r\n").into_bytes();
    for (k, v) in headers {o.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());}
    if !headers.iter().any(|h| h.0.eq_ignore_ascii_case("content-length") || h.0.eq_ignore_ascii_case("transfer-encoding")) {o.extend_from_slice(format!("content-length: {}\r\n", body.len()).as_bytes());}
    o.extend_from_slice(b"\r\n");
    o.extend_from_slice(body);
    o
}

// ---------------------------------------------------------------- U19

const NAMES: &[&str] = &["x-a", "x-b", "user-agent", "accept", "x-empty", "content-type", "cookie", "dnt", "authorization", "referer", "if-none-match", "range", "accept-language", "origin", "cache-control", "x", "x-forwarded-for", "accept-encoding", "x-aa"];
const VALUES: &[&str] = &["1", "Firefox", "a b", "text/plain", "k=v; l=w", "", "é", "\"q\"", "a,b", "x;y=\"z\"", "a: b", "%41", "null", "ß日本\u{1F600}", "a\tb", "0"];
fn header_map(r: &mut Rng, max: usize) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = (0..r.below(max + 1)).map(|_| (r.pick(NAMES).to_string(), r.pick(VALUES).to_string())).collect();
    if r.chance(1, 40) {for i in 0..*r.pick(&[4, 8, 9, 16, 17, 32, 33, 60]) {m.insert(format!("x-n{i}"), format!("{}{i}", r.pick(VALUES)));}}
    if r.chance(1, 40) {m.insert("x-long".into(), "v".repeat(*r.pick(&[63, 64, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 9000])));}
    m
}
/// Upper-cased names are the same headers.
fn spell(r: &mut Rng, m: &BTreeMap<String, String>) -> Value { Value::Object(m.iter().map(|(k, v)| (if r.chance(1, 3) {k.to_uppercase()} else {k.clone()}, json!(v))).collect()) }

/// One value a string source of the request gives.
fn source(r: &mut Rng, v: Option<&str>, url_frag: &str) -> Value {
    match v {
        None => match r.below(3) { 0 => Value::Null, 1 => json!({"Var": "unset"}), _ => json!({"ExtractPart": {"value": url_frag.split('#').next().unwrap(), "part": "Fragment"}}) },
        Some(v) => match r.below(4) { 0 => json!({"Join": {"sources": [&v[..v.char_indices().nth(1).map_or(v.len(), |x| x.0)], &v[v.char_indices().nth(1).map_or(v.len(), |x| x.0)..]]}}), 1 => json!({"NoneTo": {"value": {"Var": "unset"}, "if_none": v}}), _ => json!(v) },
    }
}
fn json_value(r: &mut Rng, d: u32) -> (Value, Value) {
    // The description of a JSON body, and the body it describes.
    match r.below(if d == 0 {5} else {8}) {
        0 => { let s = *r.pick(&["", "a", "é\"", "null", "1"]); (json!(s), json!(s)) },
        1 => { let n = *r.pick(&[0i64, -1, 7, i64::MAX, i64::MIN]); (json!(n), json!(n)) },
        2 => { let n = *r.pick(&[1.5f64, -0.25, 1e300]); (json!({"Number": n}), json!(n)) },
        3 => { let s = *r.pick(&["v", "wörld"]); (json!({"String": {"NoneTo": {"value": {"Var": "unset"}, "if_none": s}}}), json!(s)) },
        4 => if r.chance(1, 2) {let b = r.chance(1, 2); (if r.chance(1, 2) {json!(b)} else {json!({"Bool": b})}, json!(b))} else {(Value::Null, Value::Null)},
        5 | 6 => { let x: Vec<_> = (0..r.below(4)).map(|_| json_value(r, d - 1)).collect(); let a: Vec<Value> = x.iter().map(|x| x.0.clone()).collect(); (if r.chance(1, 2) {json!(a)} else {json!({"Array": a})}, Value::Array(x.into_iter().map(|x| x.1).collect())) },
        _ => { let x: Vec<_> = (0..r.below(4)).map(|i| (format!("k{i}"), json_value(r, d - 1))).collect(); (json!({"Object": x.iter().map(|(k, x)| (k.clone(), x.0.clone())).collect::<serde_json::Map<_, _>>()}), Value::Object(x.into_iter().map(|(k, x)| (k, x.1)).collect())) },
    }
}
#[derive(Clone, Debug)]
enum Body { None, Text(String), Form(BTreeMap<String, String>), Json(Value) }

fn requests(cfg: &Cfg) -> Rec {
    cases(cfg, "requests", cfg.n(24_000, 600_000), |r, rec| {
        // The answers: a chain of redirects, then a page.
        let hops = if r.chance(1, 3) {if r.chance(1, 8) {6 + r.below(9)} else {1 + r.below(5)}} else {0};
        let kinds: Vec<u16> = (0..hops).map(|_| *r.pick(&[301u16, 302, 303, 307, 308])).collect();
        let absolute: Vec<bool> = (0..hops).map(|_| r.chance(1, 2)).collect();
        let status = *r.pick(&[200u16, 200, 200, 404, 500, 204, 201]);
        let (ctype, body, text): (&str, Vec<u8>, String) = match r.below(6) {
            0 => ("text/plain; charset=iso-8859-1", b"caf\xe9 \xfc".to_vec(), "café ü".into()), 1 => ("text/html; charset=utf-8", "é<b>\u{1F600}".as_bytes().to_vec(), "é<b>\u{1F600}".into()),
            2 => ("application/json", b"{\"a\": [1]}\n".to_vec(), "{\"a\": [1]}\n".into()), 3 => ("text/plain", b"\r\n a \0 b".to_vec(), "\r\n a \0 b".into()),
            4 => ("text/plain", b"x".repeat(if r.chance(1, 20) {1_000_000 + r.below(2_000_000)} else {50_000 + r.below(100_000)}), String::new()), 5 if r.chance(1, 2) => { let x = *r.pick(&["x\n", "\n", " ", "x\r\n\r\n", "\u{a0}", "&amp;%41", "\"x\""]); ("text/plain", x.as_bytes().to_vec(), x.to_string()) }, _ => ("", Vec::new(), String::new()),
        };
        let text = if text.is_empty() {String::from_utf8(body.clone()).unwrap()} else {text};
        let (body, text) = if status == 204 {(Vec::new(), String::new())} else {(body, text)};
        let mut heads: Vec<(String, String)> = vec![("X-Reply".into(), "one".into()), ("x-reply".into(), "two".into()), ("X-Blank".into(), "".into()), ("Set-Cookie".into(), "sid=abc; Path=/; HttpOnly".into()), ("Set-Cookie".into(), "sid=later".into()), ("Set-Cookie".into(), "other=x=y".into()), ("Set-Cookie".into(), "blank=".into()), ("Set-Cookie".into(), "SID=upper".into()), ("Set-Cookie".into(), "coded=%41+b".into())];
        if r.chance(1, 30) { let n = r.below(60); for i in 0..n {heads.insert(0, (format!("X-More{i}"), format!("{i}")));} heads.push(("X-Last".into(), "l".repeat(3000))); }
        if !ctype.is_empty() {heads.push(("content-type".into(), ctype.into()));}
        // Whether the connection fails, and how.
        let fault = if r.chance(1, 8) {1 + r.below(4)} else {0}; let fault = if fault == 3 && status == 204 {2} else {fault}; // 1: nothing listens; 2: closes without answering; 3: ends early; 4: not HTTP
        let chunked = fault == 0 && status != 204 && r.chance(1, 4);
        let last = {
            let (heads, body) = (heads.clone(), body.clone());
            move || match fault { 2 => Vec::new(), 3 => { let mut h = heads.clone(); h.push(("content-length".into(), (body.len() + 10).to_string())); answer(status, &h, &body) }, 4 => b"garbage\r\n\r\n".to_vec(),
                _ if chunked => { let mut h = heads.clone(); h.push(("transfer-encoding".into(), "chunked".into())); let mut b = Vec::new(); for c in body.chunks(7000.max(1)) {b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes()); b.extend_from_slice(c); b.extend_from_slice(b"\r\n");} b.extend_from_slice(b"0\r\n\r\n"); answer(status, &h, &b) }, _ => answer(status, &heads, &body) }
        };
        let port = Arc::new(Mutex::new(0u16));
        let make = |kinds: Vec<u16>, absolute: Vec<bool>, last: Box<dyn Fn() -> Vec<u8> + Send>, port: Arc<Mutex<u16>>| move |q: &Req| {
            let path = q.target.strip_prefix("http://").map_or(&*q.target, |x| x.find('/').map_or("/", |i| &x[i..]));
            let at: usize = path.strip_prefix("/hop").and_then(|x| x.split('?').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
            if at < kinds.len() { let to = format!("/hop{}", at + 1); return answer(kinds[at], &[("location".into(), if absolute[at] {format!("http://127.0.0.1:{}{to}", port.lock().unwrap())} else {to})], b"moved"); }
            last()
        };
        let (pool, dead) = pool(3);
        for s in &pool {s.reset(make(kinds.clone(), absolute.clone(), Box::new(last.clone()), port.clone()));}
        let (origin, proxies) = (&pool[0], &pool[1..]);
        *port.lock().unwrap() = origin.port;
        let to_port = if fault == 1 {dead} else {origin.port};

        // The client: defaults, and the request's own changes to them.
        let (dh, ah) = (header_map(r, 4), header_map(r, 3));
        let mut eff: BTreeMap<String, String> = dh.clone(); eff.extend(ah.clone());
        let policy = |r: &mut Rng| match r.below(5) { 0 => (Value::Null, None), 1 => (json!("None"), Some(None)), _ => {let n = r.below(7); (json!({"Limited": n}), Some(Some(n)))} };
        let ((p1, e1), (p2, e2)) = (policy(r), policy(r));
        let limit: Option<usize> = e2.or(e1).unwrap_or(Some(10));
        let opt = |r: &mut Rng, p: usize| if r.chance(1, p) {Some(r.chance(1, 2))} else {None};
        let (ho1, ho2, ref1, ref2, np1, np2) = (opt(r, 10), opt(r, 12), opt(r, 2), opt(r, 3), opt(r, 4), opt(r, 6));
        let https_only = ho2.or(ho1).unwrap_or(false);
        let referer = ref2.or(ref1).unwrap_or(false);
        let no_proxy = np2.or(np1).unwrap_or(false);
        // Proxies: which server, which schemes, what credentials.
        type P = (usize, &'static str, u8);
        let mut prox = |r: &mut Rng| -> Vec<P> { (0..r.below(3)).map(|_| (r.below(2), ["All", "Http", "Https"][r.below(3)], r.below(3) as u8)).collect() };
        let (l1, set, add) = (if r.chance(1, 3) {prox(r)} else {vec![]}, if r.chance(1, 6) {Some(prox(r))} else {None}, if r.chance(1, 6) {prox(r)} else {vec![]});
        let used: Vec<P> = set.clone().unwrap_or(l1.clone()).into_iter().chain(add.clone()).collect();
        let via: Option<P> = if no_proxy {None} else {used.iter().find(|p| p.1 != "Https").copied()};
        let pj = |r: &mut Rng, l: &[P]| -> Value { l.iter().map(|p| { let u = format!("http://127.0.0.1:{}/", proxies[p.0].port); if p.1 == "All" && p.2 == 0 && r.chance(1, 2) {return json!(u);} let mut o = json!({"url": u}); if p.1 != "All" || r.chance(1, 2) {o["mode"] = json!(p.1);} match p.2 { 1 => o["auth"] = json!({"Basic": {"username": "u", "password": "p:w"}}), 2 => o["auth"] = json!({"Custom": "Custom é"}), _ => {} } o }).collect() };
        let bad_cert = r.chance(1, 12); let drop_cert = bad_cert && r.chance(1, 2);
        let mut hc = json!({}); let mut df = json!({});
        if !dh.is_empty() {hc["default_headers"] = spell(r, &dh);} if !ah.is_empty() {df["add_default_headers"] = spell(r, &ah);}
        if !p1.is_null() {hc["redirect_policy"] = p1;} if !p2.is_null() {df["redirect_policy"] = p2;}
        if let Some(x) = ho1 {hc["https_only"] = json!(x);} if let Some(x) = ho2 {df["https_only"] = json!(x);}
        if let Some(x) = ref1 {hc["referer"] = json!(x);} if let Some(x) = ref2 {df["referer"] = json!(x);}
        if let Some(x) = np1 {hc["no_proxy"] = json!(x);} if let Some(x) = np2 {df["no_proxy"] = json!(x);}
        if !l1.is_empty() {hc["proxies"] = pj(r, &l1);} if let Some(s) = &set {df["set_proxies"] = pj(r, s);} if !add.is_empty() {df["add_proxies"] = pj(r, &add);}
        if bad_cert {if r.chance(1, 2) {hc["extra_certificates"] = json!(["-----BEGIN CERTIFICATE-----\n!\n-----END CERTIFICATE-----"]);} else {df["add_extra_certificates"] = json!(["-----BEGIN CERTIFICATE-----\n!\n-----END CERTIFICATE-----"]);}}
        if drop_cert {df["remove_extra_certificates"] = json!(["-----BEGIN CERTIFICATE-----\n!\n-----END CERTIFICATE-----"]);}

        // The request.
        let task_url = format!("http://127.0.0.1:{to_port}/hop0?q=é%20&r=1#frag");
        let own_url = r.chance(1, 3).then(|| format!("http://127.0.0.1:{to_port}/{}", *r.pick(&["", "hop0", "p/a th?x", "%zz?a=b&a=c", "?", "hop0?", "p?", "p/?a=b&", "p;v=1?=", "p//x/", "p/%2F%3f?%26=+", "P?q=A%20b", "p?é", "p?x#", "p#?"])));
        let dest = url::Url::parse(own_url.as_deref().unwrap_or(&task_url)).unwrap();
        let method = *r.pick(&["GET", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "PROPFIND"]);
        let rh: BTreeMap<String, Option<String>> = header_map(r, 3).into_iter().map(|(k, v)| (k, (!r.chance(1, 5)).then_some(v))).collect();
        let bad = if r.chance(1, 14) {1 + r.below(4)} else {0}; // 1: bad header name; 2: line break in a value; 3: the URL is nothing; 4: the body is nothing
        let body_kind = match r.below(6) { 0 | 1 => Body::Text(if r.chance(1, 30) {"b".repeat(*r.pick(&[255, 256, 4096, 65_535, 65_536, 65_537, 1_048_577]))} else {r.pick(&["", "a=b", "é\n\0", "{}", " x ", "x\n", "\u{feff}x", "%41+", "\r\n", "\"q\""]).to_string()}), 2 => Body::Form([("a", "1 &="), ("é", "ü"), ("", "x"), ("gone", "")].into_iter().filter(|_| r.chance(1, 2)).map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>().into_iter().chain((0..if r.chance(1, 20) {*r.pick(&[8, 16, 17, 33, 65, 257])} else {0}).map(|i| (format!("n{i}"), format!("{}{i}", r.pick(VALUES))))).collect()), 3 => Body::Json(Value::Null), _ => Body::None };
        let mut q = json!({});
        if let Some(u) = &own_url {q["url"] = source(r, Some(u), &task_url);}
        if method != "GET" || r.chance(1, 3) {q["method"] = json!(method);}
        let mut hj = serde_json::Map::new();
        for (k, v) in &rh { hj.insert(if r.chance(1, 3) {k.to_uppercase()} else {k.clone()}, source(r, v.as_deref(), &task_url)); }
        if bad == 1 {hj.insert(r.pick(&["bad name", "x-pad ", " x-pad", "", "x:y", "x-é", "x-tab\t", "x-nl\n"]).to_string(), json!("x"));} if bad == 2 {hj.insert("x-break".into(), json!("a\r\nx-evil: 1"));}
        if !hj.is_empty() {q["headers"] = Value::Object(hj);}
        let mut bod = body_kind.clone();
        match &body_kind { Body::None => {}, Body::Text(t) => q["body"] = json!({"Text": if bad == 4 {Value::Null} else {source(r, Some(t), &task_url)}}),
            Body::Form(m) => { let mut o = serde_json::Map::new(); for (k, v) in m {o.insert(k.clone(), source(r, if k == "gone" {None} else {Some(v)}, &task_url));} q["body"] = json!({"Form": o}); let mut m = m.clone(); m.remove("gone"); bod = Body::Form(m); },
            Body::Json(_) => { let (d, v) = json_value(r, 3); q["body"] = json!({"Json": d}); bod = Body::Json(v); } }
        if bad == 3 {q["url"] = json!({"Var": "unset"});}
        if df != json!({}) || r.chance(1, 4) {q["client_config_diff"] = df.clone();}
        let want_part = r.below(5);
        let (handler, field): (Value, &str) = match want_part { 0 => (json!({"Header": *r.pick(&["X-Reply", "x-reply", "X-REPLY"])}), "one"), 1 => (json!("Url"), ""), 2 => (json!({"Cookie": "sid"}), "abc"), 3 => match r.below(12) { 4 => (json!({"Header": "x-repl"}), "!"), 5 => (json!({"Header": "X-Blank"}), ""), 6 => (json!({"Cookie": "SID"}), "upper"), 7 => (json!({"Cookie": "si"}), "!"), 8 => (json!({"Cookie": "blank"}), ""), 9 => (json!({"Cookie": "coded"}), "%41+b"), 10 => (json!({"Cookie": ""}), "!"), 11 => (json!({"Cookie": "Sid"}), "!"), 0 => (json!({"Header": "x-none"}), "!"), 1 => (json!({"Cookie": "none"}), "!"), 2 => (json!({"Header": null}), "!"), _ => (json!({"Cookie": "other"}), "x=y") }, _ => (json!("Body"), "") };
        if want_part != 4 || r.chance(1, 2) {q["response_handler"] = handler;}
        let fails_before = bad == 1 || bad == 2 || bad == 3 || (bad == 4 && matches!(body_kind, Body::Text(_))) || https_only || (bad_cert && !drop_cert);

        let src: StringSource = match de(&json!({"HttpRequest": q})) { Ok(x) => x, Err(e) => {rec.fail("request: cannot be loaded", format!("{q} cannot be loaded: {e}"), q); return;} };
        let params: Params = match de(&json!({"http_client_config": hc})) { Ok(x) => x, Err(e) => {rec.fail("client: cannot be loaded", format!("{hc} cannot be loaded: {e}"), hc); return;} };
        let mut url = BetterUrl::parse(&task_url).unwrap();
        let (mut pad, ctx, job, commons, cache) = (JobScratchpad::default(), TaskContext::default(), JobContext::default(), Commons::default(), Cache::default());
        let got = { let st = TaskState {url: &mut url, scratchpad: &mut pad, common_args: None, context: &ctx, job_context: &job, params: &params, commons: &commons, cache: &cache};
            guarded(|| src.get(&st.to_view()).map(|x| x.map(|x| x.into_owned())).map_err(|e| e.to_string())) };
        let by_proxy = via.is_some();
        let (seen, others): (Vec<Req>, usize) = match via { Some(p) => (proxies[p.0].seen(), origin.seen().len() + proxies[1 - p.0].seen().len()), None => (origin.seen(), proxies[0].seen().len() + proxies[1].seen().len()) };
        let detail = json!({"request": q, "client": hc, "answers": {"redirects": kinds, "status": status, "fault": fault}, "seen": seen.iter().map(Req::show).collect::<Vec<_>>(), "at other servers": others});
        macro_rules! bad { ($sig:expr, $($x:tt)*) => {{ rec.fail($sig, format!($($x)*), detail.clone()); return; }} }
        rec.eval_hash(hash_str(&format!("{q}{hc}{kinds:?}{status}{fault}{chunked}")));
        rec.count(&format!("{} requests seen", if by_proxy {"proxied"} else {"direct"})); rec.add("requests", seen.len() as u64);
        rec.sample(|| detail.clone());
        let got = match got { Err(p) => bad!("panic", "panic: {p}"), Ok(x) => x };
        if others != 0 {bad!("elsewhere", "{others} requests went to a server that was not to be used");}
        if fails_before { rec.count("requests that must not be sent"); if !seen.is_empty() {bad!("sent all the same", "a request that cannot be made was sent");} if got.is_ok() {bad!("no error", "a request that cannot be made gives {got:?}");} return; }
        if fault == 1 && !by_proxy { rec.count("refused connections"); if got.is_ok() {bad!("no error", "nothing listens, yet the result is {got:?}");} return; }
        // The first request.
        let Some(first) = seen.first() else { bad!("nothing sent", "nothing was sent; the result is {got:?}") };
        let path = format!("{}{}", dest.path(), dest.query().map(|x| format!("?{x}")).unwrap_or_default());
        let target = if by_proxy {format!("http://127.0.0.1:{to_port}{path}")} else {path.clone()};
        if first.method != method {bad!("method", "the method is {} rather than {method}", first.method);}
        if first.target != target {bad!("target", "the target is {} rather than {target}", first.target);}
        let mut want: BTreeMap<String, String> = [("accept".to_string(), "*/*".to_string()), ("host".into(), format!("127.0.0.1:{to_port}"))].into();
        want.extend(eff.clone());
        for (k, v) in &rh { if let Some(v) = v {want.insert(k.clone(), v.clone());} }
        let own_type = rh.get("content-type").is_some_and(|x| x.is_some());
        match &bod { Body::Form(_) if !own_type => {want.insert("content-type".into(), "application/x-www-form-urlencoded".into());}, Body::Json(_) if !own_type => {want.insert("content-type".into(), "application/json".into());}, _ => {} }
        if by_proxy { match via.unwrap().2 { 1 => {want.insert("proxy-authorization".into(), "Basic dTpwOnc=".into());}, 2 => {want.insert("proxy-authorization".into(), "Custom é".into());}, _ => {} } }
        let framing: BTreeSet<&str> = ["content-length", "connection", "transfer-encoding"].into();
        for (k, v) in &want { let g = first.all(k); if g != [&**v] {bad!(format!("header {}", if rh.contains_key(k) {"of the request"} else {"of the client"}), "the header {k} is {g:?} rather than {v:?}");} }
        if let Some(x) = first.headers.iter().find(|h| !want.contains_key(&h.0) && !framing.contains(&*h.0)) {bad!("extra header", "the header {}: {} was sent", x.0, x.1);}
        let sent = String::from_utf8_lossy(&first.body).into_owned();
        let same = match &bod { Body::None => sent.is_empty(), Body::Text(t) => first.body == t.as_bytes(), Body::Form(m) => { let mut a = decode_pairs(Some(&sent)); a.sort(); let b: Vec<(String, String)> = m.clone().into_iter().collect(); a == b }, Body::Json(v) => serde_json::from_str::<Value>(&sent).ok().as_ref() == Some(v) };
        if !same {bad!("body", "the body is {sent:?} rather than {bod:?}");}
        // Redirects.
        let start: Option<usize> = path.strip_prefix("/hop").and_then(|x| x.split('?').next()).and_then(|x| x.parse().ok());
        let hops_left = hops - start.unwrap_or(0).min(hops);
        let (follow, too_many) = match limit { None => (0, false), Some(n) if hops_left < n.max(1) && n > 0 => (hops_left, false), Some(n) => (hops_left.min(n), hops_left > 0) };
        if let Some(n) = limit { if hops_left == n && n > 0 {rec.count("chains as long as the limit"); if seen.len() > n + 1 {bad!("redirects", "{} redirects were followed, with a limit of {n}", seen.len() - 1);} return;} }
        let expect_requests = if too_many {None} else {Some(follow + 1)};
        match expect_requests { Some(n) if seen.len() != n => bad!("redirects", "{} requests were sent rather than {n} (limit {limit:?}, {hops_left} redirects)", seen.len()), None if seen.len() > limit.unwrap() + 1 => bad!("redirects", "{} requests were sent with a limit of {limit:?}", seen.len()), _ => {} }
        let mut m = method.to_string();
        for (i, q) in seen.iter().enumerate().skip(1) {
            let k = kinds[i - 1];
            if k <= 303 && m != "GET" && m != "HEAD" {m = "GET".into();}
            if q.method != m {bad!("redirected method", "after {k}, the method is {} rather than {m}", q.method);}
            let t = if by_proxy {format!("http://127.0.0.1:{}/hop{i}", if absolute[i - 1] {origin.port} else {to_port})} else {format!("/hop{i}")};
            if !by_proxy && q.target != t {bad!("redirected target", "redirect {i} went to {} rather than {t}", q.target);}
            let own_ref = want.contains_key("referer");
            if !own_ref && (q.all("referer").len() == 1) != referer {bad!("referer", "with referer {referer}, a redirected request carries {:?}", q.all("referer"));}
            rec.count("redirects followed");
        }
        if too_many { rec.count("redirect chains too long"); if got.is_ok() {bad!("redirects", "a chain of {hops_left} redirects with a limit of {limit:?} gives {got:?}");} return; }
        let stopped = follow < hops_left; // at a redirect that was not to be followed
        if fault >= 2 && !stopped && !(fault == 3 && want_part < 4) && !(method == "HEAD" && fault == 3) { rec.count("broken answers"); if got.is_ok() {bad!("no error", "a broken answer (fault {fault}) gives {:?}", got.map(|x| x.map(|x| x.chars().take(60).collect::<String>())));} return; }
        if fault >= 2 {return;}
        let final_url = if follow == 0 {dest.as_str().to_string()} else {format!("http://127.0.0.1:{}/hop{follow}{}", if follow > 0 && absolute[..follow].iter().any(|x| *x) {origin.port} else {to_port}, "")};
        let expect: Option<String> = match want_part {
            1 => Some(final_url.clone()), 0 | 2 | 3 => if stopped || field == "!" {None} else {Some(field.to_string())},
            _ => Some(if method == "HEAD" && (follow == 0 || m == "HEAD") {String::new()} else if stopped {"moved".into()} else {text.clone()}),
        };
        let g = match &got { Ok(Some(x)) => Some(x.clone()), Ok(None) => bad!("result", "the result is absent"), Err(_) => None };
        // A redirect keeps the fragment or not; that is the client's business.
        let strip = |x: &Option<String>| x.as_ref().map(|x| if want_part == 1 {x.split('#').next().unwrap().to_string()} else {x.clone()});
        if strip(&g) != strip(&expect) {bad!(["result: header", "result: url", "result: cookie", "result: missing", "result: body"][want_part], "the result is {:?} rather than {:?}", got.map(|x| x.map(|x| x.chars().take(100).collect::<String>())), expect.map(|x| x.chars().take(100).collect::<String>()));}
        rec.count("results compared");
        // The task's own URL is not the request's to change.
        if url.as_str() != url::Url::parse(&task_url).unwrap().as_str() {bad!("task URL", "the task's URL became {}", url.as_str());}
    })
}

// ---------------------------------------------------------------- U20

/// `share`: one in how many of the cases to run.
pub fn redirects(cfg: &Cfg, share: u64) -> Rec {
    cases(cfg, "redirects", cfg.n(8000, 300_000) / share, |r, rec| {
        let (pool, dead) = pool(2);
        let (origin, other) = (&pool[0], &pool[1]);
        other.reset(|_| answer(200, &[], b"target"));
        // What each path answers.
        #[derive(Clone, Debug)]
        enum A { Plain(u16), To(u16, Vec<u8>), Missing(u16), Twice(Vec<u8>), Close, Hop(usize) }
        let targets: Vec<Vec<u8>> = vec![format!("http://127.0.0.1:{}/target?x=1", other.port).into_bytes(), b"https://target.example/p?q#f".to_vec(), b"HTTPS://TARGET.example".to_vec(), b"/rel/../a b?c=d".to_vec(), b"rel".to_vec(), b"?only=query".to_vec(), b"#frag".to_vec(), b"//other.example/x".to_vec(), b"".to_vec(), b"../up".to_vec(), b"http://[".to_vec(), b"https://".to_vec(), b"mailto:a@b".to_vec(), b"/\xff".to_vec(), "/caf\u{e9}".as_bytes().to_vec(), b"  /space ".to_vec(), format!("/{}", "l".repeat(*r.pick(&[255, 256, 2000, 2048, 4096, 8000, 30_000]))).into_bytes(), format!("https://long.example/?{}#end", "q=1&".repeat(*r.pick(&[64, 512, 1024]))).into_bytes(), b"https://u:p@cred.example:8080/".to_vec(), b"http://127.0.0.1/../%2e%2e/x".to_vec(), b"https:rel".to_vec(), b"\\\\other.example\\x".to_vec(), b"/a\tb".to_vec(), b"https://x.example/?a=b&amp;c=%26".to_vec(), b"HTTP://EX.example/%7Eu".to_vec(), b"https://b\xc3\xbccher.example/".to_vec(), b"/;p?x;y#z#w".to_vec(), b"https://a.example/ , https://b.example/".to_vec(), b"\"https://quoted.example/\"".to_vec(), b"https://a.example:443/%zz%2f".to_vec()];
        let answers: Vec<A> = (0..4).map(|_| match r.below(12) { 0 => A::Plain(*r.pick(&[200u16, 204, 404, 500, 201])), 1 => A::Missing(*r.pick(&[301u16, 302, 300, 304, 305])), 2 => A::Close, 3 => A::Hop(1 + r.below(4)), 4 => A::Twice(r.pick(&targets).clone()), 5 => A::To(*r.pick(&[200u16, 201, 404]), r.pick(&targets).clone()), _ => A::To(*r.pick(&[301u16, 302, 303, 307, 308, 300]), r.pick(&targets).clone()) }).collect();
        {
            let answers = answers.clone();
            origin.reset(move |q| {
                if let Some(n) = q.target.strip_prefix("/hop").and_then(|x| x.parse::<usize>().ok()) { return if n == 0 {answer(200, &[], b"end")} else {answer(302, &[("location".into(), format!("/hop{}", n - 1))], b"")}; }
                let a = &answers[q.target.bytes().nth(2).map_or(0, |c| (c as usize) % 4)];
                let raw = |st: u16, ls: &[&[u8]]| { let mut o = format!("HTTP/1.1 {st} X\r\nconnection: close\r\ncontent-length: 0\r\n").into_bytes(); for l in ls {o.extend_from_slice(b"Location: "); o.extend_from_slice(l); o.extend_from_slice(b"\r\n");} o.extend_from_slice(b"\r\n"); o };
                match a { A::Plain(s) => answer(*s, &[], if *s == 204 {b""} else {b"page"}), A::To(s, l) => raw(*s, &[l]), A::Missing(s) => answer(*s, &[], b""), A::Twice(l) => raw(302, &[l, b"https://second.example/"]), A::Close => Vec::new(), A::Hop(n) => raw(302, &[format!("/hop{}", n - 1).as_bytes()]) }
            });
        }
        let dh = header_map(r, 2); let mh = header_map(r, 2); let ah = if r.chance(1, 4) {header_map(r, 2)} else {BTreeMap::new()};
        let base: Option<usize> = if r.chance(4, 5) {None} else {Some(2 + r.below(4))};
        let over: Option<Option<usize>> = if r.chance(1, 8) {Some(if r.chance(1, 2) {None} else {Some(2 + r.below(4))})} else {None};
        let limit = over.unwrap_or(base);
        let pol = |x: Option<usize>| x.map_or(json!("None"), |n| json!({"Limited": n}));
        let mut m = json!({}); let mut d = json!({});
        if !mh.is_empty() {m["headers"] = spell(r, &mh);} if !ah.is_empty() {d["add_default_headers"] = spell(r, &ah);} if let Some(o) = over {d["redirect_policy"] = pol(o);}
        if d != json!({}) {m["http_client_config_diff"] = d;}
        let mj = json!({"ExpandRedirect": m});
        let hc = json!({"default_headers": spell(r, &dh), "redirect_policy": pol(base)});
        let mapper: Mapper = match de(&mj) { Ok(x) => x, Err(e) => {rec.fail("mapper: cannot be loaded", format!("{mj} cannot be loaded: {e}"), mj); return;} };
        let mut params: Params = de(&json!({"http_client_config": hc})).unwrap();
        let cache = Cache::default();
        let mut store: BTreeMap<String, String> = BTreeMap::new();
        let mut log = Vec::new();
        for _ in 0..1 + r.below(6) {
            let down = r.chance(1, 12);
            let port = if down {dead} else {origin.port};
            let url = format!("http://127.0.0.1:{port}/p{}{}", ["a", "b", "c/d", "a?q=r&s"][r.below(4)], ["", "", "#h"][r.below(3)]);
            let url = url::Url::parse(&url).unwrap();
            (params.read_cache, params.write_cache) = (!r.chance(1, 5), !r.chance(1, 5));
            let hit = params.read_cache.then(|| store.get(url.as_str()).cloned()).flatten();
            let a = answers[url.path().as_bytes()[2] as usize % 4].clone();
            let join = |l: &[u8]| -> Result<String, ()> { let l = std::str::from_utf8(l).map_err(|_| ())?; Ok(url.join(l.trim_matches([' ', '\t'])).map_err(|_| ())?.to_string()) };
            // (the new URL, the requests the server sees; `None`: no opinion)
            let want: Option<(Result<String, ()>, usize)> = if let Some(x) = &hit {Some((Ok(x.clone()), 0))} else if down {Some((Err(()), 0))} else { match (&a, limit) {
                (A::Plain(_), _) | (A::To(200 | 201 | 404, _), _) => Some((Ok(url.to_string()), 1)),
                (A::Missing(_), _) => Some((Err(()), 1)), (A::Close, _) => Some((Err(()), 1)),
                (A::Hop(n), None) => Some((join(format!("/hop{}", n - 1).as_bytes()), 1)),
                (A::Hop(n), Some(l)) => if *n < l {Some((Ok(format!("http://127.0.0.1:{port}/hop0")), n + 1))} else if *n > l {Some((Err(()), l))} else {None},
                (A::To(_, l) | A::Twice(l), None) => Some((join(l), 1)),
                (A::To(..) | A::Twice(_), Some(_)) => None,
            } };
            let before = origin.seen().len();
            let mut u = BetterUrl::parse(url.as_str()).unwrap();
            let pad_before = JobScratchpad {flags: ["f".to_string()].into(), vars: [("v".to_string(), "1".to_string())].into()};
            let (mut pad, ctx, job, commons) = (pad_before.clone(), TaskContext::default(), JobContext::default(), Commons::default());
            if limit.is_some() && matches!(&a, A::To(..) | A::Twice(_)) && want.is_none() {continue;} // would go to the outside
            let got = { let mut st = TaskState {url: &mut u, scratchpad: &mut pad, common_args: None, context: &ctx, job_context: &job, params: &params, commons: &commons, cache: &cache}; guarded(|| mapper.apply(&mut st).map_err(|e| e.to_string())) };
            let seen = origin.seen();
            log.push(json!({"url": url.as_str(), "answer": format!("{a:?}"), "read": params.read_cache, "write": params.write_cache, "result": format!("{got:?}"), "new URL": u.as_str(), "requests": seen[before..].iter().map(Req::show).collect::<Vec<_>>()}));
            let stored_before = store.clone();
            let detail = |why: &str| json!({"why": why, "mapper": mj, "client": hc, "history": log, "stored before": stored_before});
            rec.eval_hash(hash_str(&format!("{mj}{hc}{url}{a:?}{}{}{}", params.read_cache, params.write_cache, hit.is_some())));
            let got = match got { Err(p) => {rec.fail("panic", format!("panic: {p}"), detail("panic")); return;}, Ok(x) => x };
            macro_rules! bad { ($sig:expr, $($x:tt)*) => {{ let w = format!($($x)*); rec.fail($sig, format!("expanding {url} (answered {a:?}, read {}, write {}): {w}", params.read_cache, params.write_cache), detail(&w)); return; }} }
            if pad.flags != pad_before.flags || pad.vars != pad_before.vars {bad!("scratchpad", "the scratchpad became {pad:?}");}
            if !other.seen().is_empty() {bad!("request to the target", "the redirect's target was itself requested");}
            let Some((w, n)) = want else {continue};
            if seen.len() - before != n {bad!("requests", "{} requests were sent rather than {n}", seen.len() - before);}
            match (&got, &w) {
                (Ok(()), Ok(x)) if u.as_str() == x => rec.count(if hit.is_some() {"redirects remembered"} else if n > 1 {"redirects followed to the end"} else if u.as_str() == url.as_str() {"not redirected"} else {"redirected"}),
                (Err(_), Err(())) if u.as_str() == url.as_str() => rec.count("failed"),
                _ => bad!("result", "the result is {got:?} and the URL {} rather than {w:?}", u.as_str()),
            }
            if n >= 1 { if let Some(q) = seen.get(before) {
                let t = format!("{}{}", url.path(), url.query().map(|x| format!("?{x}")).unwrap_or_default());
                if q.method != "GET" || q.target != t || !q.body.is_empty() {bad!("request", "the request is {} {} rather than GET {t}", q.method, q.target);}
                let mut h: BTreeMap<String, String> = [("accept".to_string(), "*/*".to_string()), ("host".into(), format!("127.0.0.1:{port}"))].into();
                h.extend(dh.clone()); h.extend(ah.clone()); h.extend(mh.clone());
                for (k, v) in &h { if q.all(k) != [&**v] {bad!("header", "the header {k} is {:?} rather than {v:?}", q.all(k));} }
                if let Some(x) = q.headers.iter().find(|x| !h.contains_key(&x.0) && x.0 != "connection") {bad!("extra header", "the header {}: {} was sent", x.0, x.1);}
            } }
            if hit.is_none() && params.write_cache { if let Ok(x) = &w {store.insert(url.to_string(), x.clone());} }
            let stored = cache.read("redirect", url.as_str()).unwrap_or_default();
            if stored != store.get(url.as_str()).cloned().map(Some) {bad!("remembered", "the cache holds {stored:?} rather than {:?}", store.get(url.as_str()));}
        }
        rec.sample(|| json!({"mapper": mj, "client": hc, "history": log}));
    })
}
pub fn run(cfg: &Cfg) -> i32 {
    if cfg.pid == "U20" {
        let rec = redirects(cfg, 1);
        return finish(cfg, rec, "exploration", "sequences of redirect expansions against a scripted server, sharing one cache under random switches; each new URL, request, header and stored entry compared with a model; distinct = mapper, client, URL, answer and switches",
            vec!["plain HTTP only: no TLS server is available offline", "a redirect chain exactly as long as the limit is not judged (the HTTP library decides)"]);
    }
    let rec = requests(cfg);
    finish(cfg, rec, "exploration", "requests made by configurations with random clients, overrides, headers, bodies, proxies and answers; every byte the loopback servers received compared with what was configured, and the result with what was answered; distinct = request, client and answers",
        vec!["plain HTTP only: no TLS server is available offline", "a redirect chain exactly as long as the limit is not judged (the HTTP library decides)"])
}
