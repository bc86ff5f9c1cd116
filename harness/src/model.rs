//! An independent reference interpreter for url-cleaner programs.
//!
//! It works on the JSON text of a program (never on url-cleaner's own types), on a plain
//! `url::Url`, and on plain maps.  It shares with the code under test only third-party crates
//! (`url`, `psl`, `regex`, `glob`, `base64`, `percent-encoding`).
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use serde_json::Value;
use url::{Host, Url};

pub type E = &'static str;
pub type R<T> = Result<T, E>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pad { pub flags: BTreeSet<String>, pub vars: BTreeMap<String, String> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Args { pub flags: BTreeSet<String>, pub vars: BTreeMap<String, String> }

#[derive(Debug, Default)]
pub struct World {
    pub params: Value, // {"flags":[..],"vars":{..},"sets":{..},"lists":{..},"maps":{..},"named_partitionings":{..},"read_cache":b,"write_cache":b}
    pub job_vars: BTreeMap<String, String>,
    pub task_vars: BTreeMap<String, String>,
    pub env: BTreeMap<String, String>,
    pub commons: Value,
    pub cache: RefCell<BTreeMap<(String, String), Option<String>>>,
    pub visited: RefCell<HashMap<&'static str, u64>>,
    pub steps: Cell<u64>,
    /// Whether much work and long strings are to be expected.
    pub roomy: bool,
}
impl World {
    fn visit(&self, k: &'static str) {
        *self.visited.borrow_mut().entry(k).or_insert(0) += 1;
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > if self.roomy {10_000_000} else {20_000} {panic!("model: too much work");}
    }
}

#[derive(Clone, Copy)]
pub struct V<'a> { pub url: &'a Url, pub pad: &'a Pad, pub args: Option<&'a Args>, pub w: &'a World }
pub struct S<'a> { pub url: Url, pub pad: Pad, pub args: Option<&'a Args>, pub w: &'a World }
impl<'a> S<'a> { pub fn v(&self) -> V<'_> { V {url: &self.url, pad: &self.pad, args: self.args, w: self.w} } }

pub fn var(v: &Value) -> (&str, &Value) {
    match v {
        Value::String(s) => (s, &Value::Null),
        Value::Object(m) if m.len() == 1 => { let (k, x) = m.iter().next().unwrap(); (k, x) },
        _ => panic!("model: not a variant: {v}")
    }
}
fn s(v: &Value) -> &str { v.as_str().unwrap_or_else(|| panic!("model: not a string: {v}")) }
fn arr(v: &Value) -> &[Value] { v.as_array().map(|x| &**x).unwrap_or(&[]) }
fn int(v: &Value) -> i64 { v.as_i64().expect("model: int") }
fn opt_int(v: &Value) -> Option<i64> { v.as_i64() }

// ---------- positions ----------
/// Position of an existing element.
pub fn at(i: i64, len: usize) -> Option<usize> {
    let j = if i < 0 {i.checked_add(len as i64)?} else {i};
    (0 <= j && j < len as i64).then_some(j as usize)
}
/// Position between elements: 0..=len, negatives from the end.
pub fn edge(i: i64, len: usize) -> Option<usize> { if i == len as i64 {Some(len)} else {at(i, len)} }
pub fn span(start: i64, end: Option<i64>, len: usize) -> Option<(usize, usize)> {
    let a = edge(start, len)?;
    let b = match end { Some(e) => edge(e, len)?, None => len };
    (a <= b).then_some((a, b))
}

// ---------- hosts ----------
#[derive(Debug, Clone, PartialEq, Default)]
pub struct HostFacts {
    pub kind: &'static str, // none, domain, v4, v6
    pub host: Option<String>, pub fqdn: bool,
    pub domain: Option<String>, pub sub: Option<String>, pub reg: Option<String>,
    pub not_suffix: Option<String>, pub middle: Option<String>, pub suffix: Option<String>,
}
pub fn host_facts(u: &Url) -> HostFacts {
    let mut f = HostFacts {kind: "none", ..Default::default()};
    match u.host() {
        None => {},
        Some(Host::Ipv4(_)) => {f.kind = "v4"; f.host = u.host_str().map(str::to_string);},
        Some(Host::Ipv6(_)) => {f.kind = "v6"; f.host = u.host_str().map(str::to_string);},
        Some(Host::Domain(d)) => {
            f.kind = "domain"; f.host = Some(d.to_string());
            let (base, dot) = match d.strip_suffix('.') { Some(b) => (b, true), None => (d, false) };
            f.fqdn = dot;
            f.domain = Some(base.to_string());
            // The public suffix list is consulted on the text as it stands (with the dot, if any).
            let strip = |x: &str| -> String { if dot {x.strip_suffix('.').unwrap_or(x).to_string()} else {x.to_string()} };
            let suffix = psl::suffix(d.as_bytes()).map(|x| String::from_utf8_lossy(x.as_bytes()).into_owned());
            let reg = psl::domain(d.as_bytes()).map(|x| String::from_utf8_lossy(x.as_bytes()).into_owned());
            if let Some(sfx) = &suffix {
                let before = d.len() - sfx.len();
                f.suffix = Some(strip(sfx));
                if before > 0 {f.not_suffix = Some(d[..before - 1].to_string());}
            }
            if let Some(r) = &reg {
                let before = d.len() - r.len();
                f.reg = Some(strip(r));
                if before > 0 {f.sub = Some(d[..before - 1].to_string());}
                if let Some(sfx) = &suffix { if d.len() > sfx.len() {
                    let end = d.len() - sfx.len() - 1;
                    f.middle = d.get(before..end).map(str::to_string);
                } }
            }
        }
    }
    f
}
fn set_host(u: &mut Url, to: Option<&str>) -> R<()> {
    // Without a host there can be neither credentials nor a port.
    if to == Some("") && (u.port().is_some() || !u.username().is_empty() || u.password().is_some()) {return Err("set_host");}
    if to.is_some() || u.cannot_be_a_base() || (u.is_special() && u.scheme() != "file") || u.host().is_none() {return u.set_host(to).map_err(|_| "set_host");}
    // The same URL without its authority (file URLs keep an empty one).
    let mut t = format!("{}:", u.scheme());
    if u.scheme() == "file" {t.push_str("//");} else if u.path().starts_with("//") {t.push_str("/.");} else if u.path().is_empty() {t.push('/');}
    t.push_str(u.path());
    if let Some(q) = u.query() {t.push('?'); t.push_str(q);}
    if let Some(f) = u.fragment() {t.push('#'); t.push_str(f);}
    *u = Url::parse(&t).map_err(|_| "set_host")?;
    Ok(())
}
fn set_path(u: &mut Url, to: &str) {
    u.set_path(to);
    // Without a host the path is written so that it cannot be taken for one.
    let rest = u.path().len() + u.query().map_or(0, |x| x.len() + 1) + u.fragment().map_or(0, |x| x.len() + 1);
    if u.path().starts_with("//") && u.as_str().len() - rest == u.scheme().len() + 1 {
        if let Ok(v) = Url::parse(&u.as_str().replacen(':', ":/.", 1)) {*u = v;}
    }
}
fn set_domain_host(u: &mut Url, to: &str) -> R<()> {
    match Host::parse(to) { Ok(Host::Domain(_)) => set_host(u, Some(to)), _ => Err("not a domain") }
}
fn glue(parts: &[Option<&str>], fqdn: bool) -> String {
    let mut x = parts.iter().flatten().copied().collect::<Vec<_>>().join(".");
    if fqdn {x.push('.');}
    x
}

// ---------- URL parts ----------
fn nth_of(x: Option<&str>, sep: char, n: i64) -> Option<String> {
    let segs: Vec<&str> = x?.split(sep).collect();
    segs.get(at(n, segs.len())?).map(|x| x.to_string())
}
fn pathsegs(u: &Url) -> Option<Vec<String>> { u.path().strip_prefix('/').map(|p| p.split('/').map(str::to_string).collect()) }
fn qsel(v: &Value) -> (String, usize) {
    match v {
        Value::String(x) => (x.clone(), 0),
        _ => (s(&v["name"]).to_string(), v.get("index").and_then(|x| x.as_u64()).unwrap_or(0) as usize)
    }
}
pub fn pairs(u: &Url) -> Vec<(String, String)> {
    decode_pairs(u.query())
}
/// application/x-www-form-urlencoded parsing, written from the URL standard.
pub fn decode_pairs(q: Option<&str>) -> Vec<(String, String)> {
    let dec = |x: &str| -> String {
        let b = x.replace('+', " ");
        percent_encoding::percent_decode_str(&b).decode_utf8_lossy().into_owned()
    };
    q.map(|q| q.split('&').filter(|x| !x.is_empty()).map(|kv| match kv.split_once('=') {
        Some((k, v)) => (dec(k), dec(v)),
        None => (dec(kv), String::new())
    }).collect()).unwrap_or_default()
}
pub fn encode_pairs(ps: &[(String, String)]) -> String {
    fn enc(x: &str) -> String {
        let mut o = String::new();
        for b in x.bytes() { match b {
            b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'*' | b'-' | b'.' | b'_' => o.push(b as char),
            b' ' => o.push('+'),
            _ => o.push_str(&format!("%{b:02X}"))
        } }
        o
    }
    ps.iter().map(|(k, v)| format!("{}={}", enc(k), enc(v))).collect::<Vec<_>>().join("&")
}
fn put_pairs(u: &mut Url, ps: &[(String, String)]) {
    if ps.is_empty() {u.set_query(None)} else {u.set_query(Some(&encode_pairs(ps)))}
}

pub fn part_get(u: &Url, part: &Value) -> Option<String> {
    let (k, a) = var(part);
    let f = host_facts(u);
    match k {
        "Whole" => Some(u.as_str().to_string()),
        "Scheme" => Some(u.scheme().to_string()),
        "Username" => Some(u.username().to_string()),
        "Password" => u.password().map(str::to_string),
        "Host" => f.host,
        "HostWithoutWWWDotPrefixAndFqdnPeriod" => f.host.map(|h| {
            let h = h.strip_prefix("www.").unwrap_or(&h).to_string();
            h.strip_suffix('.').unwrap_or(&h).to_string()
        }),
        "DomainSegment" => nth_of(f.domain.as_deref(), '.', int(a)),
        "SubdomainSegment" => nth_of(f.sub.as_deref(), '.', int(a)),
        "DomainSuffixSegment" => nth_of(f.suffix.as_deref(), '.', int(a)),
        "BeforeDomainSegment" | "AfterDomainSegment" | "NextDomainSegment" | "BeforeSubdomainSegment" | "AfterSubdomainSegment"
        | "NextSubdomainSegment" | "BeforeDomainSuffixSegment" | "AfterDomainSuffixSegment" | "NextDomainSuffixSegment"
        | "BeforePathSegment" | "AfterPathSegment" | "NextPathSegment" => None,
        "Domain" => f.domain, "Subdomain" => f.sub, "RegDomain" => f.reg, "NotDomainSuffix" => f.not_suffix,
        "DomainMiddle" => f.middle, "DomainSuffix" => f.suffix,
        "FqdnPeriod" => f.fqdn.then(|| ".".to_string()),
        "Port" => u.port().map(|p| p.to_string()),
        "Path" => Some(u.path().to_string()),
        "PathSegment" => { let segs = pathsegs(u)?; segs.get(at(int(a), segs.len())?).cloned() },
        "Query" => u.query().map(str::to_string),
        "QueryParam" => { let (name, i) = qsel(a); pairs(u).into_iter().filter(|(n, _)| *n == name).nth(i).map(|x| x.1) },
        "Fragment" => u.fragment().map(str::to_string),
        _ => panic!("model: part {k}")
    }
}

#[derive(Clone, Copy)] enum Rel { Before, At, After }
fn edit(segs: &[String], n: i64, rel: Rel, to: Option<&str>) -> R<Vec<String>> {
    let mut out: Vec<String> = segs.to_vec();
    match (at(n, segs.len()), to) {
        (None, None) => {},
        (None, Some(_)) => return Err("segment not found"),
        (Some(i), Some(x)) => match rel {
            Rel::Before => out.insert(i, x.to_string()),
            Rel::At => out[i] = x.to_string(),
            Rel::After => out.insert(i + 1, x.to_string())
        },
        (Some(i), None) => if let Rel::At = rel {out.remove(i);}
    }
    Ok(out)
}

pub fn part_set(u: &mut Url, part: &Value, to: Option<&str>) -> R<()> {
    let (k, a) = var(part);
    let f = host_facts(u);
    let is_domain = f.kind == "domain";
    let hostpart = |which: &str| -> Option<String> { match which { "Domain" => f.domain.clone(), "Subdomain" => f.sub.clone(), _ => f.suffix.clone() } };
    let seg_edit = |u: &mut Url, which: &str, n: i64, rel: Rel| -> R<()> {
        let segs: Vec<String> = hostpart(which).ok_or("no such host part")?.split('.').map(str::to_string).collect();
        let j = edit(&segs, n, rel, to)?.join(".");
        part_set(u, &Value::String(which.to_string()), Some(&*j).filter(|x| !x.is_empty()))
    };
    let path_edit = |u: &mut Url, n: i64, rel: Rel| -> R<()> {
        let segs = pathsegs(u).ok_or("no path segments")?;
        let j = edit(&segs, n, rel, to)?.join("/");
        if j.is_empty() {return Err("empty path");}
        // `Url::set_path` supplies the leading slash only when it is missing.
        set_path(u, &if j.starts_with('/') {format!("/{j}")} else {j});
        Ok(())
    };
    match k {
        "Whole" => { *u = Url::parse(to.ok_or("whole none")?).map_err(|_| "parse")?; Ok(()) },
        "Scheme" => u.set_scheme(to.ok_or("scheme none")?).map_err(|_| "scheme"),
        "Username" => u.set_username(to.ok_or("username none")?).map_err(|_| "username"),
        "Password" => u.set_password(to).map_err(|_| "password"),
        "Host" => set_host(u, to),
        "HostWithoutWWWDotPrefixAndFqdnPeriod" => {
            let x = to.map(|x| x.strip_prefix("www.").unwrap_or(x)).map(|x| x.strip_suffix('.').unwrap_or(x));
            set_host(u, x)
        },
        "BeforeDomainSegment" => seg_edit(u, "Domain", int(a), Rel::Before),
        "DomainSegment" => seg_edit(u, "Domain", int(a), Rel::At),
        "AfterDomainSegment" => seg_edit(u, "Domain", int(a), Rel::After),
        "NextDomainSegment" => seg_edit(u, "Domain", -1, Rel::After),
        "BeforeSubdomainSegment" => seg_edit(u, "Subdomain", int(a), Rel::Before),
        "SubdomainSegment" => seg_edit(u, "Subdomain", int(a), Rel::At),
        "AfterSubdomainSegment" => seg_edit(u, "Subdomain", int(a), Rel::After),
        "NextSubdomainSegment" => seg_edit(u, "Subdomain", -1, Rel::After),
        "BeforeDomainSuffixSegment" => seg_edit(u, "DomainSuffix", int(a), Rel::Before),
        "DomainSuffixSegment" => seg_edit(u, "DomainSuffix", int(a), Rel::At),
        "AfterDomainSuffixSegment" => seg_edit(u, "DomainSuffix", int(a), Rel::After),
        "NextDomainSuffixSegment" => seg_edit(u, "DomainSuffix", -1, Rel::After),
        "Domain" => match to { None => set_host(u, None), Some(x) => set_domain_host(u, &glue(&[Some(x)], is_domain && f.fqdn)) },
        "Subdomain" => {
            if !is_domain {return Err("not a domain");}
            if to.is_some() && f.reg.is_none() {return Err("no reg domain");}
            set_domain_host(u, &glue(&[to, f.reg.as_deref()], f.fqdn))
        },
        "NotDomainSuffix" => {
            if !is_domain {return Err("not a domain");}
            if to.is_some() && f.suffix.is_none() {return Err("no suffix");}
            set_domain_host(u, &glue(&[to, f.suffix.as_deref()], f.fqdn))
        },
        "DomainMiddle" => {
            if !is_domain {return Err("not a domain");}
            if to.is_some() && f.suffix.is_none() {return Err("no suffix");}
            set_domain_host(u, &glue(&[f.sub.as_deref(), to, f.suffix.as_deref()], f.fqdn))
        },
        "RegDomain" => { if !is_domain {return Err("not a domain");} set_domain_host(u, &glue(&[f.sub.as_deref(), to], f.fqdn)) },
        "DomainSuffix" => { if !is_domain {return Err("not a domain");} set_domain_host(u, &glue(&[f.not_suffix.as_deref(), to], f.fqdn)) },
        "FqdnPeriod" => {
            let want = match to { None => false, Some(".") => true, Some(_) => return Err("fqdn period value") };
            if !is_domain {return Err("not a domain");}
            let h = f.host.clone().unwrap();
            if want && !f.fqdn {set_host(u, Some(&format!("{h}.")))}
            else if !want && f.fqdn {set_host(u, Some(&h[..h.len() - 1]))}
            else {Ok(())}
        },
        "Port" => { let p = match to { None => None, Some(x) => Some(x.parse::<u16>().map_err(|_| "port value")?) }; u.set_port(p).map_err(|_| "port") },
        "Path" => { set_path(u, to.ok_or("path none")?); Ok(()) },
        "BeforePathSegment" => path_edit(u, int(a), Rel::Before),
        "PathSegment" => path_edit(u, int(a), Rel::At),
        "AfterPathSegment" => path_edit(u, int(a), Rel::After),
        "NextPathSegment" => { if let Some(x) = to { u.path_segments_mut().map_err(|_| "no path segments")?.pop_if_empty().push(x); } Ok(()) },
        "Query" => { u.set_query(to); Ok(()) },
        "QueryParam" => {
            let (name, index) = qsel(a);
            let mut ps = pairs(u);
            let hits: Vec<usize> = ps.iter().enumerate().filter(|(_, p)| p.0 == name).map(|x| x.0).collect();
            match (hits.get(index), to) {
                (Some(&i), Some(x)) => ps[i].1 = x.to_string(),
                (Some(&i), None) => {ps.remove(i);},
                (None, Some(x)) => if index == hits.len() {ps.push((name, x.to_string()))} else {return Err("param index")},
                (None, None) => {}
            }
            put_pairs(u, &ps);
            Ok(())
        },
        "Fragment" => { u.set_fragment(to); Ok(()) },
        _ => panic!("model: part set {k}")
    }
}

// ---------- maps ----------
fn map_get<'v>(m: &'v Value, key: Option<&str>) -> Option<&'v Value> {
    let hit = match key { Some(k) => m["map"].get(k), None => m.get("if_null").filter(|x| !x.is_null()) };
    hit.or_else(|| m.get("else").filter(|x| !x.is_null()))
}
/// For maps of string sources, where `null` is itself a value.
fn map_get_src<'v>(m: &'v Value, key: Option<&str>) -> Option<&'v Value> { map_get(m, key) }

// ---------- flags and vars ----------
fn named(v: &Value) -> (String, Value) {
    match v {
        Value::String(x) => ("Params".into(), Value::String(x.clone())),
        _ => (v.get("type").map(|t| s(t).to_string()).unwrap_or("Params".into()), v["name"].clone())
    }
}
pub fn flag(v: &Value, m: V) -> R<bool> {
    m.w.visit("flag");
    let (t, n) = named(v);
    let name = need(source(&n, m), "StringSourceError")?;
    Ok(match &*t {
        "Params" => arr(&m.w.params["flags"]).iter().any(|x| s(x) == name),
        "Common" => m.args.ok_or("NotInCommonContext")?.flags.contains(&name),
        "Scratchpad" => m.pad.flags.contains(&name),
        _ => panic!("model: flag type {t}")
    })
}
pub fn var_ref(v: &Value, m: V) -> R<Option<String>> {
    let (t, n) = named(v);
    let name = need(source(&n, m), "StringSourceError")?;
    Ok(match &*t {
        "Params" => {m.w.visit("var:Params"); m.w.params["vars"].get(&name).map(|x| s(x).to_string())},
        "JobContext" => {m.w.visit("var:JobContext"); m.w.job_vars.get(&name).cloned()},
        "TaskContext" => {m.w.visit("var:TaskContext"); m.w.task_vars.get(&name).cloned()},
        "Common" => {m.w.visit("var:Common"); m.args.ok_or("NotInCommonContext")?.vars.get(&name).cloned()},
        "Scratchpad" => {m.w.visit("var:Scratchpad"); m.pad.vars.get(&name).cloned()},
        "Env" => {m.w.visit("var:Env"); m.w.env.get(&name).cloned()},
        _ => panic!("model: var type {t}")
    })
}
fn need(x: R<Option<String>>, err: E) -> R<String> { match x { Err(_) => Err(err), Ok(None) => Err("StringSourceIsNone"), Ok(Some(x)) => Ok(x) } }
/// Evaluates a source that must give a string.
fn must(v: &Value, m: V) -> R<String> { need(source(v, m), "StringSourceError") }

// ---------- common calls ----------
fn call_parts(c: &Value) -> (Value, Value) {
    match c { Value::String(_) => (c.clone(), Value::Null), _ => (c["name"].clone(), c.get("args").cloned().unwrap_or(Value::Null)) }
}
fn build_args(args: &Value, m: V) -> R<Args> {
    let mut a = Args::default();
    for x in arr(&args["flags"]) {a.flags.insert(s(x).to_string());}
    let cached = |m: &V| m.w.visited.borrow().get("src:Cache").copied();
    let before = cached(&m);
    if let Some(vars) = args["vars"].as_object() { for (k, v) in vars {a.vars.insert(k.clone(), must(v, m).map_err(|_| "CommonCallArgsError").inspect_err(|_| if vars.len() > 1 && cached(&m) != before {panic!("model: the order of arguments matters")})?);}
        // Arguments are a map: their order is not defined, so they must not affect one another through the cache.
        if vars.len() > 1 && cached(&m) != before {panic!("model: the order of arguments matters");}
    }
    Ok(a)
}
fn call(c: &Value, kind: &str, m: V, missing: E) -> R<(Value, Args)> {
    m.w.visit("common call");
    let (n, args) = call_parts(c);
    let name = must(&n, m)?;
    let target = m.w.commons[kind].get(&name).ok_or(missing)?.clone();
    Ok((target, build_args(&args, m)?))
}

// ---------- string sources ----------
fn between(x: &str, a: &str, b: &str) -> R<String> {
    let i = x.find(a).ok_or("start not found")? + a.len();
    let j = x[i..].find(b).ok_or("end not found")? + i;
    Ok(x[i..j].to_string())
}
pub fn source(v: &Value, m: V) -> R<Option<String>> {
    let (k, a) = match v {
        Value::Null => {m.w.visit("src:null"); return Ok(None)},
        Value::String(x) => {m.w.visit("src:String"); return Ok(Some(x.clone()))},
        _ => var(v)
    };
    match k {
        "String" => Ok(Some(s(a).to_string())),
        "Error" => {m.w.visit("src:Error"); Err("ExplicitError")},
        "ErrorToNone" => {m.w.visit("src:ErrorToNone"); Ok(source(a, m).unwrap_or(None))},
        "ErrorToEmptyString" => {m.w.visit("src:ErrorToEmptyString"); Ok(source(a, m).unwrap_or(Some(String::new())))},
        "TryElse" => {m.w.visit("src:TryElse"); match source(&a["try"], m) { Ok(x) => Ok(x), Err(_) => source(&a["else"], m) }},
        "NoneToEmptyString" => {m.w.visit("src:NoneToEmptyString"); Ok(Some(source(a, m)?.unwrap_or_default()))},
        "NoneTo" => {m.w.visit("src:NoneTo"); match source(&a["value"], m)? { Some(x) => Ok(Some(x)), None => source(&a["if_none"], m) }},
        "Join" => {
            m.w.visit("src:Join");
            let mut out = Vec::new();
            for x in arr(&a["sources"]) { match source(x, m)? { Some(x) => out.push(x), None => return Ok(None) } }
            let o = out.join(a.get("join").and_then(|x| x.as_str()).unwrap_or(""));
            if o.len() > 20_000 && !m.w.roomy {panic!("model: too long");}
            Ok(Some(o))
        },
        "IfFlag" => {
            m.w.visit("src:IfFlag");
            let fr = match a.get("type") { Some(t) => serde_json::json!({"type": t, "name": a["name"]}), None => serde_json::json!({"name": a["name"]}) };
            if flag(&fr, m)? {source(&a["then"], m)} else {source(&a["else"], m)}
        },
        "IfStringMatches" => {
            m.w.visit("src:IfStringMatches");
            let x = must(&a["value"], m)?;
            if matcher(&a["matcher"], &x, m)? {source(&a["then"], m)} else {source(&a["else"], m)}
        },
        "IfStringIsNone" => {m.w.visit("src:IfStringIsNone"); if source(&a["value"], m)?.is_none() {source(&a["then"], m)} else {source(&a["else"], m)}},
        "Map" => {
            m.w.visit("src:Map");
            let key = source(&a["value"], m)?;
            source(map_get_src(a, key.as_deref()).ok_or("StringNotInMap")?, m)
        },
        "Part" => {m.w.visit("src:Part"); Ok(part_get(m.url, a))},
        "ExtractPart" => {
            m.w.visit("src:ExtractPart");
            match source(&a["value"], m)? { None => Ok(None), Some(x) => Ok(part_get(&Url::parse(&x).map_err(|_| "parse")?, &a["part"])) }
        },
        "Var" => var_ref(a, m),
        "ParamsMap" => {
            m.w.visit("src:ParamsMap");
            let name = must(&a["name"], m)?;
            let map = m.w.params["maps"].get(&name).ok_or("MapNotFound")?;
            let key = source(&a["key"], m)?;
            Ok(map_get(map, key.as_deref()).map(|x| s(x).to_string()))
        },
        "ParamsNamedPartitioning" => {
            m.w.visit("src:ParamsNamedPartitioning");
            let name = must(&a["name"], m)?;
            let np = m.w.params["named_partitionings"].get(&name).ok_or("NamedPartitioningNotFound")?;
            let el = must(&a["element"], m)?;
            Ok(np.as_object().unwrap().iter().find(|(_, vs)| arr(vs).iter().any(|x| s(x) == el)).map(|(k, _)| k.clone()))
        },
        "Modified" => {
            m.w.visit("src:Modified");
            match source(&a["value"], m)? { None => Ok(None), Some(mut x) => {modify(&a["modification"], &mut x, m)?; Ok(Some(x))} }
        },
        "ExtractBetween" => {
            m.w.visit("src:ExtractBetween");
            let x = must(&a["value"], m)?;
            let st = must(&a["start"], m)?;
            if !x.contains(&st) {return Err("start not found");}
            let en = must(&a["end"], m)?;
            Ok(Some(between(&x, &st, &en)?))
        },
        "RegexFind" => {
            m.w.visit("src:RegexFind");
            match source(&a["value"], m)? { None => Ok(None), Some(x) => Ok(regex_of(&a["regex"])?.find(&x).map(|y| y.as_str().to_string())) }
        },
        "Cache" => {
            m.w.visit("src:Cache");
            let cat = must(&a["category"], m)?;
            let key = must(&a["key"], m)?;
            if m.w.params["read_cache"] == Value::Bool(true) { if let Some(x) = m.w.cache.borrow().get(&(cat.clone(), key.clone())) {m.w.visit("cache hit"); return Ok(x.clone());} }
            let x = source(&a["value"], m)?;
            if m.w.params["write_cache"] == Value::Bool(true) {m.w.visit("cache write"); m.w.cache.borrow_mut().insert((cat, key), x.clone());}
            Ok(x)
        },
        "Common" => {
            let (t, args) = call(a, "string_sources", m, "CommonStringSourceNotFound")?;
            source(&t, V {args: Some(&args), ..m})
        },
        _ => panic!("model: source {k}")
    }
}

// ---------- regex / glob ----------
pub fn regex_of(v: &Value) -> R<regex::Regex> {
    let (pat, cfg) = match v { Value::String(x) => (x.clone(), Value::Null), _ => (s(&v["pattern"]).to_string(), v.clone()) };
    let b = |k: &str, d: bool| cfg.get(k).and_then(|x| x.as_bool()).unwrap_or(d);
    regex::RegexBuilder::new(&pat).case_insensitive(b("case_insensitive", false)).dot_matches_new_line(b("dot_matches_new_line", false))
        .multi_line(b("multi_line", false)).swap_greed(b("swap_greed", false)).ignore_whitespace(b("ignore_whitespace", false))
        .crlf(b("crlf", false)).unicode(b("unicode", true)).octal(b("octal", false)).build().map_err(|_| "regex")
}
fn glob_of(v: &Value, x: &str) -> bool {
    let (pat, cfg) = match v { Value::String(p) => (p.clone(), Value::Null), _ => (s(&v["pattern"]).to_string(), v.clone()) };
    // A glob given as a bare string uses the glob crate's own default options.
    let o = if cfg.is_null() {glob::MatchOptions::default()} else { glob::MatchOptions {
        case_sensitive: cfg.get("case_sensitive").and_then(|x| x.as_bool()).unwrap_or(true),
        require_literal_separator: cfg.get("require_literal_separator").and_then(|x| x.as_bool()).unwrap_or(false),
        require_literal_leading_dot: cfg.get("require_literal_leading_dot").and_then(|x| x.as_bool()).unwrap_or(true),
    } };
    glob::Pattern::new(&pat).unwrap().matches_with(x, o)
}

// ---------- locations, chars, matchers ----------
fn segs<'x>(x: &'x str, sep: &str) -> Vec<&'x str> { x.split(sep).collect() }
pub fn location(v: &Value, hay: &str, needle: &str) -> R<bool> {
    let (k, a) = var(v);
    Ok(match k {
        "Always" => true, "Never" => false, "Error" => return Err("Explicit"),
        "If" => if location(&a["if"], hay, needle)? {location(&a["then"], hay, needle)?} else {location(&a["else"], hay, needle)?},
        "All" => { for x in arr(a) { if !location(x, hay, needle)? {return Ok(false);} } true },
        "Any" => { for x in arr(a) { if location(x, hay, needle)? {return Ok(true);} } false },
        "Not" => !location(a, hay, needle)?,
        "TreatErrorAsPass" => location(a, hay, needle).unwrap_or(true),
        "TreatErrorAsFail" => location(a, hay, needle).unwrap_or(false),
        "TryElse" => match location(&a["try"], hay, needle) { Ok(x) => x, Err(_) => location(&a["else"], hay, needle)? },
        "FirstNotError" => { let mut last = Ok(false); for x in arr(a) { last = location(x, hay, needle); if last.is_ok() {break;} } return last },
        "Anywhere" => hay.find(needle).is_some(),
        "Start" => hay.len() >= needle.len() && &hay.as_bytes()[..needle.len()] == needle.as_bytes(),
        "End" => hay.len() >= needle.len() && &hay.as_bytes()[hay.len() - needle.len()..] == needle.as_bytes(),
        "Equals" => hay.as_bytes() == needle.as_bytes(),
        "StartsAt" => cut(hay, int(a), None)?.starts_with(needle),
        "EndsAt" => cut(hay, 0, Some(int(a)))?.ends_with(needle),
        "After" => cut(hay, int(a), None)?.find(needle).is_some(),
        "Before" => cut(hay, 0, Some(int(a)))?.find(needle).is_some(),
        "Range" => location(&a["location"], cut(hay, int(&a["start"]), opt_int(&a["end"]))?, needle)?,
        "AnySegment" => { for x in segs(hay, s(&a["split"])) { if location(&a["location"], x, needle)? {return Ok(true);} } false },
        "NthSegment" => { let xs = segs(hay, s(&a["split"])); location(&a["location"], xs[at(int(&a["n"]), xs.len()).ok_or("segment")?], needle)? },
        _ => panic!("model: location {k}")
    })
}
fn cut(x: &str, start: i64, end: Option<i64>) -> R<&str> {
    let (a, b) = span(start, end, x.len()).ok_or("range")?;
    if !x.is_char_boundary(a) || !x.is_char_boundary(b) {return Err("boundary");}
    Ok(&x[a..b])
}
pub fn charm(v: &Value, c: char) -> R<bool> {
    let (k, a) = var(v);
    let ch = |v: &Value| s(v).chars().next().unwrap();
    Ok(match k {
        "Always" => true, "Never" => false, "Error" => return Err("Explicit"),
        "If" => if charm(&a["if"], c)? {charm(&a["then"], c)?} else {charm(&a["else"], c)?},
        "All" => { for x in arr(a) { if !charm(x, c)? {return Ok(false);} } true },
        "Any" => { for x in arr(a) { if charm(x, c)? {return Ok(true);} } false },
        "Not" => !charm(a, c)?,
        "TreatErrorAsPass" => charm(a, c).unwrap_or(true),
        "TreatErrorAsFail" => charm(a, c).unwrap_or(false),
        "TryElse" => match charm(&a["try"], c) { Ok(x) => x, Err(_) => charm(&a["else"], c)? },
        "FirstNotError" => { let mut last = Ok(false); for x in arr(a) { last = charm(x, c); if last.is_ok() {break;} } return last },
        "Equals" => ch(a) == c,
        "Between" => (ch(&a["min"])..=ch(&a["max"])).contains(&c),
        "IsOneOf" => arr(a).iter().any(|x| ch(x) == c),
        "IsAlphabetic" => c.is_alphabetic(),
        "IsAlphanumeric" => c.is_alphabetic() || c.is_numeric(),
        "IsAscii" => (c as u32) < 128,
        "IsAsciiAlphabetic" => matches!(c, 'a'..='z' | 'A'..='Z'),
        "IsAsciiAlphanumeric" => matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9'),
        "IsAsciiControl" => (c as u32) < 32 || c as u32 == 127,
        "IsAsciiDigit" | "IsDigit" => matches!(c, '0'..='9'),
        "IsAsciiGraphic" => matches!(c as u32, 33..=126),
        "IsAsciiHexdigit" => matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F'),
        "IsAsciiLowercase" => matches!(c, 'a'..='z'),
        "IsAsciiPunctuation" => matches!(c as u32, 33..=126) && !matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9'),
        "IsAsciiUppercase" => matches!(c, 'A'..='Z'),
        "IsAsciiWhitespace" => matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c'),
        "IsControl" => c.is_control(),
        "IsDigitRadix" => {
            let r = a.as_u64().unwrap() as u32;
            if !(2..=36).contains(&r) {return Err("radix");}
            let d = match c { '0'..='9' => Some(c as u32 - 48), 'a'..='z' => Some(c as u32 - 87), 'A'..='Z' => Some(c as u32 - 55), _ => None };
            d.is_some_and(|d| d < r)
        },
        "IsLowercase" => c.is_lowercase(), "IsNumeric" => c.is_numeric(),
        "IsUppercase" => c.is_uppercase(), "IsWhitespace" => c.is_whitespace(),
        _ => panic!("model: char {k}")
    })
}
pub fn matcher(v: &Value, hay: &str, m: V) -> R<bool> {
    let (k, a) = var(v);
    Ok(match k {
        "Always" => true, "Never" => false, "Error" => return Err("Explicit"),
        "If" => if matcher(&a["if"], hay, m)? {matcher(&a["then"], hay, m)?} else {matcher(&a["else"], hay, m)?},
        "All" => { for x in arr(a) { if !matcher(x, hay, m)? {return Ok(false);} } true },
        "Any" => { for x in arr(a) { if matcher(x, hay, m)? {return Ok(true);} } false },
        "Not" => !matcher(a, hay, m)?,
        "TreatErrorAsPass" => matcher(a, hay, m).unwrap_or(true),
        "TreatErrorAsFail" => matcher(a, hay, m).unwrap_or(false),
        "TryElse" => match matcher(&a["try"], hay, m) { Ok(x) => x, Err(_) => matcher(&a["else"], hay, m)? },
        "FirstNotError" => { let mut last = Ok(false); for x in arr(a) { last = matcher(x, hay, m); if last.is_ok() {break;} } return last },
        "Contains" => {m.w.visit("sm:Contains"); let x = must(&a["value"], m)?; location(a.get("where").unwrap_or(&Value::String("Anywhere".into())), hay, &x)?},
        "ContainsAny" => {
            m.w.visit("sm:ContainsAny");
            for x in arr(&a["values"]) { let x = must(x, m)?; if location(&a["where"], hay, &x)? {return Ok(true);} }
            false
        },
        "ContainsAnyInList" => {
            m.w.visit("sm:ContainsAnyInList");
            let n = must(&a["list"], m)?;
            for x in arr(m.w.params["lists"].get(&n).ok_or("list")?) { if location(&a["where"], hay, s(x))? {return Ok(true);} }
            false
        },
        "Is" => {m.w.visit("sm:Is"); must(a, m)? == hay},
        "IsOneOf" => {m.w.visit("sm:IsOneOf"); arr(a).iter().any(|x| s(x) == hay)},
        "InSet" => {m.w.visit("sm:InSet"); let n = must(a, m)?; m.w.params["sets"].get(&n).is_some_and(|xs| arr(xs).iter().any(|x| s(x) == hay))},
        "Regex" => {m.w.visit("sm:Regex"); regex_of(a)?.is_match(hay)},
        "Glob" => {m.w.visit("sm:Glob"); glob_of(a, hay)},
        "Modified" => {m.w.visit("sm:Modified"); let mut x = hay.to_string(); modify(&a["modification"], &mut x, m)?; matcher(&a["matcher"], &x, m)?},
        "OnlyTheseChars" => {m.w.visit("sm:OnlyTheseChars"); hay.chars().all(|c| arr(a).iter().any(|x| s(x).chars().next() == Some(c)))},
        "AllCharsMatch" => {m.w.visit("sm:AllCharsMatch"); for c in hay.chars() { if !charm(a, c)? {return Ok(false);} } true},
        "AnyCharMatches" => {m.w.visit("sm:AnyCharMatches"); for c in hay.chars() { if charm(a, c)? {return Ok(true);} } false},
        "IsAscii" => hay.bytes().all(|b| b < 128),
        "NthSegmentMatches" => {
            m.w.visit("sm:NthSegmentMatches");
            let sp = must(&a["split"], m)?; let xs = segs(hay, &sp);
            matcher(&a["matcher"], xs[at(int(&a["n"]), xs.len()).ok_or("segment")?], m)?
        },
        "AnySegmentMatches" => {
            m.w.visit("sm:AnySegmentMatches");
            let sp = must(&a["split"], m)?;
            for x in segs(hay, &sp) { if matcher(&a["matcher"], x, m)? {return Ok(true);} }
            false
        },
        "LengthIs" => hay.len() as u64 == a.as_u64().unwrap(),
        "SegmentsStartWith" => {m.w.visit("sm:SegmentsStartWith"); let sp = must(&a["split"], m)?; let x = must(&a["value"], m)?; hay.starts_with(&x) && hay[x.len()..].starts_with(&sp)},
        "SegmentsEndWith" => {
            m.w.visit("sm:SegmentsEndWith");
            let sp = must(&a["split"], m)?; let x = must(&a["value"], m)?;
            hay.ends_with(&x) && { let rest = &hay[..hay.len() - x.len()]; rest.split(&*sp).last() == Some("") }
        },
        "Common" => { let (t, args) = call(a, "string_matchers", m, "notfound")?; matcher(&t, hay, V {args: Some(&args), ..m})? },
        _ => panic!("model: matcher {k}")
    })
}

// ---------- string modifications ----------
fn replace_n(x: &str, find: &str, rep: &str, mut n: usize) -> String {
    // written out by hand: leftmost, non-overlapping, at most n
    let mut out = String::new();
    let mut i = 0;
    if find.is_empty() {
        // an empty pattern matches before every character and at the end
        let mut it = x.chars();
        loop {
            if n > 0 {out.push_str(rep); n -= 1;}
            match it.next() { Some(c) => out.push(c), None => return out }
        }
    }
    while i < x.len() {
        if n > 0 && x[i..].starts_with(find) {out.push_str(rep); i += find.len(); n -= 1;}
        else { let c = x[i..].chars().next().unwrap(); out.push(c); i += c.len_utf8(); }
    }
    out
}
fn pct(x: &str, keep: impl Fn(u8) -> bool) -> String {
    let mut o = String::new();
    for b in x.bytes() { if b.is_ascii_alphanumeric() || keep(b) {o.push(b as char)} else {o.push_str(&format!("%{b:02X}"))} }
    o
}
fn b64_alphabet(cfg: &Value) -> [u8; 64] {
    let mut t = [0u8; 64];
    for i in 0..26 {t[i] = b'A' + i as u8; t[26 + i] = b'a' + i as u8;}
    for i in 0..10 {t[52 + i] = b'0' + i as u8;}
    if cfg.get("alphabet").and_then(|x| x.as_str()) == Some("Standard") {t[62] = b'+'; t[63] = b'/';} else {t[62] = b'-'; t[63] = b'_';}
    t
}
fn b64_encode(x: &[u8], cfg: &Value) -> String {
    let t = b64_alphabet(cfg);
    let pad = cfg.get("encode_padding").and_then(|x| x.as_bool()).unwrap_or(true);
    let mut o = String::new();
    for c in x.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {o.push(t[(n >> (18 - 6 * i) & 63) as usize] as char)} else if pad {o.push('=')}
        }
    }
    o
}
fn b64_decode(x: &[u8], cfg: &Value) -> R<Vec<u8>> {
    let t = b64_alphabet(cfg);
    let mode = cfg.get("decode_padding").and_then(|x| x.as_str()).unwrap_or("Indifferent");
    let body_len = x.iter().position(|b| *b == b'=').unwrap_or(x.len());
    let (body, tail) = x.split_at(body_len);
    if tail.iter().any(|b| *b != b'=') {return Err("b64");}
    let canonical = (4 - body.len() % 4) % 4;
    if body.len() % 4 == 1 {return Err("b64");}
    match mode {
        "Indifferent" => if tail.len() > canonical {return Err("b64");},
        "RequireCanonical" => if tail.len() != canonical {return Err("b64");},
        "RequireNone" => if !tail.is_empty() {return Err("b64");},
        _ => panic!("mode")
    }
    let mut out = Vec::new();
    let mut acc = 0u32; let mut bits = 0;
    for b in body {
        let d = t.iter().position(|y| y == b).ok_or("b64")? as u32;
        acc = acc << 6 | d; bits += 6;
        if bits >= 8 {bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1;}
    }
    if acc != 0 {return Err("b64 trailing bits");}
    Ok(out)
}
fn json_pointer<'j>(v: &'j Value, p: &str) -> Option<&'j Value> {
    if p.is_empty() {return Some(v);}
    if !p.starts_with('/') {return None;}
    let mut cur = v;
    for tok in p[1..].split('/') {
        let tok = tok.replace("~1", "/").replace("~0", "~");
        cur = match cur {
            Value::Object(m) => m.get(&tok)?,
            Value::Array(xs) => {
                if tok.starts_with('+') || (tok.starts_with('0') && tok.len() != 1) {return None;}
                xs.get(tok.parse::<usize>().ok()?)?
            },
            _ => return None
        };
    }
    Some(cur)
}
pub fn modify(v: &Value, x: &mut String, m: V) -> R<()> {
    let (k, a) = var(v);
    match k {
        "None" => {},
        "Error" => {m.w.visit("mod:Error"); return Err("Explicit")},
        "IgnoreError" => {m.w.visit("mod:IgnoreError"); let _ = modify(a, x, m);},
        "RevertOnError" => {m.w.visit("mod:RevertOnError"); let old = x.clone(); if let Err(e) = modify(a, x, m) {*x = old; return Err(e);}},
        "TryElse" => {m.w.visit("mod:TryElse"); if modify(&a["try"], x, m).is_err() {modify(&a["else"], x, m)?;}},
        "All" => for y in arr(a) {modify(y, x, m)?;},
        "FirstNotError" => {m.w.visit("mod:FirstNotError"); let mut last = Ok(()); for y in arr(a) { last = modify(y, x, m); if last.is_ok() {break;} } return last},
        "If" => if condition(&a["condition"], m)? {modify(&a["then"], x, m)?} else if let Some(e) = a.get("else").filter(|x| !x.is_null()) {modify(e, x, m)?},
        "IfMatches" => if matcher(&a["matcher"], x, m)? {modify(&a["then"], x, m)?} else if let Some(e) = a.get("else").filter(|x| !x.is_null()) {modify(e, x, m)?},
        "Set" => {m.w.visit("mod:Set"); *x = must(a, m)?;},
        "Append" => {m.w.visit("mod:Append"); *x = format!("{x}{}", must(a, m)?);},
        "Prepend" => {m.w.visit("mod:Prepend"); *x = format!("{}{x}", must(a, m)?);},
        "Replace" => {m.w.visit("mod:Replace"); let f = must(&a["find"], m)?; let r = must(&a["replace"], m)?; *x = replace_n(x, &f, &r, usize::MAX);},
        "Replacen" => {m.w.visit("mod:Replacen"); let f = must(&a["find"], m)?; let r = must(&a["replace"], m)?; *x = replace_n(x, &f, &r, a["count"].as_u64().unwrap() as usize);},
        "ReplaceRange" => {
            m.w.visit("mod:ReplaceRange");
            let (st, en) = span(int(&a["start"]), opt_int(&a["end"]), x.len()).ok_or("range")?;
            if !x.is_char_boundary(st) || !x.is_char_boundary(en) {return Err("range");}
            let r = must(&a["replace"], m)?;
            *x = format!("{}{r}{}", &x[..st], &x[en..]);
        },
        "Lowercase" => {m.w.visit("mod:Lowercase"); *x = x.to_lowercase();},
        "Uppercase" => {m.w.visit("mod:Uppercase"); *x = x.to_uppercase();},
        "StripPrefix" => {m.w.visit("mod:StripPrefix"); let p = must(a, m)?; *x = x.strip_prefix(&*p).ok_or("prefix")?.to_string();},
        "StripSuffix" => {m.w.visit("mod:StripSuffix"); let p = must(a, m)?; *x = x.strip_suffix(&*p).ok_or("suffix")?.to_string();},
        "StripMaybePrefix" => {m.w.visit("mod:StripMaybePrefix"); let p = must(a, m)?; if let Some(y) = x.strip_prefix(&*p) {*x = y.to_string();}},
        "StripMaybeSuffix" => {m.w.visit("mod:StripMaybeSuffix"); let p = must(a, m)?; if let Some(y) = x.strip_suffix(&*p) {*x = y.to_string();}},
        "Insert" => {
            m.w.visit("mod:Insert");
            let i = at(int(&a["index"]), x.len()).ok_or("index")?;
            if !x.is_char_boundary(i) {return Err("index");}
            let y = must(&a["value"], m)?;
            *x = format!("{}{y}{}", &x[..i], &x[i..]);
        },
        "RemoveChar" => {
            m.w.visit("mod:RemoveChar");
            let i = at(int(a), x.len()).ok_or("index")?;
            if !x.is_char_boundary(i) {return Err("index");}
            *x = x.char_indices().filter(|(j, _)| *j != i).map(|p| p.1).collect();
        },
        "KeepRange" => {m.w.visit("mod:KeepRange"); *x = cut(x, int(&a["start"]), opt_int(&a["end"]))?.to_string();},
        "RegexCaptures" => {
            m.w.visit("mod:RegexCaptures");
            let r = must(&a["replace"], m)?; let re = regex_of(&a["regex"])?;
            let c = re.captures(x).ok_or("nomatch")?; let mut o = String::new(); c.expand(&r, &mut o); drop(c); *x = o;
        },
        "JoinAllRegexCaptures" => {
            m.w.visit("mod:JoinAllRegexCaptures");
            let r = must(&a["replace"], m)?; let j = must(&a["join"], m)?; let re = regex_of(&a["regex"])?;
            *x = re.captures_iter(x).map(|c| { let mut o = String::new(); c.expand(&r, &mut o); o }).collect::<Vec<_>>().join(&j);
        },
        "RegexFind" => {m.w.visit("mod:RegexFind"); *x = regex_of(a)?.find(x).ok_or("nomatch")?.as_str().to_string();},
        "RegexReplace" => {m.w.visit("mod:RegexReplace"); let re = regex_of(&a["regex"])?; let r = must(&a["replace"], m)?; *x = re.replacen(x, 1, &*r).into_owned();},
        "RegexReplaceAll" => {m.w.visit("mod:RegexReplaceAll"); let re = regex_of(&a["regex"])?; let r = must(&a["replace"], m)?; *x = re.replacen(x, 0, &*r).into_owned();},
        "RegexReplacen" => {m.w.visit("mod:RegexReplacen"); let re = regex_of(&a["regex"])?; let r = must(&a["replace"], m)?; *x = re.replacen(x, a["n"].as_u64().unwrap() as usize, &*r).into_owned();},
        "UrlEncode" => {
            m.w.visit("mod:UrlEncode");
            let comp = |b: u8| b"-_.!~*'()".contains(&b);
            *x = match a.as_str().unwrap_or("JsEncodeUriComponent") {
                "JsEncodeUriComponent" => pct(x, comp),
                "JsEncodeUri" => pct(x, |b| comp(b) || b";/?:@&=+$,#".contains(&b)),
                "NonAlphanumeric" => pct(x, |_| false),
                y => panic!("alphabet {y}")
            };
        },
        "UrlDecode" => {
            m.w.visit("mod:UrlDecode");
            let mut o = Vec::new(); let b = x.as_bytes(); let mut i = 0;
            while i < b.len() {
                let h = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16));
                if b[i] == b'%' { if let (Some(p), Some(q)) = (h(b.get(i + 1)), h(b.get(i + 2))) {o.push((p * 16 + q) as u8); i += 3; continue;} }
                o.push(b[i]); i += 1;
            }
            *x = String::from_utf8(o).map_err(|_| "utf8")?;
        },
        "Base64Encode" => {m.w.visit("mod:Base64Encode"); *x = b64_encode(x.as_bytes(), a);},
        "Base64Decode" => {m.w.visit("mod:Base64Decode"); *x = String::from_utf8(b64_decode(x.as_bytes(), a)?).map_err(|_| "utf8")?;},
        "JsonPointer" => {
            m.w.visit("mod:JsonPointer");
            let j: Value = serde_json::from_str(x).map_err(|_| "json")?;
            let p = must(a, m)?;
            *x = json_pointer(&j, &p).ok_or("pointer")?.as_str().ok_or("not string")?.to_string();
        },
        "RemoveQueryParamsMatching" | "AllowQueryParamsMatching" => {
            m.w.visit("mod:QueryParamsMatching");
            let keep_if = k == "AllowQueryParamsMatching";
            let mut out = Vec::new();
            for kv in x.split('&') { let name = kv.split_once('=').map(|p| p.0).unwrap_or(kv); if matcher(a, name, m)? == keep_if {out.push(kv);} }
            *x = out.join("&");
        },
        "ExtractBetween" => {
            m.w.visit("mod:ExtractBetween");
            let st = must(&a["start"], m)?;
            if !x.contains(&st) {return Err("start");}
            let en = must(&a["end"], m)?;
            *x = between(x, &st, &en)?;
        },
        "KeepNthSegment" => {m.w.visit("mod:KeepNthSegment"); let sp = must(&a["split"], m)?; let y = { let xs = segs(x, &sp); xs[at(int(&a["index"]), xs.len()).ok_or("segment")?].to_string() }; *x = y;},
        "KeepSegmentRange" => {
            m.w.visit("mod:KeepSegmentRange");
            let sp = must(&a["split"], m)?;
            let y = { let xs = segs(x, &sp); let (p, q) = span(a.get("start").and_then(|x| x.as_i64()).unwrap_or(0), a.get("end").and_then(|x| x.as_i64()), xs.len()).ok_or("range")?; xs[p..q].join(&sp) };
            *x = y;
        },
        "SetSegment" => {
            m.w.visit("mod:SetSegment");
            let sp = must(&a["split"], m)?;
            let mut xs: Vec<String> = segs(x, &sp).into_iter().map(str::to_string).collect();
            let i = at(int(&a["index"]), xs.len()).ok_or("segment")?;
            match source(&a["value"], m)? { Some(y) => xs[i] = y, None => {xs.remove(i);} }
            *x = xs.join(&sp);
        },
        "InsertSegment" => {
            m.w.visit("mod:InsertSegment");
            let sp = must(&a["split"], m)?;
            let mut xs: Vec<String> = segs(x, &sp).into_iter().map(str::to_string).collect();
            let i = edge(int(&a["index"]), xs.len()).ok_or("segment")?;
            if let Some(y) = source(&a["value"], m)? {xs.insert(i, y);}
            *x = xs.join(&sp);
        },
        "StringMap" => {m.w.visit("mod:StringMap"); let key = source(&a["value"], m)?; if let Some(y) = map_get(a, key.as_deref()) {modify(y, x, m)?;}},
        "Common" => { let (t, args) = call(a, "string_modifications", m, "notfound")?; modify(&t, x, V {args: Some(&args), ..m})?; },
        _ => panic!("model: modification {k}")
    }
    if x.len() > 20_000 && !m.w.roomy {panic!("model: too long");}
    Ok(())
}

// ---------- conditions ----------
fn filter_hit(a: &Value, e: E) -> bool { match a.get("filter") { None | Some(Value::Null) => true, Some(f) => arr(f).iter().any(|x| s(x) == e) } }
fn strip_filter(a: &Value) -> Value {
    let mut o = a.as_object().unwrap().clone();
    o.remove("filter");
    if o.len() == 1 && o.values().next().unwrap().is_null() {Value::String(o.keys().next().unwrap().clone())} else {Value::Object(o)}
}
/// A source used as an operand of a condition: distinguishes the error class the condition reports.
fn cmust(v: &Value, m: V) -> R<String> { need(source(v, m), "StringSourceError") }
fn csrc(v: &Value, m: V) -> R<Option<String>> { source(v, m).map_err(|_| "StringSourceError") }
pub fn condition(v: &Value, m: V) -> R<bool> {
    let (k, a) = var(v);
    let str_part = |name: &str| -> Option<String> { part_get(m.url, &Value::String(name.into())) };
    let is = |name: &str| -> bool { str_part(name).as_deref() == a.as_str() };
    Ok(match k {
        "Always" => true, "Never" => false, "Error" => {m.w.visit("cond:Error"); return Err("ExplicitError")},
        "If" => if condition(&a["if"], m)? {condition(&a["then"], m)?} else {condition(&a["else"], m)?},
        "Not" => !condition(a, m)?,
        "All" => { for x in arr(a) { if !condition(x, m)? {return Ok(false);} } true },
        "Any" => { for x in arr(a) { if condition(x, m)? {return Ok(true);} } false },
        "PartMap" => {m.w.visit("cond:PartMap"); match map_get(a, part_get(m.url, &a["part"]).as_deref()) { Some(c) => condition(c, m)?, None => false }},
        "StringMap" => {m.w.visit("cond:StringMap"); let key = csrc(&a["value"], m)?; match map_get(a, key.as_deref()) { Some(c) => condition(c, m)?, None => false }},
        "TreatErrorAsPass" => {m.w.visit("cond:TreatErrorAsPass"); match condition(&strip_filter(a), m) { Ok(x) => x, Err(e) => if filter_hit(a, e) {true} else {return Err(e)} }},
        "TreatErrorAsFail" => {m.w.visit("cond:TreatErrorAsFail"); match condition(&strip_filter(a), m) { Ok(x) => x, Err(e) => if filter_hit(a, e) {false} else {return Err(e)} }},
        "TryElse" => {m.w.visit("cond:TryElse"); match condition(&a["try"], m) { Ok(x) => x, Err(e) => if filter_hit(a, e) {condition(&a["else"], m).map_err(|_| "TryElseError")?} else {return Err(e)} }},
        "HostIs" => is("Host"), "SubdomainIs" => is("Subdomain"), "RegDomainIs" => is("RegDomain"), "DomainIs" => is("Domain"),
        "DomainMiddleIs" => is("DomainMiddle"), "NotDomainSuffixIs" => is("NotDomainSuffix"), "DomainSuffixIs" => is("DomainSuffix"),
        "HostIsOneOf" => {m.w.visit("cond:HostIsOneOf"); str_part("Host").is_some_and(|h| arr(a).iter().any(|x| s(x) == h))},
        "UrlHasHost" => m.url.host().is_some(),
        "HostIsFqdn" => host_facts(m.url).fqdn,
        "HostIsDomain" => host_facts(m.url).kind == "domain",
        "HostIsIp" => matches!(host_facts(m.url).kind, "v4" | "v6"),
        "HostIsIpv4" => host_facts(m.url).kind == "v4",
        "HostIsIpv6" => host_facts(m.url).kind == "v6",
        "QueryHasParam" => {m.w.visit("cond:QueryHasParam"); pairs(m.url).iter().any(|p| p.0 == s(a))},
        "PathIs" => {m.w.visit("cond:PathIs"); m.url.path() == s(a)},
        "PartIs" => {m.w.visit("cond:PartIs"); let p = part_get(m.url, &a["part"]); p == csrc(&a["value"], m)?},
        "PartContains" => {
            m.w.visit("cond:PartContains");
            let p = part_get(m.url, &a["part"]).ok_or("PartIsNone")?; let x = cmust(&a["value"], m)?;
            location(a.get("where").unwrap_or(&Value::String("Anywhere".into())), &p, &x).map_err(|_| "StringLocationError")?
        },
        "PartMatches" => {m.w.visit("cond:PartMatches"); let p = part_get(m.url, &a["part"]).ok_or("PartIsNone")?; matcher(&a["matcher"], &p, m).map_err(|_| "StringMatcherError")?},
        "PartIsOneOf" => {m.w.visit("cond:PartIsOneOf"); let p = part_get(m.url, &a["part"]).ok_or("PartIsNone")?; arr(&a["values"]).iter().any(|x| s(x) == p)},
        "FlagIsSet" => {m.w.visit("cond:FlagIsSet"); flag(a, m).map_err(|_| "GetFlagError")?},
        "VarIs" => {
            m.w.visit("cond:VarIs");
            let vr = match a.get("type") { Some(t) => serde_json::json!({"type": t, "name": a["name"]}), None => serde_json::json!({"name": a["name"]}) };
            let l = var_ref(&vr, m).map_err(|_| "GetVarError")?; l == csrc(&a["value"], m)?
        },
        "StringIs" => {m.w.visit("cond:StringIs"); let l = csrc(&a["left"], m)?; l == csrc(&a["right"], m)?},
        "StringContains" => {
            m.w.visit("cond:StringContains");
            let l = cmust(&a["value"], m)?; let r = cmust(&a["substring"], m)?;
            location(a.get("where").unwrap_or(&Value::String("Anywhere".into())), &l, &r).map_err(|_| "StringLocationError")?
        },
        "StringMatches" => {m.w.visit("cond:StringMatches"); let l = cmust(&a["value"], m)?; matcher(&a["matcher"], &l, m).map_err(|_| "StringMatcherError")?},
        "Common" => { let (t, args) = call(a, "conditions", m, "CommonConditionNotFound")?; condition(&t, V {args: Some(&args), ..m})? },
        _ => panic!("model: condition {k}")
    })
}

// ---------- mappers and rules ----------
fn with_args<T>(st: &mut S, args: &Args, f: impl FnOnce(&mut S) -> R<T>) -> R<T> {
    let mut inner = S {url: st.url.clone(), pad: std::mem::take(&mut st.pad), args: Some(args), w: st.w};
    let r = f(&mut inner);
    st.url = inner.url;
    st.pad = inner.pad;
    r
}
fn filter_pairs(st: &mut S, mut keep: impl FnMut(&str, &S) -> R<bool>) -> R<()> {
    if st.url.query().is_none() {return Ok(());}
    let mut out = Vec::new();
    for p in pairs(&st.url) { if keep(&p.0, st)? {out.push(p);} }
    put_pairs(&mut st.url, &out);
    Ok(())
}
pub fn mapper(v: &Value, st: &mut S) -> R<()> {
    let (k, a) = var(v);
    if st.url.as_str().len() > 20_000 && !st.w.roomy {panic!("model: too long");}
    match k {
        "None" => {},
        "Error" => {st.w.visit("map:Error"); return Err("Explicit")},
        "If" => {
            st.w.visit("map:If");
            if condition(&a["condition"], st.v())? {mapper(&a["mapper"], st)?} else if let Some(e) = a.get("else_mapper").filter(|x| !x.is_null()) {mapper(e, st)?}
        },
        "ConditionChain" => {st.w.visit("map:ConditionChain"); for l in arr(a) { if condition(&l["condition"], st.v())? {mapper(&l["mapper"], st)?; break;} }},
        "All" => {st.w.visit("map:All"); for x in arr(a) {mapper(x, st)?;}},
        "PartMap" => {st.w.visit("map:PartMap"); if let Some(x) = map_get(a, part_get(&st.url, &a["part"]).as_deref()) {mapper(x, st)?;}},
        "StringMap" => {st.w.visit("map:StringMap"); let key = source(&a["value"], st.v())?; if let Some(x) = map_get(a, key.as_deref()) {mapper(x, st)?;}},
        "IgnoreError" => {st.w.visit("map:IgnoreError"); let _ = mapper(a, st);},
        "RevertOnError" => {
            st.w.visit("map:RevertOnError");
            let old = (st.url.clone(), st.pad.clone());
            if let Err(e) = mapper(a, st) {st.url = old.0; st.pad = old.1; return Err(e);}
        },
        "TryElse" => {st.w.visit("map:TryElse"); if mapper(&a["try"], st).is_err() {mapper(&a["else"], st)?;}},
        "FirstNotError" => {st.w.visit("map:FirstNotError"); let mut last = Ok(()); for x in arr(a) { last = mapper(x, st); if last.is_ok() {break;} } return last},
        "RemoveQuery" => {st.w.visit("map:RemoveQuery"); st.url.set_query(None)},
        "RemoveQueryParam" => {st.w.visit("map:RemoveQueryParam"); if st.url.query().is_some() { let n = must(a, st.v())?; filter_pairs(st, |x, _| Ok(x != n))?; }},
        "RemoveQueryParams" => {st.w.visit("map:RemoveQueryParams"); filter_pairs(st, |x, _| Ok(!arr(a).iter().any(|y| s(y) == x)))?},
        "AllowQueryParams" => {st.w.visit("map:AllowQueryParams"); filter_pairs(st, |x, _| Ok(arr(a).iter().any(|y| s(y) == x)))?},
        "RemoveQueryParamsMatching" => {st.w.visit("map:RemoveQueryParamsMatching"); filter_pairs(st, |x, st| Ok(!matcher(a, x, st.v())?))?},
        "AllowQueryParamsMatching" => {st.w.visit("map:AllowQueryParamsMatching"); filter_pairs(st, |x, st| matcher(a, x, st.v()))?},
        "GetUrlFromQueryParam" => {
            st.w.visit("map:GetUrlFromQueryParam");
            let n = must(a, st.v())?;
            let p = pairs(&st.url).into_iter().find(|p| p.0 == n).ok_or("no param")?;
            st.url = Url::parse(&p.1).map_err(|_| "parse")?;
        },
        "SetHost" => {st.w.visit("map:SetHost"); set_host(&mut st.url, a.as_str())?},
        "Join" => {st.w.visit("map:Join"); let x = must(a, st.v())?; st.url = st.url.join(&x).map_err(|_| "join")?;},
        "SetPart" => {st.w.visit("map:SetPart"); let x = source(&a["value"], st.v())?; part_set(&mut st.url, &a["part"], x.as_deref())?},
        "ModifyPart" => {st.w.visit("map:ModifyPart"); if let Some(mut x) = part_get(&st.url, &a["part"]) {modify(&a["modification"], &mut x, st.v())?; part_set(&mut st.url, &a["part"], Some(&x))?;}},
        "CopyPart" => {st.w.visit("map:CopyPart"); let x = part_get(&st.url, &a["from"]); part_set(&mut st.url, &a["to"], x.as_deref())?},
        "MovePart" => {
            st.w.visit("map:MovePart");
            let mut u = st.url.clone();
            let x = part_get(&u, &a["from"]);
            part_set(&mut u, &a["to"], x.as_deref())?;
            part_set(&mut u, &a["from"], None)?;
            st.url = u;
        },
        "SetScratchpadFlag" => {st.w.visit("map:SetScratchpadFlag"); let n = must(&a["name"], st.v())?; if a["value"] == Value::Bool(true) {st.pad.flags.insert(n);} else {st.pad.flags.remove(&n);}},
        "SetScratchpadVar" => {
            st.w.visit("map:SetScratchpadVar");
            let x = source(&a["value"], st.v())?; let n = must(&a["name"], st.v())?;
            match x { Some(x) => {st.pad.vars.insert(n, x);}, None => {st.pad.vars.remove(&n);} }
        },
        "ModifyScratchpadVar" => {
            st.w.visit("map:ModifyScratchpadVar");
            let n = must(&a["name"], st.v())?;
            if let Some(mut x) = st.pad.vars.get(&n).cloned() {modify(&a["modification"], &mut x, st.v())?; st.pad.vars.insert(n, x);}
        },
        "Rule" => {st.w.visit("map:Rule"); rule(a, st)?},
        "Rules" => {st.w.visit("map:Rules"); rules(a, st)?},
        "CacheUrl" => {
            st.w.visit("map:CacheUrl");
            let cat = must(&a["category"], st.v())?;
            let old = st.url.as_str().to_string();
            if st.w.params["read_cache"] == Value::Bool(true) {
                let hit = st.w.cache.borrow().get(&(cat.clone(), old.clone())).cloned();
                if let Some(x) = hit {st.w.visit("cache hit"); st.url = Url::parse(&x.ok_or("cached none")?).map_err(|_| "parse")?; return Ok(());}
            }
            mapper(&a["mapper"], st)?;
            if st.w.params["write_cache"] == Value::Bool(true) {st.w.visit("cache write"); st.w.cache.borrow_mut().insert((cat, old), Some(st.url.as_str().to_string()));}
        },
        "Retry" => {
            st.w.visit("map:Retry");
            let limit = a.get("limit").and_then(|x| x.as_u64()).unwrap_or(10);
            let mut last = Ok(());
            for _ in 0..limit { last = mapper(&a["mapper"], st); if last.is_ok() {break;} }
            return last;
        },
        "Common" => { let (t, args) = call(a, "mappers", st.v(), "notfound")?; with_args(st, &args, |i| mapper(&t, i))?; },
        _ => panic!("model: mapper {k}")
    }
    Ok(())
}
pub fn rules(v: &Value, st: &mut S) -> R<()> { for r in arr(v) {rule(r, st)?;} Ok(()) }
pub fn rule(v: &Value, st: &mut S) -> R<()> {
    if v.get("condition").is_some() && v.get("mapper").is_some() {
        st.w.visit("rule:Normal");
        if condition(&v["condition"], st.v())? {mapper(&v["mapper"], st)?} else if let Some(e) = v.get("else_mapper").filter(|x| !x.is_null()) {mapper(e, st)?}
        return Ok(());
    }
    let (k, a) = var(v);
    match k {
        "PartMap" | "PartRuleMap" | "PartRulesMap" | "StringMap" | "StringRuleMap" | "StringRulesMap" => {
            st.w.visit(match k { "PartMap" => "rule:PartMap", "PartRuleMap" => "rule:PartRuleMap", "PartRulesMap" => "rule:PartRulesMap", "StringMap" => "rule:StringMap", "StringRuleMap" => "rule:StringRuleMap", _ => "rule:StringRulesMap" });
            let key = if k.starts_with("Part") {part_get(&st.url, &a["part"])} else {source(&a["value"], st.v())?};
            if let Some(x) = map_get(a, key.as_deref()) { match k {
                "PartMap" | "StringMap" => mapper(x, st)?,
                "PartRuleMap" | "StringRuleMap" => rule(x, st)?,
                _ => rules(x, st)?
            } }
        },
        "Repeat" => {
            st.w.visit("rule:Repeat");
            for _ in 0..a.get("limit").and_then(|x| x.as_u64()).unwrap_or(10) {
                let before = (st.url.as_str().to_string(), st.pad.clone());
                rules(&a["rules"], st)?;
                if st.url.as_str() == before.0 && st.pad == before.1 {break;}
            }
        },
        "SharedCondition" => {st.w.visit("rule:SharedCondition"); if condition(&a["condition"], st.v())? {rules(&a["rules"], st)?;}},
        "Rules" => {st.w.visit("rule:Rules"); rules(a, st)?},
        "Mapper" => {st.w.visit("rule:Mapper"); mapper(a, st)?},
        "Common" => { let (t, args) = call(a, "rules", st.v(), "notfound")?; with_args(st, &args, |i| rule(&t, i))?; },
        _ => panic!("model: rule {k}")
    }
    Ok(())
}
