//! Generators of URLs, strings and whole url-cleaner programs (as JSON).
use serde_json::{json, Map, Value};
use url::Url;
use crate::model::{self, Args, Pad, World};
use crate::rng::Rng;

pub const HOSTS: &[&str] = &[
    "example.com", "www.example.com", "a.b.c.example.com", "example.co.uk", "www.example.co.uk", "x.y.example.co.uk", "co.uk", "com", "localhost",
    "example.com.", "www.example.com.", "a.example.co.uk.", "com.", "localhost.", "127.0.0.1", "1.2.3.4", "[::1]", "[2001:db8::2]", "github.io", "a.github.io",
    "b.a.github.io", "kawasaki.jp", "city.kawasaki.jp", "a.kawasaki.jp", "b.a.kawasaki.jp", "www.ck", "foo.ck", "a.foo.ck", "example.unknowntld", "sub.example.unknowntld",
    "xn--bcher-kva.example", "bücher.de", "www.bücher.example", "例え.jp", "食狮.公司.cn", "www.com", "www.www.com", "www.co.uk", "m.www.example.com", "abc.com.au",
    "a.b.example.compute.amazonaws.com", "s3.amazonaws.com", "x.s3.amazonaws.com", "example", "a.b", "1.2.3.4.example.com", "a-b.c-d.org", "_dmarc.example.net",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.com", "www.", "www.a", "org.uk.example.org", "EXAMPLE.Com",
];
pub const SEGS: &[&str] = &["a", "b", "c", "www", "example", "com", "co", "uk", "x", "ab", "abc", "", "1", "a.b", "a/b", "é", "日本", "%20", "%2F", "a b", "A", "a%", "..", ".", "a?b", "a#b", ":", "@", "&", "=", "+", "~", "\u{1F600}", "a-b", "xn--a", "0", "-1"];
pub const STRS: &[&str] = &[
    "", "a", "b", "c", "ab", "abc", "aaa", "a-b-c", "a/b/c", "a.b.c", "--", "A", "aBc", "é", "日本語", "aé日b", "\u{1F600}x", "ß", "İ", "ﬁ", "Ω", "a b", " ", "\n", "\t", "a\nb", "%20", "%E9", "%e3%81%82", "a%2", "100%",
    "a=b&c=d", "utm_source", "x=1", "=", "&", "&&", "https://example.com/", "https://example.com/a?b=c#d", "http://www.example.co.uk:8080/x/y", "mailto:a@b", "//x/y", "/x/y", "?q", "#f", "..", "../z",
    "{\"a\":\"x\",\"b\":[\"y\",{\"c\":\"z\"}],\"n\":1,\"\":\"e\",\"a/b\":\"s\",\"m~n\":\"t\"}", "[\"p\",\"q\"]", "\"str\"", "{", "/a", "/b/0", "/b/1/c", "/b/01", "/", "/a~1b", "/m~0n", "/n",
    "YWJj", "YWI=", "YWI", "YQ==", "YQ", "_-8=", "+/8=", "YWJj=", "Y", "////", "w6k=", "example.com", "www.example.com", "80", "443", "8080", "65535", "65536", "-1", "0", "+1", "http", "https", "ftp", "foo", ".", "127.0.0.1", "[::1]",
    "aXbXc", "X", "XX", "aXXb", "1a2b3c", "12", "a1", "ab12cd34", "xyz", "$1", "${a}", "$0-$1", "$$",
];
pub const QNAMES: &[&str] = &["a", "b", "c", "utm_source", "utm_medium", "q", "", "é", "a b", "A", "aa", "&", "=", "%", "+"];
pub const REGEXES: &[&str] = &["a", "^a", "a$", "(a)(b)?", "(?P<a>\\d+)", "[a-c]+", ".", ".*", "", "^$", "\\w+", "(?i)ABC", "(\\w)-(\\w)", "X", "é", "\\s", "[^a]", "a|b", "(x)|(y)", "^utm_", "b*", "a b", "a#b", "(?m)^b$", "a $"];
pub const GLOBS: &[&str] = &["*", "a*", "*b", "?", "a?c", "[a-c]*", "*/*", "a/*", "", "**", ".*", "utm_*", "[!a]", "é*", "*.*"];
pub const NAMES: &[&str] = &["f0", "f1", "f2", "v0", "v1", "v2"];
pub const FLAGS: &[&str] = &["f0", "f1", "f2"];
pub const VARS: &[&str] = &["v0", "v1", "v2"];
pub const ENVS: &[&str] = &["UCM_A", "UCM_B", "UCM_UNSET"];
pub const COND_ERRS: &[&str] = &["ExplicitError", "PartIsNone", "StringSourceError", "StringSourceIsNone", "StringLocationError", "StringMatcherError", "GetFlagError", "GetVarError", "CommonConditionNotFound", "TryElseError", "CommonCallArgsError"];

pub fn word(r: &mut Rng) -> String {
    match r.below(12) {
        0..=5 => r.pick(STRS).to_string(),
        6 | 7 => r.pick(SEGS).to_string(),
        8 => r.pick(QNAMES).to_string(),
        // A few pieces, repeated.
        9 => { let all = ["a", "b", "é", "/", "-", "aa", "x", ".", "日", "A", "&", "=", "\u{1F600}", "1"]; let k = 2 + r.below(2); let ps: Vec<&str> = (0..k).map(|_| *r.pick(&all)).collect(); let n = 2 + r.below(9); (0..n).map(|_| *r.pick(&ps)).collect() },
        _ => {
            let n = r.below(8);
            (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'X', '-', '.', '/', '&', '=', '%', '2', 'é', '日', '\u{1F600}', ' ', '+', '\u{0}', '\u{301}', '"'])).collect()
        }
    }
}
pub fn host(r: &mut Rng) -> String {
    match r.below(10) {
        0..=6 => r.pick(HOSTS).to_string(),
        7 | 8 => {
            let n = 1 + r.below(4);
            let mut v: Vec<&str> = (0..n).map(|_| *r.pick(&["a", "b", "www", "example", "x-y", "com", "co", "m", "0", "xn--bcher-kva"])).collect();
            v.push(r.pick(&["com", "co.uk", "org", "github.io", "jp", "kawasaki.jp", "ck", "nosuchtld", "", "de", "com."]));
            v.join(".")
        },
        _ => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256))
    }
}
pub fn query(r: &mut Rng) -> String {
    let n = r.below(6);
    let mut ps = Vec::new();
    for _ in 0..n {
        let k = match r.below(6) { 0..=3 => (*r.pick(&["a", "b", "c", "utm_source", "q", "A", "aa"])).to_string(), 4 => (*r.pick(&["", "%61", "%C3%A9", "é", "a+b", "a%20b", "%FF", "a%", "b%3D", "%26"])).to_string(), _ => r.pick(QNAMES).to_string() };
        let v = match r.below(6) { 0..=2 => (*r.pick(&["1", "2", "x", "y", ""])).to_string(), 3 => (*r.pick(&["%20", "+", "a=b", "%C3%A9", "é", "https%3A%2F%2Fexample.org%2Fp%3Fq%3D1", "%FF", "%", "日"])).to_string(), _ => word(r).replace(['&', '#'], "") };
        ps.push(match r.below(8) { 0 => k, 1 => format!("{k}=") , 2 => String::new(), _ => format!("{k}={v}") });
    }
    ps.join("&")
}
pub fn url(r: &mut Rng) -> Url {
    for _ in 0..20 { if let Ok(u) = Url::parse(&url_text(r)) {return u;} }
    Url::parse("https://example.com/").unwrap()
}
pub fn url_text(r: &mut Rng) -> String {
    let mut o = String::new();
    let opaque = r.chance(1, 16);
    if opaque {
        o.push_str(r.pick(&["mailto:", "data:", "foo:", "javascript:", "about:", "urn:isbn:"]));
        o.push_str(r.pick(&["a@b.com", "text/plain,hi", "x", "blank", "", "a/b", " x ", "x  "]));
    } else {
        let sch = match r.below(12) { 0..=5 => "https", 6 | 7 => "http", 8 => "ftp", 9 => "foo", 10 => "ws", _ => "file" };
        o.push_str(sch); o.push_str("://");
        if r.chance(1, 6) { o.push_str(r.pick(&["user@", "user:pw@", ":pw@", "u%40:p%3A@", "é@"])); }
        if !((sch == "foo" || sch == "file") && r.chance(1, 3)) {o.push_str(&host(r));}
        if r.chance(1, 6) && sch != "file" {o.push_str(r.pick(&[":8080", ":80", ":443", ":0", ":65535", ":"]));}
        let n = r.below(5);
        for _ in 0..n {
            o.push('/');
            o.push_str(&match r.below(5) { 0..=2 => r.pick(&["a", "b", "c", "dp", "x.html", "A", "watch"]).to_string(), 3 => r.pick(&["", "%2F", "%20", "é", "a;b", "a:b", "..", ".", "%2e%2e", "~", "a=b&c"]).to_string(), _ => word(r).replace(['#', '?'], "") });
        }
    }
    if r.chance(3, 5) {o.push('?'); o.push_str(&query(r));}
    if r.chance(1, 3) {o.push('#'); o.push_str(&match r.below(4) { 0 => String::new(), 1 => query(r), 2 => "a:b".into(), _ => word(r) });}
    o
}

fn var1(k: &str, v: Value) -> Value { let mut m = Map::new(); m.insert(k.to_string(), v); Value::Object(m) }

pub struct G<'r> {
    pub r: &'r mut Rng,
    /// Strings that are likely to match something.
    pub pool: Vec<String>,
    /// Commons with an index below this are not called (keeps calls acyclic).
    pub first_common: usize,
    pub n_commons: usize,
    pub in_common: bool,
    pub cache: bool,
    /// Whether the only effects come from the mapper kinds whose model is exact about partial changes.
    pub flat_units: bool,
    /// The text at hand, which arguments are often taken from.
    pub focus: Option<String>,
}
impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, u: &Url) -> Self {
        let mut pool: Vec<String> = Vec::new();
        let f = model::host_facts(u);
        for x in [f.host, f.domain, f.sub, f.reg, f.not_suffix, f.middle, f.suffix].into_iter().flatten() {pool.push(x);}
        pool.push(u.path().to_string()); pool.push(u.scheme().to_string()); pool.push(u.as_str().to_string());
        if let Some(q) = u.query() {pool.push(q.to_string());}
        if let Some(q) = u.fragment() {pool.push(q.to_string());}
        for (k, v) in model::pairs(u) {pool.push(k); pool.push(v);}
        for x in u.path().split('/') {pool.push(x.to_string());}
        G {r, pool, first_common: 0, n_commons: 4, in_common: false, cache: true, flat_units: false, focus: None}
    }
    pub fn text(&mut self) -> String {
        if let Some(f) = &self.focus { if self.r.chance(1, 3) {return f.clone();} }
        if self.r.chance(2, 5) && !self.pool.is_empty() {self.r.pick(&self.pool).clone()} else {word(self.r)}
    }
    /// A text with markers in it, more or less often.
    pub fn between(&mut self) -> (String, String, String) {
        if self.r.chance(1, 4) {return (self.text(), self.sub(), self.sub());}
        let a = self.r.pick(&["<", "a", "/", "ab", "é", "\"", "aa", "start="]).to_string();
        let b = if self.r.chance(1, 5) {a.clone()} else {self.r.pick(&[">", "b", "/", "ba", "日", "\"", "aa", ";"]).to_string()};
        let mut t = String::new();
        for _ in 0..2 + self.r.below(6) { match self.r.below(3) { 0 => t.push_str(&a), 1 => t.push_str(&b), _ => {let w = self.r.pick(&["x", "", "a", "b", "é", "yz", "1"]); t.push_str(w);} } }
        (t, a, b)
    }
    pub fn sub(&mut self) -> String {
        // a substring of a pooled string
        let s = match &self.focus { Some(f) if self.r.chance(1, 2) => f.clone(), _ => self.text() };
        let cs: Vec<char> = s.chars().collect();
        if cs.is_empty() {return s;}
        let a = if self.r.chance(1, 4) {0} else {self.r.below(cs.len())};
        let b = match self.r.below(4) { 0 => cs.len(), 1 => (a + 1 + self.r.below(2)).min(cs.len()), _ => a + self.r.below(cs.len() - a + 1) };
        cs[a..b].iter().collect()
    }
    pub fn pos(&mut self) -> i64 {
        if let Some(f) = &self.focus { let l = f.len() as i64; let c = f.chars().count() as i64; if self.r.chance(1, 5) {return *self.r.pick(&[l, -l, l + 1, -l - 1, l - 1, 1 - l, c, -c, l / 2, -l / 2]);} }
        match self.r.below(20) { 0 => i64::MIN, 1 => i64::MAX, 2 => self.r.range(-40, 40), 3 => i64::MIN + 1, _ => self.r.range(-4, 4) }
    }
    pub fn opos(&mut self) -> Value { if self.r.chance(1, 3) {Value::Null} else {json!(self.pos())} }
    pub fn flagname(&mut self) -> String { self.r.pick(FLAGS).to_string() }
    pub fn varname(&mut self) -> String { self.r.pick(VARS).to_string() }
    /// A source that always gives the literal `x`, in one of several spellings.
    pub fn lit(&mut self, x: &str) -> Value {
        match self.r.below(12) {
            0 => var1("String", json!(x)),
            1 => json!({"NoneTo": {"value": null, "if_none": x}}),
            2 => json!({"TryElse": {"try": {"Error": "e"}, "else": x}}),
            3 | 4 => json!({"Join": {"sources": [x]}}),
            5 => json!({"Modified": {"value": x, "modification": "None"}}),
            _ => json!(x)
        }
    }
    pub fn part(&mut self) -> Value {
        let n = self.r.below(36);
        let p = self.pos();
        match n {
            0 | 1 => json!("Whole"), 2 => json!("Scheme"), 3 => json!("Username"), 4 => json!("Password"), 5 | 6 => json!("Host"),
            7 => json!("HostWithoutWWWDotPrefixAndFqdnPeriod"),
            8 => var1("DomainSegment", json!(p)), 9 => var1("SubdomainSegment", json!(p)), 10 => var1("DomainSuffixSegment", json!(p)),
            11 => {
                let k = *self.r.pick(&["BeforeDomainSegment", "AfterDomainSegment", "BeforeSubdomainSegment", "AfterSubdomainSegment", "BeforeDomainSuffixSegment", "AfterDomainSuffixSegment"]);
                var1(k, json!(p))
            },
            12 => json!(*self.r.pick(&["NextDomainSegment", "NextSubdomainSegment", "NextDomainSuffixSegment"])),
            13 => json!("Domain"), 14 | 15 => json!("Subdomain"), 16 => json!("RegDomain"), 17 => json!("NotDomainSuffix"), 18 => json!("DomainMiddle"), 19 => json!("DomainSuffix"),
            20 => json!("FqdnPeriod"), 21 => json!("Port"), 22 | 23 => json!("Path"), 24 | 25 => var1("PathSegment", json!(p)),
            26 => {let k = *self.r.pick(&["BeforePathSegment", "AfterPathSegment"]); var1(k, json!(p))},
            27 => json!("NextPathSegment"),
            28 | 29 => json!("Query"), 30..=32 => self.qparam(), _ => json!("Fragment")
        }
    }
    pub fn qparam(&mut self) -> Value {
        let name = if self.r.chance(2, 3) {self.r.pick(QNAMES).to_string()} else {self.text()};
        if self.r.chance(1, 2) {var1("QueryParam", json!(name))} else {json!({"QueryParam": {"name": name, "index": self.r.below(4)}})}
    }
    pub fn partval(&mut self, part: &Value, d: usize) -> Value {
        // a value that is often acceptable for the part
        if self.r.chance(1, 6) {return self.source(d);}
        if self.r.chance(1, 8) {return Value::Null;}
        let (k, _) = model::var(part);
        let x = match k {
            "Whole" => if self.r.chance(3, 4) {url_text(self.r)} else {self.text()},
            "Scheme" => (*self.r.pick(&["https", "http", "ftp", "ws", "foo", "file", "HTTP", "", "a b"])).to_string(),
            "Port" => (*self.r.pick(&["80", "443", "8080", "0", "65535", "65536", "-1", "x", "", "08", "+5"])).to_string(),
            "Host" | "Domain" | "HostWithoutWWWDotPrefixAndFqdnPeriod" => if self.r.chance(3, 4) {host(self.r)} else {self.text()},
            "FqdnPeriod" => (*self.r.pick(&[".", ".", "", "x", ".."])).to_string(),
            "RegDomain" => (*self.r.pick(&["example.org", "co.uk", "x.co.uk", "a", "localhost", "127.0.0.1", "", "b.example.org", "example.com"])).to_string(),
            "DomainSuffix" => (*self.r.pick(&["com", "co.uk", "org", "nosuchtld", "", "github.io", "com."])).to_string(),
            "Query" => if self.r.chance(2, 3) {query(self.r)} else {self.text()},
            _ => if self.r.chance(1, 2) {self.r.pick(SEGS).to_string()} else {self.text()}
        };
        self.lit(&x)
    }
    pub fn map(&mut self, keys: Vec<String>, mut f: impl FnMut(&mut Self) -> Value) -> Map<String, Value> {
        let mut m = Map::new();
        let mut inner = Map::new();
        for k in keys {let v = f(self); inner.insert(k, v);}
        m.insert("map".into(), Value::Object(inner));
        if self.r.chance(1, 3) {m.insert("if_null".into(), f(self));}
        if self.r.chance(1, 3) {m.insert("else".into(), f(self));}
        m
    }
    pub fn keys(&mut self) -> Vec<String> { let n = self.r.below(4); (0..n).map(|_| self.text()).collect() }
    fn with(mut m: Map<String, Value>, k: &str, v: Value) -> Value { m.insert(k.into(), v); Value::Object(m) }
    pub fn set_of(&mut self, n: usize) -> Value { let mut v: Vec<String> = (0..self.r.below(n + 1)).map(|_| if self.r.chance(1, 2) {self.r.pick(QNAMES).to_string()} else {self.text()}).collect(); v.sort(); v.dedup(); json!(v) }

    pub fn call(&mut self, d: usize) -> Value {
        let avail = self.n_commons.saturating_sub(self.first_common);
        let name = if avail == 0 || self.r.chance(1, 15) {"nosuch".to_string()} else {format!("c{}", self.first_common + self.r.below(avail))};
        let mut o = Map::new();
        if self.r.chance(1, 3) {return json!(name);}
        o.insert("name".into(), self.lit(&name));
        if self.r.chance(4, 5) {
            let mut args = Map::new();
            let fl: Vec<&str> = FLAGS.iter().filter(|_| self.r.chance(1, 3)).copied().collect();
            if !fl.is_empty() {args.insert("flags".into(), json!(fl));}
            let mut vars = Map::new();
            for v in VARS { if self.r.chance(1, 3) {
                let x = if self.r.chance(1, 4) {json!({"Var": {"name": self.varname(), "type": "Common"}})} else {self.source(d)};
                vars.insert(v.to_string(), x);
            } }
            if !vars.is_empty() {args.insert("vars".into(), Value::Object(vars));}
            o.insert("args".into(), Value::Object(args));
        }
        Value::Object(o)
    }
    pub fn flagref(&mut self, d: usize) -> Map<String, Value> {
        let mut o = Map::new();
        let t = *self.r.pick(&["Params", "Scratchpad", "Scratchpad", "Common"]);
        let t = if t == "Common" && !self.in_common && self.r.chance(5, 6) {"Scratchpad"} else {t};
        if t != "Params" || self.r.chance(1, 2) {o.insert("type".into(), json!(t));}
        let n = self.flagname();
        let n = if self.r.chance(1, 12) {self.source(d)} else {self.lit(&n)};
        o.insert("name".into(), n);
        o
    }
    pub fn varref(&mut self, d: usize) -> Map<String, Value> {
        let mut o = Map::new();
        let t = *self.r.pick(&["Params", "Scratchpad", "Scratchpad", "Common", "JobContext", "TaskContext", "Env"]);
        let t = if t == "Common" && !self.in_common && self.r.chance(5, 6) {"Scratchpad"} else {t};
        if t != "Params" || self.r.chance(1, 2) {o.insert("type".into(), json!(t));}
        let n = if t == "Env" {self.r.pick(ENVS).to_string()} else {self.varname()};
        let n = if self.r.chance(1, 12) && t != "Env" {self.source(d)} else {self.lit(&n)};
        o.insert("name".into(), n);
        o
    }
    pub fn source(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(5)} else {self.r.below(31)};
        let d = d.saturating_sub(1);
        match n {
            0..=2 => {let t = self.text(); json!(t)},
            3 => Value::Null,
            4 | 5 => var1("Part", self.part()),
            6 => {let o = self.varref(d); if self.r.chance(1, 6) {var1("Var", o["name"].as_str().map(|x| json!(x)).unwrap_or(Value::Object(o.clone())))} else {var1("Var", Value::Object(o))}},
            7 => json!({"Error": "e"}),
            8 => var1("ErrorToNone", self.source(d)), 9 => var1("ErrorToEmptyString", self.source(d)),
            10 => json!({"TryElse": {"try": self.source(d), "else": self.source(d)}}),
            11 => var1("NoneToEmptyString", self.source(d)),
            12 => json!({"NoneTo": {"value": self.source(d), "if_none": self.source(d)}}),
            13 | 14 => {
                let n = self.r.below(4);
                let xs: Vec<Value> = (0..n).map(|_| self.source(d)).collect();
                if self.r.chance(1, 2) {json!({"Join": {"sources": xs, "join": self.text()}})} else {json!({"Join": {"sources": xs}})}
            },
            15 => {let mut o = self.flagref(d); o.insert("then".into(), self.source(d)); o.insert("else".into(), self.source(d)); var1("IfFlag", Value::Object(o))},
            16 => json!({"IfStringMatches": {"value": self.source(d), "matcher": self.matcher(d), "then": self.source(d), "else": self.source(d)}}),
            17 => json!({"IfStringIsNone": {"value": self.source(d), "then": self.source(d), "else": self.source(d)}}),
            18 | 19 => {let k = self.keys(); let m = self.map(k, |g| g.source(d)); let v = self.source(d); var1("Map", Self::with(m, "value", v))},
            20 => {
                let v = if self.r.chance(2, 3) {json!(url_text(self.r))} else {self.source(d)};
                json!({"ExtractPart": {"value": v, "part": self.part()}})
            },
            21 => json!({"ParamsMap": {"name": (*self.r.pick(&["m0", "m1", "nosuch"])), "key": self.source(d)}}),
            22 => json!({"ParamsNamedPartitioning": {"name": (*self.r.pick(&["p0", "p1", "nosuch"])), "element": self.source(d)}}),
            23 | 24 => json!({"Modified": {"value": self.source(d), "modification": self.modification(d)}}),
            25 => {
                let (v, a, b) = self.between();
                let v = if self.r.chance(1, 6) {self.source(d)} else {self.lit(&v)};
                json!({"ExtractBetween": {"value": v, "start": self.lit(&a), "end": self.lit(&b)}})
            },
            26 => json!({"RegexFind": {"value": self.source(d), "regex": self.regex()}}),
            27 if self.cache => {
                let c = *self.r.pick(&["cat0", "cat1"]); let k = *self.r.pick(&["k0", "k1", ""]);
                json!({"Cache": {"category": c, "key": k, "value": self.source(d)}})
            },
            28 | 29 => var1("Common", self.call(d)),
            _ => {let s = self.sub(); json!(s)}
        }
    }
    pub fn regex(&mut self) -> Value {
        let p = *self.r.pick(REGEXES);
        if self.r.chance(2, 3) {return json!(p);}
        let mut o = Map::new();
        o.insert("pattern".into(), json!(p));
        for k in ["case_insensitive", "dot_matches_new_line", "multi_line", "swap_greed", "ignore_whitespace", "crlf"] { if self.r.chance(1, 6) {o.insert(k.into(), json!(self.r.chance(1, 2)));} }
        Value::Object(o)
    }
    pub fn glob(&mut self) -> Value {
        let p = *self.r.pick(GLOBS);
        if self.r.chance(2, 3) {return json!(p);}
        let mut o = Map::new();
        o.insert("pattern".into(), json!(p));
        for k in ["case_sensitive", "require_literal_separator", "require_literal_leading_dot"] { if self.r.chance(1, 2) {o.insert(k.into(), json!(self.r.chance(1, 2)));} }
        Value::Object(o)
    }
    pub fn location(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(12)} else {self.r.below(26)};
        let d = d.saturating_sub(1);
        match n {
            0 => json!("Anywhere"), 1 | 2 => json!("Start"), 3 | 4 => json!("End"), 5 => json!("Equals"),
            6 | 7 => var1("StartsAt", json!(self.pos())), 8 => var1("EndsAt", json!(self.pos())), 9 => var1("After", json!(self.pos())), 10 => var1("Before", json!(self.pos())),
            11 => json!(*self.r.pick(&["Always", "Never"])),
            12 => json!({"Error": "e"}),
            13 => json!({"If": {"if": self.location(d), "then": self.location(d), "else": self.location(d)}}),
            14 => {let n = self.r.below(4); var1("All", json!((0..n).map(|_| self.location(d)).collect::<Vec<_>>()))},
            15 => {let n = self.r.below(4); var1("Any", json!((0..n).map(|_| self.location(d)).collect::<Vec<_>>()))},
            16 | 17 => var1("Not", self.location(d)),
            18 => var1("TreatErrorAsPass", self.location(d)), 19 => var1("TreatErrorAsFail", self.location(d)),
            20 => json!({"TryElse": {"try": self.location(d), "else": self.location(d)}}),
            21 => {let n = 1 + self.r.below(3); var1("FirstNotError", json!((0..n).map(|_| self.location(d)).collect::<Vec<_>>()))},
            22 => json!({"Range": {"start": self.pos(), "end": self.opos(), "location": self.location(d)}}),
            23 => json!({"AnySegment": {"split": *self.r.pick(&["/", ".", "-", "&", "a", "X"]), "location": self.location(d)}}),
            _ => json!({"NthSegment": {"split": *self.r.pick(&["/", ".", "-", "&", "a", "X"]), "n": self.pos(), "location": self.location(d)}}),
        }
    }
    pub fn ch(&mut self) -> Value { json!(self.r.pick(&['a', 'b', 'z', 'A', 'Z', '0', '9', ' ', 'é', '日', '-', '/', '\n', '\u{7f}', '\u{0}', '٣', 'İ', '\u{1F600}', '~', '`', '@', '[']).to_string()) }
    pub fn charm(&mut self, d: usize) -> Value {
        const UNITS: &[&str] = &["Always", "Never", "IsAlphabetic", "IsAlphanumeric", "IsAscii", "IsAsciiAlphabetic", "IsAsciiAlphanumeric", "IsAsciiControl", "IsAsciiDigit", "IsAsciiGraphic", "IsAsciiHexdigit", "IsAsciiLowercase", "IsAsciiPunctuation", "IsAsciiUppercase", "IsAsciiWhitespace", "IsControl", "IsDigit", "IsLowercase", "IsNumeric", "IsUppercase", "IsWhitespace"];
        let n = if d == 0 {self.r.below(5)} else {self.r.below(14)};
        let d = d.saturating_sub(1);
        match n {
            0 | 1 => json!(*self.r.pick(UNITS)), 2 => var1("Equals", self.ch()),
            3 => {let a = self.ch(); let b = self.ch(); json!({"Between": {"min": a, "max": b}})},
            4 => {let n = self.r.below(4); var1("IsOneOf", json!((0..n).map(|_| self.ch()).collect::<Vec<_>>()))},
            5 => var1("IsDigitRadix", json!(*self.r.pick(&[0, 1, 2, 8, 10, 16, 35, 36, 37, 100]))),
            6 => json!("Error"),
            7 => json!({"If": {"if": self.charm(d), "then": self.charm(d), "else": self.charm(d)}}),
            8 => {let n = self.r.below(4); var1("All", json!((0..n).map(|_| self.charm(d)).collect::<Vec<_>>()))},
            9 => {let n = self.r.below(4); var1("Any", json!((0..n).map(|_| self.charm(d)).collect::<Vec<_>>()))},
            10 => var1("Not", self.charm(d)),
            11 => {let k = *self.r.pick(&["TreatErrorAsPass", "TreatErrorAsFail"]); var1(k, self.charm(d))},
            12 => json!({"TryElse": {"try": self.charm(d), "else": self.charm(d)}}),
            _ => {let n = 1 + self.r.below(3); var1("FirstNotError", json!((0..n).map(|_| self.charm(d)).collect::<Vec<_>>()))},
        }
    }
    pub fn split(&mut self, d: usize) -> Value { if self.r.chance(1, 15) {self.source(d)} else if self.focus.is_some() && self.r.chance(1, 3) {let s = self.sub(); let x: String = s.chars().take(2).collect(); self.lit(&x)} else {let x = *self.r.pick(&["/", ".", "-", "&", "a", "X", "", "b"]); self.lit(x)} }
    pub fn matcher(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(12)} else {self.r.below(36)};
        let d = d.saturating_sub(1);
        match n {
            0 => json!("Always"), 1 => json!("Never"),
            2 => {let x = self.sub(); json!({"Contains": {"value": x, "where": self.location(d.min(2))}})},
            3 => {let x = self.sub(); json!({"Contains": {"value": x}})},
            4 => {let x = self.text(); var1("Is", json!(x))},
            5 => var1("IsOneOf", self.set_of(4)),
            6 => var1("InSet", json!(*self.r.pick(&["s0", "s1", "nosuch"]))),
            7 => var1("Regex", self.regex()), 8 => var1("Glob", self.glob()),
            9 => json!("IsAscii"), 10 => var1("LengthIs", json!(match &self.focus { Some(f) if self.r.chance(1, 2) => if self.r.chance(1, 2) {f.len()} else {f.chars().count()}, _ => self.r.below(8) })),
            11 => {let c = self.charm(d.min(2)); let k = *self.r.pick(&["AllCharsMatch", "AnyCharMatches"]); var1(k, c)},
            12 => json!({"Error": "e"}),
            13 => json!({"If": {"if": self.matcher(d), "then": self.matcher(d), "else": self.matcher(d)}}),
            14 | 15 => {let n = self.r.below(4); var1("All", json!((0..n).map(|_| self.matcher(d)).collect::<Vec<_>>()))},
            16 | 17 => {let n = self.r.below(4); var1("Any", json!((0..n).map(|_| self.matcher(d)).collect::<Vec<_>>()))},
            18 | 19 => var1("Not", self.matcher(d)),
            20 => var1("TreatErrorAsPass", self.matcher(d)), 21 => var1("TreatErrorAsFail", self.matcher(d)),
            22 => json!({"TryElse": {"try": self.matcher(d), "else": self.matcher(d)}}),
            23 => {let n = 1 + self.r.below(3); var1("FirstNotError", json!((0..n).map(|_| self.matcher(d)).collect::<Vec<_>>()))},
            24 => {let n = self.r.below(4); json!({"ContainsAny": {"values": (0..n).map(|_| if self.r.chance(1, 2) {json!(self.sub())} else {self.source(d)}).collect::<Vec<_>>(), "where": self.location(d.min(2))}})},
            25 => json!({"ContainsAnyInList": {"list": *self.r.pick(&["l0", "l1", "nosuch"]), "where": self.location(d.min(2))}}),
            26 => var1("Is", self.source(d)),
            27 | 28 => json!({"Modified": {"modification": self.modification(d), "matcher": self.matcher(d)}}),
            29 => {let n = self.r.below(6); var1("OnlyTheseChars", json!((0..n).map(|_| self.ch()).collect::<Vec<_>>()))},
            30 | 31 => {let sp = self.split(d); json!({"NthSegmentMatches": {"split": sp, "n": self.pos(), "matcher": self.matcher(d)}})},
            32 => {let sp = self.split(d); json!({"AnySegmentMatches": {"split": sp, "matcher": self.matcher(d)}})},
            33 => {let sp = self.split(d); let x = self.sub(); json!({"SegmentsStartWith": {"split": sp, "value": x}})},
            34 => {let sp = self.split(d); let x = self.sub(); json!({"SegmentsEndWith": {"split": sp, "value": x}})},
            _ => var1("Common", self.call(d)),
        }
    }
    pub fn modification(&mut self, d: usize) -> Value {
        let n = if d == 0 {4 + self.r.below(35)} else {self.r.below(53)};
        let d = d.saturating_sub(1);
        let sd = d.min(1);
        macro_rules! src { () => { if self.r.chance(1, 6) {self.source(sd)} else {let t = self.sub(); self.lit(&t)} } }
        match n {
            0 => {let n = self.r.below(4); var1("All", json!((0..n).map(|_| self.modification(d)).collect::<Vec<_>>()))},
            1 => json!({"IfMatches": {"matcher": self.matcher(d), "then": self.modification(d), "else": if self.r.chance(1, 2) {self.modification(d)} else {Value::Null}}}),
            2 => json!({"If": {"condition": self.condition(d), "then": self.modification(d), "else": if self.r.chance(1, 2) {self.modification(d)} else {Value::Null}}}),
            3 => json!({"TryElse": {"try": self.modification(d), "else": self.modification(d)}}),
            4 => var1("Set", src!()), 5 => var1("Append", src!()), 6 => var1("Prepend", src!()),
            7 | 8 => json!({"Replace": {"find": src!(), "replace": src!()}}),
            9 | 10 => json!({"Replacen": {"find": src!(), "replace": src!(), "count": self.r.below(4)}}),
            11 | 12 => json!({"ReplaceRange": {"start": self.pos(), "end": self.opos(), "replace": src!()}}),
            13 => json!("Lowercase"), 14 => json!("Uppercase"),
            15 => var1("StripPrefix", src!()), 16 => var1("StripSuffix", src!()), 17 => var1("StripMaybePrefix", src!()), 18 => var1("StripMaybeSuffix", src!()),
            19 => json!({"Insert": {"value": src!(), "index": self.pos()}}), 20 => var1("RemoveChar", json!(self.pos())),
            21 | 22 => json!({"KeepRange": {"start": self.pos(), "end": self.opos()}}),
            23 => json!({"RegexCaptures": {"regex": self.regex(), "replace": (*self.r.pick(&["$1", "$0-$1", "${1}x", "$a", "", "$$"]))}}),
            24 => json!({"JoinAllRegexCaptures": {"regex": self.regex(), "replace": (*self.r.pick(&["$1", "$0", "${1}x", "$a"])), "join": src!()}}),
            25 => var1("RegexFind", self.regex()),
            26 => json!({"RegexReplace": {"regex": self.regex(), "replace": src!()}}),
            27 => json!({"RegexReplaceAll": {"regex": self.regex(), "replace": src!()}}),
            28 => json!({"RegexReplacen": {"regex": self.regex(), "replace": src!(), "n": self.r.below(4)}}),
            29 => if self.r.chance(1, 3) {json!("UrlEncode")} else {var1("UrlEncode", json!(*self.r.pick(&["JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric"])))},
            30 => json!("UrlDecode"),
            31 => if self.r.chance(1, 2) {json!("Base64Encode")} else {var1("Base64Encode", self.b64())},
            32 | 33 => if self.r.chance(1, 2) {json!("Base64Decode")} else {var1("Base64Decode", self.b64())},
            34 | 35 => var1("JsonPointer", json!(*self.r.pick(&["", "/a", "/b/0", "/b/1/c", "/b/2", "/n", "/", "/a~1b", "/m~0n", "a", "/0", "/1", "/b/-1", "/b/01"]))),
            36 => var1("KeepNthSegment", { let sp = self.split(sd); json!({"split": sp, "index": self.pos()}) }),
            37 => { let sp = self.split(sd); let mut o = Map::new(); o.insert("split".into(), sp); if self.r.chance(3, 4) {o.insert("start".into(), json!(self.pos()));} if self.r.chance(3, 4) {o.insert("end".into(), self.opos());} var1("KeepSegmentRange", Value::Object(o)) },
            38 => { let sp = self.split(sd); json!({"SetSegment": {"split": sp, "index": self.pos(), "value": if self.r.chance(1, 4) {Value::Null} else {src!()}}}) },
            39 => { let sp = self.split(sd); json!({"InsertSegment": {"split": sp, "index": self.pos(), "value": if self.r.chance(1, 6) {Value::Null} else {src!()}}}) },
            40 => json!("None"), 41 => json!({"Error": "e"}), 42 => var1("IgnoreError", self.modification(d)), 43 | 44 => var1("RevertOnError", self.modification(d)),
            45 => {let n = 1 + self.r.below(3); var1("FirstNotError", json!((0..n).map(|_| self.modification(d)).collect::<Vec<_>>()))},
            46 => var1("RemoveQueryParamsMatching", self.matcher(d)), 47 => var1("AllowQueryParamsMatching", self.matcher(d)),
            48 | 49 => json!({"ExtractBetween": {"start": src!(), "end": src!()}}),
            50 => {let k = self.keys(); let m = self.map(k, |g| g.modification(d)); let v = self.source(d); var1("StringMap", Self::with(m, "value", v))},
            _ => var1("Common", self.call(sd)),
        }
    }
    fn b64(&mut self) -> Value {
        let mut o = Map::new();
        if self.r.chance(1, 2) {o.insert("alphabet".into(), json!(*self.r.pick(&["Standard", "UrlSafe"])));}
        if self.r.chance(1, 2) {o.insert("encode_padding".into(), json!(self.r.chance(1, 2)));}
        if self.r.chance(1, 2) {o.insert("decode_padding".into(), json!(*self.r.pick(&["Indifferent", "RequireCanonical", "RequireNone"])));}
        Value::Object(o)
    }
    pub fn ostr(&mut self) -> Value { if self.r.chance(1, 5) {Value::Null} else {let t = self.text(); json!(t)} }
    pub fn filter(&mut self, o: &mut Map<String, Value>) {
        if self.r.chance(1, 2) { let mut v: Vec<&str> = (0..self.r.below(4)).map(|_| *self.r.pick(COND_ERRS)).collect(); v.sort(); v.dedup(); o.insert("filter".into(), json!(v)); }
    }
    pub fn condition(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(24)} else {self.r.below(58)};
        let d = d.saturating_sub(1);
        match n {
            0 | 1 => json!("Always"), 2 => json!("Never"),
            3..=9 => {let k = ["HostIs", "SubdomainIs", "RegDomainIs", "DomainIs", "DomainMiddleIs", "NotDomainSuffixIs", "DomainSuffixIs"][n - 3]; var1(k, self.ostr())},
            10 => var1("HostIsOneOf", {let mut v: Vec<String> = (0..self.r.below(4)).map(|_| self.text()).collect(); v.sort(); v.dedup(); json!(v)}),
            11..=16 => json!(["UrlHasHost", "HostIsFqdn", "HostIsDomain", "HostIsIp", "HostIsIpv4", "HostIsIpv6"][n - 11]),
            17 => {let t = if self.r.chance(1, 2) {self.r.pick(QNAMES).to_string()} else {self.text()}; var1("QueryHasParam", json!(t))},
            18 => {let t = self.text(); var1("PathIs", json!(t))},
            19 => {let t = self.ostr(); json!({"PartIs": {"part": self.part(), "value": t}})},
            20 => {let t = self.sub(); json!({"PartContains": {"part": self.part(), "value": t, "where": self.location(d.min(2))}})},
            21 => json!({"PartMatches": {"part": self.part(), "matcher": self.matcher(d)}}),
            22 => json!({"PartIsOneOf": {"part": self.part(), "values": self.set_of(4)}}),
            23 => {let o = self.flagref(d); var1("FlagIsSet", Value::Object(o))},
            24 => json!({"Error": "e"}),
            25 | 26 => json!({"If": {"if": self.condition(d), "then": self.condition(d), "else": self.condition(d)}}),
            27..=29 => var1("Not", self.condition(d)),
            30..=32 => {let n = self.r.below(4); var1("All", json!((0..n).map(|_| self.condition(d)).collect::<Vec<_>>()))},
            33..=35 => {let n = self.r.below(4); var1("Any", json!((0..n).map(|_| self.condition(d)).collect::<Vec<_>>()))},
            36 => {let p = self.part(); let k = self.keys(); let m = self.map(k, |g| g.condition(d)); var1("PartMap", Self::with(m, "part", p))},
            37 => {let k = self.keys(); let m = self.map(k, |g| g.condition(d)); let v = self.source(d); var1("StringMap", Self::with(m, "value", v))},
            38..=41 => {
                let c = self.condition(d);
                let mut o = match c { Value::String(u) => {let mut o = Map::new(); o.insert(u, Value::Null); o}, Value::Object(o) => o, _ => unreachable!() };
                self.filter(&mut o);
                var1(if n < 40 {"TreatErrorAsPass"} else {"TreatErrorAsFail"}, Value::Object(o))
            },
            42 | 43 => {let mut o = Map::new(); o.insert("try".into(), self.condition(d)); o.insert("else".into(), self.condition(d)); self.filter(&mut o); var1("TryElse", Value::Object(o))},
            44 => json!({"PartIs": {"part": self.part(), "value": self.source(d)}}),
            45 => {let t = self.source(d); json!({"PartContains": {"part": self.part(), "value": t}})},
            46 | 47 => {let mut o = self.varref(d); o.insert("value".into(), if self.r.chance(1, 2) {self.ostr()} else {self.source(d)}); var1("VarIs", Value::Object(o))},
            48 | 49 => json!({"StringIs": {"left": self.source(d), "right": self.source(d)}}),
            50 | 51 => {let t = self.sub(); json!({"StringContains": {"value": self.source(d), "substring": t, "where": self.location(d.min(2))}})},
            52 | 53 => json!({"StringMatches": {"value": self.source(d), "matcher": self.matcher(d)}}),
            54 => {let n = self.flagname(); var1("FlagIsSet", json!(n))},
            _ => var1("Common", self.call(d)),
        }
    }
    pub fn mapper(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(28)} else {self.r.below(56)};
        let d = d.saturating_sub(1);
        match n {
            0..=6 => {let p = self.part(); let v = self.partval(&p, d); json!({"SetPart": {"part": p, "value": v}})},
            7 | 8 => {let f = self.part(); let t = self.part(); let k = *self.r.pick(&["CopyPart", "MovePart"]); var1(k, json!({"from": f, "to": t}))},
            9 | 10 => json!({"ModifyPart": {"part": self.part(), "modification": self.modification(d)}}),
            11..=13 => {let t = self.r.chance(1, 2); let n = self.flagname(); let n = self.lit(&n); json!({"SetScratchpadFlag": {"name": n, "value": t}})},
            14..=16 => {let n = self.varname(); let n = self.lit(&n); json!({"SetScratchpadVar": {"name": n, "value": self.source(d)}})},
            17 => json!({"Error": "e"}),
            18 => json!("RemoveQuery"), 19 => {let t = self.r.pick(QNAMES).to_string(); var1("RemoveQueryParam", self.lit(&t))},
            20 => var1("RemoveQueryParams", self.set_of(4)), 21 => var1("AllowQueryParams", self.set_of(4)),
            22 => var1("RemoveQueryParamsMatching", self.matcher(d)), 23 => var1("AllowQueryParamsMatching", self.matcher(d)),
            24 => {let t = self.r.pick(QNAMES).to_string(); var1("GetUrlFromQueryParam", json!(t))},
            25 => {let h = if self.r.chance(1, 8) {Value::Null} else {json!(host(self.r))}; var1("SetHost", h)},
            26 => var1("Join", self.source(d)),
            27 => {let n = self.varname(); json!({"ModifyScratchpadVar": {"name": n, "modification": self.modification(d)}})},
            28 => json!("None"),
            29 | 30 => json!({"If": {"condition": self.condition(d), "mapper": self.mapper(d), "else_mapper": if self.r.chance(1, 2) {self.mapper(d)} else {Value::Null}}}),
            31 | 32 => {let n = self.r.below(4); var1("ConditionChain", json!((0..n).map(|_| json!({"condition": self.condition(d), "mapper": self.mapper(d)})).collect::<Vec<_>>()))},
            33..=36 => {let n = self.r.below(5); var1("All", json!((0..n).map(|_| self.mapper(d)).collect::<Vec<_>>()))},
            37 => {let p = self.part(); let k = self.keys(); let m = self.map(k, |g| g.mapper(d)); var1("PartMap", Self::with(m, "part", p))},
            38 => {let k = self.keys(); let m = self.map(k, |g| g.mapper(d)); let v = self.source(d); var1("StringMap", Self::with(m, "value", v))},
            39 | 40 => var1("IgnoreError", self.mapper(d)), 41..=43 => var1("RevertOnError", self.mapper(d)),
            44 | 45 => json!({"TryElse": {"try": self.mapper(d), "else": self.mapper(d)}}),
            46 | 47 => {let n = 1 + self.r.below(3); var1("FirstNotError", json!((0..n).map(|_| self.mapper(d)).collect::<Vec<_>>()))},
            48 => var1("Rule", self.rule(d)), 49 => {let n = self.r.below(3); var1("Rules", json!((0..n).map(|_| self.rule(d)).collect::<Vec<_>>()))},
            50 if self.cache => {let c = *self.r.pick(&["cat0", "cat1"]); json!({"CacheUrl": {"category": c, "mapper": self.mapper(d)}})},
            51 | 52 => json!({"Retry": {"mapper": self.mapper(d), "delay": 0, "limit": 1 + self.r.below(3)}}),
            _ => var1("Common", self.call(d)),
        }
    }
    pub fn rules(&mut self, d: usize) -> Value { let n = self.r.below(4); json!((0..n).map(|_| self.rule(d)).collect::<Vec<_>>()) }
    pub fn rule(&mut self, d: usize) -> Value {
        let n = if d == 0 {self.r.below(6)} else {self.r.below(20)};
        let d = d.saturating_sub(1);
        match n {
            0..=3 => json!({"condition": self.condition(d), "mapper": self.mapper(d), "else_mapper": if self.r.chance(1, 3) {self.mapper(d)} else {Value::Null}}),
            4 | 5 => var1("Mapper", self.mapper(d)),
            6..=11 => {
                let kind = n - 6;
                let f = move |g: &mut Self| match kind { 0 | 3 => g.mapper(d), 1 | 4 => g.rule(d), _ => g.rules(d) };
                let k = self.keys(); let m = self.map(k, f);
                if kind < 3 { let p = self.part(); var1(["PartMap", "PartRuleMap", "PartRulesMap"][kind], Self::with(m, "part", p)) }
                else { let v = self.source(d); var1(["StringMap", "StringRuleMap", "StringRulesMap"][kind - 3], Self::with(m, "value", v)) }
            },
            12 | 13 => json!({"Repeat": {"rules": self.rules(d), "limit": self.r.below(5)}}),
            14 | 15 => json!({"SharedCondition": {"condition": self.condition(d), "rules": self.rules(d)}}),
            16 | 17 => var1("Rules", self.rules(d)),
            _ => var1("Common", self.call(d)),
        }
    }
    pub fn commons(&mut self, d: usize) -> Value {
        let mut o = Map::new();
        let was = self.in_common;
        self.in_common = true;
        for kind in ["rules", "mappers", "conditions", "string_matchers", "string_modifications", "string_sources"] {
            let mut m = Map::new();
            for i in 0..self.n_commons {
                self.first_common = i + 1;
                let v = match kind { "rules" => self.rule(d), "mappers" => self.mapper(d), "conditions" => self.condition(d), "string_matchers" => self.matcher(d), "string_modifications" => self.modification(d), _ => self.source(d) };
                m.insert(format!("c{i}"), v);
            }
            o.insert(kind.into(), Value::Object(m));
        }
        self.first_common = 0;
        self.in_common = was;
        Value::Object(o)
    }
    pub fn params(&mut self) -> Value {
        let fl: Vec<&str> = FLAGS.iter().filter(|_| self.r.chance(1, 2)).copied().collect();
        let mut vars = Map::new();
        for v in VARS { if self.r.chance(1, 2) {let t = self.text(); vars.insert(v.to_string(), json!(t));} }
        let mut uniq = |g: &mut Self, n: usize| -> Vec<String> { let mut v: Vec<String> = (0..g.r.below(n + 1)).map(|_| if g.r.chance(1, 3) {g.r.pick(QNAMES).to_string()} else {g.text()}).collect(); v.sort(); v.dedup(); v };
        let s0 = uniq(self, 5); let s1 = uniq(self, 5); let l0 = uniq(self, 4); let l1: Vec<String> = (0..self.r.below(4)).map(|_| self.sub()).collect();
        let k0 = self.keys(); let m0 = self.map(k0, |g| {let t = g.text(); json!(t)});
        let k1 = self.keys(); let m1 = self.map(k1, |g| {let t = g.text(); json!(t)});
        let all = uniq(self, 8);
        let (mut pa, mut pb) = (Vec::new(), Vec::new());
        for x in all { if self.r.chance(1, 2) {pa.push(x)} else {pb.push(x)} }
        let q = uniq(self, 3);
        json!({"flags": fl, "vars": vars, "sets": {"s0": s0, "s1": s1}, "lists": {"l0": l0, "l1": l1}, "maps": {"m0": m0, "m1": m1},
            "named_partitionings": {"p0": {"A": pa, "B": pb}, "p1": {"Q": q}}, "read_cache": self.r.chance(3, 4), "write_cache": self.r.chance(3, 4)})
    }
    pub fn world(&mut self, commons_depth: usize) -> World {
        let params = self.params();
        let commons = self.commons(commons_depth);
        let mut w = World {params, commons, ..Default::default()};
        for v in VARS {
            if self.r.chance(1, 2) {let t = self.text(); w.job_vars.insert(v.to_string(), t);}
            if self.r.chance(1, 2) {let t = self.text(); w.task_vars.insert(v.to_string(), t);}
        }
        w.env.insert("UCM_A".into(), "env a".into()); w.env.insert("UCM_B".into(), "é".into());
        w
    }
    pub fn pad(&mut self) -> Pad {
        let mut p = Pad::default();
        for f in FLAGS { if self.r.chance(1, 3) {p.flags.insert(f.to_string());} }
        for v in VARS { if self.r.chance(1, 2) {let t = self.text(); p.vars.insert(v.to_string(), t);} }
        p
    }
    pub fn args(&mut self) -> Args {
        let mut p = Args::default();
        for f in FLAGS { if self.r.chance(1, 3) {p.flags.insert(f.to_string());} }
        for v in VARS { if self.r.chance(1, 2) {let t = self.text(); p.vars.insert(v.to_string(), t);} }
        p
    }
}
