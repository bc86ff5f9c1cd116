//! U31 and U32: links that carry their destination, other names of a site, and the documented flags of the shipped rules.
//! The forms and the meanings of the flags are written down here, not read from the configuration.
use serde_json::{json, Value};
use url::Url;
use crate::core::*;
use crate::dconf::{enc, D};
use crate::model::host_facts;
use crate::rng::{hash_str, Rng};
use crate::shipped::{clean_json, Base, Res};
use url_cleaner::types::JobContext;

// ---- U31 ----

/// Host, path (none: any), parameter, whether any subdomain may stand before the host.
const BY_PARAM: &[(&str, Option<&str>, &str, bool)] = &[
    ("api.linkr.bio", Some("/callbacks/go"), "url", false), ("api.linkr.com", Some("/callbacks/go"), "url", false), ("awin1.com", Some("/cread.php"), "ued", false), ("deviantart.com", Some("/users/outgoing"), "url", false),
    ("duckduckgo.com", Some("/l/"), "uddg", false), ("duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion", Some("/l/"), "uddg", false), ("go.bsky.app", None, "u", false), ("goodreads.com", Some("/gp/r.html"), "U", false),
    ("rd.goodreads.com", Some("/gp/r.html"), "U", false), ("l.instagram.com", None, "u", false), ("l.threads.com", None, "u", false), ("lnk.bio", Some("/go"), "d", false), ("o93x.net", None, "u", false), ("out.reddit.com", None, "url", false),
    ("pixiv.net", Some("/jump.php"), "url", false), ("proxy.notsobot.com", None, "url", false), ("steamcommunity.com", Some("/linkfilter/"), "u", false), ("t.umblr.com", None, "z", false), ("toyhou.se", Some("/~r"), "q", false),
    ("youtube.com", Some("/redirect"), "q", false), ("smartadserver.com", Some("/click"), "go", true), ("vk.com", Some("/away.php"), "to", false), ("google.com", Some("/url"), "q", true), ("google.co.uk", Some("/url"), "q", true), ("google.de", Some("/url"), "q", true),
];
const WORDS: &[&str] = &["a", "b", "a__b", "__", "a.b", "e--f", "a;!!b", "a:b", "a,b|c", "%2541", "page", "x1", "é", "A-B", "a_b", "1", "%20", "a%2Fb", "o'k", "x;y", "c,d", "~", "2024"];
const HOSTS: &[&str] = &["example.com", "dest.example", "a.b.example.org", "example.co.uk", "www.example.net", "example.com.", "bücher.example", "192.0.2.7", "[2001:db8::1]", "localhost", "m.example.com", "example.com:8080", "user@example.com", "u:p@example.com:81"];
fn plain_pairs(r: &mut Rng, most: usize) -> String { let n = r.below(most + 1); (0..n).map(|_| format!("{}={}", r.pick(&["a", "b", "id", "x1", "é", "utm_source", "fbclid", "page", "k%26", "lang"]), r.pick(&["", "1", "v", "a+b", "%41", "%26", "é", "x=y", "https://in.example/?q=1"]))).collect::<Vec<_>>().join("&") }
/// A link to somewhere without rules of its own.
fn plain(r: &mut Rng) -> String {
    let mut s = format!("{}://{}", r.pick(&["https", "http", "https"]), r.pick(HOSTS));
    for _ in 0..r.below(5) {s.push('/'); s.push_str(r.pick(WORDS));}
    if r.chance(1, 4) {s.push('/');}
    if r.chance(1, 40) {s.push_str(&"/long".repeat(*r.pick(&[50, 400, 2000])));}
    if r.chance(1, 2) {s.push('?'); s.push_str(&plain_pairs(r, 4));}
    if r.chance(1, 30) {s.push_str(if s.contains('?') {"&z=1"} else {"?z=1"}); for i in 0..*r.pick(&[10, 100, 300]) {s.push_str(&format!("&n{i}={i}"));}}
    if r.chance(1, 4) {s.push('#'); s.push_str(r.pick(&["", "top", "a=b&c=d", "é", "/x/y", "utm_source=1&k=2"]));}
    s
}
fn b64(s: &str, pad: bool) -> String { use base64::Engine; let e = base64::engine::general_purpose::URL_SAFE.encode(s); if pad {e} else {e.trim_end_matches('=').to_string()} }
/// How a text may be written as the value of a parameter.
fn as_value(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => url::form_urlencoded::byte_serialize(s.as_bytes()).collect(),
        1 => s.chars().map(|c| match c { '&' | '#' | '%' | '+' | ' ' | '\'' | '"' | '<' | '>' => enc(&c.to_string()), c => c.to_string() }).collect(),
        2 => enc(s).to_lowercase().replace("%2e", ".").chars().collect::<String>().pipe(|x| if x.chars().any(|c| c.is_ascii_alphabetic()) && s.chars().all(|c| !c.is_ascii_uppercase()) {x} else {enc(s)}),
        _ => enc(s),
    }
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl<T> Pipe for T {}
fn spell_host(r: &mut Rng, h: &str) -> String { format!("{}{}{}", if r.chance(1, 4) {"www."} else {""}, if r.chance(1, 10) {h.to_uppercase()} else {h.to_string()}, if r.chance(1, 15) {"."} else {""}) }
fn others(r: &mut Rng, not: &str) -> Vec<String> { let n = r.below(4); (0..n).map(|_| format!("{}={}", r.pick(&["s", "e", "h", "sa", "ved", "token", "utm_source", "é", "U1"]), r.pick(&["", "1", "abc", "https%3A%2F%2Fwrong.example%2F", "a=b", "%26"]))).filter(|p| !p.starts_with(&format!("{not}="))).collect() }
/// Where a link to `dest` through a parameter leads by way of this form; `dest` is an absolute web URL.
fn by_param(r: &mut Rng, i: usize, dest: &str) -> String {
    let (host, path, name, sub) = BY_PARAM[i];
    let path = match path { Some("/linkfilter/") => r.pick(&["/linkfilter/", "/linkfilter", "/linkfilter/x"]).to_string(), Some(p) => p.to_string(), None => r.pick(&["/", "/redirect", "/a/b", "//x/"]).to_string() };
    let mut h = spell_host(r, host); if sub && r.chance(1, 3) {h = format!("{}{h}", r.pick(&["a.", "x-1.y."]));}
    let mut ps = others(r, name); let at = r.below(ps.len() + 1);
    ps.insert(at, format!("{name}={}", as_value(r, dest)));
    if r.chance(1, 4) {ps.push(format!("{name}=https%3A%2F%2Fwrong.example%2F"));}
    format!("{}://{h}{}{path}?{}{}", r.pick(&["https", "https", "http"]), r.pick(&["", "", "", ":8080"]), ps.join("&"), r.pick(&["", "", "#frag", "#"]))
}
const OTHER: usize = 14;
/// Links that carry their destination in some other way; none if this form cannot carry this destination.
fn by_other(r: &mut Rng, k: usize, dest: &str) -> Option<String> {
    let raw_ok = !dest.contains(['#', '\'']) && !dest.contains("&url=");
    Some(match k {
        0 => format!("{}://{}/?{}", r.pick(&["https", "http"]), spell_host(r, "href.li"), if raw_ok && !dest.contains('%') && r.chance(1, 2) {dest.to_string()} else {enc(dest)}),
        1 | 2 => { let (h, p) = if k == 1 {("deviantart.com", "/users/outgoing")} else {("pixiv.net", "/jump.php")}; format!("https://{}{p}?{}", spell_host(r, h), if raw_ok && r.chance(1, 2) {dest.to_string()} else {enc(dest)}) },
        3 => format!("https://click.notification.elsevier.com/CL0/{}", enc(dest)),
        4 => { let b = b64(dest, true); let b = if r.chance(1, 3) {b.as_bytes().chunks(60).map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join("\n")} else {b}; format!("https://{}/away?url={}", spell_host(r, "subscribestar.adult"), enc(&b)) },
        5 => { if dest.contains("/./") {return None;} format!("https://{}/v3/__{dest}__;!!{}!{}$", spell_host(r, "urldefense.com"), r.pick(&["abc", "A1_b-c"]), r.pick(&["", "x__y", "tok-1"])) },
        6 => { let rest = dest.strip_prefix("https://")?; format!("https://ss3.shipstation.com/{rest}") },
        7 => { let mut o = json!({"e": dest}); if r.chance(1, 2) {o["i"] = json!(r.below(100)); o["a"] = json!("https://wrong.example/");} format!("https://{}/redirect/2/{}.{}{}", spell_host(r, "substack.com"), b64(&o.to_string(), r.chance(1, 2)), r.pick(&["sig", "a-b_c"]), r.pick(&["", "?", "?utm_source=x"])) },
        8 => { let rest = dest.strip_prefix("https://")?; format!("https://{}/r.cfm?b=1&urllink={}&u=2", spell_host(r, "shareasale-analytics.com"), enc(r.pick(&[rest.to_string(), dest.to_string(), format!("http://{rest}")]))) },
        9 => format!("https://{}/home/jump?p={}", spell_host(r, "twpf.jp"), if dest.contains('%') || r.chance(1, 2) {enc(&enc(dest))} else {enc(dest)}),
        10 => { if dest.contains(',') {return None;} format!("https://e.emailalerts.cnn.com/click?a/b.c/{}{}", r.pick(&["h", "x"]), b64(&format!("1,x y,{dest}"), r.chance(1, 2))) },
        11 => format!("https://{}/page/email/redirect{}?{}campaignpageurl={}", spell_host(r, "action.openmedia.org"), r.pick(&["", "/1/x"]), r.pick(&["", "a=b&"]), enc(&format!("{}{}", dest.split('#').next().unwrap(), match r.below(3) { 0 => if dest.contains('?') {"&ea.url.id=7"} else {"?ea.url.id=7"}, _ => "" }))).pipe(|x| if dest.contains(['?', '#']) {None} else {Some(x)})?,
        12 => format!("https://{}/?{}", r.pick(&["carleton.ca", "www.carleton.ca"]), { let mut p = vec!["action=redirect".to_string(), format!("url={}", enc(dest))]; if r.chance(1, 2) {p.reverse();} if r.chance(1, 3) {p.insert(1, "x=y".into());} p.join("&") }),
        _ => format!("https://{}/away.php?to={}", r.pick(&["m.vk.com", "www.vk.com", "vk.com"]), enc(dest)),
    })
}
/// What says the same as `link` in a site's own terms: the name it stands under here, and the two links.
fn alias(r: &mut Rng) -> (&'static str, String, String) {
    const SWAP: &[(&str, &str)] = &[("instagr.am", "instagram.com"), ("buymeacoff.ee", "buymeacoffee.com"), ("cach.me", "cash.app"), ("mfy.gg", "metafy.gg"), ("lmddgtfy.net", "duckduckgo.com"), ("fixupx.com", "x.com"), ("fixvx.com", "x.com"), ("fxtwitter.com", "x.com"), ("vxtwitter.com", "x.com"), ("girlcockx.com", "x.com"),
        ("twitter.com", "x.com"), ("fxbsky.app", "bsky.app"), ("fxdeviantart.com", "deviantart.com"), ("be.net", "behance.net"), ("fori.io", "foriio.com"), ("wlo.link", "link.space")];
    let id = r.pick(&["abc", "A-b_9", "12345678", "dQw4w9WgXcQ", "x"]).to_string();
    let q = plain_pairs(r, 3); let qq = if q.is_empty() {String::new()} else {format!("?{q}")}; let and = if q.is_empty() {String::new()} else {format!("{q}&")};
    let f = r.pick(&["", "", "#frag", "#a=b"]).to_string();
    let mut p = String::new(); for _ in 0..r.below(4) {p.push('/'); p.push_str(r.pick(WORDS));}
    let w = r.pick(&["", "", "www."]);
    match r.below(26) {
        0 if !q.contains("id=") => ("bugzil.la", format!("https://{w}bugzil.la/{id}{qq}{f}"), format!("https://bugzilla.mozilla.org/show_bug.cgi?{and}id={id}{f}")),
        1 => ("skfb.ly", format!("https://{w}skfb.ly/{id}{qq}{f}"), format!("https://sketchfab.com/s/{id}{qq}{f}")),
        2 | 3 => ("youtu.be", format!("https://{w}youtu.be/{id}{qq}{f}"), format!("https://youtube.com/watch?{and}v={id}{f}")),
        4 => ("sta.sh", format!("https://{w}sta.sh/{id}{qq}{f}"), format!("https://deviantart.com/stash/{id}{qq}{f}")),
        5 => ("thrn.co", format!("https://{w}thrn.co/u/{id}{qq}{f}"), format!("https://throne.com/{id}{qq}{f}")),
        6 => ("open.substack.com", format!("https://{w}open.substack.com/pub/{}/p/{id}{qq}{f}", id.to_lowercase().replace('_', "-")), format!("https://{}.substack.com/p/{id}{qq}{f}", id.to_lowercase().replace('_', "-"))),
        7 => ("pulse.ly", format!("https://pulse.ly/{id}{qq}{f}"), format!("https://api.link.agorapulse.com/redirect/{id}{qq}{f}")),
        8 => ("preview.tinyurl.com", format!("https://{w}preview.tinyurl.com/{id}{qq}{f}"), format!("https://tinyurl.com/preview/{id}{qq}{f}")),
        9 => { let n = r.pick(&["user", "a-b", "x.y"]); ("bsky.social", format!("https://{n}.bsky.social{p}{qq}{f}"), format!("https://bsky.app/profile/{n}.bsky.social{qq}{f}")) },
        10 => ("bsky.app/profile", format!("https://{w}bsky.app/profile/{}{}{qq}{f}", id.replace('_', "-"), if r.chance(1, 3) {".bsky"} else {""}), format!("https://bsky.app/profile/{}.bsky.social{qq}{f}", id.replace('_', "-"))),
        11 => ("pixiv.net/member.php", format!("https://{w}pixiv.net/member.php?{and}id={id}{f}"), format!("https://pixiv.net/users/{id}{f}")).pipe(|x| if q.contains("id=") {("be.net", format!("https://be.net{p}{qq}"), format!("https://behance.net{p}{qq}"))} else {x}),
        12 => ("subdomain.deviantart.com", format!("https://{}.deviantart.com/art{p}{qq}{f}", id.to_lowercase().replace('_', "-")), format!("https://deviantart.com/{}/art{p}{qq}{f}", id.to_lowercase().replace('_', "-"))),
        13 => { let (s, q) = *r.pick(&[("?q=a+b", "?q=a+b"), ("?q=%26%23", "?q=%26%23"), ("?q=é", "?q=é"), ("?iie=1&q=x", "?iie=1&q=x")]); ("lmgtfy", format!("https://{w}{}/{}{s}", r.pick(&["lmgtfy.com", "lmgtfy.app", "letmegooglethat.com", "lmgt.org"]), r.pick(&["", "x", "search"])), format!("https://google.com/search{q}")) },
        14 => { let t = r.pick(&["a b", "a&b", "é#1", "x=y", "100%", "a+b", "\"q\"", "?", "word"]); let e = enc(t); let (st, to) = *r.pick(&[("s=g", "https://google.com/search?q="), ("s=g&t=w", "https://google.com/search?q="), ("t=i&s=g", "https://google.com/search?tbm=isch&q="), ("s=d", "https://duckduckgo.com/?q="), ("s=b", "https://startpage.com/search?q="), ("s=w", "https://wikipedia.org/w/index.php?search="), ("s=y", "https://search.yahoo.com/search?q="), ("s=g&t=m", "https://google.com/maps?q="), ("s=k", "https://ask.com/web?q="), ("s=g&t=sc", "https://scholar.google.com/scholar?q=")]); ("lmgtfy2.com", format!("https://{w}lmgtfy2.com/?{st}&q={e}"), format!("{to}{e}")) },
        15 => { let path = format!("/{}/status/{}{}", r.pick(&["user", "i"]), r.below(1_000_000), r.pick(&["", "?q=1&s=20", "?f=x"])); ("x.com/i/flow/login", format!("https://{w}x.com/i/flow/login?{}redirect_after_login={}", r.pick(&["", "input_flow_data=1&"]), enc(&path)), format!("https://x.com{path}")) },
        16 => ("tumblr.com/safe-mode", { let d = format!("https://blog.tumblr.com/post/{id}{qq}"); format!("https://{w}tumblr.com/safe-mode?url={}", enc(&d)) }, format!("https://blog.tumblr.com/post/{id}{qq}")),
        17 => ("at.tumblr.com", format!("https://at.tumblr.com/{id}/title/123{qq}{f}"), format!("https://tumblr.com/{id}/123{f}")),
        _ => { let (a, c) = *r.pick(SWAP); let port = r.pick(&["", "", "", ":8443"]); (a, format!("https://{w}{a}{port}{p}{qq}{f}"), format!("https://{w}{c}{port}{p}{qq}{f}")) },
    }
}
fn show(x: &Res) -> String { match x { Ok(u) => u.chars().take(200).collect(), Err(e) => format!("error {}", e.chars().take(120).collect::<String>()) } }
fn same(a: &Res, b: &Res) -> bool { match (a, b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false } }

fn u31(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg); let d = &b.d;
    let job = JobContext::default();
    // Rules that only apply once another redirect led to them.
    let odd = |u: &str| Url::parse(u).ok().and_then(|u| u.host_str().map(|h| h.trim_end_matches('.').to_string())).is_none_or(|h| [".carleton.ca", ".vk.com", ".pulse.ly"].iter().any(|x| h.ends_with(x)));
    let mut all = cases(cfg, "carried", cfg.n(6000, 250_000), |r, rec| {
        let diff = d.params(r, true); let conf = b.with(&diff);
        let dest = if r.chance(2, 3) {plain(r)} else {d.link(r, 1)};
        let Ok(u) = Url::parse(&dest) else {return};
        if !matches!(u.scheme(), "http" | "https") || odd(u.as_str()) {return;}
        let dest = u.to_string();
        let direct = clean_json(&conf, &json!(dest), &job);
        for _ in 0..4 {
            let depth = if r.chance(1, 5) {2 + r.below(4)} else {1};
            let (mut link, mut how) = (dest.clone(), Vec::new());
            for _ in 0..depth {
                let k = r.below(BY_PARAM.len() + OTHER);
                // What carries it next has to carry this.
                let Ok(n) = Url::parse(&link) else {break}; let next = if k < BY_PARAM.len() {how.push(BY_PARAM[k].0); Some(by_param(r, k, n.as_str()))} else {let x = by_other(r, k - BY_PARAM.len(), n.as_str()); if x.is_some() {how.push(["href.li", "deviantart.com?", "pixiv.net?", "elsevier.com", "subscribestar.adult", "urldefense.com", "shipstation.com", "substack.com", "shareasale", "twpf.jp", "cnn.com", "openmedia.org", "carleton.ca", "vk.com"][k - BY_PARAM.len()]);} x};
                if let Some(n) = next {link = n;}
            }
            if how.is_empty() || link.len() > 300_000 {continue;}
            let got = clean_json(&conf, &json!(link), &job);
            rec.eval_hash(hash_str(&format!("{how:?} {}", show(&direct).chars().take(60).collect::<String>())));
            rec.count(&format!("carried by {}", how[how.len() - 1])); if how.len() > 1 {rec.count("carried through several");} if direct.is_ok() {rec.count("destinations reached");}
            let detail = || json!({"link": link, "destination": dest, "params": diff, "by": how, "result": got, "the destination's": direct});
            rec.sample(detail);
            if !same(&got, &direct) {rec.fail(format!("carried by {}", how.join(" in ")), format!("{} gives {} while its destination {} gives {}", link.chars().take(400).collect::<String>(), show(&got), dest.chars().take(200).collect::<String>(), show(&direct)), detail());}
        }
    });
    // What is not quite such a link stays on its site.
    all.merge(cases(cfg, "almost", cfg.n(6000, 200_000), |r, rec| {
        let diff = d.params(r, true); let conf = b.with(&diff);
        let k = r.below(BY_PARAM.len()); let (host, path, name, sub) = BY_PARAM[k];
        let v = enc("https://marker.example/x");
        let bad_name = match r.below(4) { 0 => format!("{name}x"), 1 => format!("x{name}"), 2 => if name.to_uppercase() == *name {name.to_lowercase()} else {name.to_uppercase()}, _ => format!("{name}%20") };
        let link = match (path, r.below(3)) {
            (Some(p), 0 | 1) => { let p = match r.below(5) { 0 => format!("{p}x"), 1 => format!("/x{p}"), 2 => p.to_uppercase(), 3 => "/".to_string(), _ => format!("{}/y", p.trim_end_matches('/')) }; if host == "steamcommunity.com" && p.starts_with("/linkfilter/") || p == path.unwrap() {return;} format!("https://{}{p}?{name}={v}", spell_host(r, host)) },
            _ => format!("https://{}{}?{bad_name}={v}", spell_host(r, host), path.unwrap_or("/a")),
        };
        let link = if !sub && r.chance(1, 6) {link.replacen("://", "://sub.", 1)} else {link};
        let got = clean_json(&conf, &json!(link), &job);
        rec.eval_hash(hash_str(&format!("{host} {link}"))); rec.count(if got.is_ok() {"near misses kept"} else {"near misses refused"});
        let there = got.as_ref().ok().and_then(|u| Url::parse(u).ok()).is_some_and(|u| u.host_str() == Some("marker.example"));
        if there {rec.fail(format!("almost {host}"), format!("{link} is no redirecting link, yet cleaning it gives {}", show(&got)), json!({"link": link, "params": diff, "result": got}));}
    }));
    all.merge(cases(cfg, "other names", cfg.n(8000, 250_000), |r, rec| {
        let diff = d.params(r, true); let conf = b.with(&diff);
        let (name, link, own) = alias(r);
        let link = if r.chance(1, 6) && !name.contains("flow") {link.replacen("https://", "http://", 1)} else {link}; let own = if link.starts_with("http://") && !["lmgtfy2.com", "tumblr.com/safe-mode"].contains(&name) {own.replacen("https://", "http://", 1)} else {own};
        let (got, want) = (clean_json(&conf, &json!(link), &job), clean_json(&conf, &json!(own), &job));
        rec.eval_hash(hash_str(&format!("{name} {link}"))); rec.count(&format!("under the name {name}"));
        let detail = || json!({"link": link, "the site's own": own, "params": diff, "result": got, "the own's": want});
        rec.sample(detail);
        if !same(&got, &want) || got.is_err() {rec.fail(format!("name {name}"), format!("{link} gives {} while {own} gives {}", show(&got), show(&want)), detail());}
        // And it left the name.
        let h = |u: &str| Url::parse(u).ok().and_then(|u| u.host_str().map(|h| h.strip_prefix("www.").unwrap_or(h).to_string()));
        let moved = !name.contains('/') && !name.contains("deviantart") && !["lmgtfy"].contains(&name);
        let on = diff["vars"].as_object().is_some_and(|o| !o.is_empty()) || diff["flags"].as_array().is_some_and(|f| f.iter().any(|x| x == "embed-compatibility" || x == "nitter" || x == "invidious"));
        if moved && !on && got.as_ref().ok().and_then(|u| h(u)) == h(&link) {rec.fail(format!("name {name} kept"), format!("{link} gives {}", show(&got)), detail());}
    }));
    all
}

// ---- U32 ----

struct P { flags: Vec<String>, vars: serde_json::Map<String, Value> }
impl P {
    fn on(&self, f: &str) -> bool { self.flags.iter().any(|x| x == f) }
    fn var(&self, n: &str, default: &str) -> String { self.vars.get(n).and_then(|v| v.as_str()).unwrap_or(default).to_string() }
}
/// A link in pieces.
#[derive(Clone, Debug)]
struct L { http: bool, user: String, sub: Vec<String>, host: String, port: String, segs: Vec<String>, q: Vec<(String, String)>, frag: Option<String> }
impl L {
    fn show(&self) -> String {
        let q = self.q.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
        format!("{}://{}{}{}{}/{}{}{}{}", if self.http {"http"} else {"https"}, self.user, self.sub.iter().map(|x| format!("{x}.")).collect::<String>(), self.host, self.port, self.segs.join("/"), if q.is_empty() {""} else {"?"}, q, self.frag.as_ref().map(|f| format!("#{f}")).unwrap_or_default())
    }
    fn seg(&self, i: usize) -> &str { self.segs.get(i).map_or("", |x| x) }
    fn keep(&mut self, names: &[&str]) { self.q.retain(|p| names.contains(&&*p.0)); }
    fn drop(&mut self, names: &[&str]) { self.q.retain(|p| !names.contains(&&*p.0)); }
    fn to(&mut self, host: &str) { self.host = host.to_string(); self.sub.clear(); }
    fn root(&self) -> bool { self.segs.len() <= 1 && self.seg(0).is_empty() }
    fn www(&self) -> bool { self.sub.is_empty() || self.sub == ["www"] }
}
const NITTER: &[&str] = &["nitter.net", "xcancel.com", "nitter.poast.org", "nitter.privacydev.net", "nitter.lucabased.xyz", "nitter.space.example"];
const WIKIS: &[&str] = &["breezewiki.com", "antifandom.com", "breezewiki.pussthecat.org", "bw.artemislena.eu", "z.opnxng.com"];
const TUBES: &[&str] = &["yewtu.be", "inv.nadeko.net", "invidious.nerdvpn.de"];
const TWEETS: &[&str] = &["fixupx.com", "fixvx.com", "fxtwitter.com", "vxtwitter.com", "girlcockx.com"];
const IDS: &[&str] = &["abc", "dQw4w9WgXcQ", "A-b_9", "x", "12345"];
const EXTRA: &[&str] = &["a", "b", "x1", "t", "zz", "utm_source", "fbclid", "lang", "hl"];
/// A link to one of the kinds of site the flags speak of, or to one they do not.
fn site(r: &mut Rng) -> (&'static str, L) {
    let mut l = L {http: r.chance(1, 5), user: if r.chance(1, 20) {"u:p@".into()} else {String::new()}, sub: vec![], host: String::new(), port: if r.chance(1, 15) {":8080".into()} else {String::new()}, segs: vec![], q: vec![], frag: r.chance(1, 6).then(|| r.pick(&["f", "a-b", "t"]).to_string())};
    let id = |r: &mut Rng| r.pick(IDS).to_string();
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut own: &[&str] = &[];
    let kind = match r.below(16) {
        0..=2 => { l.host = if r.chance(1, 3) {r.pick(TUBES).to_string()} else {"youtube.com".into()}; own = &["si", "feature", "pp", "app", "list", "sub_confirmation", "index", "list"]; let i = id(r);
            match r.below(8) { 0 => l.segs = s(&["shorts", &i]), 1 => l.segs = s(&["live", &i]), 2 => l.segs = s(&["embed", &i]), 3 | 4 => { l.segs = s(&["watch"]); l.q.push(("v".into(), i)); }, 5 => l.segs = s(&["playlist"]), 6 => l.segs = s(&[r.pick(&["@user", "c", "short", "Shorts", "channel", "feed"]), &i]), _ => if r.chance(1, 2) {l.segs = s(&["shorts", &i, "more"])} else {l.segs = s(&[""])} }
            "youtube" },
        3..=5 => { l.host = match r.below(6) { 0 => r.pick(NITTER).to_string(), 1 => r.pick(TWEETS).to_string(), 2 => "twitter.com".into(), _ => "x.com".into() }; own = &["q", "f", "pf", "lf", "s", "ref_src"]; let i = id(r);
            l.segs = match r.below(6) { 0 | 1 => s(&["user", "status", &i]), 2 => s(&["user"]), 3 => s(&["search"]), 4 => s(&["intent", "post"]), _ => if r.chance(1, 2) {s(&["user", "Status", &i])} else {s(&[""])} }; "twitter" },
        6 => { l.host = r.pick(&["bsky.app", "fxbsky.app"]).to_string(); l.segs = if r.chance(1, 4) {s(&[""])} else {s(&["profile", r.pick(&["a.example", "did:plc:abc"]), "post", "3kx"])}; "bluesky" },
        7 | 8 => { let page = r.pick(&["Main", "Special:Search", "A_(b)", "Genocide"]).to_string(); own = &["query", "scope", "navigationSearch"];
            if r.chance(1, 2) { l.host = "fandom.com".into(); l.sub = match r.below(5) { 0 => vec![], 1 => s(&["www"]), _ => vec![r.pick(&["tardis", "a-b", "x1"]).to_string()] }; l.segs = s(&["wiki", &page]); } else { l.host = r.pick(WIKIS).to_string(); l.segs = match r.below(6) { 0 => s(&[""]), 1 => s(&["tardis"]), _ => s(&[r.pick(&["tardis", "a-b"]), "wiki", &page]) }; }
            "wiki" },
        9 => { l.host = r.pick(&["images-ext-1.discordapp.net", "images-ext-2.discordapp.net"]).to_string(); l.segs = s(&["external", "h_-1", r.pick(&["https", "http"]), r.pick(&["img.example.com", "example.org"]), "a", r.pick(&["b.png", "c d"]).replace(' ', "%20").as_str()]); "discord" },
        10 => { l.host = "furaffinity.net".into(); l.sub = match r.below(5) { 0 => s(&["sfw"]), 1 => s(&["www"]), 2 => s(&["forums"]), _ => vec![] }; l.segs = s(&["view", "123"]); "furaffinity" },
        11 => { l.host = "instagram.com".into(); own = &["igshid", "igsh", "e", "g", "xmt"]; l.segs = match r.below(5) { 0 => s(&["p", "profilecard"]), 1 => s(&["user", "profilecard"]), 2 => s(&["user", "Profilecard"]), 3 => s(&["profilecard", "x"]), _ => s(&["user", "profilecard", "x"]) }; "instagram" },
        12 => { l.host = "tumblr.com".into(); l.sub = match r.below(6) { 0 => vec![], 1 => s(&["www"]), _ => vec![r.pick(&["blog", "a-b", "attic"]).to_string()] }; let i = id(r); l.segs = match r.below(4) { 0 => s(&["post", &i, "slug"]), 1 => s(&["tagged", &i]), 2 => s(&["search", &i]), _ => s(&["post", &i]) }; "tumblr" },
        13 => { l.host = format!("{}.onion{}", r.pick(&["abc", "x2y", "a-b"]), r.pick(&[".ly", ".com", ".co.uk", ".ws", "", ".pet", ".com.au"])); if r.chance(1, 3) {l.sub = s(&["deep"]);} l.segs = s(&["a", "b"]); "onion" },
        14 => { l.host = "rule34.xxx".into(); own = &["tags", "s", "id"]; l.segs = s(&["index.php"]); l.q.push(("s".into(), r.pick(&["view", "list"]).to_string())); "rule34" },
        _ => { l.host = r.pick(&["example.com", "example.org", "news.example.net", "youtube.com.example", "x.com.example", "notyoutube.com", "fandom.com.example", "tumblr.com.example"]).to_string(); own = &["list", "q", "tags", "sub_confirmation", "si"]; l.segs = match r.below(6) { 0 => s(&["shorts", "abc"]), 1 => s(&["user", "profilecard"]), 2 => s(&["watch"]), 3 => s(&["post", "1"]), 4 => s(&["external", "h", "https", "e.example", "x"]), _ => s(&["user", "status", "1"]) }; "other" },
    };
    if l.sub.is_empty() && r.chance(1, 4) && !["onion", "discord"].contains(&kind) {l.sub = match r.below(3) { 0 => s(&["m"]), _ => s(&["www"]) };}
    let n = r.below(5); for _ in 0..n { let k = if !own.is_empty() && r.chance(1, 2) {*r.pick(own)} else {*r.pick(EXTRA)}; let at = r.below(l.q.len() + 1); if k != "v" && !l.q.iter().any(|p| p.0 == k) {l.q.insert(at, (k.into(), r.pick(&["1", "abc", "x-y", "PLx_1", ""]).to_string()));} }
    (kind, l)
}
/// What the documentation of the flags says becomes of it.
fn told(kind: &str, l: &L, p: &P) -> String {
    let mut l = l.clone();
    let mobile = |s: &str| s == "m" || s == "mobile";
    // `unmobile` leaves some sites alone.
    if p.on("unmobile") && l.host != "tumblr.com" { let i = l.sub.iter().take(2).position(|s| mobile(s)); if let Some(i) = i {l.sub.remove(i);} }
    let exact = l.www(); // nothing but perhaps www before the host
    match kind {
        "youtube" => {
            if TUBES.contains(&&*l.host) && exact && (p.on("invidious") || p.on("uninvidious")) && !l.root() {l.to("youtube.com");}
            if l.host == "youtube.com" {
                l.drop(&["si", "feature", "pp", "app"]);
                if [("shorts", "youtube-unshort"), ("live", "youtube-unlive"), ("embed", "youtube-unembed")].iter().any(|(s, f)| l.seg(0) == *s && p.on(f)) { let v = l.seg(1).to_string(); l.q.push(("v".into(), v)); l.segs = vec!["watch".into()]; }
                if p.on("youtube-unplaylist") && l.seg(0) == "watch" {l.drop(&["list"]);}
                if !p.on("youtube-keep-sub-confirmation") {l.drop(&["sub_confirmation"]);}
                if p.on("invidious") {l.to(&p.var("invidious-host", "yewtu.be"));}
            }
        },
        "twitter" => {
            if NITTER[..5].contains(&&*l.host) && exact && (p.on("nitter") || p.on("unnitter")) && !l.root() {l.to("x.com");}
            if TWEETS.contains(&&*l.host) && exact {l.to("x.com");}
            if l.host == "twitter.com" {l.host = "x.com".into();}
            if l.host == "x.com" && exact {
                if l.seg(0) != "intent" {l.keep(&["q", "f", "pf", "lf"]);}
                if p.on("embed-compatibility") && l.seg(1) == "status" {l.to(&p.var("twitter-embed-host", "vxtwitter.com"));}
                if p.on("nitter") {l.to(&p.var("nitter-host", "nitter.net"));}
            }
        },
        "bluesky" => { if exact {l.host = "bsky.app".into(); if p.on("embed-compatibility") {l.to(&p.var("bluesky-embed-host", "fxbsky.app"));}} },
        "wiki" => {
            if l.host != "fandom.com" && exact && (p.on("breezewiki") || p.on("unbreezewiki")) && !l.root() { let w = l.segs.remove(0); l.to("fandom.com"); l.sub = vec![w]; if l.segs.is_empty() {l.segs = vec!["".into()];} }
            if l.host == "fandom.com" {
                if l.seg(1) == "Special:Search" {l.drop(&["scope", "navigationSearch"]);}
                if p.on("breezewiki") && !l.www() {
                    let w = l.sub.join("."); l.to(&p.var("breezewiki-host", "breezewiki.com")); l.segs.insert(0, w);
                    if l.seg(2) == "Special:Search" { l.segs[1] = "search".into(); l.segs.remove(2); if let Some(i) = l.q.iter().position(|x| x.0 == "query") {let v = l.q.remove(i).1; l.q.push(("q".into(), v));} }
                }
            }
        },
        "discord" => if p.on("discord-unexternal") && l.segs.len() > 4 { l = L {http: l.segs[2] == "http", user: String::new(), sub: vec![], host: l.segs[3].clone(), port: String::new(), segs: l.segs[4..].to_vec(), q: vec![], frag: None}; },
        "furaffinity" => { if p.on("furaffinity-sfw") && l.www() {l.sub = vec!["sfw".into()];} if p.on("furaffinity-unsfw") && l.sub == ["sfw"] {l.sub.clear();} },
        "instagram" => { if exact {l.drop(&["igshid", "igsh", "xmt", "ig_mid", "e", "g"]);} if p.on("instagram-unprofilecard") && l.seg(1) == "profilecard" {l.segs.remove(1);} },
        "tumblr" => {
            if l.seg(0) != "search" && !(l.sub.is_empty() && l.seg(1) == "search") {l.q.clear();}
            if p.on("tumblr-unsubdomain-blog") && !l.sub.is_empty() && l.sub != ["www"] && l.sub != ["at"] { if l.seg(0) == "post" {l.segs.remove(0);} let s = l.sub.join("."); l.sub.clear(); l.segs.insert(0, s); }
        },
        "onion" => if p.on("tor2web2tor") {let i = l.host.find(".onion").unwrap(); l.host.truncate(i + 6);},
        "rule34" => if p.on("remove-unused-search-query") && l.q.iter().any(|x| x.0 == "s" && x.1 == "view") {l.drop(&["tags"]);},
        _ => {},
    }
    // What becomes of every link.
    if !p.on("no-https-upgrade") {l.http = false;}
    l.drop(&["utm_source", "fbclid"]);
    if !p.on("keep-lang") {let n = if l.host == "instagram.com" && l.www() {"hl"} else {"lang"}; l.drop(&[n]);}
    if l.sub == ["www"] && Url::parse(&l.show()).is_ok_and(|u| host_facts(&u).sub.as_deref() == Some("www")) {l.sub.clear();}
    l.show()
}
fn u32_(cfg: &Cfg) -> Rec {
    let b = Base::load(cfg); let d = &b.d;
    let job = JobContext::default();
    let hosts = ["my.host.example", "mirror.example.org", "front.example.co.uk"];
    let one = |rec: &mut Rec, kind: &str, l: &L, flags: Vec<String>, vars: serde_json::Map<String, Value>| {
        let p = P {flags, vars};
        let diff = json!({"flags": p.flags, "vars": p.vars}); let conf = b.with(&diff);
        let link = l.show(); let want = Url::parse(&told(kind, l, &p)).map(|u| u.to_string()).unwrap_or_default();
        let got = clean_json(&conf, &json!(link), &job);
        rec.eval_hash(hash_str(&format!("{link} {:?}", p.flags)));
        rec.count(&format!("{kind} links")); if got.as_ref().is_ok_and(|g| *g != link) {rec.count("links changed");}
        let detail = || json!({"link": link, "params": diff, "result": got, "expected": want});
        rec.sample(detail);
        if got.as_ref() != Ok(&want) {rec.fail(format!("{kind} {}", l.host), format!("with {:?} {}, {link} gives {} rather than {want}", p.flags, json!(p.vars), show(&got)), detail());}
    };
    let mut all = cases(cfg, "flags", cfg.n(20_000, 600_000), |r, rec| {
        let (kind, l) = site(r);
        let p = *r.pick(&[1, 3, 6, 9]);
        let mut flags: Vec<String> = d.flags.iter().filter(|f| *f != "no-network" && r.chance(p, 10)).cloned().collect(); flags.push("no-network".into());
        let mut vars = serde_json::Map::new(); for v in ["breezewiki-host", "nitter-host", "invidious-host", "twitter-embed-host", "bluesky-embed-host"] {if r.chance(1, 4) {vars.insert(v.into(), json!(r.pick(&hosts)));}}
        one(rec, kind, &l, flags, vars);
    });
    // Every flag alone, and none.
    all.merge(cases(cfg, "alone", cfg.n(300, 10_000), |r, rec| {
        let (kind, l) = site(r);
        for f in std::iter::once(None).chain(d.flags.iter().map(Some)) { let mut flags = vec!["no-network".to_string()]; if let Some(f) = f {if f != "no-network" {flags.push(f.clone());}} one(rec, kind, &l, flags, Default::default()); }
    }));
    all
}
pub fn run(cfg: &Cfg) -> i32 {
    if cfg.pid == "U31" { let rec = u31(cfg); finish(cfg, rec, "exploration", "links that carry a destination (one way or several inside each other), almost do, or stand under another name of a site, cleaned offline and compared with the destination or the site's own link; distinct = forms and destination, or link", vec!["left out: destinations on carleton.ca, vk.com and pulse.ly subdomains, whose rules only apply once another redirect led there"]) }
    else { let rec = u32_(cfg); finish(cfg, rec, "exploration", "links to the kinds of site the flags speak of, or to none of them, under random flags and variables and under each flag alone, cleaned offline and compared with a model of the flags' documentation; distinct = link and flags", vec![]) }
}
