//! U24 (HTML text and attributes) and U25 (JavaScript string literals).
//! Both are judged by construction: the input is generated together with the value it stands for.
use std::collections::HashMap;
use std::sync::OnceLock;
use serde_json::{json, Value};
use url_cleaner::glue::parse;
use crate::core::*;
use crate::make;
use crate::model::{Pad, World};
use crate::real::*;
use crate::rng::{hash_str, Rng};

/// Applies a string modification; `None` is an error value, which must leave the text as it was.
fn modify(m: &Value, text: &str) -> Result<Option<String>, String> {
    thread_local! { static W: RealWorld = real_world(&World {params: json!({}), commons: json!({}), ..Default::default()}).unwrap(); }
    let pad = Pad::default();
    let p = Prog {kind: Kind::Modification, prog: m, url: "https://example.com/", pad: &pad, args: None, text, needle: ""};
    let o = W.with(|w| run_real_in(&p, w)).map_err(|e| format!("load: {e}"))??;
    let after = o.text.unwrap_or_default();
    if o.result.is_ok() {return Ok(Some(after));}
    if after != text {return Err(format!("failed, but left {after:?}"));}
    Ok(None)
}

/// Python's copy of the standard's table, kept beside the harness.
fn table() -> &'static (Vec<(String, String)>, HashMap<String, String>) {
    static T: OnceLock<(Vec<(String, String)>, HashMap<String, String>)> = OnceLock::new();
    T.get_or_init(|| {
        let v: Vec<(String, String)> = include_str!("entities.txt").lines().filter_map(|l| { let (k, v) = l.split_once('\t')?; Some((k.to_string(), v.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect())) }).collect();
        let m = v.iter().cloned().collect();
        (v, m)
    })
}
/// What a character reference (between `&` and `;`) stands for. `Err`: an error.
fn reference(x: &str) -> Option<String> {
    let Some(n) = x.strip_prefix('#') else {return table().1.get(x).cloned()};
    let code = match n.strip_prefix(['x', 'X']) {
        Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => { let h = h.trim_start_matches('0'); if h.len() > 8 {return None;} u64::from_str_radix(if h.is_empty() {"0"} else {h}, 16).ok()? },
        Some(_) => return None,
        None if !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) => { let d = n.trim_start_matches('0'); if d.len() > 12 {return None;} if d.is_empty() {0} else {d.parse().ok()?} },
        None => return None,
    };
    let c = char::from_u32(u32::try_from(code).ok()?)?;
    (!c.is_control() && !c.is_whitespace()).then(|| c.to_string())
}
/// The text a piece of HTML text stands for; an `&` must start a complete reference.
pub fn unescaped(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find('&') {
        out.push_str(&rest[..a]);
        let body = &rest[a + 1..];
        let end = body.find([';', '&'])?;
        if body.as_bytes()[end] != b';' {return None;}
        out.push_str(&reference(&body[..end])?);
        rest = &body[end + 1..];
    }
    out.push_str(rest);
    Some(out)
}

const RAW: &[&str] = &["a", "b", "href", " ", "/", "=", ">", "<", ";", "#", "x", "é", "日本", "\u{1F600}", "\"", "'", "\n", "\t", "`", "amp;", "lt", "https://example.com/?a=1", "?b=2", "ß", "\u{a0}", "\\", "-", "--", "!", "0"];
/// One reference as text, nearly always a right one.
fn a_ref(r: &mut Rng) -> String {
    match r.below(12) {
        0..=4 => format!("&{};", r.pick(&table().0).0),
        5 | 6 => format!("&{};", r.pick(&["amp", "lt", "gt", "quot", "apos", "nbsp", "AMP", "notin", "fjlig", "copy"])),
        7 => { let c = code(r); format!("&#{}{};", "0".repeat(r.below(4)), c) },
        8 | 9 => { let c = code(r); let h = if r.chance(1, 2) {format!("{c:x}")} else {format!("{c:X}")}; format!("&#{}{}{h};", if r.chance(1, 2) {"x"} else {"X"}, "0".repeat(r.below(3))) },
        10 => "&#39;".into(),
        _ => (*r.pick(&["&amp;amp;", "&#38;lt;", "&amp;#38;", "&lt;&gt;", "&#x26;amp;"])).into(),
    }
}
fn code(r: &mut Rng) -> u32 {
    loop {
        let c = match r.below(4) { 0 => r.range(0x21, 0x7e), 1 => r.range(0xa1, 0x2fff), 2 => r.range(0x3001, 0xffff), _ => r.range(0x10000, 0x10ffff) } as u32;
        if char::from_u32(c).is_some_and(|c| !c.is_control() && !c.is_whitespace()) {return c;}
    }
}
fn bad_ref(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "&".into(), 1 => "&;".into(), 2 => "&#;".into(), 3 => format!("&{}x9;", r.pick(&table().0).0),
        4 => format!("&#{};", r.pick(&["x", "xg", "1a", "4294967296", "4294967361", "x100000041", "x110000", "xD800", "1114112", "55296", "99999999999999999999", "x00000000000000000000000ffffffffff", " 65", "-65", "+65", "6 5", "9", "10", "32", "x20", "0", "x80", "160", "#65", "٣", "x٣"])),
        5 => format!("&{}", r.pick(&["amp", "lt", "#65", "#x41", "foo"])), 6 => format!("&{};", r.pick(&["Amp", "QUOt", "aMp", "foo", "é", "amp ", " amp"])),
        _ => "& ".into(),
    }
}
fn html_text(r: &mut Rng, bad: bool) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 500) {*r.pick(&[17, 32, 64, 100, 128, 256, 300, 1000, 3000])} else {r.below(6)};
    if r.chance(1, 500) {s.push_str(&"long text ".repeat(*r.pick(&[25, 26, 100, 409, 410, 6553, 6554])));}
    for _ in 0..n { s.push_str(&if r.chance(1, 2) {a_ref(r)} else {r.pick(RAW).to_string()}); }
    if bad { let at = r.below(s.chars().count() + 1); let b = s.char_indices().nth(at).map_or(s.len(), |x| x.0); let x = bad_ref(r); s.insert_str(b, &x); }
    s
}

pub struct Tag { text: String, attrs: Vec<(String, Option<String>)> }
const NAMES: &[&str] = &["href", "class", "src", "hre", "hrefx", "data-href", "h", "x:y", "@click", "é", "日本", "disabled", "content", "id", "a.b", "_", "title", "ref"];
const WS: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", " \n\t "];
fn tag(r: &mut Rng) -> Tag {
    let mut t = format!("<{}", r.pick(&["a", "A", "img", "META", "x-é", "h1", "link", "svg:a", "日".replace('日', "b日").as_str()]));
    let mut attrs = Vec::new();
    let n = if r.chance(1, 500) {*r.pick(&[8, 9, 16, 17, 32, 33, 64, 65, 128, 256, 300])} else {r.below(5)};
    let mut tight = false; // the next thing must be white space
    for i in 0..n {
        t.push_str(r.pick(WS)); let _ = (i, tight);
        let name = if n > 5 && r.chance(3, 4) {format!("n{i}")} else {recase(r, r.clone().pick(NAMES))};
        t.push_str(&name);
        match r.below(6) {
            0 => { attrs.push((name, None)); tight = false; },
            k => {
                if r.chance(1, 6) {t.push_str(r.pick(WS));}
                t.push('=');
                if r.chance(1, 6) {t.push_str(r.pick(WS));}
                let bad = r.chance(1, 15);
                let v = html_text(r, bad);
                let v = match k {
                    1 | 2 => { let v = v.replace('"', ""); t.push('"'); t.push_str(&v); t.push('"'); tight = false; v },
                    3 | 4 => { let v = v.replace('\'', ""); t.push('\''); t.push_str(&v); t.push('\''); tight = false; v },
                    _ => { let mut v: String = v.chars().filter(|c| !matches!(c, '"' | '\'' | '<' | '>' | '=' | '`' | ' ' | '\n' | '\t' | '\r' | '\x0c')).collect(); if v.is_empty() {v.push('v');} t.push_str(&v); tight = true; v },
                };
                attrs.push((name, Some(v)));
            }
        }
    }
    match r.below(4) {
        0 => {t.push_str(r.pick(WS)); t.push('>');},
        1 => {t.push_str(r.pick(WS)); t.push_str("/>");},
        2 if !tight => t.push_str("/>"),
        _ => t.push('>'),
    }
    Tag {text: t, attrs}
}
fn recase(r: &mut Rng, s: &str) -> String { if r.chance(1, 4) {s.chars().map(|c| if r.chance(1, 2) {c.to_ascii_uppercase()} else {c.to_ascii_lowercase()}).collect()} else {s.to_string()} }
/// The last attribute of that name: absent, valueless, undecodable, or its decoded value.
#[derive(Debug, PartialEq, Clone)]
enum Attr { Absent, Valueless, Broken, Is(String) }
fn attr_of(t: &Tag, name: &str) -> Attr {
    match t.attrs.iter().rev().find(|(n, _)| n.eq_ignore_ascii_case(name)) {
        None => Attr::Absent, Some((_, None)) => Attr::Valueless,
        Some((_, Some(v))) => unescaped(v).map_or(Attr::Broken, Attr::Is),
    }
}
/// The same for any text at all, malformed tags (as the standard has them, and nothing after them matters) being broken.
fn attr_in(input: &str, name: &str) -> Attr {
    let c: Vec<char> = input.chars().collect();
    let ws = |x: Option<&char>| matches!(x, Some('\t' | '\r' | '\n' | ' '));
    if c.first() != Some(&'<') || !c.get(1).is_some_and(|x| x.is_ascii_alphabetic()) {return Attr::Broken;}
    let mut i = 2;
    while let Some(x) = c.get(i) { match x { '\0' => return Attr::Broken, '/' | '>' | '\t' | '\r' | '\n' | ' ' => break, _ => i += 1 } }
    let mut found = Attr::Absent;
    let mut value: Option<String> = None;
    loop {
        while ws(c.get(i)) {i += 1;}
        match c.get(i) { None | Some('=') => return Attr::Broken, Some('/') => if c.get(i + 1) == Some(&'>') {break} else {return Attr::Broken}, Some('>') => break, _ => {} }
        let start = i;
        while let Some(x) = c.get(i) { match x { '\0' | '"' | '\'' | '<' => return Attr::Broken, '\t' | '\r' | '\n' | ' ' | '/' | '>' | '=' => break, _ => i += 1 } }
        let this: String = c[start..i].iter().collect();
        while ws(c.get(i)) {i += 1;}
        let v: Option<String> = if c.get(i) == Some(&'=') {
            i += 1;
            while ws(c.get(i)) {i += 1;}
            match c.get(i) {
                None | Some('>') => return Attr::Broken,
                Some(q @ ('"' | '\'')) => {
                    let Some(n) = c[i + 1..].iter().position(|x| x == q) else {return Attr::Broken};
                    let v: String = c[i + 1..i + 1 + n].iter().collect();
                    i += n + 2;
                    if v.contains('\0') || !(ws(c.get(i)) || matches!(c.get(i), Some('/' | '>'))) {return Attr::Broken;}
                    Some(v)
                },
                _ => {let start = i; while let Some(x) = c.get(i) { if *x == '\0' {return Attr::Broken;} if ws(Some(x)) || *x == '>' {break;} i += 1; } Some(c[start..i].iter().collect())}
            }
        } else {None};
        if this.eq_ignore_ascii_case(name) {found = Attr::Valueless; value = v;}
    }
    match (found, value) { (Attr::Absent, _) => Attr::Absent, (_, None) => Attr::Valueless, (_, Some(v)) => unescaped(&v).map_or(Attr::Broken, Attr::Is) }
}
fn real_attr(input: &str, name: &str) -> Result<Attr, String> {
    guarded(|| match parse::html::get_attribute_value(input, name) { Ok(None) => Attr::Absent, Ok(Some(None)) => Attr::Valueless, Ok(Some(Some(x))) => Attr::Is(x), Err(_) => Attr::Broken })
}

fn u24(cfg: &Cfg) -> i32 {
    let mut rec = cases_idx(cfg, "named", table().0.len() as u64, |i, rec| {
        let (k, v) = &table().0[i as usize];
        rec.eval(Some(k)); rec.count("named references");
        for (text, want) in [(format!("&{k};"), v.clone()), (format!("é&{k};;"), format!("é{v};")), (format!("&{k};&{k};"), format!("{v}{v}"))] {
            let got = guarded(|| parse::html::unescape_text(&text).ok());
            if got != Ok(Some(want.clone())) {rec.fail(format!("named reference {k}"), format!("{text:?} decodes to {got:?}, the standard says {want:?}"), json!({"text": text}));}
        }
        for text in [format!("&{k}"), format!("&{k}\u{200b};"), format!("& {k};")] {
            let got = guarded(|| parse::html::unescape_text(&text).ok());
            let want = unescaped(&text);
            if got != Ok(want.clone()) {rec.fail("malformed reference", format!("{text:?} decodes to {got:?}, expected {want:?}"), json!({"text": text}));}
        }
    });
    // Every code point, in both notations.
    rec.merge(cases_idx(cfg, "numeric", 0x112, |block, rec| {
        for low in 0..0x1000u32 {
            let c = block as u32 * 0x1000 + low;
            for t in [format!("#{c}"), format!("#x{c:x}"), format!("#X{c:X}")] {
                let want = reference(&t);
                let got = guarded(|| parse::html::parse_char_ref(&t).ok().map(|x| x.into_owned()));
                if got != Ok(want.clone()) {rec.fail("numeric reference", format!("&{t}; decodes to {got:?}, expected {want:?}"), json!({"reference": t}));}
            }
            rec.evals += 3;
            rec.distinct.insert(c as u64);
        }
        rec.count("blocks of 4096 code points");
    }));
    rec.merge(cases(cfg, "text", cfg.n(400_000, 20_000_000), |r, rec| {
        let bad = r.chance(1, 4);
        let s = html_text(r, bad);
        let want = unescaped(&s);
        rec.eval_hash(hash_str(&s));
        rec.count(if want.is_some() {"texts decoded"} else {"texts refused"});
        rec.sample(|| json!({"text": s, "decoded": want}));
        let got = if r.chance(1, 6) {modify(&json!("UnescapeHtmlText"), &s)} else {guarded(|| parse::html::unescape_text(&s).ok())};
        if got != Ok(want.clone()) {rec.fail("text", format!("{s:?} decodes to {got:?}, expected {want:?}"), json!({"text": s, "got": format!("{got:?}"), "expected": want}));}
    }));
    rec.merge(cases(cfg, "attributes", cfg.n(400_000, 20_000_000), |r, rec| {
        let t = tag(r);
        let mut input = t.text.clone();
        if r.chance(1, 2) { for _ in 0..r.below(4) {input.push_str(r.pick(RAW));} if r.chance(1, 3) {input.push_str("</a><a href='other'>");} }
        for _ in 0..3 {
            let name = match r.below(8) { 0 => "absent".to_string(), 1..=3 if !t.attrs.is_empty() => { let n = r.pick(&t.attrs).0.clone(); recase(r, &n) }, 4 => recase(r, "href"), _ => r.pick(NAMES).to_string() };
            let want = attr_of(&t, &name);
            rec.eval_hash(hash_str(&input) ^ hash_str(&name).rotate_left(3));
            rec.count(match want { Attr::Absent => "attribute absent", Attr::Valueless => "attribute without value", Attr::Broken => "attribute with a bad reference", Attr::Is(_) => "attribute value found" });
            rec.sample(|| json!({"input": input, "attribute": name, "value": format!("{want:?}")}));
            let got = real_attr(&input, &name);
            if got != Ok(want.clone()) {rec.fail(format!("attribute {}", match want { Attr::Absent => "absent", Attr::Valueless => "valueless", Attr::Broken => "broken", Attr::Is(_) => "value" }), format!("{name:?} in {input:?} is {got:?}, expected {want:?}"), json!({"input": input, "name": name}));}
            if r.chance(1, 8) {
                let got = modify(&json!({"GetHtmlAttribute": name}), &input);
                let want = match &want { Attr::Is(x) => Some(x.clone()), _ => None };
                if got != Ok(want.clone()) {rec.fail("GetHtmlAttribute", format!("GetHtmlAttribute {name:?} of {input:?} gives {got:?}, expected {want:?}"), json!({"input": input, "name": name}));}
            }
        }
        // No prefix of a start tag is a start tag, and nothing before one belongs to it.
        let cut = r.below(t.text.len()); let cut = (0..=cut).rev().find(|i| t.text.is_char_boundary(*i)).unwrap_or(0);
        let pre = format!("{}{}", r.pick(&["é", " ", "a", "&lt;", "</a>", "<!--", "<!x>", "<?a>", "< ", "<1", "<>", "</", ">"]), t.text);
        for x in [&t.text[..cut], pre.as_str()] {
            rec.eval_hash(hash_str(x)); rec.count("incomplete or misplaced tag");
            let got = real_attr(x, "href");
            if got != Ok(Attr::Broken) {rec.fail("not a tag", format!("{x:?} is no start tag, but gives {got:?}"), json!({"input": x}));}
        }
    }));
    // Anything at all: no panic, and a value found really stands in the text.
    rec.merge(cases(cfg, "noise", cfg.n(400_000, 20_000_000), |r, rec| {
        let mut s = String::from(if r.chance(3, 4) {"<a "} else {""});
        for _ in 0..r.below(14) { s.push_str(&match r.below(6) { 0 => r.pick(NAMES).to_string(), 1 => r.pick(&["=", "/", ">", "/>", "\"", "'", " ", "\0", "\x0c", "&", "=\"", "='", "= "]).to_string(), 2 => a_ref(r), 3 => bad_ref(r), 4 => r.pick(RAW).to_string(), _ => make::word(r) }); }
        if r.chance(1, 2) { // A start tag with something put in or taken out.
            s = tag(r).text;
            for _ in 0..1 + r.below(2) {
                let cs: Vec<(usize, char)> = s.char_indices().collect();
                if cs.is_empty() {break;}
                let (at, ch) = *r.pick(&cs);
                match r.below(3) { 0 => s.replace_range(at..at + ch.len_utf8(), ""), 1 => s.insert(at, ch), _ => s.insert_str(at, r.pick(&["=", "/", ">", "/>", "\"", "'", " ", "\0", "<", "= ", "&", "a", "?"])) }
            }
        }
        rec.eval_hash(hash_str(&s)); rec.count("noise inputs");
        let name = *r.pick(NAMES);
        let (a, t) = (real_attr(&s, name), guarded(|| parse::html::unescape_text(&s).ok()));
        if let Err(p) = &a {rec.fail(format!("panic in {}", panic_place(p)), format!("{name:?} of {s:?} panics: {p}"), json!({"input": s}));}
        if !s.contains('\x0c') && a.is_ok() {
            let want = attr_in(&s, name);
            rec.count(match want { Attr::Absent => "noise: absent", Attr::Valueless => "noise: valueless", Attr::Broken => "noise: malformed", Attr::Is(_) => "noise: value" });
            if a != Ok(want.clone()) {rec.fail(format!("noise {}", match want { Attr::Absent => "absent", Attr::Valueless => "valueless", Attr::Broken => "malformed", Attr::Is(_) => "value" }), format!("{name:?} in {s:?} is {a:?}, expected {want:?}"), json!({"input": s, "name": name}));}
        }
        if let Ok(Attr::Is(v)) = &a { if !s.contains(v.as_str()) && !s.contains('&') {rec.fail("text from nowhere", format!("{name:?} of {s:?} is {v:?}"), json!({"input": s}));} }
        if t != Ok(unescaped(&s)) {rec.fail("text", format!("{s:?} decodes to {t:?}"), json!({"text": s}));}
    }));
    finish(cfg, rec, "exploration", "texts and start tags generated together with what they stand for: every named reference of the standard, every code point in three notations, random tags (quoting, spacing, case, order, multi-byte text, truncations); distinct = different inputs",
        vec!["form feeds, characters the standard calls parse errors inside unquoted values, and references without a semicolon are outside the generated tags: the documentation says they are refused"])
}

/// A literal's text and the string it stands for (`None`: malformed).
struct Lit { src: String, value: String, ok: bool, lenient: bool }
fn literal(r: &mut Rng) -> Lit {
    let q = if r.chance(1, 2) {'"'} else {'\''};
    let mut l = Lit {src: q.to_string(), value: String::new(), ok: true, lenient: false};
    let n = if r.chance(1, 500) {*r.pick(&[63, 64, 127, 128, 255, 256, 300, 1000, 2000, 4000])} else {r.below(10)};
    for i in 0..n {
        match r.below(16) {
            0..=3 => { let c = *r.pick(&['a', 'x', 'u', '0', '7', '8', 'é', '日', '\u{1F600}', ' ', '/', '{', '}', 'f', 'n', '"', '\'', '\u{2028}', '\t', '<', '&']); if c == q || c == '\\' {continue;} l.src.push(c); l.value.push(c); },
            4 | 5 => { let (c, v) = *r.pick(&[('b', '\u{8}'), ('f', '\u{c}'), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('v', '\u{b}'), ('\'', '\''), ('"', '"'), ('\\', '\\'), ('/', '/'), ('a', 'a'), ('8', '8'), ('9', '9'), ('é', 'é'), ('z', 'z'), ('.', '.'), ('U', 'U'), ('X', 'X'), ('N', 'N'), ('\u{1F600}', '\u{1F600}'), (' ', ' ')]); l.src.push('\\'); l.src.push(c); l.value.push(v); },
            6 | 7 => { let b = r.below(256) as u32; let h = format!("{b:02x}"); l.src.push_str("\\x"); l.src.push_str(&mixcase(r, &h)); l.value.push(char::from_u32(b).unwrap()); },
            8 | 9 => { let c = loop { let c = r.below(0x10000) as u32; let c = if r.chance(1, 2) {c & 0xff} else {c}; if char::from_u32(c).is_some() {break c;} }; let h = format!("{c:04x}"); l.src.push_str("\\u"); l.src.push_str(&mixcase(r, &h)); l.value.push(char::from_u32(c).unwrap()); },
            10 | 11 => {
                let c = loop { let c = (r.u64() as u32) >> (12 + r.below(20)); if char::from_u32(c).is_some() && c <= 0xfffff {break c;} };
                let h = format!("{c:x}"); let pad = r.below(6 - h.len()); let h = format!("{}{h}", "0".repeat(pad));
                l.src.push_str("\\u{"); l.src.push_str(&mixcase(r, &h)); l.src.push('}'); l.value.push(char::from_u32(c).unwrap());
            },
            12 | 13 => {
                // Octal: up to three digits, the third only while the value stays below 256.
                let first = r.below(8) as u32; let mut v = first; l.src.push_str(&format!("\\{first}"));
                let max = if first <= 3 {3} else {2};
                let len = 1 + r.below(max);
                for _ in 1..len { let d = r.below(8) as u32; l.src.push_str(&d.to_string()); v = v * 8 + d; }
                l.value.push(char::from_u32(v).unwrap());
                // What follows must not look like another digit unless the escape is full.
                if len == max { if r.chance(1, 2) { let d = r.below(10).to_string(); l.src.push_str(&d); l.value.push_str(&d); } }
                else if i + 1 < n || r.chance(1, 2) { let c = *r.pick(&['8', '9', 'a', 'é', '/', ' ']); l.src.push(c); l.value.push(c); }
            },
            14 => { let x = *r.pick(&["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"]); l.src.push('\\'); l.src.push_str(x); if x == "\r" {l.src.push('z'); l.value.push('z');} },
            _ => if r.chance(1, 6) { let (hi, lo) = (0xd800 + r.below(0x400) as u32, 0xdc00 + r.below(0x400) as u32); l.src.push_str(&format!("\\u{hi:04X}\\u{lo:04X}")); l.value.push(char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)).unwrap()); l.lenient = true; }
                else if r.chance(1, 4) { let x = *r.pick(&["\\xg0", "\\x0g", "\\x", "\\x4", "\\u", "\\u00", "\\u004", "\\u00g0", "\\u{}", "\\u{g}", "\\u{41", "\\u{4g}", "\\u{00000a}", "\\u{110000}", "\\uD800", "\\uDC00x", "\\u{d800}", "\\u{fffff0}", "\\u-041", "\\x+1", "\n", "\r", "\r\n", "\\n\n", "\\\r\n\n", "\\\n\r"]); l.src.push_str(x); l.ok = false; if r.chance(1, 2) {l.src.push(' ');} else {break;} },
        }
    }
    l.src.push(q);
    l
}
fn mixcase(r: &mut Rng, s: &str) -> String { s.chars().map(|c| if r.chance(1, 2) {c.to_ascii_uppercase()} else {c}).collect() }

fn u25(cfg: &Cfg) -> i32 {
    let real = |s: &str| guarded(|| parse::js::string_literal_prefix(s).ok());
    // Every one- and two-character escape body and every octal triple.
    let mut rec = cases_idx(cfg, "escapes", 512 + 256, |i, rec| {
        if i < 512 {
            let t = format!("{i:03o}");
            for len in 1..=3usize {
                let d = &t[..len];
                for after in ["", "7", "8", "x", "é", "\\n"] {
                    let src = format!("'\\{d}{after}'rest'");
                    // Reference: the longest run of octal digits that fits.
                    let digits: Vec<u32> = format!("{d}{after}").chars().map_while(|c| c.to_digit(8)).collect();
                    let max = if digits[0] <= 3 {3} else {2};
                    let used = digits.len().min(max);
                    let v = digits[..used].iter().fold(0, |a, d| a * 8 + d);
                    let rest: String = format!("{d}{after}").chars().skip(used).collect();
                    let want = format!("{}{}", char::from_u32(v).unwrap(), rest.replace("\\n", "\n"));
                    rec.eval_hash(hash_str(&src)); rec.count("octal escapes");
                    let got = real(&src);
                    if got != Ok(Some(want.clone())) {rec.fail("octal escape", format!("{src:?} is {got:?}, expected {want:?}"), json!({"input": src}));}
                }
            }
        } else {
            let b = (i - 512) as u32; let c = char::from_u32(b).unwrap();
            for src in [format!("\"\\x{b:02x}\""), format!("\"\\x{b:02X}\""), format!("\"\\u00{b:02x}\""), format!("\"\\u{{{b:x}}}\""), format!("\"\\u{{000{b:02X}}}\"")] {
                rec.eval_hash(hash_str(&src)); rec.count("hex escapes");
                let got = real(&src);
                if got != Ok(Some(c.to_string())) {rec.fail("hex escape", format!("{src:?} is {got:?}"), json!({"input": src}));}
            }
            // A backslash before any one character.
            if !matches!(c, '0'..='7' | 'x' | 'u') {
                let src = format!("'\\{c}'");
                let want = match c { 'b' => "\u{8}".into(), 'f' => "\u{c}".into(), 'n' => "\n".into(), 'r' => "\r".into(), 't' => "\t".into(), 'v' => "\u{b}".into(), '\n' | '\r' => String::new(), c => c.to_string() };
                rec.eval_hash(hash_str(&src)); rec.count("single character escapes");
                let got = real(&src);
                if got != Ok(Some(want.clone())) {rec.fail("single character escape", format!("{src:?} is {got:?}, expected {want:?}"), json!({"input": src}));}
            }
        }
    });
    // Every code point of the basic plane (and steps through the rest).
    rec.merge(cases_idx(cfg, "code points", 256, |block, rec| {
        for c in (block as u32 * 256..block as u32 * 256 + 256).chain((0..16).map(|k| 0x10000 + (block as u32 * 16 + k) * 241)) {
            let want = char::from_u32(c).map(|c| c.to_string());
            for src in if c < 0x10000 {vec![format!("'\\u{c:04x}'"), format!("'\\u{{{c:X}}}'")]} else if c <= 0xfffff {vec![format!("'\\u{{{c:x}}}'")]} else {vec![]} {
                rec.eval_hash(hash_str(&src)); rec.count("code point escapes");
                let got = real(&src);
                if got != Ok(want.clone()) {rec.fail("code point escape", format!("{src:?} is {got:?}, expected {want:?}"), json!({"input": src}));}
            }
        }
    }));
    rec.merge(cases(cfg, "literals", cfg.n(800_000, 40_000_000), |r, rec| {
        let l = literal(r);
        let tail: String = (0..r.below(4)).map(|_| *r.pick(&["\"", "'", "; var a", "\\", "é", "\n", ")"])).collect();
        let src = format!("{}{tail}", l.src);
        rec.eval_hash(hash_str(&src));
        rec.sample(|| json!({"input": src, "value": l.value, "well-formed": l.ok}));
        let got = if r.chance(1, 8) {modify(&json!("GetJsStringLiteralPrefix"), &src)} else {real(&src)};
        if l.ok {
            rec.count("literals decoded");
            if got != Ok(Some(l.value.clone())) && !(l.lenient && got == Ok(None)) {rec.fail("literal", format!("{src:?} is {got:?}, expected {:?}", l.value), json!({"input": src}));}
        } else {
            rec.count("malformed literals");
            if got != Ok(None) {rec.fail("malformed literal", format!("{src:?} is malformed, but gives {got:?}"), json!({"input": src}));}
        }
        // Unterminated, and not starting with a literal.
        let cut = r.below(l.src.len()); let cut = (0..=cut).rev().find(|i| l.src.is_char_boundary(*i)).unwrap_or(0);
        let pre = format!("{}{src}", r.pick(&[" ", "a", "`", "\\", "\u{feff}", "(", "é"]));
        for x in [&l.src[..cut], pre.as_str()] {
            rec.eval_hash(hash_str(x)); rec.count("unfinished or misplaced literals");
            let got = real(x);
            if got != Ok(None) {rec.fail("unfinished literal", format!("{x:?} is no complete literal, but gives {got:?}"), json!({"input": x}));}
        }
    }));
    finish(cfg, rec, "exploration", "literals generated together with the string they stand for: every octal, hexadecimal and single-character escape, every basic-plane code point, random mixtures with trailing text, truncations and malformed escapes; distinct = different inputs",
        vec!["surrogate pairs written as two escapes may be refused (documented: a code point that is no character is an error)", "code points of six hexadecimal digits are refused (documented)"])
}
pub fn run(cfg: &Cfg) -> i32 { if cfg.pid == "U24" {u24(cfg)} else {u25(cfg)} }
