//! The code under test, driven from the same JSON the model reads.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use serde_json::{json, Value};
use url_cleaner::types::*;
use url_cleaner::glue::*;
use crate::core::guarded;
use crate::model::{self, Args, Pad, World, E};

pub struct RealWorld { pub params: Params, pub commons: Commons, pub job: JobContext, pub task: TaskContext, pub cache: Cache }
pub fn de<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> { serde_json::from_str(&v.to_string()).map_err(|e| e.to_string()) }

pub fn real_world(w: &World) -> Result<RealWorld, String> {
    Ok(RealWorld {
        params: de(&w.params).map_err(|e| format!("params: {e}"))?,
        commons: de(&w.commons).map_err(|e| format!("commons: {e}"))?,
        job: de(&json!({"vars": w.job_vars})).map_err(|e| format!("job: {e}"))?,
        task: de(&json!({"vars": w.task_vars})).map_err(|e| format!("task: {e}"))?,
        cache: Cache::default(),
    })
}
pub fn real_pad(p: &Pad) -> JobScratchpad {
    let mut s = JobScratchpad::default();
    for f in &p.flags {s.flags.insert(f.clone());}
    for (k, v) in &p.vars {s.vars.insert(k.clone(), v.clone());}
    s
}
pub fn pad_back(s: &JobScratchpad) -> Pad {
    Pad {flags: s.flags.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>(), vars: s.vars.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>()}
}
pub fn real_args(a: &Args) -> CommonCallArgs<'static> {
    CommonCallArgs {flags: a.flags.iter().map(|x| Cow::Owned(x.clone())).collect(), vars: a.vars.iter().map(|(k, v)| (Cow::Owned(k.clone()), v.clone())).collect()}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Rule, Rules, Mapper, Condition, Matcher, Modification, Source, Location, Char }
impl Kind { pub fn name(self) -> &'static str { match self { Kind::Rule => "rule", Kind::Rules => "rules", Kind::Mapper => "mapper", Kind::Condition => "condition", Kind::Matcher => "matcher", Kind::Modification => "modification", Kind::Source => "source", Kind::Location => "location", Kind::Char => "char" } } }

/// What a program did: its value (as text), and the state afterwards.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome { pub result: Result<String, ()>, pub url: String, pub pad: Pad, pub text: Option<String>, pub variant: Option<String>, pub raw: String }

pub struct Prog<'a> { pub kind: Kind, pub prog: &'a Value, pub url: &'a str, pub pad: &'a Pad, pub args: Option<&'a Args>, pub text: &'a str, pub needle: &'a str }

fn show(x: &Option<String>) -> String { match x { None => "absent".into(), Some(x) => format!("{x:?}") } }
/// The leading identifier of an error's debug form.
pub fn variant_of(e: &dyn std::fmt::Debug) -> String { let s = format!("{e:?}"); s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect() }

/// Runs the real code. `Err` when the program could not be loaded.
pub fn run_real(p: &Prog, w: &World) -> Result<Result<Outcome, String>, String> {
    let rw = real_world(w)?;
    let out = run_real_in(p, &rw)?;
    Ok(out)
}
pub fn run_real_in(p: &Prog, rw: &RealWorld) -> Result<Result<Outcome, String>, String> {
    macro_rules! load { ($t:ty) => { de::<$t>(p.prog).map_err(|e| format!("{}: {e}", p.kind.name()))? } }
    enum L { Rule(Rule), Rules(Rules), Mapper(Mapper), Condition(Condition), Matcher(StringMatcher), Modification(StringModification), Source(StringSource), Location(StringLocation), Char(CharMatcher) }
    let prog = match p.kind {
        Kind::Rule => L::Rule(load!(Rule)), Kind::Rules => L::Rules(load!(Rules)), Kind::Mapper => L::Mapper(load!(Mapper)), Kind::Condition => L::Condition(load!(Condition)),
        Kind::Matcher => L::Matcher(load!(StringMatcher)), Kind::Modification => L::Modification(load!(StringModification)), Kind::Source => L::Source(load!(StringSource)),
        Kind::Location => L::Location(load!(StringLocation)), Kind::Char => L::Char(load!(CharMatcher)),
    };
    let mut url = BetterUrl::parse(p.url).map_err(|e| format!("url: {e}"))?;
    let mut pad = real_pad(p.pad);
    let args = p.args.map(real_args);
    let mut text = p.text.to_string();
    let r = guarded(|| {
        let mut st = TaskState {url: &mut url, scratchpad: &mut pad, common_args: args.as_ref(), context: &rw.task, job_context: &rw.job, params: &rw.params, commons: &rw.commons, cache: &rw.cache};
        fn e<T: std::fmt::Debug>(x: T) -> (String, String) {(variant_of(&x), format!("{x:?}"))}
        match &prog {
            L::Rule(x) => x.apply(&mut st).map(|()| String::new()).map_err(e),
            L::Rules(x) => x.apply(&mut st).map(|()| String::new()).map_err(e),
            L::Mapper(x) => x.apply(&mut st).map(|()| String::new()).map_err(e),
            L::Condition(x) => x.satisfied_by(&st.to_view()).map(|x| x.to_string()).map_err(e),
            L::Matcher(x) => x.satisfied_by(&text, &st.to_view()).map(|x| x.to_string()).map_err(e),
            L::Modification(x) => x.apply(&mut text, &st.to_view()).map(|()| String::new()).map_err(e),
            L::Source(x) => x.get(&st.to_view()).map(|x| show(&x.map(|x| x.into_owned()))).map_err(e),
            L::Location(x) => x.satisfied_by(&text, p.needle).map(|x| x.to_string()).map_err(e),
            L::Char(x) => x.satisfied_by(p.text.chars().next().unwrap_or('a')).map(|x| x.to_string()).map_err(e),
        }
    });
    Ok(match r {
        Err(panic) => Err(panic),
        Ok(r) => {
            let (variant, raw) = match &r { Ok(_) => (None, String::new()), Err((v, raw)) => (Some(v.clone()), raw.chars().take(400).collect()) };
            Ok(Outcome {result: r.map_err(|_| ()), url: url.as_str().to_string(), pad: pad_back(&pad), text: (p.kind == Kind::Modification).then_some(text), variant, raw})
        }
    })
}

/// Runs the model. `None` when the model gives no opinion (out of its domain, or too much work).
pub fn run_model(p: &Prog, w: &World) -> Option<Outcome> {
    let url = url::Url::parse(p.url).ok()?;
    let r = guarded(|| {
        let mut st = model::S {url, pad: p.pad.clone(), args: p.args, w};
        let mut text = p.text.to_string();
        let r: Result<String, E> = match p.kind {
            Kind::Rule => model::rule(p.prog, &mut st).map(|()| String::new()),
            Kind::Rules => model::rules(p.prog, &mut st).map(|()| String::new()),
            Kind::Mapper => model::mapper(p.prog, &mut st).map(|()| String::new()),
            Kind::Condition => model::condition(p.prog, st.v()).map(|x| x.to_string()),
            Kind::Matcher => model::matcher(p.prog, &text, st.v()).map(|x| x.to_string()),
            Kind::Modification => model::modify(p.prog, &mut text, st.v()).map(|()| String::new()),
            Kind::Source => model::source(p.prog, st.v()).map(|x| show(&x)),
            Kind::Location => model::location(p.prog, &text, p.needle).map(|x| x.to_string()),
            Kind::Char => model::charm(p.prog, p.text.chars().next().unwrap_or('a')).map(|x| x.to_string()),
        };
        let variant = r.as_ref().err().map(|e| e.to_string());
        Outcome {result: r.map_err(|_| ()), url: st.url.as_str().to_string(), pad: st.pad, text: (p.kind == Kind::Modification).then_some(text), variant, raw: String::new()}
    });
    match r { Ok(o) => Some(o), Err(m) => { if std::env::var_os("MON_MODEL").is_some() {eprintln!("model gave up: {m}");} None } }
}
