//! A program using url-cleaner's library built with its `debug` feature: cleans the tasks of a file
//! {"config": .. or null, "flags": [..], "tasks": [..]} and prints a line for each.
use std::borrow::Cow;
use url_cleaner::glue::*;
use url_cleaner::types::*;

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("a file")).expect("readable");
    let v: serde_json::Value = serde_json::from_str(&text).expect("JSON");
    let mut config: Config = if v["config"].is_null() {Config::get_default_no_cache().expect("the shipped configuration")} else {serde_json::from_str(&v["config"].to_string()).expect("a configuration")};
    for f in v["flags"].as_array().into_iter().flatten() {config.params.flags.insert(f.as_str().unwrap_or("").into());}
    let job = JobContext::default();
    // All at once, as a server would.
    std::thread::scope(|s| {
        let all: Vec<_> = v["tasks"].as_array().into_iter().flatten().filter_map(|t| t.as_str()).map(|t| { let (config, job) = (&config, &job); s.spawn(move || match t.parse::<TaskConfig>() {
            Ok(t) => match (JobConfig {config: Cow::Borrowed(config), cache: Cache::default()}).new_task(t, job).r#do() { Ok(u) => u.as_str().to_string(), Err(_) => "do".into() },
            Err(_) => "make".into()
        }) }).collect();
        for t in all {println!("{}", t.join().unwrap_or_else(|_| "panic".into()));}
    });
}
