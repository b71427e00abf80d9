//! Bounded checks of the properties against the real crate, and the search for failing inputs.
mod alloc;
mod ctx;
mod gen;
mod props;
mod refstr;
mod reg;
mod rng;
use ctx::{Ctx, Failure};
use std::collections::{BTreeMap, HashSet};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn failure_json(f: &Failure) -> String {
    let cut = |s: &str| -> String { s.chars().take(6000).collect() };
    format!("{{\"section\":{},\"case\":{},\"input\":{},\"what\":{}}}", js(&f.section), f.case, js(&cut(&f.input)), js(&cut(&f.what)))
}
fn print_failure(f: &Failure) {
    println!("{{\"failure\":{},\"evals\":0,\"sections\":{{}},\"distinct\":0,\"rules\":[],\"samples\":[],\"known\":[]}}", failure_json(f));
}
fn run() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let Some(f) = args.get(1).and_then(|p| props::find(p)) else {
        eprintln!("usage: oracle <property> [--seed N] [--tier quick|thorough] [--section S --case N] [--trace F] [--scale N]");
        return 2;
    };
    let only = opt("--section").map(|s| (s, opt("--case").and_then(|c| c.parse().ok()).unwrap_or(0)));
    if let Some(t) = opt("--dict").and_then(|f| std::fs::read_to_string(f).ok()) {
        rng::load_dict(&t);
    }
    ctx::install_panic_hook();
    ctx::watchdog(print_failure);
    let mut c = Ctx {
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        only,
        trace: opt("--trace"),
        evals: 0,
        sections: BTreeMap::new(),
        rules: vec![],
        distinct: HashSet::new(),
        samples: vec![],
        known: vec![],
        failure: None,
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    f(&mut c);
    let secs: Vec<String> = c.sections.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let known: Vec<String> = c.known.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
    println!(
        "{{\"failure\":{},\"evals\":{},\"sections\":{{{}}},\"distinct\":{},\"rules\":[{}],\"samples\":[{}],\"known\":[{}]}}",
        c.failure.as_ref().map_or("null".into(), failure_json),
        c.evals,
        secs.join(","),
        c.distinct.len(),
        list(&c.rules),
        list(&c.samples),
        known.join(",")
    );
    if c.failure.is_some() { 1 } else { 0 }
}
fn main() {
    // A large stack, as some cases nest.
    let code = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap_or(3);
    std::process::exit(code);
}
