#[macro_use]
pub mod engine;
pub mod layout;
pub mod value;
pub mod gen_table;
pub mod dump;
pub mod mapgen;
pub mod checks;

use std::collections::HashSet;
use std::path::PathBuf;

#[global_allocator]
static GUARD: engine::Guard = engine::Guard;

const STACK: usize = 8 << 20;

fn find(all: &[&'static engine::Check], id: &str) -> &'static engine::Check {
    all.iter().copied().find(|c| c.id == id).unwrap_or_else(|| { eprintln!("ERROR no check {id}"); std::process::exit(2) })
}
fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(70))
}

/// What every check program does with its arguments.
pub fn run(all: &'static [&'static engine::Check]) {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
            std::process::exit(engine::supervise(find(all, &arg(2)), if arg(3) == "thorough" { "thorough" } else { "quick" }, seed))
        }
        "worker" => {
            let c = find(all, &arg(2));
            let skip: HashSet<(u64, u64)> = arg(8).split(',').filter_map(|p| p.split_once(':')).map(|(x, y)| (x.parse().unwrap(), y.parse().unwrap())).collect();
            let (tier, seed, k, n, out) = (arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6).parse().unwrap(), PathBuf::from(arg(7)));
            on_thread(move || engine::worker(c, &tier, seed, k, n, &skip, &out));
        }
        "single" => {
            let c = find(all, &arg(2));
            let (mut sub, mut seed, mut idx, mut trace, mut choices) = (String::new(), 1u64, None, None, None);
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--sub" => sub = arg(i + 1), "--seed" => seed = arg(i + 1).parse().unwrap(), "--index" => idx = Some(arg(i + 1).parse().unwrap()),
                    "--trace" => trace = Some(PathBuf::from(arg(i + 1))),
                    "--file" => { let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(i + 1)).unwrap()).unwrap(); sub = v["sub"].as_str().unwrap().into(); choices = Some(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()); }
                    o => panic!("{o}")
                }
                i += 2;
            }
            let verbose = std::env::var_os("RHCHECK_VERBOSE").is_some();
            let code = on_thread(move || engine::single(c, &sub, seed, idx, choices, trace, verbose));
            std::process::exit(code)
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(2)).expect("replay file")).expect("json");
            let c = find(all, v["property"].as_str().unwrap());
            let sub = v["sub"].as_str().unwrap().to_string();
            println!("property {} sub-check {sub}\nrecorded: {}", c.id, v["message"].as_str().unwrap_or(""));
            let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let code = on_thread(move || engine::single(c, &sub, 1, None, Some(choices), None, true));
            println!("{}", if code == 0 { "the case passes" } else { "the case fails" });
            std::process::exit(if code == 0 { 0 } else { 1 })
        }
        "list" => for c in all { println!("{} {}", c.id, c.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")) },
        "dump-layout" => dump::dump(),
        _ => { eprintln!("usage: rhcheck run|single|replay|list|dump-layout"); std::process::exit(2) }
    }
}
