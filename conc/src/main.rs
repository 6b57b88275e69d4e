mod alloc;
mod litmus;
mod scen;
mod run;

#[global_allocator]
static A: alloc::Tracker = alloc::Tracker;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().find_map(|a| a.strip_prefix(&format!("--{}=", k)).map(|s| s.to_string()));
    let num = |k: &str, d: usize| get(k).map(|s| s.parse().expect("a number")).unwrap_or(d);
    match args.first().map(|s| s.as_str()) {
        Some("litmus") => match litmus::run() {
            Ok(s) => println!("RESULT {{\"litmus\":\"{}\"}}", s),
            Err(e) => { println!("LITMUS FAILED {}", e); std::process::exit(3) }
        },
        Some("count") => println!("{}", scen::all(&get("set").unwrap()).len()),
        Some("list") => for s in scen::all(&get("set").unwrap()) { println!("{}", s.text()) },
        Some("run") => {
            let (i, n) = match get("shard") {
                Some(s) => { let (a, b) = s.split_once('/').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }
                None => (0, 1),
            };
            run::run(run::Cfg {
                prop: get("prop").unwrap_or_default(),
                set: get("set").unwrap_or_default(),
                shard: i,
                shards: n,
                from: num("from", 0),
                bound: num("bound", 2),
                stale: num("stale", 2),
                single: get("single"),
                path: get("path"),
                trace: args.iter().any(|a| a == "--trace"),
                merging: !args.iter().any(|a| a == "--nomerge"),
                pruning: !args.iter().any(|a| a == "--nomerge" || a == "--noprune"),
                secs: num("secs", 0) as u64,
            })
        }
        _ => { eprintln!("conc litmus | count | list | run"); std::process::exit(2) }
    }
}
