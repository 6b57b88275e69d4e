mod alloc;
mod engine;
mod explore;
mod fam;
mod inject;
mod items;
mod model;
mod panics;
mod traits;
mod util;
mod walk;

use explore::{bfs, dfs, replay, report, Cfg};
use fam::{ArcFam, Fam, RcFam};
use items::*;
use std::time::Instant;
use util::Args;

#[global_allocator]
static GLOBAL: alloc::Tracker = alloc::Tracker;

fn run<F: Fam, T: Item>(cmd: &str, a: &Args) {
    let c = Cfg::parse(a);
    let t0 = Instant::now();
    match cmd {
        "bfs" => { let (s, v) = bfs::<F, T>(&c); report(&s, &v, t0.elapsed().as_secs_f64()); }
        "dfs" => { let (s, v) = dfs::<F, T>(&c); report(&s, &v, t0.elapsed().as_secs_f64()); }
        "tours" => { let s = explore::tours::<F, T>(&c, a.num("maxlen", 30), a.num("ahead", 3)); report(&s, &explore::Verdict::Ok, t0.elapsed().as_secs_f64()); }
        "replay" => { if replay::<F, T>(&c, a.get("hist").unwrap_or("")) { std::process::exit(1); } }
        "walk" => {
            let which = a.get("which").unwrap().chars().next().unwrap();
            let (s, v) = walk::walk::<F, T>(&c, which, a.num("maxlen", 9), a.num("maxparts", 8), a.get("single"));
            report(&s, &v, t0.elapsed().as_secs_f64());
            if a.get("single").is_some() && !matches!(v, explore::Verdict::Ok) { std::process::exit(1); }
        }
        "traits" => {
            let (s, v) = traits::traits(&c, a);
            report(&s, &v, t0.elapsed().as_secs_f64());
            if a.get("single").is_some() && !matches!(v, explore::Verdict::Ok) { std::process::exit(1); }
        }
        "panics" => {
            let (s, v) = panics::panics(&c, a);
            report(&s, &v, t0.elapsed().as_secs_f64());
            if a.get("single").is_some() && !matches!(v, explore::Verdict::Ok) { std::process::exit(1); }
        }
        "freplay" => { if inject::replay::<F, T>(&c, a.get("hist").unwrap_or("")) { std::process::exit(1); } }
        _ => panic!("unknown command {}", cmd),
    }
}

fn by_item<F: Fam>(cmd: &str, a: &Args) {
    match a.get("item").unwrap_or("tracked") {
        "tracked" => run::<F, Tracked>(cmd, a),
        "aligned64" => run::<F, Wide>(cmd, a),
        "large" => run::<F, Large>(cmd, a),
        "heap" => run::<F, Heap>(cmd, a),
        "odd3" => run::<F, Odd>(cmd, a),
        "zst" => run::<F, Zst>(cmd, a),
        "zst_aligned32" => run::<F, ZstWide>(cmd, a),
        x => panic!("unknown item type {}", x),
    }
}

fn main() {
    alloc::init();
    let v: Vec<String> = std::env::args().skip(1).collect();
    let a = Args::parse(&v);
    if v[0] == "readhist" { println!("{}", util::hist_read(&v[1])); return; }
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = a.get("histfile") { util::hist_file(f); }
    util::watchdog(a.num("hang", 10) as u64);
    match a.get("fam").unwrap_or("rc") {
        "rc" => by_item::<RcFam>(&v[0], &a),
        "arc" => by_item::<ArcFam>(&v[0], &a),
        x => panic!("unknown family {}", x),
    }
}
