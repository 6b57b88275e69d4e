//! Explicit-state search over operation histories of the real library, and full
//! enumeration of short histories.
use crate::engine::{hist_text, parse_hist, Cat, Fail, Op, Start, Sys, K};
use crate::fam::{ArcFam, Fam, RcFam};
use crate::inject;
use crate::items::Item;
use crate::model::{lin, Model, H};
use crate::util::{beat, hist_begin, hist_more, json_str, Args};
use std::collections::{HashMap, HashSet};
use std::hash::Hasher;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub n: usize,
    pub k: usize,
    pub start: Start,
    pub kinds: HashSet<K>,
    pub parts: Vec<u8>,
    pub bad_parts: bool,
    pub deep: usize,
    pub max_secs: f64,
    pub max_states: usize,
    pub depth: usize,
    pub diff: bool,
    pub skip: HashSet<String>,
    /// Cap on handles of one kind, by kind.
    pub caps: HashMap<char, usize>,
    pub probe: bool,
    /// Where `tours` writes the walks.
    pub dump: Option<String>,
    /// States are told apart by everything the library keeps in memory.
    pub memory: bool,
}

impl Cfg {
    pub fn parse(a: &Args) -> Cfg {
        let kinds: HashSet<K> = match a.get("ops") {
            None => crate::engine::ALL_K.iter().copied().collect(),
            Some(s) => s.split(',').map(|x| *crate::engine::ALL_K.iter().find(|k| format!("{:?}", k) == x).expect("bad op kind")).collect(),
        };
        let start = match a.get("start").unwrap_or("SVec") {
            "SVec" => Start::SVec, "SBox" => Start::SBox, "SSpare" => Start::SSpare, "SCollect" => Start::SCollect,
            "MVec" => Start::MVec, "MBox" => Start::MBox, "MSpare" => Start::MSpare, "MCollect" => Start::MCollect,
            x => panic!("bad start {}", x),
        };
        Cfg {
            prop: a.get("prop").unwrap_or("C01").to_string(),
            n: a.num("n", 2),
            k: a.num("k", 3),
            start,
            kinds,
            parts: a.get("parts").unwrap_or("2").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            bad_parts: a.num("badparts", 0) > 0,
            deep: a.num("deep", 1),
            max_secs: a.num("secs", 60) as f64,
            max_states: a.num("states", 10_000_000),
            depth: a.num("depth", 0),
            diff: a.num("diff", 0) > 0,
            skip: a.get("skip").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect()).unwrap_or_default(),
            caps: a.get("caps").map(|s| s.split(',').map(|x| (x.chars().next().unwrap(), x[1..].parse().unwrap())).collect()).unwrap_or_default(),
            probe: a.num("probe", 1) > 0,
            memory: a.num("memory", 0) > 0,
            dump: a.get("dump").map(|s| s.to_string()),
        }
    }
}

/// The operations to try in a state.
pub fn enabled(m: &Model, c: &Cfg) -> Vec<Op> {
    let mut v = vec![];
    let live = m.live();
    let room = live < c.k;
    let count = |k: char| m.hs.iter().flatten().filter(|h| h.kind() == k).count();
    let fits = |k: char| c.caps.get(&k).map_or(true, |cap| count(k) < *cap);
    'slots: for s in 0..m.hs.len() {
        let Some(h) = &m.hs[s] else { continue };
        for t in 0..s { if m.hs[t].is_some() && m.same_handle(s, t) { continue 'slots; } }
        let mut add = |k: K, arg: usize| if c.kinds.contains(&k) { v.push(Op { k, slot: s as u8, arg: arg as u8 }) };
        let parts = |add: &mut dyn FnMut(K, usize)| {
            for p in &c.parts { add(K::Parts, *p as usize); }
            if c.bad_parts { add(K::Parts, 0); add(K::Parts, 3); }
        };
        match h {
            H::S(_) => {
                add(K::GetMut, 0);
                add(K::IntoMut, 0);
                if room && fits('S') { for k in [K::Clone, K::CloneL, K::CloneR, K::SplitL, K::SplitR] { add(k, 0); } }
                if room && fits('W') { add(K::Down, 0); }
                if fits('P') { parts(&mut add); }
                add(K::Drop, 0);
            }
            H::W(_) => {
                if room && fits('S') { add(K::Upgrade, 0); }
                if room && fits('W') { add(K::Clone, 0); }
                add(K::Drop, 0);
            }
            H::M(_) => {
                if room && fits('M') { add(K::SplitL, 0); add(K::SplitR, 0); }
                add(K::IntoImmut, 0);
                if fits('I') { add(K::IntoIter, 0); }
                if fits('Q') { parts(&mut add); }
                if room && m.arenas.len() <= c.deep { add(K::Deep, 0); }
                add(K::Drop, 0);
            }
            H::I(r) => {
                add(K::Next, 0);
                add(K::Back, 0);
                if room && fits('I') { for at in 0..=r.len() { add(K::From, at); add(K::To, at); } }
                if c.bad_parts { add(K::From, r.len() + 1); add(K::To, r.len() + 1); }
                add(K::Drop, 0);
            }
            H::P(l, _) => {
                if room || l.is_empty() { add(K::Next, 0); add(K::Back, 0); }
                if room && fits('P') { add(K::Clone, 0); }
                add(K::Drop, 0);
            }
            H::Q(l, _) => {
                if room || l.is_empty() { add(K::Next, 0); add(K::Back, 0); }
                add(K::Drop, 0);
            }
        }
    }
    if c.kinds.contains(&K::WNew) && room && !m.hs.iter().flatten().any(|h| matches!(h, H::W(None))) {
        v.push(Op { k: K::WNew, slot: 0, arg: 0 });
    }
    v
}

/// Harmless operations on every handle, used to see whether a state is really
/// what the model thinks it is.
pub fn probes(m: &Model) -> Vec<Op> {
    let mut v = vec![];
    for s in 0..m.hs.len() {
        let Some(h) = &m.hs[s] else { continue };
        let mut add = |k: K| v.push(Op { k, slot: s as u8, arg: 0 });
        match h {
            H::W(_) => { add(K::Upgrade); add(K::Clone); }
            H::S(_) => { add(K::GetMut); add(K::CloneL); add(K::CloneR); add(K::Down); add(K::Clone); }
            H::P(..) => add(K::Clone),
            _ => {}
        }
    }
    v
}

/// Whether a failure says something about the property being checked.
pub fn attributed(prop: &str, f: &Fail, hist: &[Op], m: &Model) -> bool {
    let last = hist.last().copied();
    let k = last.map(|o| o.k);
    let kind = Some(f.op_kind);
    let unique_kind = matches!(kind, Some('M' | 'I' | 'Q'));
    let panic = f.cat == Cat::Panic;
    match prop {
        "C01" => f.cat == Cat::View || (panic && !unique_kind && kind != Some('P') && !matches!(k, Some(K::GetMut | K::IntoMut | K::Upgrade | K::Drop))),
        "C02" => f.cat == Cat::Items || (panic && k == Some(K::Drop)),
        "C03" => f.cat == Cat::Memory || (panic && k == Some(K::Drop)),
        "C04" => f.cat == Cat::GetMut || k == Some(K::GetMut),
        "C05" => f.cat == Cat::IntoMut || matches!(k, Some(K::IntoMut | K::IntoImmut)) || (f.cat == Cat::Weak && m.ended_trees) || (k == Some(K::Drop) && f.lin & (lin::INTO_MUT | lin::INTO_IMMUT) != 0),
        "C06" => f.cat == Cat::Weak || k == Some(K::Upgrade) || kind == Some('W') || f.lin & lin::UPGRADE != 0,
        "C07" => f.cat == Cat::Parts || kind == Some('P') || f.view_kind == 'P' || (k == Some(K::Parts) && !unique_kind) || f.lin & lin::PARTS != 0,
        "C08" => f.cat == Cat::Unique || unique_kind || matches!(f.view_kind, 'M' | 'I' | 'Q') || f.lin & (lin::MPARTS | lin::ITER | lin::DEEP) != 0,
        _ => true,
    }
}

pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub histories: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub unattributed: u64,
    pub unattributed_sample: String,
    pub samples: Vec<String>,
    pub outcomes: HashMap<&'static str, u64>,
    pub faults: u64,
    pub nested_ran: u64,
    pub points: u64,
}

pub enum Verdict { Ok, Violation { hist: Vec<Op>, msg: String }, ViolationText { text: String, msg: String } }

fn note_outcome(st: &mut Stats, k: K, obs: &[u32]) {
    let key = match (k, obs.first()) {
        (K::GetMut, Some(1)) => "get_mut granted",
        (K::GetMut, Some(0)) => "get_mut refused",
        (K::IntoMut, Some(1)) => "into_mut succeeded",
        (K::IntoMut, Some(0)) => "into_mut refused",
        (K::Upgrade, Some(1)) => "upgrade succeeded",
        (K::Upgrade, Some(0)) => "upgrade refused",
        (K::Upgrade, Some(2)) => "upgrade left open by the model",
        _ => return,
    };
    *st.outcomes.entry(key).or_insert(0) += 1;
}

/// Run a history. Ok: the model and observations of the last step of it.
pub struct Ran { pub model: Model, pub fp: u64, pub obs: Vec<u32> }

pub fn run<F: Fam, T: Item>(c: &Cfg, hist: &[Op], tail: bool, st: &mut Stats) -> Result<Ran, (Fail, Vec<Op>, Model)> {
    let mut sys = Sys::<F, T>::new();
    st.histories += 1;
    let r = run_in(&mut sys, c, hist, tail, st);
    if r.is_err() { sys.abandon(); }
    r
}

fn run_in<F: Fam, T: Item>(sys: &mut Sys<F, T>, c: &Cfg, hist: &[Op], tail: bool, st: &mut Stats) -> Result<Ran, (Fail, Vec<Op>, Model)> {
    beat();
    if let Err(f) = sys.start(c.n, c.start) { return Err((f, vec![], sys.m.clone())); }
    let mut obs = vec![];
    for (i, op) in hist.iter().enumerate() {
        st.steps += 1;
        if let Err(f) = sys.step(*op) { return Err((f, hist[..=i].to_vec(), sys.m.clone())); }
        if i + 1 == hist.len() { obs = sys.obs.clone(); note_outcome(st, op.k, &obs); }
    }
    let model = sys.m.clone();
    let fp = if c.memory { sys.memory() } else { crate::alloc::fingerprint() };
    if !tail { sys.abandon(); return Ok(Ran { model, fp, obs }); }
    let mut h = hist.to_vec();
    let mut go = |sys: &mut Sys<F, T>, st: &mut Stats, op: Op| {
        h.push(op);
        st.steps += 1;
        hist_more(op);
        match sys.step(op) {
            Err(f) => Err((f, h.clone(), sys.m.clone())),
            Ok(()) => { obs.extend_from_slice(&sys.obs); Ok(()) }
        }
    };
    if c.probe {
        for op in probes(&model) {
            let n = sys.rs.len();
            go(sys, st, op)?;
            // Drop whatever that made, so that one probe doesn't influence the next.
            for s in n..sys.rs.len() { go(sys, st, Op { k: K::Drop, slot: s as u8, arg: 0 })?; }
        }
    }
    // Then let go of everything.
    let reverse = hist.len() % 2 == 1;
    let n = sys.rs.len();
    for i in 0..n {
        let i = if reverse { n - 1 - i } else { i };
        if sys.m.hs[i].is_some() { go(sys, st, Op { k: K::Drop, slot: i as u8, arg: 0 })?; }
    }
    if let Err(f) = sys.end_check() { return Err((f, h, sys.m.clone())); }
    Ok(Ran { model, fp, obs })
}

fn key(m: &Model, fp: u64) -> u128 { key_of(&m.canonical(), fp) }

fn key_of(c: &[u8], fp: u64) -> u128 {
    let mut h1 = Fnv(0xcbf29ce484222325);
    let mut h2 = Fnv(0x9E3779B97F4A7C15);
    for b in c { h1.write_u8(*b); h2.write_u8(b.wrapping_mul(31).wrapping_add(7)); }
    h1.write_u64(fp);
    h2.write_u64(fp.rotate_left(17));
    ((h1.finish() as u128) << 64) | h2.finish() as u128
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let x = self.0; (x ^ (x >> 32)).wrapping_mul(0xD6E8FEB86659FD93) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
}

/// One transition: run the history, judge it. None: the state isn't to be expanded.
fn transition<F: Fam, T: Item>(c: &Cfg, hist: &[Op], st: &mut Stats) -> Result<Option<Ran>, Verdict> {
    if c.skip.contains(&hist_text(hist)) { return Ok(None); }
    hist_begin(hist);
    st.transitions += 1;
    if c.diff { return diff_transition::<T>(c, hist, st); }
    match run::<F, T>(c, hist, true, st) {
        Ok(r) => {
            if c.prop == "C15" || c.prop == "C16" {
                let mut fs = inject::FaultStats::default();
                let res = inject::sweep::<F, T>(c, hist, &mut fs);
                st.histories += fs.runs;
                st.faults += fs.faults;
                st.nested_ran += fs.nested_ran;
                st.points += fs.points;
                if let Err((text, f)) = res { return Err(Verdict::ViolationText { text, msg: format!("{:?}: {}", f.cat, f.msg) }); }
            }
            Ok(Some(r))
        }
        Err((f, h, m)) => {
            // The same history has to fail the same way again.
            let again = run::<F, T>(c, &h, true, st);
            match again {
                Err((g, h2, _)) if g.cat == f.cat && g.msg == f.msg && h2.len() == h.len() => {}
                Err((g, h2, _)) => { println!("ERROR not reproducible: {:?} after {} vs {:?} after {}", f, hist_text(&h), g, hist_text(&h2)); std::process::exit(71); }
                Ok(_) => {
                    println!("ERROR not reproducible: {:?} after {}", f, hist_text(&h)); std::process::exit(71);
                }
            }
            if c.prop != "C15" && c.prop != "C16" && attributed(&c.prop, &f, &h, &m) { return Err(Verdict::Violation { hist: h, msg: format!("{:?}: {}", f.cat, f.msg) }); }
            st.unattributed += 1;
            if st.unattributed_sample.is_empty() { st.unattributed_sample = format!("{:?}: {} after {}", f.cat, f.msg, hist_text(&h)); }
            Ok(None)
        }
    }
}

fn diff_transition<T: Item>(c: &Cfg, hist: &[Op], st: &mut Stats) -> Result<Option<Ran>, Verdict> {
    let a = run::<RcFam, T>(c, hist, true, st);
    hist_begin(hist);
    let b = run::<ArcFam, T>(c, hist, true, st);
    let viol = |h: &[Op], msg: String| Err(Verdict::Violation { hist: h.to_vec(), msg });
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a.obs == b.obs { Ok(Some(Ran { fp: a.fp ^ b.fp.rotate_left(1), ..a })) }
            else if a.obs.contains(&2) || b.obs.contains(&2) { Ok(None) }
            else { viol(hist, format!("the families differ: rc observed {:?}, arc {:?}", a.obs, b.obs)) }
        }
        (Err((f, h, _)), Err((g, h2, _))) => {
            if f.cat == g.cat && h.len() == h2.len() { st.unattributed += 1; Ok(None) }
            else { viol(if h.len() < h2.len() { &h } else { &h2 }, format!("the families differ: rc: {}, arc: {}", f.msg, g.msg)) }
        }
        (Err((f, h, _)), Ok(_)) => viol(&h, format!("the families differ: only rc: {}", f.msg)),
        (Ok(_), Err((g, h, _))) => viol(&h, format!("the families differ: only arc: {}", g.msg)),
    }
}

pub fn bfs<F: Fam, T: Item>(c: &Cfg) -> (Stats, Verdict) {
    crate::engine::SCRUB.store(c.memory, std::sync::atomic::Ordering::Relaxed);
    let mut st = new_stats();
    let t0 = Instant::now();
    let mut seen: HashSet<u128> = HashSet::new();
    let mut nodes: Vec<(u32, Op)> = vec![];
    let mut depth: Vec<u16> = vec![];
    let hist_of = |nodes: &Vec<(u32, Op)>, mut i: u32| {
        let mut h = vec![];
        while i != 0 { let (p, op) = nodes[i as usize]; h.push(op); i = p; }
        h.reverse();
        h
    };
    nodes.push((0, Op { k: K::Drop, slot: 0, arg: 0 }));
    depth.push(0);
    let mut models: Vec<Option<Box<Model>>> = vec![];
    match transition::<F, T>(c, &[], &mut st) {
        Ok(Some(r)) => { seen.insert(key(&r.model, r.fp)); models.push(Some(Box::new(r.model))); }
        Ok(None) => { st.complete = true; return (st, Verdict::Ok); }
        Err(v) => return (st, v),
    }
    st.states = 1;
    st.complete = true;
    let mut next = 0;
    while next < nodes.len() {
        if t0.elapsed().as_secs_f64() > c.max_secs || nodes.len() > c.max_states { st.complete = false; break; }
        let h = hist_of(&nodes, next as u32);
        let m = models[next].take().unwrap();
        if c.depth == 0 || h.len() < c.depth {
            for op in enabled(&m, c) {
                let mut h2 = h.clone();
                h2.push(op);
                match transition::<F, T>(c, &h2, &mut st) {
                    Err(v) => return (st, v),
                    Ok(None) => {}
                    Ok(Some(r)) => {
                        if r.model.live() > 0 && seen.insert(key(&r.model, r.fp)) {
                            st.states += 1;
                            nodes.push((next as u32, op));
                            depth.push(depth[next] + 1);
                            st.max_depth = st.max_depth.max(h2.len());
                            models.push(Some(Box::new(r.model)));
                            if st.samples.len() < 3 && st.states % 1009 == 500 { st.samples.push(hist_text(&h2)); }
                        }
                    }
                }
            }
        }
        next += 1;
    }
    if st.samples.is_empty() { if let Some(i) = nodes.len().checked_sub(1) { st.samples.push(hist_text(&hist_of(&nodes, i as u32))); } }
    (st, Verdict::Ok)
}

/// Every history up to a depth, without merging states.
pub fn dfs<F: Fam, T: Item>(c: &Cfg) -> (Stats, Verdict) {
    let mut st = new_stats();
    st.complete = true;
    let t0 = Instant::now();
    let mut h = vec![];
    let v = dfs_rec::<F, T>(c, &mut h, &mut st, &t0);
    st.states = st.transitions;
    match v { Ok(()) => (st, Verdict::Ok), Err(v) => (st, v) }
}

fn dfs_rec<F: Fam, T: Item>(c: &Cfg, h: &mut Vec<Op>, st: &mut Stats, t0: &Instant) -> Result<(), Verdict> {
    if t0.elapsed().as_secs_f64() > c.max_secs { st.complete = false; return Ok(()); }
    let Some(r) = transition::<F, T>(c, h, st)? else { return Ok(()) };
    st.max_depth = st.max_depth.max(h.len());
    if st.samples.len() < 3 && st.transitions % 5003 == 2500 { st.samples.push(hist_text(h)); }
    if h.len() == c.depth || r.model.live() == 0 { return Ok(()); }
    for op in enabled(&r.model, c) {
        h.push(op);
        dfs_rec::<F, T>(c, h, st, t0)?;
        h.pop();
    }
    Ok(())
}

/// Walks that together perform every enabled operation in every reachable state,
/// written to a file for an engine that's too slow to start every transition anew.
/// The model decides what's a state and what's enabled.
pub fn tours<F: Fam, T: Item>(c: &Cfg, maxlen: usize, look_ahead: usize) -> Stats {
    use std::collections::VecDeque;
    use std::io::Write;
    type OpId = (u64, u8, u8);
    struct Node { open: Vec<OpId>, succ: Vec<(OpId, u128)>, depth: u32, from: Option<(u128, OpId)> }
    let mut st = new_stats();
    st.complete = true;
    let t0 = Instant::now();
    let mut graph: HashMap<u128, Node> = HashMap::new();
    let mut out = std::fs::File::create(c.dump.as_ref().expect("--dump")).unwrap();
    // The operations enabled in a state, under names that don't depend on how it came about.
    let look = |m: &Model| -> (u128, Vec<(OpId, Op)>) {
        let mut ids = Some(vec![]);
        let k = key_of(&m.canonical_with(&mut ids), crate::alloc::fingerprint());
        let ids = ids.unwrap();
        let mut ops: Vec<(OpId, Op)> = vec![];
        for op in enabled(m, c) {
            let who = if op.k == K::WNew { 0 } else {
                let mut h = Fnv(0xcbf29ce484222325);
                h.write(&ids.iter().find(|i| i.0 == op.slot as usize).unwrap().1);
                h.finish()
            };
            let id = (who, op.k as u8, op.arg);
            if !ops.iter().any(|o| o.0 == id) { ops.push((id, op)); }
        }
        (k, ops)
    };
    // A shortest way to a state with operations not performed yet.
    let nearest = |graph: &HashMap<u128, Node>, from: u128, far: usize| -> Option<VecDeque<OpId>> {
        let mut prev: HashMap<u128, (u128, OpId)> = HashMap::new();
        let mut todo = VecDeque::from([(from, 0usize)]);
        while let Some((k, d)) = todo.pop_front() {
            if !graph[&k].open.is_empty() || graph[&k].succ.is_empty() {
                let mut path = VecDeque::new();
                let mut at = k;
                while at != from { let (p, o) = prev[&at]; path.push_front(o); at = p; }
                return Some(path);
            }
            if d == far { continue; }
            for (o, to) in &graph[&k].succ {
                if *to != from && graph.contains_key(to) && !prev.contains_key(to) { prev.insert(*to, (k, *o)); todo.push_back((*to, d + 1)); }
            }
        }
        None
    };
    // States that may have operations left, the nearest to the start first.
    let mut heap: std::collections::BinaryHeap<(std::cmp::Reverse<u32>, u128)> = Default::default();
    loop {
        if t0.elapsed().as_secs_f64() > c.max_secs { st.complete = false; break; }
        let mut sys = Sys::<F, T>::new();
        let mut h: Vec<Op> = vec![];
        hist_begin(&h);
        st.histories += 1;
        if sys.start(c.n, c.start).is_err() { st.unattributed += 1; sys.abandon(); break; }
        let mut way: VecDeque<OpId> = VecDeque::new();
        if st.histories > 1 {
            while let Some((d, k)) = heap.peek() {
                if (graph[k].open.is_empty() && !graph[k].succ.is_empty()) || graph[k].depth != d.0 { heap.pop(); } else { break; }
            }
            let Some((_, mut k)) = heap.peek().copied() else { sys.abandon(); break };
            while let Some((p, o)) = graph[&k].from { way.push_front(o); k = p; }
        }
        let mut progress = false;
        let mut dead = false;
        loop {
            beat();
            let (k, ops) = look(&sys.m);
            if !graph.contains_key(&k) { graph.insert(k, Node { open: vec![], succ: vec![], depth: 0, from: None }); heap.push((std::cmp::Reverse(0), k)); }
            let node = graph.get_mut(&k).unwrap();
            if node.succ.is_empty() && node.open.is_empty() { node.open = ops.iter().rev().map(|o| o.0).collect(); st.states += 1; }
            let id = match way.pop_front() {
                Some(id) => id,
                None => if let Some(id) = node.open.pop() { way.clear(); progress = true; st.transitions += 1; id } else {
                    if h.len() >= maxlen { break; }
                    let Some(w) = nearest(&graph, k, look_ahead) else { break };
                    way = w;
                    way.pop_front().unwrap()
                },
            };
            let Some((_, op)) = ops.iter().find(|o| o.0 == id) else { dead = true; break };
            h.push(*op);
            hist_begin(&h);
            st.steps += 1;
            if sys.step(*op).is_err() { st.unattributed += 1; dead = true; break; }
            let empty = sys.m.live() == 0;
            let to = if empty { 0 } else { look(&sys.m).0 };
            let d = graph[&k].depth + 1;
            if !empty {
                let t = graph.entry(to).or_insert(Node { open: vec![], succ: vec![], depth: u32::MAX, from: None });
                if d < t.depth { t.depth = d; t.from = Some((k, id)); heap.push((std::cmp::Reverse(d), to)); }
            }
            let n = graph.get_mut(&k).unwrap();
            if !n.succ.iter().any(|s| s.0 == id) { n.succ.push((id, to)); }
            if empty || (h.len() >= maxlen && way.is_empty()) || sys.rs.len() > 70 { break; }
        }
        if progress || dead { out.write_all(format!("{}\n", hist_text(&h)).as_bytes()).unwrap(); }
        st.max_depth = st.max_depth.max(h.len());
        sys.abandon();
        if !progress {
            // Nothing left that can be reached, or a way that no longer leads where it did.
            if dead { st.complete = false; }
            break;
        }
    }
    st
}

pub fn new_stats() -> Stats {
    Stats { states: 0, transitions: 0, histories: 0, steps: 0, max_depth: 0, complete: false, unattributed: 0, unattributed_sample: String::new(), samples: vec![], outcomes: HashMap::new(), faults: 0, nested_ran: 0, points: 0 }
}

pub fn report(st: &Stats, v: &Verdict, wall: f64) {
    let mut oc: Vec<_> = st.outcomes.iter().collect();
    oc.sort();
    let (viol, msg, hist) = match v { Verdict::Ok => (false, String::new(), String::new()), Verdict::Violation { hist, msg } => (true, msg.clone(), hist_text(hist)), Verdict::ViolationText { text, msg } => (true, msg.clone(), text.clone()) };
    println!("RESULT {{\"states\":{},\"transitions\":{},\"histories\":{},\"steps\":{},\"max_depth\":{},\"complete\":{},\"unattributed\":{},\"unattributed_sample\":{},\"samples\":[{}],\"outcomes\":{{{}}},\"faults\":{},\"nested_ran\":{},\"points\":{},\"violation\":{},\"msg\":{},\"hist\":{},\"wall\":{:.2}}}",
        st.states, st.transitions, st.histories, st.steps, st.max_depth, st.complete, st.unattributed, json_str(&st.unattributed_sample),
        st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        oc.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
        st.faults, st.nested_ran, st.points, viol, json_str(&msg), json_str(&hist), wall);
}

/// Run one given history, with nothing but the history itself.
pub fn replay<F: Fam, T: Item>(c: &Cfg, hist: &str) -> bool {
    crate::engine::SCRUB.store(c.memory, std::sync::atomic::Ordering::Relaxed);
    let hist = parse_hist(hist);
    let mut sys = Sys::<F, T>::new();
    println!("start: {:?} of {} {} items ({})", c.start, c.n, T::NAME, F::NAME);
    if let Err(f) = sys.start(c.n, c.start) { println!("  FAILS: {:?}: {}", f.cat, f.msg); sys.abandon(); return true; }
    for (i, op) in hist.iter().enumerate() {
        hist_begin(&hist[..=i]);
        println!("{:3}. {:14} on {:?}", i + 1, op.text(), sys.m.hs.get(op.slot as usize));
        if let Err(f) = sys.step(*op) { println!("  FAILS: {:?}: {}", f.cat, f.msg); sys.abandon(); return true; }
    }
    if c.dump.is_some() { crate::alloc::dump(); println!("digest {:016x}", sys.memory()); }
    if sys.m.live() == 0 {
        if let Err(f) = sys.end_check() { println!("  FAILS at the end: {:?}: {}", f.cat, f.msg); return true; }
    } else { sys.abandon(); }
    println!("no failure");
    false
}
