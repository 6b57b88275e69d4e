//! Runs every execution of every scenario and checks each.
use crate::alloc;
use crate::scen::{self, Hd, Op, Prog, Scen};
use rc_slice::arc::WeakSlice;
use rc_slice::{ArcSlice, ArcSliceMut};
use rt::engine::{self, Cat};
use std::collections::{BTreeMap, HashSet};

pub struct Cfg {
    pub prop: String, pub set: String, pub shard: usize, pub shards: usize, pub from: usize,
    pub bound: usize, pub stale: usize, pub single: Option<String>, pub path: Option<String>, pub trace: bool, pub secs: u64, pub merging: bool, pub pruning: bool,
}

const INF: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Node { tree: u16, bits: u32, depth: u8, lo: u16, hi: u16 }
impl Node {
    fn len(self) -> u16 { self.hi - self.lo }
    fn left(self) -> Node {
        if self.len() == 0 { return self }
        Node { depth: self.depth + 1, hi: self.lo + self.len() / 2, ..self }
    }
    fn right(self) -> Node {
        if self.len() <= 1 { return self }
        Node { bits: self.bits | 1 << self.depth, depth: self.depth + 1, lo: self.lo + self.len() / 2, ..self }
    }
    fn go(self, path: &str) -> Node { path.chars().fold(self, |n, c| if c == 'L' { n.left() } else { n.right() }) }
    /// Whether this is the same subslice or part of what `self` is.
    fn has(self, o: Node) -> bool { self.tree == o.tree && self.depth <= o.depth && o.bits & ((1 << self.depth) - 1) == self.bits }
    fn related(self, o: Node) -> bool { self.has(o) || o.has(self) }
    fn overlaps(self, o: Node) -> bool { self.lo.max(o.lo) < self.hi.min(o.hi) }
    fn text(self) -> String {
        let p: String = (0..self.depth).map(|i| if self.bits >> i & 1 == 0 { 'L' } else { 'R' }).collect();
        format!("{}..{} ({}/{})", self.lo, self.hi, self.tree, p)
    }
}

/// When a handle came into being and went away: during which call, each.
#[derive(Clone, Copy)]
struct Rec { kind: char, node: Node, bc: u32, br: u32, dc: u32, dr: u32, by: usize, at: u32 }
impl Rec {
    fn surely(&self, m: u32) -> bool { self.br <= m && m < self.dc }
    /// Whether it may have been there during a call: it didn't come after that, and
    /// its end didn't happen before it.
    fn maybe(&self, x: &Call) -> bool { self.bc < x.r && (self.dr == INF || self.at > x.vc[self.by]) }
    fn end(&mut self, t: u32) { self.dr = t; self.by = engine::eng().cur; self.at = engine::clock()[self.by]; }
    fn now(&self) -> bool { self.br != INF && self.dc == INF }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Res { Done, Yes, No }

#[derive(Clone, Copy)]
struct Call { thread: usize, op: Op, node: Node, hid: usize, c: u32, r: u32, res: Res, vc: [u32; engine::NT], at: u32 }

struct It { magic: u32, id: u32, val: u32 }
const MAGIC: u32 = 0x17e3_17e3;

#[derive(Clone, Copy)]
struct Life { val: u32, alive: bool }

enum Val {
    S(ArcSlice<It>), W(WeakSlice<It>), M(ArcSliceMut<It>),
    /// References to handles of the main thread.
    R(&'static ArcSlice<It>), V(&'static WeakSlice<It>),
}
type Own = (Val, usize);

/// Handles, without anything on the heap: threads may be abandoned.
#[derive(Default)]
struct Bag { v: [Option<Own>; 20], n: usize }
impl Bag {
    fn len(&self) -> usize { self.n }
    fn is_empty(&self) -> bool { self.n == 0 }
    fn push(&mut self, x: Own) { self.v[self.n] = Some(x); self.n += 1; }
    fn insert(&mut self, at: usize, x: Own) {
        self.push(x);
        self.v[at..self.n].rotate_right(1);
    }
    fn remove(&mut self, at: usize) -> Own {
        self.v[at..self.n].rotate_left(1);
        self.n -= 1;
        self.v[self.n].take().unwrap()
    }
    fn append(&mut self, o: &mut Bag) { while o.n > 0 { self.push(o.remove(0)) } }
    fn iter(&self) -> impl Iterator<Item = &Own> { self.v[..self.n].iter().map(|x| x.as_ref().unwrap()) }
    fn get(&self, i: usize) -> &Own { self.v[i].as_ref().unwrap() }
    fn forget(&mut self) { for x in &mut self.v[..self.n] { std::mem::forget(x.take()) } self.n = 0; }
}

struct G {
    now: u32,
    hs: Vec<Rec>,
    calls: Vec<Call>,
    items: Vec<Life>,
    trees: u16,
    vals: u32,
    /// What threads start with, and what they hand back.
    start: [Bag; engine::NT],
    back: [Bag; engine::NT],
    progs: *const Vec<Prog>,
    drop_all: bool,
    seen: HashSet<(u128, u32)>,
    /// The same execution is to be run again, with another ending.
    again: bool,
    endings: u64,
    merged: u64,
    merging: bool,
    prop: String,
    text: String,
    index: usize,
    running: bool,
    others: u64,
    last_other: String,
    counts: BTreeMap<(Op, Res), u64>,
}
static mut GP: *mut G = std::ptr::null_mut();
fn g() -> &'static mut G { unsafe { &mut *GP } }

fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], '\n' => vec!['\\', 'n'], c => vec![c] }).collect() }

fn path_text() -> String { engine::eng().path.iter().map(|c| format!("{}:{}", c.n, c.i)).collect::<Vec<_>>().join(".") }

/// Print what failed and stop: coroutines can't be abandoned.
fn stop(tags: &str, msg: &str) -> ! {
    alloc::track(false);
    let g = g();
    let e = engine::eng();
    if let Some(t) = &e.trace { for l in t { println!("  {}", l) } }
    println!("FAIL {{\"tags\":\"{}\",\"msg\":\"{}\",\"scenario\":\"{}\",\"index\":{},\"bound\":{},\"stale\":{},\"path\":\"{}\"}}",
        tags, esc(msg), esc(&g.text), g.index, e.bound, e.stale_bound, path_text());
    std::process::exit(if g.prop.is_empty() || tags.split(',').any(|t| t == g.prop) { 1 } else { 4 })
}

/// Something is wrong that doesn't keep the execution from going on.
fn wrong(tags: &str, msg: impl FnOnce() -> String) {
    let was = alloc::track(false);
    let g = g();
    if g.prop.is_empty() || tags.split(',').any(|t| t == g.prop) { stop(tags, &msg()) }
    g.others += 1;
    if g.last_other.is_empty() { g.last_other = format!("{}: {} in {}", tags, msg(), g.text) }
    alloc::track(was);
}

fn on_fail(c: Cat, m: &str) -> ! {
    alloc::track(false);
    match c {
        Cat::Race => stop("C11,C12", m),
        Cat::Freed => stop("C12,C11", m),
        Cat::Hang => stop("C14", m),
        Cat::Limit => { println!("INTERNAL {} in {} path {}", m, g().text, path_text()); std::process::exit(5) }
    }
}

#[repr(C)]
struct Act { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
#[repr(C)]
struct AltStack { sp: usize, flags: i32, size: usize }
/// Handle a signal, on a stack of its own.
unsafe fn on(n: i32, h: extern "C" fn(i32)) {
    sigaction(n, &Act { handler: h as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 }, 0);
}
extern "C" { fn sigaction(n: i32, a: *const Act, old: usize) -> i32; fn sigaltstack(a: *const AltStack, old: usize) -> i32; fn _exit(c: i32) -> !; fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32; }
extern "C" fn on_signal(n: i32) {
    alloc::track(false);
    if GPset() && g().running { stop("C12,C11,C13,C14", &format!("the process is killed by signal {}", n)) }
    unsafe { _exit(6) }
}
/// Execution and steps at the last look.
static mut LAST: (u64, u32, u64) = (0, 0, 0);
const PATIENCE: i64 = 15;
/// Loops that don't even access anything shared.
extern "C" fn on_alarm(_: i32) {
    let e = engine::eng();
    unsafe {
        let now = (EXECS, e.steps, e.switches);
        if GPset() && g().running && LAST == now { stop("C14,C12", "no end in sight: a thread makes no progress on its own") }
        LAST = now;
    }
}
static mut EXECS: u64 = 0;
#[allow(non_snake_case)]
fn GPset() -> bool { unsafe { !GP.is_null() } }

impl It {
    fn new() -> It {
        let g = g();
        let id = engine::new_cell();
        g.vals += 1;
        g.items.push(Life { val: g.vals, alive: true });
        It { magic: MAGIC, id, val: g.vals }
    }
}
impl Drop for It {
    fn drop(&mut self) {
        let was = alloc::track(false);
        if self.magic != MAGIC { on_fail(Cat::Freed, "an item is destroyed that was freed or never was one") }
        let id = self.id as usize;
        engine::did(0xD0 + g().now as u64);
        engine::note(|| format!("item {} destroyed", id));
        let g = g();
        if !g.items[id].alive { stop("C12,C11", &format!("item {} is destroyed twice", id)) }
        engine::write_cell(self.id, "an item", "destroyed");
        g.items[id].alive = false;
        if let Some(h) = g.hs.iter().find(|h| h.kind != 'W' && h.now() && h.node.lo as usize <= id && id < h.node.hi as usize) {
            stop("C12,C11", &format!("item {} is destroyed while there is a handle ({}) for {}", id, h.kind, h.node.text()))
        }
        self.magic = 0xDEAD;
        alloc::track(was);
    }
}

fn tick() -> u32 { let g = g(); engine::did(g.now as u64); g.now += 1; g.now - 1 }

fn lib<R>(f: impl FnOnce() -> R) -> R { alloc::tracked(f) }

fn reg(kind: char, node: Node, bc: u32, br: u32) -> usize { let g = g(); g.hs.push(Rec { kind, node, bc, br, dc: INF, dr: INF, by: 0, at: 0 }); g.hs.len() - 1 }

/// What a handle shows has to be what it's for.
fn view(s: &[It], n: Node, what: &str) {
    if s.len() != n.len() as usize { stop("C13,C12,C11", &format!("{} for {} shows {} items", what, n.text(), s.len())) }
    for (k, it) in s.iter().enumerate() {
        if it.magic != MAGIC { on_fail(Cat::Freed, &format!("{} for {} shows an item that's destroyed, freed or never was one", what, n.text())) }
        if it.id != n.lo as u32 + k as u32 { stop("C13,C12,C11", &format!("{} for {} shows item {} at {}", what, n.text(), it.id, k)) }
        engine::read_cell(it.id, "an item");
        if it.val != g().items[it.id as usize].val { stop("C11,C13", &format!("{} for {} shows an outdated item {}", what, n.text(), it.id)) }
    }
    engine::note(|| format!("read {} {}", what, n.text()));
}

fn write(s: &mut [It], n: Node, what: &str) {
    view(s, n, what);
    for it in s.iter_mut() {
        engine::write_cell(it.id, "an item", "written");
        let g = g();
        g.vals += 1;
        it.val = g.vals;
        g.items[it.id as usize].val = g.vals;
    }
    engine::note(|| format!("write {} {}", what, n.text()));
}

/// Nobody else may have a handle for any of these items right now.
fn exclusive(hid: usize, n: Node, what: &str) {
    for (i, h) in g().hs.iter().enumerate() {
        if i != hid && h.kind != 'W' && h.now() && h.node.overlaps(n) {
            let t = h.node.text();
            let k = h.kind;
            stop("C11,C13", &format!("{} for {} was granted, and there is another handle ({}) for {}", what, n.text(), k, t))
        }
    }
}

fn begin_call(op: Op, node: Node, hid: usize) -> usize {
    engine::note(|| format!("call {} on {}", op.name(), node.text()));
    let c = tick();
    let g = g();
    g.calls.push(Call { thread: engine::eng().cur, op, node, hid, c, r: INF, res: Res::Done, vc: engine::clock(), at: 0 });
    g.calls.len() - 1
}
fn end_call(k: usize, res: Res) -> u32 {
    let r = tick();
    let g = g();
    g.calls[k].r = r;
    g.calls[k].at = engine::clock()[engine::eng().cur];
    g.calls[k].res = res;
    engine::note(|| format!("return {} {:?}", g.calls[k].op.name(), res));
    r
}

fn alone() -> bool { engine::eng().cur == 0 }

/// What has to come out when nothing else is going on.
fn expected(op: Op, node: Node, hid: usize) -> bool {
    let g = g();
    let strong = |i: usize, h: &Rec| i != hid && h.kind == 'S' && h.now() && h.node.related(node);
    match op {
        Op::GetMut => !g.hs.iter().enumerate().any(|(i, h)| strong(i, h) || h.kind == 'W' && h.now() && node.has(h.node)),
        Op::IntoMut => !g.hs.iter().enumerate().any(|(i, h)| strong(i, h)),
        _ => g.hs.iter().any(|h| h.kind == 'S' && h.now() && h.node.has(node)),
    }
}
fn exact(op: Op, node: Node, hid: usize, got: bool) {
    if alone() && expected(op, node, hid) != got {
        wrong("C13,C14", || format!("{} for {} {} though nothing else was going on", op.name(), node.text(), if got { "succeeded" } else { "was refused" }))
    }
}

/// Apply an operation to bag[at]. What it makes goes to the end.
fn apply(bag: &mut Bag, at: usize, op: Op) {
    let (val, hid) = bag.remove(at);
    let node = g().hs[hid].node;
    match val {
        Val::S(mut s) => match op {
            Op::Clone | Op::CloneL | Op::CloneR => {
                let to = match op { Op::Clone => node, Op::CloneL => node.left(), _ => node.right() };
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                let x = lib(|| match op { Op::Clone => s.clone(), Op::CloneL => ArcSlice::clone_left(&s), _ => ArcSlice::clone_right(&s) });
                let r = end_call(k, Res::Done);
                let h = reg('S', to, c, r);
                view(&x, to, "a clone");
                bag.insert(at, (Val::S(s), hid));
                bag.push((Val::S(x), h));
            }
            Op::SplitL | Op::SplitR => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let l = reg('S', node.left(), c, c);
                let r = reg('S', node.right(), c, c);
                let x = lib(|| if op == Op::SplitL { ArcSlice::split_off_left(&mut s) } else { ArcSlice::split_off_right(&mut s) });
                let e = end_call(k, Res::Done);
                g().hs[hid].end(e);
                let (mine, other) = if op == Op::SplitL { (r, l) } else { (l, r) };
                view(&s, g().hs[mine].node, "what remains of a split");
                view(&x, g().hs[other].node, "what was split off");
                bag.insert(at, (Val::S(s), mine));
                bag.push((Val::S(x), other));
            }
            Op::Parts => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let l = reg('S', node.left(), c, c);
                let r = reg('S', node.right(), c, c);
                let (p, x) = lib(|| { let mut p = ArcSlice::split_into_parts(s, 2); let x = p.next().unwrap(); (p, x) });
                end_call(k, Res::Done);
                view(&x, g().hs[l].node, "a part");
                let k = begin_call(op, node, hid);
                g().hs[r].dc = g().calls[k].c;
                lib(|| drop(p));
                let e = end_call(k, Res::Done);
                g().hs[r].end(e);
                g().hs[hid].end(e);
                bag.insert(at, (Val::S(x), l));
            }
            Op::Parts4 => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let ll = reg('S', node.left().left(), c, c);
                let lr = reg('S', node.left().right(), c, c);
                let r = reg('S', node.right(), c, c);
                let (mut p, x) = lib(|| { let mut p = ArcSlice::split_into_parts(s, 4); let x = p.next().unwrap(); (p, x) });
                end_call(k, Res::Done);
                view(&x, g().hs[ll].node, "a part");
                let k = begin_call(op, node, hid);
                let (q, y) = lib(|| { let mut q = p.clone(); let y = q.next_back().unwrap(); (q, y) });
                end_call(k, Res::Done);
                view(&y, node.right().right(), "a part");
                let rest = Node { lo: g().hs[lr].node.lo, hi: node.right().left().hi, ..node };
                view(lib(|| q.as_slice()), rest, "a clone of a parts iterator");
                let k = begin_call(op, node, hid);
                lib(|| drop(q));
                let z = lib(|| p.next().unwrap());
                end_call(k, Res::Done);
                view(&z, g().hs[lr].node, "a part");
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[r].dc = c;
                g().hs[lr].dc = c;
                lib(|| { drop(p); drop(y); drop(z) });
                let e = end_call(k, Res::Done);
                g().hs[r].end(e);
                g().hs[lr].end(e);
                g().hs[hid].end(e);
                bag.insert(at, (Val::S(x), ll));
            }
            Op::Down => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                let w = lib(|| ArcSlice::downgrade(&s));
                let r = end_call(k, Res::Done);
                let h = reg('W', node, c, r);
                bag.insert(at, (Val::S(s), hid));
                bag.push((Val::W(w), h));
            }
            Op::GetMut => {
                let k = begin_call(op, node, hid);
                let ok = match lib(|| ArcSlice::get_mut(&mut s)) {
                    Some(x) => {
                        end_call(k, Res::Yes);
                        exclusive(hid, node, "mutable access");
                        write(x, node, "mutable access");
                        true
                    }
                    None => { end_call(k, Res::No); false }
                };
                exact(op, node, hid, ok);
                bag.insert(at, (Val::S(s), hid));
            }
            Op::IntoMut | Op::Cycle => {
                let k = begin_call(Op::IntoMut, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                match lib(|| ArcSlice::into_mut(s)) {
                    Ok(mut m) => {
                        let r = end_call(k, Res::Yes);
                        g().hs[hid].end(r);
                        exact(Op::IntoMut, node, hid, true);
                        let h = reg('M', node, c, r);
                        exclusive(h, node, "a unique handle");
                        write(&mut m, node, "a unique handle");
                        bag.insert(at, (Val::M(m), h));
                        if op == Op::Cycle { apply(bag, at, Op::Immut) }
                    }
                    Err(s) => {
                        end_call(k, Res::No);
                        g().hs[hid].dc = INF;
                        exact(Op::IntoMut, node, hid, false);
                        view(&s, node, "a handle after a refused conversion");
                        bag.insert(at, (Val::S(s), hid));
                    }
                }
            }
            Op::Drop => {
                let k = begin_call(op, node, hid);
                g().hs[hid].dc = g().calls[k].c;
                lib(|| drop(s));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
            }
            _ => {
                if op == Op::Read { view(&s, node, "a handle") }
                bag.insert(at, (Val::S(s), hid));
            }
        },
        Val::W(w) => match op {
            Op::WClone => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                let x = lib(|| w.clone());
                let r = end_call(k, Res::Done);
                let h = reg('W', node, c, r);
                bag.insert(at, (Val::W(w), hid));
                bag.push((Val::W(x), h));
            }
            Op::Upg => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                match lib(|| w.upgrade()) {
                    Some(s) => {
                        let r = end_call(k, Res::Yes);
                        exact(op, node, hid, true);
                        let h = reg('S', node, c, r);
                        view(&s, node, "an upgraded handle");
                        bag.insert(at, (Val::W(w), hid));
                        bag.push((Val::S(s), h));
                    }
                    None => {
                        end_call(k, Res::No);
                        exact(op, node, hid, false);
                        bag.insert(at, (Val::W(w), hid));
                    }
                }
            }
            Op::WDrop | Op::Drop => {
                let k = begin_call(Op::WDrop, node, hid);
                g().hs[hid].dc = g().calls[k].c;
                lib(|| drop(w));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
            }
            _ => bag.insert(at, (Val::W(w), hid)),
        },
        Val::M(mut m) => match op {
            Op::Write => {
                write(&mut m, node, "a unique handle");
                bag.insert(at, (Val::M(m), hid));
            }
            Op::Immut => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let tree = g().trees;
                g().trees += 1;
                let to = Node { tree, bits: 0, depth: 0, ..node };
                let h = reg('S', to, c, c);
                let s = lib(|| ArcSliceMut::into_immut(m));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
                view(&s, to, "a handle made from a unique one");
                bag.insert(at, (Val::S(s), h));
            }
            Op::MSplitL | Op::MSplitR => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let l = reg('M', node.left(), c, c);
                let r = reg('M', node.right(), c, c);
                // An empty one is its own half in the model; what's left of it is empty too.
                if node.len() == 1 { g().hs[l].node.hi = node.lo; }
                let mut x = lib(|| if op == Op::MSplitL { ArcSliceMut::split_off_left(&mut m) } else { ArcSliceMut::split_off_right(&mut m) });
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
                let (mine, other) = if op == Op::MSplitL { (r, l) } else { (l, r) };
                write(&mut m, g().hs[mine].node, "what remains of a unique handle");
                write(&mut x, g().hs[other].node, "what was split off a unique handle");
                bag.insert(at, (Val::M(m), mine));
                bag.push((Val::M(x), other));
            }
            Op::Iter => {
                let k = begin_call(op, node, hid);
                g().hs[hid].dc = g().calls[k].c;
                let (mut i, x) = lib(|| { let mut i = m.into_iter(); let x = i.next(); (i, x) });
                if x.is_some() != (node.len() > 0) { stop("C12,C13", "an iterator yields the wrong number of items") }
                if let Some(x) = x { view(std::slice::from_ref(&x), Node { hi: node.lo + 1, ..node }, "a yielded item"); lib(|| drop(x)); }
                let y = lib(|| i.next_back());
                if let Some(y) = y { view(std::slice::from_ref(&y), Node { lo: node.hi - 1, ..node }, "a yielded item"); lib(|| drop(y)); }
                lib(|| drop(i));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
            }
            Op::MParts | Op::MPartsB => {
                let k = begin_call(op, node, hid);
                let c = g().calls[k].c;
                g().hs[hid].dc = c;
                let l = reg('M', node.left(), c, c);
                let r = reg('M', node.right(), c, c);
                if node.len() == 1 { g().hs[l].node.hi = node.lo; }
                let (mine, other) = if op == Op::MParts { (l, r) } else { (r, l) };
                let (p, mut x) = lib(|| { let mut p = ArcSliceMut::split_into_parts(m, 2); let x = if op == Op::MParts { p.next() } else { p.next_back() }; (p, x.unwrap()) });
                end_call(k, Res::Done);
                write(&mut x, g().hs[mine].node, "a part of a unique handle");
                view(lib(|| p.as_slice()), g().hs[other].node, "what remains of the parts of a unique handle");
                let k = begin_call(op, node, hid);
                g().hs[other].dc = g().calls[k].c;
                lib(|| drop(p));
                let e = end_call(k, Res::Done);
                g().hs[other].end(e);
                g().hs[hid].end(e);
                bag.insert(at, (Val::M(x), mine));
            }
            Op::IterSplit => {
                let k = begin_call(op, node, hid);
                g().hs[hid].dc = g().calls[k].c;
                let at = node.len() as usize / 2;
                let (i, j) = lib(|| { let mut i = m.into_iter(); let j = i.split_off_from(at); (i, j) });
                view(i.as_slice(), Node { hi: node.lo + at as u16, ..node }, "an iterator");
                view(j.as_slice(), Node { lo: node.lo + at as u16, ..node }, "an iterator");
                lib(|| drop(i));
                lib(|| drop(j));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
            }
            Op::MDrop | Op::Drop => {
                let k = begin_call(Op::MDrop, node, hid);
                g().hs[hid].dc = g().calls[k].c;
                lib(|| drop(m));
                let e = end_call(k, Res::Done); g().hs[hid].end(e);
            }
            _ => bag.insert(at, (Val::M(m), hid)),
        },
        Val::R(s) => {
            match op {
                Op::Clone | Op::CloneL | Op::CloneR => {
                    let to = match op { Op::Clone => node, Op::CloneL => node.left(), _ => node.right() };
                    let k = begin_call(op, node, hid);
                    let c = g().calls[k].c;
                    let x = lib(|| match op { Op::Clone => s.clone(), Op::CloneL => ArcSlice::clone_left(s), _ => ArcSlice::clone_right(s) });
                    let r = end_call(k, Res::Done);
                    let h = reg('S', to, c, r);
                    view(&x, to, "a clone");
                    bag.push((Val::S(x), h));
                }
                Op::Down => {
                    let k = begin_call(op, node, hid);
                    let c = g().calls[k].c;
                    let w = lib(|| ArcSlice::downgrade(s));
                    let r = end_call(k, Res::Done);
                    bag.push((Val::W(w), reg('W', node, c, r)));
                }
                Op::Drop => return,
                _ => {}
            }
            view(s, node, "a handle");
            bag.insert(at, (Val::R(s), hid));
        }
        Val::V(w) => {
            match op {
                Op::WClone => {
                    let k = begin_call(op, node, hid);
                    let c = g().calls[k].c;
                    let x = lib(|| w.clone());
                    let r = end_call(k, Res::Done);
                    bag.push((Val::W(x), reg('W', node, c, r)));
                }
                Op::Upg => {
                    let k = begin_call(op, node, hid);
                    let c = g().calls[k].c;
                    match lib(|| w.upgrade()) {
                        Some(s) => {
                            let r = end_call(k, Res::Yes);
                            let h = reg('S', node, c, r);
                            view(&s, node, "an upgraded handle");
                            bag.push((Val::S(s), h));
                        }
                        None => { end_call(k, Res::No); }
                    }
                }
                Op::Drop => return,
                _ => {}
            }
            bag.insert(at, (Val::V(w), hid));
        }
    }
}

fn thread(t: usize) {
    let mut bag = std::mem::take(&mut g().start[t]);
    let p = unsafe { &(*g().progs)[t - 1] };
    for &(op, last) in &p.ops {
        if bag.is_empty() { break }
        let at = if last { bag.len() - 1 } else { 0 };
        apply(&mut bag, at, op);
    }
    while g().drop_all && !bag.is_empty() { apply(&mut bag, 0, Op::Drop) }
    while let Some(i) = (0..bag.len()).find(|i| is_ref(bag.get(*i))) { bag.remove(i); }
    g().back[t].append(&mut bag);
}

fn words<T>(d: &mut alloc::Digest, kind: u64, x: &T) {
    d.add(kind);
    let p = x as *const T as *const u64;
    for i in 0..std::mem::size_of::<T>() / 8 { d.word(unsafe { *p.add(i) }) }
}

fn dropped(hid: usize) { let t = tick(); let h = &mut g().hs[hid]; h.dc = t; h.end(t); }

fn build(root: &ArcSlice<It>, rn: Node, h: &Hd) -> Own {
    let s = lib(|| {
        let mut s = root.clone();
        for c in h.path.chars() { s = if c == 'L' { ArcSlice::clone_left(&s) } else { ArcSlice::clone_right(&s) } }
        s
    });
    let t = tick();
    let n = rn.go(&h.path);
    if h.kind == 'W' {
        let w = lib(|| { let w = ArcSlice::downgrade(&s); drop(s); w });
        (Val::W(w), reg('W', n, t, t))
    } else {
        (Val::S(s), reg('S', n, t, t))
    }
}

fn build_mut(pool: &mut Vec<(ArcSliceMut<It>, Node, String)>, h: &Hd) -> Own {
    let (x, n) = loop {
        let i = pool.iter().position(|p| h.path.starts_with(&p.2)).expect("unique handles for different subslices");
        let (mut x, n, path) = pool.remove(i);
        if path == h.path { break (x, n) }
        let l = lib(|| ArcSliceMut::split_off_left(&mut x));
        let mut ln = n.left();
        if n.len() == 1 { ln.hi = n.lo }
        pool.push((l, ln, format!("{}L", path)));
        pool.push((x, n.right(), format!("{}R", path)));
    };
    let t = tick();
    if h.kind == 'M' { (Val::M(x), reg('M', n, t, t)) } else {
        let tree = g().trees;
        g().trees += 1;
        let s = lib(|| ArcSliceMut::into_immut(x));
        (Val::S(s), reg('S', Node { tree, bits: 0, depth: 0, ..n }, t, t))
    }
}

/// Every grant and refusal has to be justified by what handles there were.
fn justify() {
    let g = g();
    // Upgrades that are justified by handles that didn't come from upgrades, or from
    // justified ones.
    let mut granted = [false; 64];
    loop {
        let mut more = false;
        for (k, x) in g.calls.iter().enumerate() {
            if granted[k] || x.op != Op::Upg || x.res != Res::Yes { continue }
            let from = |h: &Rec| g.calls.iter().position(|y| y.op == Op::Upg && y.res == Res::Yes && y.c == h.bc);
            if g.hs.iter().any(|h| h.kind == 'S' && h.node.has(x.node) && h.maybe(x) && from(h).map_or(true, |j| granted[j])) {
                granted[k] = true;
                more = true;
            }
        }
        if !more { break }
    }
    for k in 0..g.calls.len() {
        let x = g.calls[k];
        if x.thread == 0 { continue }
        let moments = x.c..x.r;
        let strong = |i: usize, h: &Rec| i != x.hid && h.kind == 'S' && h.node.related(x.node);
        let weak = |h: &Rec| x.op == Op::GetMut && h.kind == 'W' && x.node.has(h.node);
        let busy = || g.calls.iter().any(|y| y.thread != x.thread && y.thread != 0 && y.c < x.r && y.at > x.vc[y.thread] && y.node.related(x.node));
        match (x.op, x.res) {
            (Op::GetMut, Res::Yes) | (Op::IntoMut, Res::Yes) => {
                if moments.clone().all(|m| g.hs.iter().enumerate().any(|(i, h)| h.surely(m) && (strong(i, h) || weak(h)))) {
                    wrong("C13,C11", || format!("{} for {} by thread {} was granted though there were conflicting handles all the time", x.op.name(), x.node.text(), x.thread))
                }
            }
            (Op::GetMut, Res::No) | (Op::IntoMut, Res::No) => {
                let any = g.hs.iter().enumerate().any(|(i, h)| h.maybe(&x) && (strong(i, h) || weak(h)));
                if !any && !busy() {
                    wrong("C13", || format!("{} for {} by thread {} was refused though there was no conflicting handle and nothing going on", x.op.name(), x.node.text(), x.thread))
                }
            }
            (Op::Upg, Res::Yes) => {
                if !granted[k] {
                    wrong("C13,C12,C11", || format!("Upg for {} by thread {} succeeded though there was no handle covering it", x.node.text(), x.thread))
                }
            }
            (Op::Upg, Res::No) => {
                if moments.clone().all(|m| g.hs.iter().any(|h| h.kind == 'S' && h.surely(m) && h.node.has(x.node))) {
                    wrong("C13", || format!("Upg for {} by thread {} failed though there was a handle covering it all the time", x.node.text(), x.thread))
                }
            }
            _ => {}
        }
    }
}

fn is_ref(x: &Own) -> bool { matches!(x.0, Val::R(_) | Val::V(_)) }
fn is_s(x: &Own) -> bool { matches!(x.0, Val::S(_)) }
fn is_w(x: &Own) -> bool { matches!(x.0, Val::W(_)) }

fn upgrade_all(main: &mut Bag) {
    for i in 0..main.len() {
        if is_w(main.get(i)) {
            let k = main.len();
            apply(main, i, Op::Upg);
            if main.len() > k { apply(main, k, Op::Drop); }
        }
    }
}

/// Try everything on all handles as they are.
fn everything(main: &mut Bag) {
    for round in 0..2 {
        upgrade_all(main);
        for i in 0..main.len() { if is_s(main.get(i)) { apply(main, i, if round == 0 { Op::GetMut } else { Op::IntoMut }); } }
    }
    for i in 0..main.len() {
        if is_s(main.get(i)) {
            let k = main.len();
            apply(main, i, Op::CloneL);
            apply(main, i, Op::CloneR);
            while main.len() > k { apply(main, k, Op::Drop); }
        }
    }
    while !main.is_empty() {
        apply(main, 0, Op::Drop);
        let mut i = 0;
        while i < main.len() { if is_s(main.get(i)) { apply(main, i, Op::IntoMut); } i += 1; }
    }
}

/// All handles go but the k-th shared one, and perhaps weak ones in place of the others.
fn survivor(main: &mut Bag, k: usize, weak: bool) {
    let i = (0..main.len()).filter(|i| is_s(main.get(*i))).nth(k).unwrap();
    let me = main.remove(i);
    let mut mine = Bag::default();
    mine.push(me);
    let mut i = 0;
    while i < main.len() {
        if is_s(main.get(i)) {
            if weak { apply(main, i, Op::Down); }
            apply(main, i, Op::Drop);
        } else if is_w(main.get(i)) && !weak || matches!(main.get(i).0, Val::M(_)) {
            apply(main, i, Op::Drop);
        } else {
            i += 1;
        }
    }
    apply(&mut mine, 0, Op::GetMut);
    upgrade_all(main);
    apply(&mut mine, 0, Op::GetMut);
    apply(&mut mine, 0, Op::CloneL);
    apply(&mut mine, 0, Op::GetMut);
    apply(&mut mine, 1, Op::GetMut);
    apply(&mut mine, 0, Op::CloneR);
    apply(&mut mine, 1, Op::Down);
    apply(&mut mine, 1, Op::Drop);
    upgrade_all(&mut mine);
    while mine.len() > 1 {
        apply(&mut mine, 1, Op::Drop);
        apply(&mut mine, 0, Op::GetMut);
    }
    upgrade_all(main);
    apply(&mut mine, 0, Op::IntoMut);
    upgrade_all(main);
    if !is_s(mine.get(0)) { apply(&mut mine, 0, Op::Immut); }
    upgrade_all(main);
    while !main.is_empty() { apply(main, 0, Op::Drop); }
    apply(&mut mine, 0, Op::Cycle);
    apply(&mut mine, 0, Op::Drop);
}

/// One execution.
fn execute(sc: &Scen) -> Option<u64> {
    alloc::reset();
    let st = g();
    st.now = 1;
    st.hs.clear();
    st.calls.clear();
    st.items.clear();
    st.trees = 1;
    st.vals = 0;
    for b in st.back.iter_mut() { b.forget() }
    for b in st.start.iter_mut() { b.forget() }
    engine::begin();
    st.running = true;
    let rn = Node { tree: 0, bits: 0, depth: 0, lo: 0, hi: sc.n as u16 };
    let vec: Vec<It> = lib(|| Vec::with_capacity(sc.n));
    let mut vec = vec;
    for _ in 0..sc.n { vec.push(It::new()) }
    let unique = sc.threads.iter().any(|t| t.has.iter().any(|h| h.kind == 'M'));
    let mut main = Bag::default();
    if unique {
        let mut pool = vec![(lib(|| ArcSliceMut::from_vec(vec)), rn, String::new())];
        for (k, t) in sc.threads.iter().enumerate() { for h in &t.has { let x = build_mut(&mut pool, h); g().start[k + 1].push(x) } }
    } else {
        let root = lib(|| ArcSlice::from_vec(vec));
        let t = tick();
        let rh = reg('S', rn, t, t);
        match sc.pre {
            1 => lib(|| { drop(ArcSlice::clone_left(&root)); drop(ArcSlice::clone_right(&root)) }),
            2 => lib(|| drop(ArcSlice::downgrade(&root))),
            _ => {}
        }
        // The handles that threads have references to.
        let mut lent: Vec<&Hd> = vec![];
        for t in &sc.threads { for h in &t.has {
            if !matches!(h.kind, 'R' | 'V') || lent.contains(&h) { continue }
            lent.push(h);
            main.push(build(&root, rn, &Hd { kind: if h.kind == 'R' { 'S' } else { 'W' }, path: h.path.clone() }));
        } }
        for (k, t) in sc.threads.iter().enumerate() { for h in &t.has { if !matches!(h.kind, 'R' | 'V') { let x = build(&root, rn, h); g().start[k + 1].push(x) } } }
        for h in &sc.hold { main.push(build(&root, rn, h)) }
        g().hs[rh].dc = tick();
        lib(|| drop(root));
        dropped(rh);
        // These stay where they are while threads run.
        for (k, t) in sc.threads.iter().enumerate() { for h in &t.has {
            if let Some(i) = lent.iter().position(|x| *x == h) {
                let (v, hid) = main.get(i);
                let v = match v { Val::S(s) => Val::R(unsafe { &*(s as *const _) }), Val::W(w) => Val::V(unsafe { &*(w as *const _) }), _ => unreachable!() };
                g().start[k + 1].push((v, *hid));
            }
        } }
    }
    g().progs = &sc.threads;
    g().drop_all = sc.drop;
    for k in 0..sc.threads.len() { engine::spawn(thread, k + 1) }
    engine::join_all();
    if engine::eng().pruned {
        main.forget();
        g().running = false;
        return None;
    }
    justify();
    // What came out.
    let mut sig: u64 = 17;
    for c in &g().calls {
        if c.thread != 0 {
            *g().counts.entry((c.op, c.res)).or_insert(0) += 1;
        }
    }
    for t in 1..engine::NT {
        for c in &g().calls { if c.thread == t { sig = sig.wrapping_mul(1099511628211).wrapping_add(c.res as u64 + 1); } }
    }
    for (i, it) in g().items.iter().enumerate() { if it.alive { sig = sig.wrapping_mul(31).wrapping_add(i as u64 + 7) } else { sig = sig.wrapping_mul(37) } }
    // Now everything is up to the main thread.
    for b in g().back.iter_mut() { main.append(b) }
    // What follows only depends on what there is now. Once for each is enough.
    let mut ending = 0;
    g().again = false;
    if g().merging {
        let mut d = alloc::Digest::new();
        alloc::digest(&mut d);
        for i in &g().items { d.add(i.alive as u64); d.add(i.val as u64) }
        for (v, h) in main.iter() {
            let n = g().hs[*h].node;
            d.add((n.tree as u64) << 48 | (n.depth as u64) << 40 | (n.lo as u64) << 20 | n.hi as u64);
            d.add(n.bits as u64);
            match v { Val::S(s) => words(&mut d, 1, s), Val::W(w) => words(&mut d, 2, w), Val::M(m) => words(&mut d, 3, m), _ => {} }
        }
        let d = d.get();
        let n = 1 + 2 * main.iter().filter(|x| matches!(x.0, Val::S(_))).count() as u32;
        match (0..n).find(|k| !g().seen.contains(&(d, *k))) {
            Some(k) => { ending = k; g().seen.insert((d, k)); g().again = k + 1 < n; g().endings += 1 }
            None => {
                g().merged += 1;
                main.forget();
                if let Some(e) = alloc::check_all() { stop("C12,C11", e) }
                g().running = false;
                return Some(sig);
            }
        }
    }
    for (v, h) in main.iter() {
        let n = g().hs[*h].node;
        match v { Val::S(s) => view(s, n, "a handle"), Val::M(m) => view(m, n, "a unique handle"), _ => {} }
    }
    if ending == 0 { everything(&mut main) } else { survivor(&mut main, (ending as usize - 1) / 2, ending % 2 == 0) }
    if let Some(i) = g().items.iter().position(|i| i.alive) { stop("C12", &format!("item {} is never destroyed", i)) }
    let (blocks, bytes) = alloc::live();
    if blocks > 0 { stop("C12", &format!("{} blocks ({} bytes) are never freed", blocks, bytes)) }
    if let Some(e) = alloc::check_all() { stop("C12,C11", e) }
    g().running = false;
    Some(sig)
}

pub fn run(cfg: Cfg) {
    alloc::init();
    engine::init();
    let start = std::time::Instant::now();
    unsafe {
        GP = Box::into_raw(Box::new(G {
            now: 0, hs: vec![], calls: vec![], items: vec![], trees: 1, vals: 0, start: Default::default(), back: Default::default(), progs: std::ptr::null(), drop_all: false, seen: HashSet::new(), again: false, endings: 0, merged: 0, merging: cfg.merging, prop: cfg.prop.clone(), text: String::new(),
            index: 0, running: false, others: 0, last_other: String::new(), counts: BTreeMap::new(),
        }));
        let alt = vec![0u128; 8 << 10].leak();
        sigaltstack(&AltStack { sp: alt.as_ptr() as usize, flags: 0, size: alt.len() * 16 }, 0);
        for s in [4, 6, 7, 8, 11] { on(s, on_signal); }
        // Every so often, in processor time.
        on(27, on_alarm);
        setitimer(2, &[PATIENCE, 0, PATIENCE, 0], std::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(|i| {
        alloc::track(false);
        stop("C12,C11,C13,C14", &format!("panic: {}", i))
    }));
    let e = engine::eng();
    e.on_fail = on_fail;
    e.track = alloc::track;
    e.bound = cfg.bound;
    e.stale_bound = cfg.stale;
    if cfg.trace { e.trace = Some(vec![]) }
    let list = match &cfg.single { Some(s) => vec![Scen::parse(s)], None => scen::all(&cfg.set) };
    let (mut scenarios, mut execs, mut longest, mut branching, mut skipped, mut pruned, mut outcomes, mut states_at_end) = (0u64, 0u64, 0usize, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut most = (0u64, String::new());
    let mut samples: Vec<String> = vec![];
    for (i, sc) in list.iter().enumerate() {
        if (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % cfg.shards != cfg.shard || i < cfg.from { continue }
        if cfg.secs > 0 && start.elapsed().as_secs() >= cfg.secs { skipped += 1; continue }
        let g = g();
        g.text = sc.text();
        g.index = i;
        scenarios += 1;
        engine::forget();
        e.prune = cfg.pruning && cfg.path.is_none();
        e.name = alloc::name;
        if let Some(p) = &cfg.path {
            for c in p.split('.').filter(|x| !x.is_empty()) { let (n, i) = c.split_once(':').unwrap(); e.path.push(engine::Choice { n: n.parse().unwrap(), i: i.parse().unwrap() }) }
        }
        g.seen.clear();
        let mut sigs: Vec<u64> = vec![];
        let before = execs;
        loop {
            match execute(sc) {
                Some(s) => if !sigs.contains(&s) { sigs.push(s) },
                None => pruned += 1,
            }
            if cfg.pruning && cfg.path.is_none() { e.prune = !g.again }
            execs += 1;
            unsafe { EXECS = execs }
            
            longest = longest.max(e.path.len());
            if g.again { continue }
            if cfg.path.is_some() || !engine::next_path() { break }
        }
        outcomes += sigs.len() as u64;
        states_at_end += g.seen.iter().filter(|x| x.1 == 0).count() as u64;
        if sigs.len() > 1 { branching += 1; if samples.len() < 2 { samples.push(format!("\"{}: {} executions, {} different outcomes, {} different final states\"", esc(&g.text), execs - before, sigs.len(), g.seen.iter().filter(|x| x.1 == 0).count())) } }
        if execs - before > most.0 { most = (execs - before, g.text.clone()) }
    }
    let counts: Vec<String> = g().counts.iter().map(|((o, r), n)| format!("\"{} {}\":{}", o.name(), match r { Res::Done => "done", Res::Yes => "granted", Res::No => "refused" }, n)).collect();
    if let (true, Some(t)) = (cfg.trace, &e.trace) { for l in t { println!("  {}", l) } }
    println!("RESULT {{\"scenarios\":{},\"executions\":{},\"pruned\":{},\"states\":{},\"points\":{},\"switches\":{},\"stale_reads\":{},\"longest_path\":{},\"outcomes\":{},\"end_states\":{},\"scenarios_with_several_outcomes\":{},\"most_executions\":{},\"most_scenario\":\"{}\",\"endings\":{},\"merged_endings\":{},\"skipped\":{},\"others\":{},\"last_other\":\"{}\",\"samples\":[{}],\"calls\":{{{}}}}}",
        scenarios, execs, pruned, e.states, e.points, e.switches, e.stale_reads, longest, outcomes, states_at_end, branching, most.0, esc(&most.1), g().endings, g().merged, skipped, g().others, esc(&g().last_other), samples.join(","), counts.join(","));
}
