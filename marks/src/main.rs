//! Thread-safety markers, judged by what they let happen.
//!
//! The markers that the compiled library gives each of its public types, for items of every kind (may be
//! sent or not, may be shared or not), say which handles may be moved to another thread or lent to one.
//! For each kind of items this explores every history of library operations, moves and loans that the
//! markers allow, on the real library with two virtual threads, and looks for an item that is destroyed,
//! moved out or mutable on a thread it must not leave its own for, or is within reach of two threads at
//! once when it must not be shared. For each marker that is withheld it explores what would happen if it
//! weren't: something bad has to.
#[path = "../../seq/src/fam.rs"]
mod fam;
use fam::{ArcFam as Arc_, Fam, RcFam as Rc_};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::marker::PhantomData;

// What the markers are.

struct Probe<T: ?Sized>(PhantomData<T>);
trait Without { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<T: ?Sized> Without for Probe<T> {}
/// Inherent functions win over those of traits, when their bounds hold.
impl<T: ?Sized + Send> Probe<T> { fn send(&self) -> bool { true } }
struct Probe2<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Without for Probe2<T> {}
impl<T: ?Sized + Sync> Probe2<T> { fn sync(&self) -> bool { true } }
macro_rules! probe { ($t:ty) => { (Probe::<$t>(PhantomData).send(), Probe2::<$t>(PhantomData).sync()) } }

pub const KINDS: [char; 6] = ['S', 'W', 'M', 'I', 'P', 'Q'];
const NAMES: [[&str; 6]; 2] = [
    ["RcSlice", "rc::WeakSlice", "RcSliceMut", "RcSliceMutIter", "RcSliceParts", "RcSliceMutParts"],
    ["ArcSlice", "arc::WeakSlice", "ArcSliceMut", "ArcSliceMutIter", "ArcSliceParts", "ArcSliceMutParts"],
];

/// By kind of handle: may be sent, may be shared.
type Table = [(bool, bool); 6];

#[derive(Debug)]
struct Row { item: &'static str, class: (bool, bool), tables: [Table; 2] }

fn rows() -> Vec<Row> {
    use rc_slice::{arc, rc};
    use std::sync as s;
    let mut v = vec![];
    macro_rules! row { ($($t:ty),* $(,)?) => { $(
        v.push(Row {
            item: stringify!($t), class: probe!($t),
            tables: [
                [probe!(rc::RcSlice<$t>), probe!(rc::WeakSlice<$t>), probe!(rc::RcSliceMut<$t>), probe!(rc::RcSliceMutIter<$t>), probe!(rc::RcSliceParts<$t>), probe!(rc::RcSliceMutParts<$t>)],
                [probe!(arc::ArcSlice<$t>), probe!(arc::WeakSlice<$t>), probe!(arc::ArcSliceMut<$t>), probe!(arc::ArcSliceMutIter<$t>), probe!(arc::ArcSliceParts<$t>), probe!(arc::ArcSliceMutParts<$t>)],
            ],
        });
    )* } }
    row!(
        u8, (), String, &'static str, Box<[u16]>, s::Arc<u8>, s::atomic::AtomicBool, s::Mutex<Cell<u8>>, [u64; 9], fn(u8) -> u8,
        Cell<u8>, RefCell<String>, s::mpsc::Receiver<u8>, Box<dyn FnMut() + Send>, [Cell<u8>; 3], Cell<()>,
        s::MutexGuard<'static, u8>, s::RwLockReadGuard<'static, String>, s::MutexGuard<'static, ()>,
        *const u8, std::rc::Rc<u8>, &'static Cell<u8>, Box<dyn Fn()>, std::ptr::NonNull<u8>, *mut (),
    );
    v
}

// The exploration.

thread_local! {
    static CUR: Cell<u8> = const { Cell::new(0) };
    static IDS: Cell<u32> = const { Cell::new(0) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static PINNED: Cell<bool> = const { Cell::new(false) };
    /// Leave what happens to items after the end of a history out of account.
    static MUTE: Cell<bool> = const { Cell::new(false) };
}
fn bad(s: String) { if !MUTE.with(Cell::get) { BAD.with(|b| { b.borrow_mut().get_or_insert(s); }) } }

struct Item { id: u32, home: u8 }
impl Item {
    fn new() -> Self { IDS.with(|i| i.set(i.get() + 1)); Item { id: IDS.with(Cell::get), home: CUR.with(Cell::get) } }
}
impl Clone for Item { fn clone(&self) -> Self { Item::new() } }
impl Drop for Item {
    fn drop(&mut self) {
        if PINNED.with(Cell::get) && self.home != CUR.with(Cell::get) { bad(format!("an item that must not be sent is destroyed or moved out on another thread than the one it was made on (item {})", self.id)) }
    }
}

enum H<F: Fam> { S(F::S<Item>), W(F::W<Item>), M(F::M<Item>), I(F::I<Item>), P(F::P<Item>), Q(F::Q<Item>) }

struct Slot<F: Fam> { h: H<F>, tag: String, owner: u8, lent: bool }

impl<F: Fam> Slot<F> {
    fn kind(&self) -> usize { match self.h { H::S(_) => 0, H::W(_) => 1, H::M(_) => 2, H::I(_) => 3, H::P(_) => 4, H::Q(_) => 5 } }
    fn view(&self) -> &[Item] {
        match &self.h { H::S(s) => s, H::W(_) => &[], H::M(m) => m, H::I(i) => F::i_slice(i), H::P(p) => F::p_slice(p), H::Q(q) => F::q_slice(q) }
    }
    fn left(&self) -> usize { match &self.h { H::I(i) => i.len(), H::P(p) => p.len(), H::Q(q) => q.len(), _ => 0 } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op { Move, Lend, Back, End, Dup, Left, Right, SplitL, SplitR, Parts, Down, Up, Mutable, Into, Immut, Iter, Next, NextBack, SplitAt }
use Op::*;

type Step = (usize, Op, u8);
fn text(h: &[Step]) -> String { h.iter().map(|(i, o, t)| format!("{o:?}({i})@{t}")).collect::<Vec<_>>().join(" ") }

struct World<F: Fam> { slots: Vec<Slot<F>>, trees: usize }

impl<F: Fam> World<F> {
    fn enabled(&self, t: &Table, k: usize) -> Vec<Step> {
        let mut v = vec![];
        let room = self.slots.len() < k;
        for (i, s) in self.slots.iter().enumerate() {
            let kind = s.kind();
            if s.lent { v.push((i, Back, 1 - s.owner)) } else {
                if t[kind].0 { v.push((i, Move, s.owner)) }
                if t[kind].1 { v.push((i, Lend, s.owner)) }
            }
            // What takes a shared reference.
            for th in 0..2u8 {
                if th != s.owner && !s.lent || !room { continue }
                match kind { 0 => for o in [Dup, Left, Right, Down] { v.push((i, o, th)) }, 1 => for o in [Dup, Up] { v.push((i, o, th)) }, 2 | 4 => v.push((i, Dup, th)), _ => {} }
            }
            if s.lent { continue }
            // What takes a mutable one, or the handle.
            let th = s.owner;
            v.push((i, End, th));
            match kind {
                0 => { if room { v.push((i, SplitL, th)); v.push((i, SplitR, th)); } for o in [Parts, Mutable, Into] { v.push((i, o, th)) } }
                2 => { if room { v.push((i, SplitL, th)); v.push((i, SplitR, th)); } for o in [Parts, Immut, Iter] { v.push((i, o, th)) } }
                3 => { if s.left() > 0 { v.push((i, Next, th)); v.push((i, NextBack, th)) } if room { v.push((i, SplitAt, th)) } }
                4 | 5 => if s.left() > 0 && room { v.push((i, Next, th)); v.push((i, NextBack, th)) },
                _ => {}
            }
        }
        v
    }
    fn step(&mut self, (i, op, th): Step) {
        CUR.with(|c| c.set(th));
        let tag = self.slots[i].tag.clone();
        let sub = |s: &str| format!("{tag}{s}");
        let mut made: Option<(H<F>, String)> = None;
        match (op, &mut self.slots[i].h) {
            (Move, _) => self.slots[i].owner = 1 - th,
            (Lend, _) => self.slots[i].lent = true,
            (Back, _) => self.slots[i].lent = false,
            (End, _) => { let s = self.slots.remove(i); drop(s.h); }
            (Dup, H::S(s)) => made = Some((H::S((*s).clone()), tag)),
            (Dup, H::W(w)) => made = Some((H::W((*w).clone()), tag)),
            (Dup, H::M(m)) => made = Some((H::M(F::m_clone(m)), "deep".into())),
            (Dup, H::P(p)) => made = Some((H::P((*p).clone()), tag)),
            (Left, H::S(s)) => made = Some((H::S(F::clone_left(s)), sub("L"))),
            (Right, H::S(s)) => made = Some((H::S(F::clone_right(s)), sub("R"))),
            (Down, H::S(s)) => made = Some((H::W(F::downgrade(s)), tag)),
            (Up, H::W(w)) => made = F::upgrade(w).map(|s| (H::S(s), tag)),
            (SplitL, H::S(s)) => { made = Some((H::S(F::split_left(s)), sub("L"))); self.slots[i].tag = sub("R") }
            (SplitR, H::S(s)) => { made = Some((H::S(F::split_right(s)), sub("R"))); self.slots[i].tag = sub("L") }
            (SplitL, H::M(m)) => made = Some((H::M(F::m_split_left(m)), tag)),
            (SplitR, H::M(m)) => made = Some((H::M(F::m_split_right(m)), tag)),
            (SplitAt, H::I(x)) => made = Some((H::I(F::i_split_from(x, x.len() / 2)), tag)),
            (Mutable, H::S(s)) => if let Some(x) = F::get_mut(s) { mutable(x, th) },
            (Next, H::I(x)) => drop(x.next()),
            (NextBack, H::I(x)) => drop(x.next_back()),
            (Next, H::P(p)) => { let k = p.len(); made = p.next().map(|s| (H::S(s), format!("{tag}<{k}"))) }
            (NextBack, H::P(p)) => { let k = p.len(); made = p.next_back().map(|s| (H::S(s), format!("{tag}>{k}"))) }
            (Next, H::Q(p)) => made = p.next().map(|m| (H::M(m), tag)),
            (NextBack, H::Q(p)) => made = p.next_back().map(|m| (H::M(m), tag)),
            // Those that use the handle up.
            (Parts | Into | Immut | Iter, _) => {
                let s = self.slots.remove(i);
                let (h, tag) = match (op, s.h) {
                    (Parts, H::S(x)) => (H::P(F::s_parts(x, 2)), sub("/")),
                    (Into, H::S(x)) => match F::into_mut(x) { Ok(m) => (H::M(m), "u".into()), Err(x) => (H::S(x), tag) },
                    (Parts, H::M(x)) => (H::Q(F::m_parts(x, 2)), tag),
                    (Immut, H::M(x)) => { self.trees += 1; (H::S(F::into_immut(x)), format!("t{}", self.trees)) }
                    (Iter, H::M(x)) => (H::I(x.into_iter()), tag),
                    _ => unreachable!(),
                };
                self.slots.insert(i, Slot { h, tag, owner: th, lent: false });
            }
            _ => unreachable!(),
        }
        if let Some((h, tag)) = made { self.slots.push(Slot { h, tag, owner: th, lent: false }) }
        CUR.with(|c| c.set(0));
    }
    /// What's within reach of whom.
    fn judge(&mut self, class: (bool, bool), single: bool) {
        let mut reach: BTreeMap<u32, u8> = BTreeMap::new();
        for s in &self.slots {
            if single && (s.lent || s.owner != 0) { bad("a handle of the single-threaded family crosses to another thread".into()) }
            for x in s.view() {
                let r = reach.entry(x.id).or_default();
                *r |= 1 << s.owner;
                if s.lent { *r |= 3 }
            }
        }
        if !class.1 { if let Some((id, _)) = reach.iter().find(|x| *x.1 == 3) { bad(format!("an item that must not be shared is within reach of two threads at once (item {id})")) } }
        for s in &mut self.slots {
            if s.lent { continue }
            let th = s.owner;
            match &mut s.h { H::M(m) => mutable(m, th), H::I(i) => mutable(F::i_slice_mut(i), th), H::Q(q) => mutable(F::q_slice_mut(q), th), _ => {} }
        }
    }
    fn key(&self) -> String {
        let mut v: Vec<String> = self.slots.iter().map(|s| format!("{}{}{}{}{:?}{}", KINDS[s.kind()], s.tag, s.owner, s.lent as u8, s.view().iter().map(|x| (x.id, x.home)).collect::<Vec<_>>(), s.left())).collect();
        v.sort();
        v.join(";")
    }
}
fn mutable(x: &mut [Item], th: u8) {
    if PINNED.with(Cell::get) { if let Some(i) = x.iter().find(|i| i.home != th) { bad(format!("an item that must not be sent is mutable on another thread than the one it was made on (item {})", i.id)) } }
}

struct Cfg { n: usize, k: usize, depth: usize, class: (bool, bool), single: bool }

fn run<F: Fam>(c: &Cfg, h: &[Step]) -> (World<F>, Option<String>) {
    BAD.with(|b| *b.borrow_mut() = None);
    PINNED.with(|p| p.set(!c.class.0));
    MUTE.with(|m| m.set(false));
    IDS.with(|i| i.set(0));
    CUR.with(|c| c.set(0));
    let v: Vec<Item> = (0..c.n).map(|_| Item::new()).collect();
    let mut w = World { slots: vec![Slot { h: H::M(F::m_from_vec(v)), tag: "u".into(), owner: 0, lent: false }], trees: 0 };
    for s in h { w.step(*s); w.judge(c.class, c.single); }
    let b = BAD.with(|b| b.borrow().clone());
    MUTE.with(|m| m.set(true));
    (w, b)
}

struct Found { states: u64, transitions: u64, bad: Option<(Vec<Step>, String)>, complete: bool, deepest: usize }

fn explore<F: Fam>(c: &Cfg, t: &Table) -> Found {
    let mut seen: HashSet<String> = HashSet::new();
    let mut q: VecDeque<Vec<Step>> = VecDeque::new();
    let mut f = Found { states: 1, transitions: 0, bad: None, complete: true, deepest: 0 };
    q.push_back(vec![]);
    while let Some(h) = q.pop_front() {
        let (w, _) = run::<F>(c, &h);
        let ops = w.enabled(t, c.k);
        f.deepest = f.deepest.max(h.len());
        drop(w);
        if h.len() >= c.depth { if !ops.is_empty() { f.complete = false } continue }
        for o in ops {
            let mut g = h.clone();
            g.push(o);
            f.transitions += 1;
            let (w, b) = run::<F>(c, &g);
            if let Some(b) = b { f.bad = Some((g, b)); return f }
            if seen.insert(w.key()) { f.states += 1; q.push_back(g) }
        }
    }
    f
}

fn explore_fam(single: bool, c: &Cfg, t: &Table) -> Found { if single { explore::<Rc_>(c, t) } else { explore::<Arc_>(c, t) } }

fn class_text(c: (bool, bool)) -> &'static str {
    match c { (true, true) => "Send + Sync", (true, false) => "Send + !Sync", (false, true) => "!Send + Sync", (false, false) => "!Send + !Sync" }
}

fn main() {
    let mut depth = 6; let mut n = 2; let mut k = 3;
    for a in std::env::args().skip(1) {
        let (x, y) = a.split_once('=').expect("--name=value");
        let y: usize = y.parse().expect("number");
        match x { "--depth" => depth = y, "--n" => n = y, "--k" => k = y, _ => panic!("unknown argument {a}") }
    }
    let mut done: BTreeMap<(usize, (bool, bool), Table), (u64, u64)> = BTreeMap::new();
    let (mut states, mut transitions, mut refusals, mut probes, mut explorations, mut deepest) = (0, 0, 0, 0, 0, 0);
    let mut samples: Vec<String> = vec![];
    let fail = |msg: String| -> ! { println!("FAIL {:?}", msg); std::process::exit(1) };
    let mut verdicts: BTreeMap<((bool, bool), Table, usize, bool), Option<String>> = BTreeMap::new();
    for r in rows() {
        for f in 0..2 {
            let t = r.tables[f];
            probes += 12;
            let c = Cfg { n, k, depth, class: r.class, single: f == 0 };
            if !done.contains_key(&(f, r.class, t)) {
                let x = explore_fam(f == 0, &c, &t);
                explorations += 1; states += x.states; transitions += x.transitions; deepest = deepest.max(x.deepest);
                done.insert((f, r.class, t), (x.states, x.transitions));
                if let Some((h, b)) = x.bad {
                    let given: Vec<String> = KINDS.iter().enumerate().filter(|(i, _)| t[*i].0 || t[*i].1).map(|(i, _)| format!("{}<{}>: {}{}", NAMES[f][i], r.item, if t[i].0 { "Send " } else { "" }, if t[i].1 { "Sync" } else { "" })).collect();
                    fail(format!("items {} ({}): {b}, after: {} | given markers: {}", r.item, class_text(r.class), text(&h), given.join(", ")));
                }
            }
            if f == 0 { continue }
            // What's withheld must be bad.
            for i in 0..6 { for m in 0..2 {
                let has = if m == 0 { t[i].0 } else { t[i].1 };
                if has { continue }
                let mut u = t;
                if m == 0 { u[i].0 = true } else { u[i].1 = true }
                let v = verdicts.entry((r.class, t, i, m == 1)).or_insert_with(|| {
                    let x = explore_fam(false, &c, &u);
                    explorations += 1; states += x.states; transitions += x.transitions; deepest = deepest.max(x.deepest); refusals += 1;
                    x.bad.map(|(h, b)| format!("{} with {} for {}: {b}, after: {}", NAMES[1][i], if m == 0 { "Send" } else { "Sync" }, class_text(r.class), text(&h)))
                });
                match v {
                    Some(s) => if !samples.contains(s) { samples.push(s.clone()) },
                    None => fail(format!("{}<{}> is not {}, and nothing bad can happen if it were (n={n}, k={k}, depth={depth}): items are {}", NAMES[1][i], r.item, if m == 0 { "Send" } else { "Sync" }, class_text(r.class))),
                }
            } }
        }
    }
    let q: Vec<String> = samples.iter().take(16).map(|s| format!("{s:?}")).collect();
    println!("RESULT {{\"states\":{states},\"transitions\":{transitions},\"explorations\":{explorations},\"markers_probed\":{probes},\"item_types\":{},\"withheld_markers_explored\":{refusals},\"deepest\":{deepest},\"samples\":[{}]}}", rows().len(), q.join(","));
}
