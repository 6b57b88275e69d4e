//! Runs operations on the real library and on the reference model side by side.
use crate::alloc::{self, tracked, untracked};
use crate::fam::Fam;
use crate::items::{self, log, Item, Life, Peek};
use crate::model::{lin, rng_leaves, Arena, Expect, It, Model, Node, Path, Rng, H};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum K {
    Clone, CloneL, CloneR, SplitL, SplitR, Down, GetMut, IntoMut, Parts,
    Upgrade, IntoImmut, IntoIter, Deep,
    Next, Back, From, To, Drop,
    WNew,
}

pub const ALL_K: [K; 19] = [K::Clone, K::CloneL, K::CloneR, K::SplitL, K::SplitR, K::Down, K::GetMut, K::IntoMut, K::Parts,
    K::Upgrade, K::IntoImmut, K::IntoIter, K::Deep, K::Next, K::Back, K::From, K::To, K::Drop, K::WNew];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op { pub k: K, pub slot: u8, pub arg: u8 }

impl Op {
    pub fn text(&self) -> String {
        match self.k {
            K::Parts | K::From | K::To => format!("{:?}({},{})", self.k, self.slot, self.arg),
            _ => format!("{:?}({})", self.k, self.slot),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let (name, rest) = s.split_once('(')?;
        let rest = rest.strip_suffix(')')?;
        let k = *ALL_K.iter().find(|k| format!("{:?}", k) == name)?;
        let (slot, arg) = match rest.split_once(',') {
            Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
            None => (rest.parse().ok()?, 0),
        };
        Some(Op { k, slot, arg })
    }
}

pub fn hist_text(h: &[Op]) -> String { h.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ") }
pub fn parse_hist(s: &str) -> Vec<Op> { s.split_whitespace().map(|x| Op::parse(x).expect("bad op")).collect() }

/// What went wrong, by the kind of observation that's off.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    View,   // a handle sees the wrong items
    Items,  // an item destroyed too early, too late, twice
    Memory, // memory freed too early, too late, twice, or leaked
    GetMut, IntoMut, Weak, // wrong grant or refusal
    Parts,  // shared parts iteration
    Unique, // splitting or iterating unique handles
    Panic,  // unexpected panic
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub cat: Cat,
    pub msg: String,
    pub lin: u32,
    /// The kind of handle that saw the wrong thing, if any.
    pub view_kind: char,
    /// The kind of handle the failing op was on.
    pub op_kind: char,
}

pub enum R<F: Fam, T: Item> {
    S(F::S<T>), W(F::W<T>), M(F::M<T>), I(F::I<T>), P(F::P<T>), Q(F::Q<T>),
}

impl<F: Fam, T: Item> R<F, T> {
    pub fn view(&self) -> Option<&[T]> {
        match self {
            R::S(s) => Some(&**s),
            R::W(_) => None,
            R::M(m) => Some(&**m),
            R::I(i) => Some(F::i_slice(i)),
            R::P(p) => Some(F::p_slice(p)),
            R::Q(q) => Some(F::q_slice(q)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Start { #[default] SVec, SBox, SSpare, SCollect, MVec, MBox, MSpare, MCollect }

pub struct Sys<F: Fam, T: Item> {
    pub rs: Vec<Option<R<F, T>>>,
    pub m: Model,
    pub blocks: Vec<Option<usize>>,
    /// Observations of the last op, for comparing the two families.
    pub obs: Vec<u32>,
    /// Items lost to a panic.
    pub lost: Vec<u32>,
    pub had_panic: bool,
    /// Whether an operation is still running further up the stack.
    pub midway: bool,
}

fn fail<X>(cat: Cat, msg: impl Into<String>) -> Result<X, Fail> { Err(Fail { cat, msg: msg.into(), lin: 0, view_kind: ' ', op_kind: ' ' }) }

/// Whether states are told apart by what's in memory.
pub static SCRUB: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Run this with nothing of this program's on the stack or in registers that may be saved
/// there: that's what bytes that the library never initialises (padding, say) come from.
/// (What panics has to be caught inside.)
#[inline(never)]
fn scrubbed<R>(f: impl FnOnce() -> R) -> R {
    if !SCRUB.load(std::sync::atomic::Ordering::Relaxed) || cfg!(not(target_arch = "x86_64")) { return f(); }
    #[inline(never)]
    fn wipe() {
        let mut a = [0u64; 2048];
        std::hint::black_box(&mut a);
    }
    struct Call<G, R> { f: Option<G>, r: Option<R> }
    unsafe extern "C" fn call<R, G: FnOnce() -> R>(c: *mut Call<G, R>) { let c = &mut *c; c.r = Some((c.f.take().unwrap())()); }
    fn of<R, G: FnOnce() -> R>(_: &Call<G, R>) -> unsafe extern "C" fn(*mut Call<G, R>) { call::<R, G> }
    let mut c = Call { f: Some(f), r: None };
    wipe();
    let f = of(&c);
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!(
            "push rbx", "push rbp", "xor ebx, ebx", "xor ebp, ebp",
            "xor ecx, ecx", "xor edx, edx", "xor esi, esi", "xor r8d, r8d", "xor r9d, r9d", "xor r10d, r10d", "xor r11d, r11d",
            "xor r12d, r12d", "xor r13d, r13d", "xor r14d, r14d", "xor r15d, r15d",
            "call rax",
            "pop rbp", "pop rbx",
            inout("rax") f => _, in("rdi") &mut c,
            out("r12") _, out("r13") _, out("r14") _, out("r15") _, clobber_abi("C"),
        );
    }
    c.r.unwrap()
}

impl<F: Fam, T: Item> Sys<F, T> {
    pub fn new() -> Self {
        items::reset();
        alloc::reset();
        Sys { rs: vec![], m: Model::new(), blocks: vec![], obs: vec![], lost: vec![], had_panic: false, midway: false }
    }

    pub fn start(&mut self, n: usize, st: Start) -> Result<(), Fail> { scrubbed(|| self.start_(n, st)) }

    #[inline(never)]
    fn start_(&mut self, n: usize, st: Start) -> Result<(), Fail> {
        let unique = matches!(st, Start::MVec | Start::MBox | Start::MSpare | Start::MCollect);
        let r: R<F, T> = tracked(|| {
            let spare = matches!(st, Start::SSpare | Start::MSpare);
            let mut v: Vec<T> = Vec::with_capacity(if spare { n + 3 } else { n });
            for _ in 0..n { v.push(T::make()); }
            match st {
                Start::SVec | Start::SSpare => R::S(F::s_from_vec(v)),
                Start::SBox => R::S(F::s_from_box(v.into_boxed_slice())),
                Start::SCollect => R::S(F::s_collect(v)),
                Start::MVec | Start::MSpare => R::M(F::m_from_vec(v)),
                Start::MBox => R::M(F::m_from_box(v.into_boxed_slice())),
                Start::MCollect => R::M(F::m_collect(v)),
            }
        });
        let ids: Vec<u32> = if T::IDENT { (log().next_id - n as u32..log().next_id).collect() } else { vec![0; n] };
        let arena = self.add_arena(ids, vec![0; n], r.view().unwrap().as_ptr() as usize);
        let rg = Rng { arena, lo: 0, hi: n as u16 };
        if unique {
            self.rs.push(Some(r));
            let s = self.m.push(H::M(rg), lin::UNIQUE);
            self.write(s);
        } else {
            let tree = self.m.new_tree();
            self.rs.push(Some(r));
            self.m.push(H::S(Node { tree, path: Path::ROOT, r: rg }), 0);
        }
        self.check()
    }

    pub fn add_arena(&mut self, ids: Vec<u32>, vals: Vec<u8>, ptr: usize) -> u8 {
        let block = if std::mem::size_of::<T>() > 0 && ids.len() > 0 { alloc::block_of(ptr) } else { None };
        self.m.arenas.push(Arena { items: ids.into_iter().zip(vals).map(|(id, val)| It { id, val, alive: true }).collect() });
        self.blocks.push(block);
        (self.m.arenas.len() - 1) as u8
    }

    /// Write fresh values through a unique handle.
    fn write(&mut self, slot: usize) {
        let Some(r) = self.m.hs[slot].as_ref().and_then(|h| h.covers()) else { return };
        let mut fresh = vec![];
        for i in r.lo..r.hi {
            let it = &mut self.m.arenas[r.arena as usize].items[i as usize];
            it.val = self.m.next_val;
            self.m.next_val = self.m.next_val.wrapping_add(1);
            fresh.push(it.val);
        }
        let s: &mut [T] = match self.rs[slot].as_mut().unwrap() {
            R::M(m) => &mut **m,
            R::I(i) => F::i_slice_mut(i),
            R::Q(q) => F::q_slice_mut(q),
            _ => return,
        };
        // A wrong length is reported by the check of the views.
        if s.len() == fresh.len() && (std::mem::size_of::<T>() == 0 || s.as_ptr() as usize % std::mem::align_of::<T>() == 0) {
            for (x, v) in s.iter_mut().zip(fresh) { x.poke(v); }
        }
    }

    /// A digest of all that the library keeps in memory, items excepted.
    pub fn memory(&self) -> u64 {
        fn words<X>(x: &X) -> Vec<u64> {
            let p = x as *const X as *const u64;
            (0..std::mem::size_of::<X>() / 8).map(|i| unsafe { *p.add(i) }).collect()
        }
        let masked: Vec<(usize, u64)> = self.blocks.iter().enumerate().filter_map(|(a, b)| b.map(|b| (b, a as u64))).collect();
        let roots: Vec<(u64, Vec<u64>)> = self.rs.iter().zip(&self.m.hs).filter_map(|(r, h)| {
            let (r, h) = (r.as_ref()?, h.as_ref()?);
            let ws = match r { R::S(x) => words(x), R::W(x) => words(x), R::M(x) => words(x), R::I(x) => words(x), R::P(x) => words(x), R::Q(x) => words(x) };
            Some((h.kind() as u64, ws))
        }).collect();
        alloc::memory_digest(&masked, &roots)
    }

    pub fn add(&mut self, r: R<F, T>, h: H, l: u32) -> usize {
        self.rs.push(Some(r));
        self.m.push(h, l)
    }

    /// Perform one operation on both sides and compare everything that can be observed.
    #[inline(never)]
    pub fn step(&mut self, op: Op) -> Result<(), Fail> {
        log().drops.clear();
        log().n_drops = 0;
        log().n_clones = 0;
        log().clones.clear();
        self.obs.clear();
        let slot = op.slot as usize;
        let (l, kind) = if op.k == K::WNew { (0, 'W') } else { (self.m.lin[slot], self.m.hs[slot].as_ref().map_or(' ', |h| h.kind())) };
        let mut res = scrubbed(|| self.apply(op));
        if res.is_ok() { res = self.check(); }
        match res {
            Ok(()) => Ok(()),
            Err(mut f) => { f.lin |= l; f.op_kind = kind; Err(f) }
        }
    }

    /// An operation performed by user code in the middle of another one. What's
    /// granted may depend on how far the other one got, as long as it's safe.
    pub fn nested(&mut self, op: Op) -> Result<(), Fail> {
        self.midway = true;
        let res = self.apply(op);
        self.midway = false;
        res?;
        if let Some(e) = log().error.clone() { return fail(Cat::Items, e); }
        if let Some(e) = alloc::error() { return fail(Cat::Memory, e); }
        self.view_check()
    }

    fn loosen(&self, e: Expect, to: Expect) -> Expect { if self.midway && e == to { Expect::Either } else { e } }

    #[inline(never)]
    fn apply(&mut self, op: Op) -> Result<(), Fail> {
        let slot = op.slot as usize;
        if op.k == K::WNew {
            let w = tracked(|| F::w_new::<T>());
            self.add(R::W(w), H::W(None), 0);
            return Ok(());
        }
        let h = self.m.hs[slot].clone().expect("op on a dead slot");
        let l = self.m.lin[slot];
        match (&h, op.k) {
            (_, K::Drop) => {
                let r = self.rs[slot].take().unwrap();
                self.m.hs[slot] = None;
                self.guarded(|_| drop(r))?;
            }
            // ---- shared handles
            (H::S(n), K::Clone | K::CloneL | K::CloneR | K::SplitL | K::SplitR) => {
                let n = *n;
                let new = self.guarded(|me| {
                    let Some(R::S(s)) = &mut me.rs[slot] else { unreachable!() };
                    match op.k {
                        K::Clone => s.clone(),
                        K::CloneL => F::clone_left(s),
                        K::CloneR => F::clone_right(s),
                        K::SplitL => F::split_left(s),
                        _ => F::split_right(s),
                    }
                })?;
                let (this, other) = match op.k {
                    K::Clone => (n, n),
                    K::CloneL => (n, n.left()),
                    K::CloneR => (n, n.right()),
                    K::SplitL => (n.right(), n.left()),
                    _ => (n.left(), n.right()),
                };
                self.m.hs[slot] = Some(H::S(this));
                self.m.created.insert((this.tree, this.path));
                self.add(R::S(new), H::S(other), l);
            }
            (H::S(n), K::Down) => {
                let n = *n;
                let w = self.guarded(|me| { let Some(R::S(s)) = &me.rs[slot] else { unreachable!() }; F::downgrade(s) })?;
                self.add(R::W(w), H::W(Some(n)), l);
            }
            (H::S(n), K::GetMut) => {
                let n = *n;
                let expect = self.loosen(self.m.expect_get_mut(slot), Expect::Yes);
                let vals: Vec<u8> = (0..n.r.len()).map(|i| self.m.next_val.wrapping_add(i as u8)).collect();
                let got = self.guarded(|me| {
                    let Some(R::S(s)) = &mut me.rs[slot] else { unreachable!() };
                    F::get_mut(s).map(|sl| {
                        if sl.len() == vals.len() { for (x, v) in sl.iter_mut().zip(&vals) { x.poke(*v); } }
                        sl.len()
                    })
                })?;
                self.obs.push(got.is_some() as u32);
                match (got, expect) {
                    (Some(len), Expect::Yes | Expect::Either) => {
                        if len != n.r.len() { return fail(Cat::View, format!("get_mut gave {} items instead of {}", len, n.r.len())); }
                        for (i, v) in (n.r.lo..n.r.hi).zip(vals) { self.m.arenas[n.r.arena as usize].items[i as usize].val = v; }
                        self.m.next_val = self.m.next_val.wrapping_add(n.r.len() as u8);
                        self.m.lin[slot] |= lin::GET_MUT;
                    }
                    (None, Expect::No | Expect::Either) => {}
                    (Some(_), _) => return fail(Cat::GetMut, "get_mut granted access to a shared subslice"),
                    (None, _) => return fail(Cat::GetMut, "get_mut refused access to an unshared subslice"),
                }
            }
            (H::S(n), K::IntoMut) => {
                let n = *n;
                let expect = self.loosen(self.m.expect_into_mut(slot), Expect::Yes);
                let Some(R::S(s)) = self.rs[slot].take() else { unreachable!() };
                match self.guarded(|_| F::into_mut(s))? {
                    Ok(m) => {
                        self.obs.push(1);
                        self.rs[slot] = Some(R::M(m));
                        self.m.hs[slot] = Some(H::M(n.r));
                        self.m.lin[slot] = l | lin::INTO_MUT;
                        self.m.ended_trees = true;
                        if expect == Expect::No { return fail(Cat::IntoMut, "into_mut succeeded for a shared subslice"); }
                        // Everything must still be as it was.
                        self.view_check()?;
                        self.write(slot);
                    }
                    Err(s) => {
                        self.obs.push(0);
                        self.rs[slot] = Some(R::S(s));
                        if expect == Expect::Yes { return fail(Cat::IntoMut, "into_mut failed for a subslice with a single owner"); }
                    }
                }
            }
            (H::S(n), K::Parts) => {
                let n = *n;
                let Some(R::S(s)) = self.rs[slot].take() else { unreachable!() };
                let parts = op.arg as usize;
                let r = self.guarded_maybe(|_| F::s_parts(s, parts), parts.is_power_of_two())?;
                match r {
                    Some(p) => {
                        self.rs[slot] = Some(R::P(p));
                        self.m.hs[slot] = Some(H::P(n.leaves(parts), n.r));
                        self.m.lin[slot] = l | lin::PARTS;
                    }
                    None => self.m.hs[slot] = None,
                }
            }
            // ---- weak handles
            (H::W(w), K::Clone) => {
                let c = self.guarded(|me| { let Some(R::W(w)) = &me.rs[slot] else { unreachable!() }; w.clone() })?;
                self.add(R::W(c), H::W(*w), l);
            }
            (H::W(w), K::Upgrade) => {
                let mut expect = self.m.expect_upgrade(slot);
                if self.midway { expect = Expect::Either; }
                let s = self.guarded(|me| { let Some(R::W(w)) = &me.rs[slot] else { unreachable!() }; F::upgrade(w) })?;
                self.obs.push(if expect == Expect::Either { 2 } else { s.is_some() as u32 });
                match s {
                    Some(s) => {
                        // Don't touch (or drop) what shouldn't exist.
                        if expect == Expect::No { std::mem::forget(s); return fail(Cat::Weak, "upgrade succeeded though no strong handle keeps the subslice"); }
                        let Some(n) = w else { std::mem::forget(s); return fail(Cat::Weak, "upgrade of an unattached weak handle succeeded") };
                        self.add(R::S(s), H::S(*n), l | lin::UPGRADE);
                    }
                    None => if expect == Expect::Yes { return fail(Cat::Weak, "upgrade failed though a strong handle keeps the subslice"); }
                }
            }
            // ---- unique handles
            (H::M(r), K::SplitL | K::SplitR) => {
                let r = *r;
                let new = self.guarded(|me| {
                    let Some(R::M(m)) = &mut me.rs[slot] else { unreachable!() };
                    if op.k == K::SplitL { F::m_split_left(m) } else { F::m_split_right(m) }
                })?;
                let (this, other) = if op.k == K::SplitL { (r.right(), r.left()) } else { (r.left(), r.right()) };
                self.m.hs[slot] = Some(H::M(this));
                let o = self.add(R::M(new), H::M(other), l);
                self.view_check()?;
                self.write(slot);
                self.write(o);
            }
            (H::M(r), K::IntoImmut) => {
                let Some(R::M(m)) = self.rs[slot].take() else { unreachable!() };
                let s = self.guarded(|_| F::into_immut(m))?;
                let tree = self.m.new_tree();
                let node = Node { tree, path: Path::ROOT, r: *r };
                self.rs[slot] = Some(R::S(s));
                self.m.hs[slot] = Some(H::S(node));
                self.m.created.insert((tree, node.path));
                self.m.lin[slot] = (l & !lin::UNIQUE) | lin::INTO_IMMUT;
            }
            (H::M(r), K::IntoIter) => {
                let Some(R::M(m)) = self.rs[slot].take() else { unreachable!() };
                let i = self.guarded(|_| m.into_iter())?;
                self.rs[slot] = Some(R::I(i));
                self.m.hs[slot] = Some(H::I(*r));
                self.m.lin[slot] = l | lin::ITER;
                self.view_check()?;
                self.write(slot);
            }
            (H::M(r), K::Parts) => {
                let Some(R::M(m)) = self.rs[slot].take() else { unreachable!() };
                let parts = op.arg as usize;
                match self.guarded_maybe(|_| F::m_parts(m, parts), parts.is_power_of_two())? {
                    Some(q) => {
                        self.rs[slot] = Some(R::Q(q));
                        self.m.hs[slot] = Some(H::Q(rng_leaves(*r, parts), *r));
                        self.m.lin[slot] = l | lin::MPARTS;
                        self.view_check()?;
                        self.write(slot);
                    }
                    None => self.m.hs[slot] = None,
                }
            }
            (H::M(r), K::Deep) => {
                let r = *r;
                let c = self.guarded(|me| { let Some(R::M(m)) = &me.rs[slot] else { unreachable!() }; F::m_clone(m) })?;
                let n = r.len();
                if T::TRACKED && log().n_clones != n { return fail(Cat::Unique, format!("deep clone cloned {} items instead of {}", log().n_clones, n)); }
                let src: Vec<It> = self.m.arenas[r.arena as usize].items[r.lo as usize..r.hi as usize].to_vec();
                let mut ids = vec![];
                for (i, it) in src.iter().enumerate() {
                    if !T::IDENT { ids.push(0); continue; }
                    if !T::TRACKED { ids.push(it.id); continue; }
                    let (from, to) = log().clones[i];
                    if from != it.id { return fail(Cat::Unique, "deep clone cloned the wrong items"); }
                    ids.push(to);
                }
                let ptr = c.as_ptr() as usize;
                let arena = self.add_arena(ids, src.iter().map(|i| i.val).collect(), ptr);
                let o = self.add(R::M(c), H::M(Rng { arena, lo: 0, hi: n as u16 }), l | lin::DEEP);
                self.view_check()?;
                self.write(o);
            }
            // ---- item iterators
            (H::I(r), K::Next | K::Back) => {
                let mut r = *r;
                let got = self.guarded(|me| {
                    let Some(R::I(i)) = &mut me.rs[slot] else { unreachable!() };
                    if op.k == K::Next { i.next() } else { i.next_back() }
                })?;
                self.obs.push(got.is_some() as u32);
                if got.is_some() != (r.len() > 0) {
                    let msg = format!("item iterator gave {} with {} items left", if got.is_some() { "an item" } else { "nothing" }, r.len());
                    if got.is_some() { std::mem::forget(got); }
                    return fail(Cat::Unique, msg);
                }
                if let Some(item) = got {
                    let i = if op.k == K::Next { r.lo += 1; r.lo - 1 } else { r.hi -= 1; r.hi };
                    let it = self.m.arenas[r.arena as usize].items[i as usize];
                    match item.peek() {
                        Peek::Zst => {}
                        Peek::Item(id, val) if id == it.id && val == it.val => {}
                        x => { std::mem::forget(item); return fail(Cat::Unique, format!("item iterator yielded {:?} instead of item {}", x, it.id)); }
                    }
                    if T::TRACKED && log().n_drops > 0 && !self.midway { return fail(Cat::Items, "item destroyed though it was moved out"); }
                    self.m.hs[slot] = Some(H::I(r));
                    self.guarded(|_| drop(item))?;
                }
                let Some(R::I(i)) = &self.rs[slot] else { unreachable!() };
                if i.len() != r.len() || i.size_hint() != (r.len(), Some(r.len())) { return fail(Cat::Unique, "item iterator reports a wrong length"); }
            }
            (H::I(r), K::From | K::To) => {
                let mut r = *r;
                let at = op.arg as usize;
                let ok = at <= r.len();
                let new = self.guarded_maybe(|me| {
                    let Some(R::I(i)) = &mut me.rs[slot] else { unreachable!() };
                    if op.k == K::From { F::i_split_from(i, at) } else { F::i_split_to(i, at) }
                }, ok)?;
                if let Some(new) = new {
                    let mid = r.lo + at as u16;
                    let mut o = r;
                    if op.k == K::From { o.lo = mid; r.hi = mid; } else { o.hi = mid; r.lo = mid; }
                    self.m.hs[slot] = Some(H::I(r));
                    let o = self.add(R::I(new), H::I(o), l);
                    self.view_check()?;
                    self.write(slot);
                    self.write(o);
                }
            }
            // ---- parts iterators
            (H::P(leaves, r), K::Next | K::Back) => {
                let (mut leaves, mut r) = (leaves.clone(), *r);
                let got = self.guarded(|me| {
                    let Some(R::P(p)) = &mut me.rs[slot] else { unreachable!() };
                    if op.k == K::Next { p.next() } else { p.next_back() }
                })?;
                self.obs.push(got.is_some() as u32);
                if got.is_some() != (leaves.len() > 0) {
                    let msg = format!("parts iterator gave {} with {} parts left", if got.is_some() { "a part" } else { "nothing" }, leaves.len());
                    if got.is_some() { std::mem::forget(got); }
                    return fail(Cat::Parts, msg);
                }
                if let Some(s) = got {
                    let n = if op.k == K::Next {
                        let n = leaves.remove(0);
                        r.lo = n.r.hi;
                        n
                    } else {
                        let n = leaves.pop().unwrap();
                        r.hi = n.r.lo;
                        n
                    };
                    // Getting there brought the nodes on the way and their siblings into being.
                    for d in 1..=n.path.len {
                        let p = Path { bits: n.path.bits & ((1u64 << d) - 1) as u32, len: d };
                        self.m.created.insert((n.tree, p));
                        self.m.created.insert((n.tree, Path { bits: p.bits ^ (1 << (d - 1)), len: d }));
                    }
                    self.m.hs[slot] = Some(H::P(leaves, r));
                    self.add(R::S(s), H::S(n), l | lin::PARTS);
                }
            }
            (H::P(leaves, r), K::Clone) => {
                let c = self.guarded(|me| { let Some(R::P(p)) = &me.rs[slot] else { unreachable!() }; p.clone() })?;
                self.add(R::P(c), H::P(leaves.clone(), *r), l);
            }
            (H::Q(parts, r), K::Next | K::Back) => {
                let (mut parts, mut r) = (parts.clone(), *r);
                let got = self.guarded(|me| {
                    let Some(R::Q(p)) = &mut me.rs[slot] else { unreachable!() };
                    if op.k == K::Next { p.next() } else { p.next_back() }
                })?;
                self.obs.push(got.is_some() as u32);
                if got.is_some() != (parts.len() > 0) {
                    let msg = format!("unique parts iterator gave {} with {} parts left", if got.is_some() { "a part" } else { "nothing" }, parts.len());
                    if got.is_some() { std::mem::forget(got); }
                    return fail(Cat::Unique, msg);
                }
                if let Some(m) = got {
                    let p = if op.k == K::Next { let p = parts.remove(0); r.lo = p.hi; p } else { let p = parts.pop().unwrap(); r.hi = p.lo; p };
                    self.m.hs[slot] = Some(H::Q(parts, r));
                    let o = self.add(R::M(m), H::M(p), l | lin::MPARTS);
                    self.view_check()?;
                    self.write(slot);
                    self.write(o);
                }
            }
            (h, k) => panic!("no such op: {:?} on {:?}", k, h),
        }
        Ok(())
    }

    /// Run library code that isn't supposed to panic.
    fn guarded<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> Result<X, Fail> {
        match catch_unwind(AssertUnwindSafe(|| tracked(|| f(self)))) {
            Ok(x) => Ok(x),
            Err(e) => {
                let msg = panic_text(&e);
                drop(e);
                fail(Cat::Panic, format!("unexpected panic: {}", msg))
            }
        }
    }

    fn guarded_maybe<X>(&mut self, f: impl FnOnce(&mut Self) -> X, ok: bool) -> Result<Option<X>, Fail> {
        match catch_unwind(AssertUnwindSafe(|| tracked(|| f(self)))) {
            Ok(x) => if ok { Ok(Some(x)) } else { std::mem::forget(x); fail(Cat::Panic, "an invalid argument was accepted") },
            Err(e) => {
                let msg = panic_text(&e);
                drop(e);
                if ok { fail(Cat::Panic, format!("unexpected panic: {}", msg)) } else { Ok(None) }
            }
        }
    }

    /// Everything that can be observed after an operation.
    pub fn check(&mut self) -> Result<(), Fail> {
        if let Some(e) = log().error.clone() { return fail(Cat::Items, e); }
        if let Some(e) = alloc::error() { return fail(Cat::Memory, e); }
        self.view_check()?;
        // Items: exactly the ones that lost their last handle are gone.
        let gone = self.m.uncovered_alive();
        if T::TRACKED {
            let n = log().n_drops;
            if T::IDENT {
                let mut want: Vec<u32> = gone.iter().map(|(a, i)| self.m.arenas[*a as usize].items[*i as usize].id).collect();
                let mut have = log().drops.clone();
                want.sort();
                have.sort();
                if want != have { return fail(Cat::Items, format!("destroyed {:?} instead of {:?}", have, want)); }
            } else if n != gone.len() {
                return fail(Cat::Items, format!("destroyed {} items instead of {}", n, gone.len()));
            }
            self.obs.push(n as u32);
        }
        for (a, i) in gone { self.m.arenas[a as usize].items[i as usize].alive = false; }
        // Memory: the block goes with the last handle that covers an item in it.
        for (a, b) in self.blocks.iter().enumerate() {
            if let Some(b) = b {
                let live = alloc::is_live(*b);
                self.obs.push(live as u32);
                match (self.m.held(a as u8), live) {
                    (true, false) => return fail(Cat::Memory, "memory freed while a handle covers items in it"),
                    (false, true) => return fail(Cat::Memory, "memory kept though no handle covers any item in it"),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// Every handle sees exactly its items.
    pub fn view_check(&self) -> Result<(), Fail> {
        for (i, (r, h)) in self.rs.iter().zip(&self.m.hs).enumerate() {
            let (Some(r), Some(h)) = (r, h) else { continue };
            let bad = |msg: String| Err(Fail { cat: Cat::View, msg: format!("handle {} ({}): {}", i, h.kind(), msg), lin: self.m.lin[i], view_kind: h.kind(), op_kind: ' ' });
            let plen = match (r, h) {
                (R::P(p), H::P(l, _)) => Some((p.len(), p.size_hint(), l.len())),
                (R::Q(q), H::Q(l, _)) => Some((q.len(), q.size_hint(), l.len())),
                (R::I(i), H::I(r)) => Some((i.len(), i.size_hint(), r.len())),
                _ => None,
            };
            if let Some((len, hint, want)) = plen {
                if len != want || hint != (want, Some(want)) {
                    return Err(Fail { cat: if h.kind() == 'P' { Cat::Parts } else { Cat::Unique }, msg: format!("iterator reports {} of {} left", len, want), lin: self.m.lin[i], view_kind: h.kind(), op_kind: ' ' });
                }
            }
            let (Some(v), Some(rg)) = (r.view(), h.covers()) else { continue };
            if v.len() != rg.len() { return bad(format!("sees {} items instead of {}", v.len(), rg.len())); }
            if (v.as_ptr() as usize) % std::mem::align_of::<T>() != 0 { return bad("is misaligned".into()); }
            for (x, k) in v.iter().zip(rg.lo..rg.hi) {
                let it = self.m.arenas[rg.arena as usize].items[k as usize];
                match x.peek() {
                    Peek::Zst => {}
                    Peek::Garbage => return bad(format!("sees garbage where item {} should be", it.id)),
                    Peek::Item(id, val) => {
                        if id != it.id { return bad(format!("sees item {} where item {} should be", id, it.id)); }
                        if val != it.val { return bad(format!("sees item {} with value {} instead of {}", id, val, it.val)); }
                        if T::TRACKED && log().life[id as usize] != Life::Alive { return bad(format!("sees destroyed item {}", id)); }
                    }
                }
            }
        }
        Ok(())
    }

    /// Drop all handles, then check that nothing at all remains.
    pub fn teardown(&mut self, reverse: bool) -> Result<(), Fail> {
        let n = self.rs.len();
        for i in 0..n {
            let i = if reverse { n - 1 - i } else { i };
            if self.m.hs[i].is_some() { self.step(Op { k: K::Drop, slot: i as u8, arg: 0 })?; }
        }
        self.end_check()
    }

    pub fn end_check(&mut self) -> Result<(), Fail> {
        if let Some(e) = alloc::check_all() { return fail(Cat::Memory, e); }
        if T::TRACKED && T::IDENT {
            for id in 0..log().next_id { if log().life[id as usize] == Life::Alive && !self.lost.contains(&id) { return fail(Cat::Items, format!("item {} never destroyed", id)); } }
        }
        if T::TRACKED && !T::IDENT && log().zst_made != log().zst_dropped && !self.had_panic {
            return fail(Cat::Items, format!("{} items made but {} destroyed", log().zst_made, log().zst_dropped));
        }
        let (blocks, bytes) = alloc::live();
        if blocks > 0 { return fail(Cat::Memory, format!("{} blocks ({} bytes) leaked", blocks, bytes)); }
        Ok(())
    }

    /// Leak whatever is left of a history that went wrong.
    pub fn abandon(&mut self) {
        for r in self.rs.drain(..) { std::mem::forget(r); }
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    untracked(|| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
