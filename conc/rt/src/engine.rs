//! Stateless exploration: runs the same program again and again on coroutines, each
//! time taking the next combination of scheduling choices and of choices of which
//! store a load reads from.
//!
//! Memory: every atomic keeps all its stores in modification order. A thread has a
//! view, i.e. for every atomic the earliest store it may still read. Release stores
//! carry the view (and the vector clock) of their thread, acquire loads join it.
//! RMWs read the latest store and pass on what it carries (release sequences).
//! Fences as in C11. SeqCst accesses are totally ordered by execution: a SeqCst load
//! doesn't read anything older than the latest SeqCst store to the same atomic, and
//! SeqCst fences join a view of their own.

use std::collections::HashMap;

pub const NT: usize = 4;
pub const NA: usize = 256;
const MAX_STEPS: u32 = 20000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat { Race, Freed, Hang, Limit }

#[derive(Clone)]
pub struct Know { vc: [u32; NT], view: [i16; NA] }
impl Know {
    const ZERO: Know = Know { vc: [0; NT], view: [0; NA] };
    #[inline]
    fn join(&mut self, o: &Know, n: usize) {
        for i in 0..NT { self.vc[i] = self.vc[i].max(o.vc[i]); }
        let n = ((n + 15) & !15).min(NA);
        for (a, b) in self.view[..n].iter_mut().zip(&o.view[..n]) { *a = (*a).max(*b); }
    }
    #[inline]
    fn set(&mut self, o: &Know, n: usize) {
        self.vc = o.vc;
        let n = ((n + 15) & !15).min(NA);
        self.view[..n].copy_from_slice(&o.view[..n]);
        self.view[n..].fill(0);
    }
}

/// `know`: index of what a release store carries. 0: nothing.
/// `sid`: says which store this is, the same in all executions that are alike so far.
struct Store { val: u64, know: u32, sid: u64 }

struct Atom {
    stores: Vec<Store>,
    made_by: usize,
    made_at: u32,
    /// Last access by each thread.
    acc: [u32; NT],
    /// Last write by each thread.
    wr: [u32; NT],
    addr: usize,
    live: bool,
    last_sc: i16,
    /// Says which atomic this is, the same in all executions that are alike so far.
    name: u64,
    /// A hash of all its stores in order.
    order: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum St { Unused, Ready, Done }

struct Th {
    st: St,
    cur: Know,
    /// What an acquire fence would add.
    acq: Know,
    /// As of the last release fence.
    rel: Know,
    rsp: usize,
    yielded: bool,
    recent: [(u32, u64); 16],
    nrecent: usize,
    entry: Option<(fn(usize), usize)>,
    /// A hash of all that this thread did and saw.
    hist: u64,
    stack: Vec<u128>,
}

pub struct Cell { write: (usize, u32), reads: [u32; NT] }

#[derive(Clone, Copy)]
pub struct Choice { pub n: u8, pub i: u8 }

pub struct Engine {
    th: Vec<Th>,
    pub cur: usize,
    atoms: Vec<Atom>,
    n_atoms: usize,
    cells: Vec<Cell>,
    knows: Vec<Know>,
    n_knows: usize,
    sc: Know,
    pub path: Vec<Choice>,
    pos: usize,
    pub preemptions: usize,
    pub bound: usize,
    stale: usize,
    pub stale_bound: usize,
    pub steps: u32,
    gen: u32,
    /// Hash of the order of stores of all atomics.
    orders: u64,
    sc_order: u64,
    seen: HashMap<u128, u64, Plain>,
    pub prune: bool,
    pub pruned: bool,
    pub name: fn(usize) -> u64,
    pub states: u64,
    pub concurrent: bool,
    pub trace: Option<Vec<String>>,
    pub on_fail: fn(Cat, &str) -> !,
    /// Switches off the tracking of allocations, returning what it was.
    pub track: fn(bool) -> bool,
    pub points: u64,
    pub switches: u64,
    pub stale_reads: u64,
}

static mut E: *mut Engine = std::ptr::null_mut();

pub fn eng() -> &'static mut Engine { unsafe { &mut *E } }

/// Keys are hashes already.
#[derive(Default, Clone, Copy)]
pub struct Plain(u64);
impl std::hash::Hasher for Plain {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u128(&mut self, x: u128) { self.0 = x as u64 }
}
impl std::hash::BuildHasher for Plain { type Hasher = Plain; fn build_hasher(&self) -> Plain { Plain(0) } }

#[inline]
fn mix(h: u64, x: u64) -> u64 {
    let r = ((h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)) as u128).wrapping_mul(0xA24B_AED4_963E_E407_9FB2_1C65_1E98_DF25);
    ((r >> 64) ^ r) as u64
}

/// The current thread did or saw something.
#[inline]
pub fn did(x: u64) { let e = eng(); let t = &mut e.th[e.cur]; t.hist = mix(t.hist, x); }

/// Forget all states.
pub fn forget() { let e = eng(); e.seen.clear(); e.path.clear(); }

/// Whether everything from here on has been explored already: the threads did and
/// saw the same, the stores came in the same order, and no more of the bounds had
/// been used up.
#[inline]
fn known(kind: u64) {
    let e = eng();
    if !e.prune || e.cur == 0 || e.pos < e.path.len() { return; }
    let (mut a, mut b) = (mix(e.orders, e.sc_order), mix(e.cur as u64, kind));
    for t in 1..NT {
        let x = &e.th[t];
        let f = (x.st == St::Ready) as u64 | (x.yielded as u64) << 1;
        a = mix(a, x.hist ^ f);
        b = mix(b, x.hist.rotate_left(17) + f);
    }
    b = mix(b, e.orders ^ e.sc_order.rotate_left(7));
    // At most 8 by 8 combinations of what's used up are told apart.
    let (p, s) = (if e.bound >= 8 { 0 } else { e.preemptions }, if e.stale_bound >= 8 { 0 } else { e.stale });
    let key = (a as u128) << 64 | b as u128;
    // Forgetting states costs time only.
    if e.seen.len() >= 28 << 20 && !e.seen.contains_key(&key) { return; }
    let was = e.seen.entry(key).or_insert(0);
    for i in 0..=p { if (*was >> (i * 8)) as u8 & ((2u16 << s) - 1) as u8 != 0 { e.pruned = true; } }
    if e.pruned { switch_to(0); unreachable!() }
    if *was == 0 { e.states += 1; }
    *was |= 1 << (p * 8 + s);
}

extern "C" { fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
/// With a page at its end that can't be accessed.
fn new_stack() -> Vec<u128> {
    let mut v = vec![0u128; 16 << 10];
    let lo = (v.as_mut_ptr() as usize + 4095) & !4095;
    unsafe { if mprotect(lo as *mut u8, 4096, 0) != 0 { panic!("mprotect") } }
    v
}

fn no_fail(c: Cat, m: &str) -> ! { eprintln!("{:?} {}", c, m); std::process::exit(99) }
fn no_track(_: bool) -> bool { false }

pub fn init() {
    let mut th = vec![];
    for i in 0..NT {
        th.push(Th {
            st: St::Unused, cur: Know::ZERO, acq: Know::ZERO, rel: Know::ZERO, rsp: 0, yielded: false,
            recent: [(0, 0); 16], nrecent: 0, entry: None, hist: 0,
            stack: if i == 0 { vec![] } else { new_stack() },
        });
    }
    let e = Box::new(Engine {
        th, cur: 0, atoms: vec![], n_atoms: 0, cells: vec![], knows: vec![Know::ZERO], n_knows: 1, sc: Know::ZERO, path: vec![], pos: 0, preemptions: 0, bound: 2,
        stale: 0, stale_bound: 2, steps: 0, gen: 0, orders: 0, sc_order: 0, seen: HashMap::default(), prune: false, pruned: false, name: |a| a as u64, states: 0, concurrent: false, trace: None, on_fail: no_fail, track: no_track,
        points: 0, switches: 0, stale_reads: 0,
    });
    unsafe { E = Box::into_raw(e); }
}

pub fn fail(c: Cat, m: &str) -> ! { (eng().on_fail)(c, m) }

pub fn note(f: impl FnOnce() -> String) {
    let e = eng();
    if e.trace.is_some() {
        let was = (e.track)(false);
        let s = format!("T{}: {}", e.cur, f());
        e.trace.as_mut().unwrap().push(s);
        (e.track)(was);
    }
}

/// Start an execution.
pub fn begin() {
    let e = eng();
    for t in e.th.iter_mut() { t.st = St::Unused; t.cur = Know::ZERO; t.acq = Know::ZERO; t.rel = Know::ZERO; t.yielded = false; t.nrecent = 0; t.entry = None; t.hist = 0; }
    e.th[0].st = St::Ready;
    for i in 0..NT { e.th[i].cur.vc[i] = 1; }
    e.cur = 0;
    e.n_atoms = 0;
    e.gen = (e.gen + 1) & 0xFFF;
    e.cells.clear();
    e.n_knows = 1;
    e.sc = Know::ZERO;
    e.orders = 0;
    e.sc_order = 0;
    e.pruned = false;
    e.pos = 0;
    e.preemptions = 0;
    e.stale = 0;
    e.steps = 0;
    e.concurrent = false;
    if let Some(t) = &mut e.trace { t.clear(); }
}

/// Go to the next path. False: all have been taken.
pub fn next_path() -> bool {
    let e = eng();
    if e.pos != e.path.len() { fail(Cat::Limit, "an execution took fewer choices than when it was first run"); }
    while let Some(c) = e.path.last_mut() {
        if c.i + 1 < c.n { c.i += 1; return true; }
        e.path.pop();
    }
    false
}

#[inline]
fn choose(n: usize) -> usize {
    if n <= 1 { return 0; }
    let e = eng();
    if e.pos < e.path.len() {
        let c = e.path[e.pos];
        if c.n as usize != n { fail(Cat::Limit, "an execution had different choices than when it was first run"); }
        e.pos += 1;
        c.i as usize
    } else {
        e.path.push(Choice { n: n as u8, i: 0 });
        e.pos += 1;
        0
    }
}

// ---- coroutines

std::arch::global_asm!(r#"
.global rt_switch
rt_switch:
    push rbp
    push rbx
    push r12
    push r13
    push r14
    push r15
    mov [rdi], rsp
    mov rsp, rsi
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbx
    pop rbp
    ret
"#);
extern "C" { fn rt_switch(save: *mut usize, to: usize); }

extern "C" fn entry() -> ! {
    let e = eng();
    let (f, a) = e.th[e.cur].entry.take().unwrap();
    f(a);
    finish();
    unreachable!()
}

#[inline]
fn switch_to(t: usize) {
    let e = eng();
    let from = e.cur;
    if t == from { return; }
    e.switches += 1;
    e.cur = t;
    let to = e.th[t].rsp;
    unsafe { rt_switch(&mut e.th[from].rsp, to); }
}

/// Must not own anything on the heap that isn't forgotten anyway in between
/// executions: threads may be abandoned.
pub fn spawn(f: fn(usize), arg: usize) {
    let e = eng();
    let t = e.th.iter().position(|t| t.st == St::Unused).expect("too many threads");
    let know = e.th[e.cur].cur.clone();
    let th = &mut e.th[t];
    th.st = St::Ready;
    th.cur = know.clone();
    th.cur.vc[t] = 1;
    th.acq = th.cur.clone();
    th.rel = Know::ZERO;
    th.entry = Some((f, arg));
    th.hist = t as u64;
    let top = unsafe { th.stack.as_mut_ptr().add(th.stack.len()) } as usize;
    // As if the stack had called entry: misaligned by one return address.
    let mut sp = top - 64;
    let put = |sp: &mut usize, v: usize| { *sp -= 8; unsafe { *(*sp as *mut usize) = v; } };
    put(&mut sp, 0);
    put(&mut sp, entry as *const () as usize);
    for _ in 0..6 { put(&mut sp, 0); }
    th.rsp = sp;
    let c = e.cur;
    e.th[c].cur.vc[c] += 1;
}

/// Let all spawned threads run to their ends.
pub fn join_all() {
    let e = eng();
    let (ready, n) = e.ready_list(false);
    if n > 0 {
        e.concurrent = n > 1;
        let t = ready[choose(n)];
        switch_to(t);
    }
    e.concurrent = false;
    let n = e.n_atoms;
    for t in 1..NT {
        if e.th[t].st == St::Done {
            let k = e.th[t].cur.clone();
            e.th[0].cur.join(&k, n);
        }
    }
}

fn finish() {
    let e = eng();
    let me = e.cur;
    e.th[me].st = St::Done;
    let (mut ready, mut n) = e.ready_list(false);
    if n == 0 { switch_to(0); }
    // Whoever waits for someone else goes last.
    let (first, m) = e.ready_list(true);
    if m > 0 { ready = first; n = m; }
    for t in 1..NT { e.th[t].yielded = false; }
    known(2);
    e.concurrent = e.ready() > 1;
    let t = ready[choose(n)];
    switch_to(t);
}

fn step_limit() {
    let e = eng();
    e.steps += 1;
    if e.steps > MAX_STEPS { fail(Cat::Hang, "no end in sight: the threads that are left make no progress"); }
}

/// Before every access to shared state: somebody else may go first.
#[inline]
fn point() {
    let e = eng();
    step_limit();
    known(0);
    if !e.concurrent { return; }
    e.points += 1;
    let me = e.cur;
    if e.preemptions >= e.bound {
        e.th[me].yielded = false;
    } else {
        let mut opts = [me; NT];
        let mut n = 1;
        for t in 1..NT { if t != me && e.th[t].st == St::Ready && !e.th[t].yielded { opts[n] = t; n += 1; } }
        let t = opts[choose(n)];
        e.th[me].yielded = false;
        if t != me {
            e.preemptions += 1;
            switch_to(t);
            known(1);
        }
    }
    let e = eng();
    // A step is being made, so that whoever waits may look again.
    for t in 1..NT { if t != me { e.th[t].yielded = false; } }
}

/// This thread waits for others.
pub fn yield_now() {
    let was = (eng().track)(false);
    yield_inner();
    (eng().track)(was);
}

fn yield_inner() {
    let e = eng();
    step_limit();
    if !e.concurrent { return; }
    let me = e.cur;
    e.th[me].yielded = true;
    let mut opts = [0; NT];
    let mut n = 0;
    for t in 1..NT { if t != me && e.th[t].st == St::Ready && !e.th[t].yielded { opts[n] = t; n += 1; } }
    if n == 0 {
        // Everybody waits. Give each a turn.
        for t in 1..NT { if t != me { e.th[t].yielded = false; if e.th[t].st == St::Ready { opts[n] = t; n += 1; } } }
        if n == 0 { return; }
        // In rotation rather than by choice.
        let t = opts[..n].iter().copied().find(|t| *t > me).unwrap_or(opts[0]);
        switch_to(t);
        return;
    }
    known(3);
    let t = opts[choose(n)];
    switch_to(t);
}

/// Notice loops that wait without saying so.
#[inline]
fn spin_check(a: u32, val: u64) {
    let e = eng();
    if !e.concurrent { return; }
    let t = &mut e.th[e.cur];
    t.recent[t.nrecent % 16] = (a, val);
    t.nrecent += 1;
    if t.nrecent < 8 { return; }
    let at = |k: usize| t.recent[(t.nrecent - 1 - k) % 16];
    for p in 1..=3usize {
        if t.nrecent >= 4 * p && (0..3 * p).all(|k| at(k) == at(k + p)) {
            t.nrecent = 0;
            yield_now();
            return;
        }
    }
}

// ---- atomics

/// Ids: a tag to tell them from garbage, the execution they are of, an index.
const TAG: u32 = 0x5A7;

/// Whether an id says that the atomic has to be made known first.
#[inline]
pub fn stale(id: u32) -> bool { id == 0 || (id >> 20 == TAG && (id >> 8) & 0xFFF != eng().gen) }

/// `announced`: it's being made right now, i.e. nobody may use it without having
/// synchronized with this.
pub fn new_atom(val: u64, addr: usize, announced: bool) -> u32 {
    let e = eng();
    let was = (e.track)(false);
    if e.n_atoms >= NA - 1 { fail(Cat::Limit, "too many atomics"); }
    let me = e.cur;
    if announced { e.th[me].cur.vc[me] += 1; }
    let epoch = e.th[me].cur.vc[me];
    let id = e.n_atoms;
    e.n_atoms += 1;
    if e.atoms.len() <= id { e.atoms.push(Atom { stores: vec![], made_by: 0, made_at: 0, acc: [0; NT], wr: [0; NT], addr: 0, live: false, last_sc: 0, name: 0, order: 0 }); }
    let a = &mut e.atoms[id];
    a.stores.clear();
    a.stores.push(Store { val, know: 0, sid: 0 });
    a.order = 0;
    a.name = (e.name)(addr);
    a.made_by = me;
    a.made_at = if announced { epoch } else { 0 };
    a.acc = [0; NT];
    a.wr = [0; NT];
    if announced { a.acc[me] = epoch; a.wr[me] = epoch; }
    a.addr = addr;
    a.live = true;
    a.last_sc = 0;
    (e.track)(was);
    TAG << 20 | e.gen << 8 | id as u32
}

#[inline]
fn atom(id: u32, addr: usize) -> usize {
    let e = eng();
    let i = (id & 0xFF) as usize;
    if id >> 8 != (TAG << 12 | e.gen) || i >= e.n_atoms { fail(Cat::Freed, "an atomic is used that is freed or never was made"); }
    let me = e.cur;
    let vc = e.th[me].cur.vc;
    let a = &mut e.atoms[i];
    if a.addr != addr {
        // Moved here.
        for t in 0..NT { if t != me && a.acc[t] > vc[t] { fail(Cat::Race, "an atomic is moved while another thread may still access it"); } }
        a.addr = addr;
        a.live = true;
    }
    if !a.live { fail(Cat::Freed, "an atomic is used after it was freed"); }
    if a.made_at > vc[a.made_by] { fail(Cat::Race, "something shared is used by a thread that isn't synchronized with its making"); }
    i
}

/// The latest value of what may be an atomic.
#[inline]
pub fn latest(id: u32) -> Option<u64> {
    let e = eng();
    let i = (id & 0xFF) as usize;
    if id >> 8 != (TAG << 12 | e.gen) || i >= e.n_atoms { return None; }
    e.atoms[i].stores.last().map(|s| s.val)
}

/// Whether the current thread may use an atomic right now.
#[inline]
pub fn check(id: u32, addr: usize) { atom(id, addr); }

#[inline]
fn touch(i: usize, write: bool) {
    let e = eng();
    let me = e.cur;
    e.th[me].cur.vc[me] += 1;
    let epoch = e.th[me].cur.vc[me];
    e.atoms[i].acc[me] = epoch;
    if write { e.atoms[i].wr[me] = epoch; }
}

use std::sync::atomic::Ordering;
fn acquires(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn releases(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

fn read_from(i: usize, k: usize, o: Ordering) -> u64 {
    let e = eng();
    let n = e.n_atoms;
    let me = e.cur;
    let t = &mut e.th[me];
    let s = &e.atoms[i].stores[k];
    t.hist = mix(mix(t.hist, e.atoms[i].name), s.sid ^ o as u64);
    t.cur.view[i] = t.cur.view[i].max(k as i16);
    if s.know != 0 {
        let know = &e.knows[s.know as usize];
        if acquires(o) { t.cur.join(know, n); } else { t.acq.join(know, n); }
    }
    s.val
}

fn append(i: usize, val: u64, o: Ordering, after: Option<usize>) {
    let e = eng();
    let n = e.n_atoms;
    let me = e.cur;
    let k = e.atoms[i].stores.len();
    e.th[me].cur.view[i] = k as i16;
    if o == Ordering::SeqCst { e.atoms[i].last_sc = k as i16; }
    let mut know = 0;
    // What the main thread does on its own, everybody knows from the outset.
    if me != 0 {
        know = e.n_knows;
        e.n_knows += 1;
        if e.knows.len() <= know { e.knows.push(Know::ZERO); }
        let (before, now) = e.knows.split_at_mut(know);
        let t = &e.th[me];
        now[0].set(if releases(o) { &t.cur } else { &t.rel }, n);
        now[0].view[i] = k as i16;
        if let Some(p) = after {
            let p = e.atoms[i].stores[p].know as usize;
            if p != 0 { now[0].join(&before[p], n); }
        }
    }
    let sid = mix(mix(e.th[me].hist, e.atoms[i].name), 0x57 + o as u64);
    e.th[me].hist = sid;
    let a = &mut e.atoms[i];
    a.stores.push(Store { val, know: know as u32, sid });
    let order = mix(a.order, sid);
    e.orders = e.orders.wrapping_sub(mix(a.name, a.order)).wrapping_add(mix(a.name, order));
    a.order = order;
}

pub fn load(id: u32, addr: usize, o: Ordering) -> u64 {
    let was = (eng().track)(false);
    point();
    let i = atom(id, addr);
    touch(i, false);
    let e = eng();
    let me = e.cur;
    let a = &e.atoms[i];
    let last = a.stores.len() - 1;
    let mut lo = e.th[me].cur.view[i] as usize;
    if o == Ordering::SeqCst { lo = lo.max(a.last_sc as usize); }
    let mut back = 0;
    if e.concurrent_ever() && lo < last {
        // The latest comes first, older ones cost.
        let n = if e.stale < e.stale_bound { last - lo + 1 } else { 1 };
        back = choose(n);
        if back > 0 { e.stale += 1; e.stale_reads += 1; }
    }
    let v = read_from(i, last - back, o);
    note(|| format!("load a{} {:?} -> {:#x}{}", i, o, v, if back > 0 { format!(" ({} behind)", back) } else { String::new() }));
    spin_check(id, v);
    (eng().track)(was);
    v
}

pub fn store(id: u32, addr: usize, val: u64, o: Ordering) {
    let was = (eng().track)(false);
    point();
    let i = atom(id, addr);
    touch(i, true);
    append(i, val, o, None);
    note(|| format!("store a{} {:?} <- {:#x}", i, o, val));
    spin_check(id, val);
    (eng().track)(was);
}

pub fn rmw(id: u32, addr: usize, ok: Ordering, err: Ordering, f: &mut dyn FnMut(u64) -> Option<u64>) -> Result<u64, u64> {
    let was = (eng().track)(false);
    point();
    let i = atom(id, addr);
    let e = eng();
    let last = e.atoms[i].stores.len() - 1;
    let v = e.atoms[i].stores[last].val;
    let r = match f(v) {
        Some(new) => {
            touch(i, true);
            read_from(i, last, ok);
            append(i, new, ok, Some(last));
            note(|| format!("rmw a{} {:?} {:#x} -> {:#x}", i, ok, v, new));
            spin_check(id, v.wrapping_mul(31).wrapping_add(new));
            Ok(v)
        }
        None => {
            // A failed exchange is a load, that may as well read something older
            // when that differs from what's expected. Reading the latest is enough:
            // whatever else it could read would fail too.
            touch(i, false);
            read_from(i, last, err);
            note(|| format!("rmw a{} {:?} {:#x} fails", i, err, v));
            spin_check(id, v);
            Err(v)
        }
    };
    (eng().track)(was);
    r
}

pub fn fence(o: Ordering) {
    let was = (eng().track)(false);
    step_limit();
    let e = eng();
    let n = e.n_atoms;
    let me = e.cur;
    {
        let t = &mut e.th[me];
        if acquires(o) { t.cur.join(&t.acq, n); }
    }
    did(0xFE + o as u64);
    if o == Ordering::SeqCst {
        e.sc_order = mix(e.sc_order, e.th[me].hist);
        // Views only: no happens-before by itself.
        let t = &mut e.th[me];
        for i in 0..n { t.cur.view[i] = t.cur.view[i].max(e.sc.view[i]); e.sc.view[i] = t.cur.view[i]; }
    }
    let t = &mut e.th[me];
    if releases(o) { t.rel.set(&t.cur, n); }
    note(|| format!("fence {:?}", o));
    (eng().track)(was);
}

/// Exclusive access, without any atomicity: to the latest value.
pub fn exclusive(id: u32, addr: usize) -> u64 {
    let was = (eng().track)(false);
    let i = atom(id, addr);
    let e = eng();
    let me = e.cur;
    let vc = e.th[me].cur.vc;
    for t in 0..NT { if t != me && e.atoms[i].acc[t] > vc[t] { fail(Cat::Race, "an atomic is accessed exclusively while another thread may still access it"); } }
    touch(i, true);
    let last = e.atoms[i].stores.len() - 1;
    let v = read_from(i, last, Ordering::Relaxed);
    (e.track)(was);
    v
}

/// What an exclusive access left behind.
pub fn set_exclusive(id: u32, addr: usize, val: u64) {
    let was = (eng().track)(false);
    let i = atom(id, addr);
    append(i, val, Ordering::Relaxed, None);
    (eng().track)(was);
}

/// Memory is being freed.
pub fn freed(lo: usize, hi: usize) {
    let e = eng();
    let me = e.cur;
    let vc = e.th[me].cur.vc;
    for i in 0..e.n_atoms {
        let a = &mut e.atoms[i];
        if a.live && lo <= a.addr && a.addr < hi {
            for t in 0..NT { if t != me && a.acc[t] > vc[t] { fail(Cat::Race, "memory is freed while another thread may still access an atomic in it"); } }
            a.live = false;
        }
    }
}

// ---- data

pub fn new_cell() -> u32 {
    let e = eng();
    let was = (e.track)(false);
    let me = e.cur;
    e.th[me].cur.vc[me] += 1;
    let epoch = e.th[me].cur.vc[me];
    e.cells.push(Cell { write: (me, epoch), reads: [0; NT] });
    (e.track)(was);
    e.cells.len() as u32 - 1
}

pub fn read_cell(c: u32, what: &str) {
    let e = eng();
    let me = e.cur;
    e.th[me].cur.vc[me] += 1;
    let vc = e.th[me].cur.vc;
    let c = &mut e.cells[c as usize];
    if c.write.1 > vc[c.write.0] { fail(Cat::Race, &format!("{} is read while another thread may be writing or destroying it", what)); }
    c.reads[me] = vc[me];
}

pub fn write_cell(c: u32, what: &str, how: &str) {
    let e = eng();
    let me = e.cur;
    e.th[me].cur.vc[me] += 1;
    let vc = e.th[me].cur.vc;
    let c = &mut e.cells[c as usize];
    if c.write.1 > vc[c.write.0] { fail(Cat::Race, &format!("{} is {} while another thread may be writing or destroying it", what, how)); }
    for t in 0..NT { if t != me && c.reads[t] > vc[t] { fail(Cat::Race, &format!("{} is {} while another thread may be reading it", what, how)); } }
    c.write = (me, vc[me]);
    c.reads = [0; NT];
}

/// For the self-test: whether writing would be no race.
pub fn try_write_cell(c: u32) -> bool {
    let e = eng();
    let me = e.cur;
    e.th[me].cur.vc[me] += 1;
    let vc = e.th[me].cur.vc;
    let c = &mut e.cells[c as usize];
    let ok = c.write.1 <= vc[c.write.0] && (0..NT).all(|t| t == me || c.reads[t] <= vc[t]);
    c.write = (me, vc[me]);
    c.reads = [0; NT];
    ok
}

/// What of each thread happened before this point of the current one.
pub fn clock() -> [u32; NT] { let e = eng(); e.th[e.cur].cur.vc }

impl Engine {
    fn concurrent_ever(&self) -> bool { self.th[1].st != St::Unused && self.cur != 0 }
    fn ready_list(&self, awake: bool) -> ([usize; NT], usize) {
        let mut l = [0; NT];
        let mut n = 0;
        for t in 1..NT { if self.th[t].st == St::Ready && !(awake && self.th[t].yielded) { l[n] = t; n += 1; } }
        (l, n)
    }
    pub fn ready(&self) -> usize { (1..NT).filter(|t| self.th[*t].st == St::Ready).count() }
}

/// A scheduling point that isn't an access.
pub fn pause() { let was = (eng().track)(false); point(); (eng().track)(was); }
