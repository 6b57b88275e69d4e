//! Transitions during which user code (destructors, clones) misbehaves: it panics,
//! or it uses other handles of the library while the operation is still running.
use crate::alloc::{self, tracked};
use crate::engine::{hist_text, parse_hist, Cat, Fail, Op, Sys, K, R};
use crate::explore::{enabled, probes, Cfg};
use crate::fam::Fam;
use crate::items::{log, Call, Item, Life};
use crate::model::{Rng, H, lin};
use crate::util::{beat, hist_note};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault { None, Panic(u64), Reenter(u64, Op) }

impl Fault {
    pub fn text(&self) -> String {
        match self {
            Fault::None => "-".into(),
            Fault::Panic(j) => format!("panic@{}", j),
            Fault::Reenter(j, op) => format!("reenter@{}:{}", j, op.text()),
        }
    }
    pub fn parse(s: &str) -> Fault {
        if let Some(j) = s.strip_prefix("panic@") { return Fault::Panic(j.parse().unwrap()); }
        if let Some(r) = s.strip_prefix("reenter@") {
            let (j, op) = r.split_once(':').unwrap();
            return Fault::Reenter(j.parse().unwrap(), Op::parse(op).unwrap());
        }
        Fault::None
    }
}

static mut CUR: *mut () = std::ptr::null_mut();
static mut NESTED: Option<(u64, Op)> = None;
static mut NESTED_FAIL: Option<Fail> = None;
static mut NESTED_RAN: bool = false;
static mut CALLS: u64 = 0;

fn hook<F: Fam, T: Item>(_: Call, _: u32) {
    unsafe {
        CALLS += 1;
        let Some((j, op)) = NESTED else { return };
        if CALLS != j { return; }
        NESTED = None;
        NESTED_RAN = true;
        let on = alloc::track(false);
        let sys = CUR as *mut Sys<F, T>;
        if let Err(f) = (*sys).nested(op) { NESTED_FAIL = Some(f); }
        alloc::track(on);
    }
}

/// Perform the op with user code interfering. Only through a raw pointer, because
/// the user code gets at the same system.
unsafe fn faulty_step<F: Fam, T: Item>(sys: *mut Sys<F, T>, op: Op, fault: Fault) -> Result<u64, Fail> {
    let slot = op.slot as usize;
    {
        let l = log();
        l.drops.clear();
        l.n_drops = 0;
        l.n_clones = 0;
        l.clones.clear();
        l.calls = 0;
        l.panicked = false;
        l.panic_at = if let Fault::Panic(j) = fault { j } else { 0 };
        l.hook = Some(hook::<F, T>);
    }
    CALLS = 0;
    CUR = sys as *mut ();
    NESTED = if let Fault::Reenter(j, op) = fault { Some((j, op)) } else { None };
    NESTED_FAIL = None;
    NESTED_RAN = false;
    let kind = (&(*sys).m.hs)[slot].as_ref().unwrap().kind();
    let mut made = None;
    let res = match op.k {
        K::Drop => {
            let r = (&mut (*sys).rs)[slot].take().unwrap();
            (&mut (*sys).m.hs)[slot] = None;
            catch_unwind(AssertUnwindSafe(|| tracked(|| drop(r))))
        }
        K::Deep => {
            // Taken out, so that the user code can't get at it.
            let Some(R::M(m)) = (&mut (*sys).rs)[slot].take() else { unreachable!() };
            let h = (&mut (*sys).m.hs)[slot].take().unwrap();
            let res = catch_unwind(AssertUnwindSafe(|| tracked(|| F::m_clone(&m))));
            (&mut (*sys).rs)[slot] = Some(R::M(m));
            (&mut (*sys).m.hs)[slot] = Some(h);
            res.map(|c| { made = Some(c); })
        }
        _ => unreachable!(),
    };
    let calls = CALLS;
    {
        let l = log();
        l.hook = None;
        l.panic_at = 0;
    }
    NESTED = None;
    let s = &mut *sys;
    let put = |mut f: Fail| { f.op_kind = kind; f };
    let mk = |cat, msg: String| Err(Fail { cat, msg, lin: 0, view_kind: ' ', op_kind: kind });
    if let Some(f) = (*std::ptr::addr_of_mut!(NESTED_FAIL)).take() {
        if let Some(c) = made { std::mem::forget(c); }
        return Err(put(f));
    }
    let panicked = res.is_err();
    if let Err(e) = res {
        let msg = crate::engine::panic_text(&e);
        drop(e);
        if !log().panicked { return mk(Cat::Panic, format!("unexpected panic: {}", msg)); }
    }
    if let Some(c) = made {
        // A deep clone that went through.
        if let Some(H::M(r)) = s.m.hs[slot].clone() {
            let src: Vec<_> = s.m.arenas[r.arena as usize].items[r.lo as usize..r.hi as usize].to_vec();
            if T::TRACKED && log().n_clones != src.len() { std::mem::forget(c); return mk(Cat::Unique, "deep clone cloned a wrong number of items".into()); }
            let ids = src.iter().enumerate().map(|(i, it)| if T::IDENT && T::TRACKED { log().clones[i].1 } else { it.id }).collect();
            let n = src.len();
            let ptr = c.as_ptr() as usize;
            let arena = s.add_arena(ids, src.iter().map(|i| i.val).collect(), ptr);
            s.add(R::M(c), H::M(Rng { arena, lo: 0, hi: n as u16 }), lin::DEEP);
        }
    }
    if panicked {
        // The items that this operation was about may be lost, but no others, and
        // never twice.
        if let Some(e) = log().error.clone() { return mk(Cat::Items, e); }
        for (a, i) in s.m.uncovered_alive() {
            let it = &mut s.m.arenas[a as usize].items[i as usize];
            it.alive = false;
            if T::IDENT && T::TRACKED && log().life[it.id as usize] == Life::Alive { s.lost.push(it.id); }
        }
        // Clones made before the panic are destroyed by it, or lost.
        if T::IDENT && T::TRACKED {
            let known: Vec<u32> = s.m.arenas.iter().flat_map(|a| a.items.iter().map(|i| i.id)).collect();
            for id in 0..log().next_id {
                if !known.contains(&id) && log().life[id as usize] == Life::Alive { s.lost.push(id); }
            }
        }
        log().drops.clear();
        log().n_drops = 0;
        s.had_panic = true;
    }
    s.check().map_err(put)?;
    Ok(calls)
}

pub struct Outcome { pub calls: u64, pub nested_ran: bool }

/// Run a history whose last op meets the fault, then the probes, then let go of everything.
pub fn run<F: Fam, T: Item>(c: &Cfg, hist: &[Op], fault: Fault, verbose: bool) -> Result<Outcome, Fail> {
    beat();
    let mut sys = Box::new(Sys::<F, T>::new());
    let p: *mut Sys<F, T> = &mut *sys;
    let r = unsafe { run_in(p, c, hist, fault, verbose) };
    if r.is_err() { sys.abandon(); }
    r
}

unsafe fn run_in<F: Fam, T: Item>(p: *mut Sys<F, T>, c: &Cfg, hist: &[Op], fault: Fault, verbose: bool) -> Result<Outcome, Fail> {
    (*p).start(c.n, c.start)?;
    for (i, op) in hist[..hist.len() - 1].iter().enumerate() {
        if verbose { println!("{:3}. {:14} on {:?}", i + 1, op.text(), (&(*p).m.hs).get(op.slot as usize)); }
        (*p).step(*op)?;
    }
    let last = hist[hist.len() - 1];
    if verbose { println!("{:3}. {:14} on {:?} with {}", hist.len(), last.text(), (&(*p).m.hs).get(last.slot as usize), fault.text()); }
    let calls = faulty_step(p, last, fault)?;
    let nested_ran = NESTED_RAN;
    // The survivors have to be fully usable.
    let s = &mut *p;
    for op in probes(&s.m.clone()) {
        let n = s.rs.len();
        if verbose { println!("     then {}", op.text()); }
        s.step(op)?;
        for k in n..s.rs.len() { s.step(Op { k: K::Drop, slot: k as u8, arg: 0 })?; }
    }
    if verbose { println!("     then everything is dropped"); }
    s.teardown(hist.len() % 2 == 1)?;
    Ok(Outcome { calls, nested_ran })
}

#[derive(Default)]
pub struct FaultStats { pub runs: u64, pub faults: u64, pub nested_ran: u64, pub points: u64 }

/// Try every fault for one transition.
pub fn sweep<F: Fam, T: Item>(c: &Cfg, hist: &[Op], st: &mut FaultStats) -> Result<(), (String, Fail)> {
    let Some(last) = hist.last() else { return Ok(()) };
    if !matches!(last.k, K::Drop | K::Deep) { return Ok(()); }
    let go = |fault: Fault, st: &mut FaultStats| -> Result<Outcome, (String, Fail)> {
        let text = format!("{} ; {}", hist_text(hist), fault.text());
        if c.skip.contains(&text) { return Ok(Outcome { calls: 0, nested_ran: false }); }
        hist_note(&text);
        st.runs += 1;
        match run::<F, T>(c, hist, fault, false) {
            Ok(o) => Ok(o),
            Err(f) => match run::<F, T>(c, hist, fault, false) {
                Err(g) if g.msg == f.msg && g.cat == f.cat => Err((text, f)),
                _ => { println!("ERROR not reproducible: {} after {}", f.msg, text); std::process::exit(71); }
            },
        }
    };
    let base = match go(Fault::None, st) { Ok(o) => o, Err(_) => return Ok(()) };
    if base.calls == 0 { return Ok(()); }
    st.points += base.calls;
    if c.prop == "C15" {
        for j in 1..=base.calls { st.faults += 1; go(Fault::Panic(j), st)?; }
    } else {
        // The model as it is while the op runs.
        let mut sys = Sys::<F, T>::new();
        let _ = sys.start(c.n, c.start);
        for op in &hist[..hist.len() - 1] { let _ = sys.step(*op); }
        let mut m = sys.m.clone();
        m.hs[last.slot as usize] = None;
        sys.abandon();
        let mut wide = c.clone();
        wide.k = c.k + 1;
        let ops: Vec<Op> = enabled(&m, &wide).into_iter().filter(|o| o.k != K::WNew && o.k != K::Deep).collect();
        for j in 1..=base.calls {
            for op in &ops {
                st.faults += 1;
                let o = go(Fault::Reenter(j, *op), st)?;
                if o.nested_ran { st.nested_ran += 1; }
            }
        }
    }
    Ok(())
}

pub fn replay<F: Fam, T: Item>(c: &Cfg, text: &str) -> bool {
    let (h, f) = text.split_once(" ; ").expect("history ; fault");
    let hist = parse_hist(h);
    println!("start: {:?} of {} {} items ({})", c.start, c.n, T::NAME, F::NAME);
    match run::<F, T>(c, &hist, Fault::parse(f.trim()), true) {
        Ok(_) => { println!("no failure"); false }
        Err(f) => { println!("  FAILS: {:?}: {}", f.cat, f.msg); true }
    }
}
