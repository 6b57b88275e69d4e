//! Self-test of the scheduler and its memory: small programs whose possible
//! outcomes under the C11 memory model are known. An outcome too few or too many
//! is an error.
use rt::atomic::{fence, AtomicU32, Ordering::{self, *}};
use rt::engine;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::cell::RefCell;

type Out = Rc<RefCell<Vec<u32>>>;

fn outcomes(run: impl Fn(&Out)) -> (BTreeSet<Vec<u32>>, u64) {
    let mut all = BTreeSet::new();
    let mut n = 0;
    engine::forget();
    loop {
        engine::begin();
        let o: Out = Rc::new(RefCell::new(vec![]));
        run(&o);
        if !engine::eng().pruned { all.insert(o.borrow().clone()); }
        n += 1;
        if !engine::next_path() { break }
    }
    (all, n)
}

fn a() -> Rc<AtomicU32> { Rc::new(AtomicU32::new(0)) }
macro_rules! go { ($($v:ident),*; $e:expr) => { { $(let $v = $v.clone();)* let f: Box<Box<dyn FnOnce()>> = Box::new(Box::new(move || $e)); engine::spawn(boxed, Box::into_raw(f) as usize) } } }

fn boxed(a: usize) { let f = unsafe { Box::from_raw(a as *mut Box<dyn FnOnce()>) }; f() }

fn sb(w: Ordering, r: Ordering, f: Option<Ordering>) -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let (x, y) = (a(), a());
        o.borrow_mut().resize(2, 9);
        go!(x, y, o; { x.store(1, w); if let Some(f) = f { fence(f) } let v = y.load(r); o.borrow_mut()[0] = v });
        go!(x, y, o; { y.store(1, w); if let Some(f) = f { fence(f) } let v = x.load(r); o.borrow_mut()[1] = v });
        engine::join_all();
    }).0
}

fn mp(w: Ordering, r: Ordering, fw: bool, fr: bool) -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let (x, y) = (a(), a());
        o.borrow_mut().resize(2, 9);
        go!(x, y; { x.store(1, Relaxed); if fw { fence(Release) } y.store(1, w) });
        go!(x, y, o; { let f = y.load(r); if fr { fence(Acquire) } let v = x.load(Relaxed); *o.borrow_mut() = vec![f, v] });
        engine::join_all();
    }).0
}

fn chain(rmw: Ordering, plain: bool) -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let (x, y) = (a(), a());
        *o.borrow_mut() = vec![9, 9];
        go!(x, y; { x.store(1, Relaxed); y.store(1, Release) });
        go!(y; { if plain { if y.load(Relaxed) == 1 { y.store(2, rmw) } } else { let _ = y.compare_exchange(1, 2, rmw, Relaxed); } });
        go!(x, y, o; { let f = y.load(Acquire); let v = x.load(Relaxed); *o.borrow_mut() = vec![f, v] });
        engine::join_all();
    }).0
}

fn iriw(w: Ordering, r: Ordering) -> BTreeSet<Vec<u32>> {
    // Three threads at most: the first writer is one of the readers' parent.
    outcomes(|o| {
        let (x, y) = (a(), a());
        o.borrow_mut().resize(3, 9);
        go!(x; x.store(1, w));
        go!(x, y, o; { let v = x.load(r); y.store(1, w); o.borrow_mut()[0] = v });
        go!(x, y, o; { let v = y.load(r); let u = x.load(r); o.borrow_mut()[1] = v; o.borrow_mut()[2] = u });
        engine::join_all();
    }).0
}

fn corr() -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let x = a();
        go!(x; { x.store(1, Relaxed); x.store(2, Relaxed) });
        go!(x, o; { let p = x.load(Relaxed); let q = x.load(Relaxed); *o.borrow_mut() = vec![p, q] });
        engine::join_all();
    }).0
}

fn incs() -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let x = a();
        for _ in 0..3 { go!(x; { x.fetch_add(1, Relaxed); x.fetch_add(1, Relaxed); }) }
        engine::join_all();
        o.borrow_mut().push(x.load(Relaxed));
    }).0
}

fn lost() -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let x = a();
        for _ in 0..2 { go!(x; { let v = x.load(Relaxed); x.store(v + 1, Relaxed); }) }
        engine::join_all();
        o.borrow_mut().push(x.load(Relaxed));
    }).0
}

fn spin() -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let (x, l) = (a(), a());
        for _ in 0..3 {
            go!(x, l; {
                while l.swap(1, Acquire) == 1 { rt::atomic::spin_loop_hint() }
                let v = x.load(Relaxed);
                x.store(v + 1, Relaxed);
                l.store(0, Release);
            })
        }
        engine::join_all();
        o.borrow_mut().push(x.load(Relaxed));
    }).0
}

fn busy() -> BTreeSet<Vec<u32>> {
    // Waits without saying so.
    outcomes(|o| {
        let (x, l) = (a(), a());
        go!(x, l; { x.store(7, Relaxed); l.store(1, Release) });
        go!(x, l, o; { while l.load(Acquire) == 0 {} let v = x.load(Relaxed); o.borrow_mut().push(v) });
        engine::join_all();
    }).0
}

thread_local! { static FAILED: RefCell<u32> = RefCell::new(0); }

/// Programs with plain data: whether they have races.
fn race(kind: usize) -> BTreeSet<Vec<u32>> {
    outcomes(|o| {
        let y = a();
        let c = engine::new_cell();
        let (w, r) = match kind { 0 => (Release, Acquire), 1 => (Relaxed, Acquire), 2 => (Release, Relaxed), _ => (Relaxed, Relaxed) };
        go!(y; { engine::try_write_cell(c); if kind >= 3 { fence(Release) } y.store(1, w) });
        go!(y, o; { if y.load(r) == 1 { if kind >= 3 { fence(Acquire) } o.borrow_mut().push(engine::try_write_cell(c) as u32) } });
        engine::join_all();
    }).0
}

pub fn run() -> Result<String, String> {
    engine::init();
    let e = engine::eng();
    let mut n = 0;
    let mut expect = |name: &str, got: BTreeSet<Vec<u32>>, want: &[&[u32]]| -> Result<(), String> {
        n += 1;
        let want: BTreeSet<Vec<u32>> = want.iter().map(|w| w.to_vec()).collect();
        if got == want { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", name, got, want)) }
    };
    let all4: &[&[u32]] = &[&[0, 0], &[0, 1], &[1, 0], &[1, 1]];
    for (b, prune) in [(3, false), (9, false), (3, true), (9, true)] {
        e.bound = b;
        e.stale_bound = b;
        e.prune = prune;
        expect("SB relaxed", sb(Relaxed, Relaxed, None), all4)?;
        expect("SB release/acquire", sb(Release, Acquire, None), all4)?;
        expect("SB seqcst", sb(SeqCst, SeqCst, None), &all4[1..])?;
        expect("SB seqcst fences", sb(Relaxed, Relaxed, Some(SeqCst)), &all4[1..])?;
        expect("SB acqrel fences", sb(Relaxed, Relaxed, Some(AcqRel)), all4)?;
        expect("MP release/acquire", mp(Release, Acquire, false, false), &[&[0, 0], &[0, 1], &[1, 1]])?;
        expect("MP seqcst", mp(SeqCst, SeqCst, false, false), &[&[0, 0], &[0, 1], &[1, 1]])?;
        expect("MP fences", mp(Relaxed, Relaxed, true, true), &[&[0, 0], &[0, 1], &[1, 1]])?;
        expect("MP fence/acquire", mp(Relaxed, Acquire, true, false), &[&[0, 0], &[0, 1], &[1, 1]])?;
        expect("MP release/fence", mp(Release, Relaxed, false, true), &[&[0, 0], &[0, 1], &[1, 1]])?;
        expect("MP relaxed store", mp(Relaxed, Acquire, false, false), all4)?;
        expect("MP relaxed load", mp(Release, Relaxed, false, false), all4)?;
        expect("MP fence, relaxed load", mp(Relaxed, Relaxed, true, false), all4)?;
        expect("release sequence", chain(Relaxed, false), &[&[0, 0], &[0, 1], &[1, 1], &[2, 1]])?;
        expect("no release sequence", chain(Relaxed, true), &[&[0, 0], &[0, 1], &[1, 1], &[2, 0], &[2, 1]])?;
        expect("cumulativity", iriw(Release, Acquire), &[&[0, 0, 0], &[0, 0, 1], &[0, 1, 0], &[0, 1, 1], &[1, 0, 0], &[1, 0, 1], &[1, 1, 1]])?;
        expect("no cumulativity", iriw(Relaxed, Relaxed), &[&[0, 0, 0], &[0, 0, 1], &[0, 1, 0], &[0, 1, 1], &[1, 0, 0], &[1, 0, 1], &[1, 1, 0], &[1, 1, 1]])?;
        expect("coherence", corr(), &[&[0, 0], &[0, 1], &[0, 2], &[1, 1], &[1, 2], &[2, 2]])?;
        expect("atomic increments", incs(), &[&[6]])?;
        expect("lost update", lost(), &[&[1], &[2]])?;
        if b == 3 {
            expect("lock", spin(), &[&[3]])?;
        }
        expect("busy waiting", busy(), &[&[7]])?;
        expect("race: release/acquire", race(0), &[&[], &[1]])?;
        expect("race: relaxed store", race(1), &[&[], &[0]])?;
        expect("race: relaxed load", race(2), &[&[], &[0]])?;
        expect("race: fences", race(3), &[&[], &[1]])?;
    }
    Ok(format!("{} litmus programs", n))
}
