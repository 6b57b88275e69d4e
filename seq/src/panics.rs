//! User code that panics inside iterator adaptors, collecting, and the comparing,
//! hashing and formatting traits: at every call it makes, one by one.
use crate::alloc::{self, tracked};
use crate::explore::{self, Cfg, Stats, Verdict};
use crate::fam::{ArcFam, Fam, RcFam};
use crate::items::{log, user_call, Call, Heap, Item, Life, Tracked, Wide, Zst};
use crate::util::Args;
use crate::walk::{adapt, adaptors, case, ids_of, vec_of, Ad, Only};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What has to hold after everything is gone: nothing destroyed twice, all memory
/// freed. `leaks`: how many items may be lost.
fn after<T: Item>(leaks: bool) -> Result<(), String> {
    if let Some(e) = log().error.clone() { return Err(e); }
    if let Some(e) = alloc::check_all() { return Err(e.into()); }
    if !leaks {
        if T::IDENT { for i in 0..log().next_id as usize { if log().life[i] != Life::Dead { return Err(format!("item {} never destroyed", i)); } } }
        else if log().zst_made != log().zst_dropped { return Err("items not all destroyed".into()); }
    }
    if alloc::live().0 > 0 && !(leaks && T::NAME == "heap") { return Err(format!("{} blocks leaked", alloc::live().0)); }
    Ok(())
}

/// Run with a panic at the j-th call of user code. Whether it panicked.
fn with_panic(j: u64, f: impl FnOnce()) -> Result<bool, String> {
    log().calls = 0;
    log().panicked = false;
    log().panic_at = j;
    let r = catch_unwind(AssertUnwindSafe(|| tracked(f)));
    log().panic_at = 0;
    match r {
        Ok(()) => Ok(log().panicked),
        Err(e) => {
            let msg = crate::engine::panic_text(&e);
            tracked(|| drop(e));
            if log().panicked { Ok(true) } else { Err(format!("unexpected panic: {}", msg)) }
        }
    }
}

/// Iterators whose items' destructors panic while an adaptor runs, next to a handle
/// that has to survive.
fn adaptor_faults<F: Fam, T: Item>(c: &Cfg, st: &mut Stats, only: &Only, maxlen: usize) -> Result<(), Verdict> {
    for which in ['I', 'Q', 'P'] {
        for n in 0..=maxlen {
            for parts in [1usize, 2, 4] {
                if which == 'I' && parts > 1 { continue; }
                let count = if which == 'I' { n } else { parts };
                for f in 0..=count.min(2) {
                    for b in 0..=(count - f).min(1) {
                        for ad in adaptors(count - f - b) {
                            // rustc leaks a return value if a destructor panics after it's been
                            // built (rust-lang/rust#47949), and with it whatever the std adaptor holds.
                            if which != 'I' && ad == Ad::Last { continue; }
                            let mut j = 1;
                            loop {
                                let text = format!("adapt {} n={} parts={} f={} b={} {:?} panic@{}", which, n, parts, f, b, ad, j);
                                if only.skip(&text) { if j > 40 { break; } j += 1; continue; }
                                let more = std::cell::Cell::new(false);
                                case(&text, st, c, || {
                                    // The left half survives; the right half is iterated.
                                    let mut whole = tracked(|| F::m_from_vec(vec_of::<T>(2 * n)));
                                    let right = tracked(|| F::m_split_right(&mut whole));
                                    let keep = whole;
                                    let ids = ids_of(&keep);
                                    let did = with_panic(j, || {
                                        macro_rules! eat { ($it:expr) => {{
                                            let mut it = $it;
                                            for _ in 0..f { drop(it.next()); }
                                            for _ in 0..b { drop(it.next_back()); }
                                            drop(adapt(it, ad));
                                        }} }
                                        match which {
                                            'I' => eat!(right.into_iter()),
                                            'P' => eat!(F::s_parts(F::into_immut(right), parts)),
                                            _ => eat!(F::m_parts(right, parts)),
                                        }
                                    })?;
                                    more.set(did);
                                    if did { log().drops.clear(); }
                                    if let Some(e) = log().error.clone() { return Err(e); }
                                    if ids_of(&keep) != ids { return Err("the surviving handle no longer shows its items".to_string()); }
                                    if T::IDENT && T::TRACKED { for i in &ids { if log().life[*i as usize] != Life::Alive { return Err("an item of the surviving handle was destroyed".into()); } } }
                                    let z = tracked(|| F::into_immut(keep));
                                    let z2 = tracked(|| F::clone_right(&z));
                                    if ids_of(&z2)[..] != ids[n / 2..] { return Err("the surviving handle splits wrongly".into()); }
                                    tracked(|| { drop(z); drop(z2); });
                                    after::<T>(did)
                                })?;
                                st.points += 1;
                                if !more.get() { break; }
                                st.faults += 1;
                                j += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

struct Failing<T> { left: usize, hint: (usize, Option<usize>), t: std::marker::PhantomData<T> }
impl<T: Item> Iterator for Failing<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { user_call(Call::Next, 0); if self.left == 0 { None } else { self.left -= 1; Some(T::make()) } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

macro_rules! family { ($fam:ident, $S:ident, $M:ident, $F:ident) => { mod $fam {
    use super::*;
    use rc_slice::{$S as S, $M as M};

    pub fn all<T: Item + Ord + std::hash::Hash + std::fmt::Debug>(c: &Cfg, st: &mut Stats, only: &Only, maxlen: usize) -> Result<(), Verdict> {
        adaptor_faults::<$F, T>(c, st, only, maxlen)?;
        for n in 0..=maxlen {
            // Collecting from an iterator that panics.
            for hint in 0..4usize { for unique in [false, true] { for j in 1..=n as u64 + 1 {
                let text = format!("collect n={} hint={} unique={} panic@{}", n, hint, unique, j);
                if only.skip(&text) { continue; }
                st.faults += 1;
                case(&text, st, c, || {
                    let h = [(n, Some(n)), (0, None), (n + 2, None), (0, Some(0))][hint];
                    let did = with_panic(j, || {
                        let it = Failing::<T> { left: n, hint: h, t: std::marker::PhantomData };
                        if unique { drop(it.collect::<M<T>>()) } else { drop(it.collect::<S<T>>()) }
                    })?;
                    if !did { return Err("the panic got lost".to_string()); }
                    after::<T>(true)
                })?;
            } } }
            // Closures that panic while consuming: every item is destroyed all the same.
            for way in 0..4usize { for at in 0..n {
                let text = format!("closure n={} way={} at={}", n, way, at);
                if only.skip(&text) { continue; }
                st.faults += 1;
                case(&text, st, c, || {
                    let r = catch_unwind(AssertUnwindSafe(|| tracked(|| {
                        let it = M::from_vec(vec_of::<T>(n)).into_iter();
                        let mut k = 0;
                        let mut hit = |_: &T| { if k == at { log().panicked = true; panic!("injected"); } k += 1; };
                        match way {
                            0 => it.for_each(|x| hit(&x)),
                            1 => drop(it.map(|x| { hit(&x); x }).collect::<Vec<_>>()),
                            2 => it.rev().for_each(|x| hit(&x)),
                            _ => { let mut it = it; while let Some(x) = it.next_back() { hit(&x); it.next(); } if at * 2 >= n { hit_end() } }
                        }
                    })));
                    match r { Ok(()) => return Err("the panic got lost".to_string()), Err(e) => tracked(|| drop(e)) }
                    after::<T>(false)
                })?;
            } }
            // The comparing, hashing and formatting traits.
            for what in 0..9usize { for unique in [false, true] {
                let mut j = 1;
                loop {
                    let text = format!("trait {} n={} unique={} panic@{}", what, n, unique, j);
                    if only.skip(&text) { if j > 40 { break; } j += 1; continue; }
                    let more = std::cell::Cell::new(false);
                    case(&text, st, c, || {
                        macro_rules! go { ($a:expr, $b:expr) => {{
                            let (a, b) = tracked(|| ($a, $b));
                            let (ia, ib) = (ids_of(&a), ids_of(&b));
                            let did = with_panic(j, || {
                                use std::hash::{Hash, Hasher};
                                use std::fmt::Write;
                                struct Null;
                                impl Write for Null { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
                                match what {
                                    0 => { std::hint::black_box(a == b); }
                                    1 => { std::hint::black_box(a != b); }
                                    2 => { std::hint::black_box(a.partial_cmp(&b)); }
                                    3 => { std::hint::black_box(a < b); }
                                    4 => { std::hint::black_box(a >= b); }
                                    5 => { std::hint::black_box(a.cmp(&b)); }
                                    6 => { let mut h = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut h); std::hint::black_box(h.finish()); }
                                    7 => { let _ = write!(Null, "{:?}", a); }
                                    _ => { let _ = write!(Null, "{:#?}", b); }
                                }
                            })?;
                            more.set(did);
                            if ids_of(&a) != ia || ids_of(&b) != ib { return Err("a handle no longer shows its items".to_string()); }
                            tracked(|| { drop(a); drop(b); });
                            after::<T>(false)
                        }} }
                        if unique { go!(M::from_vec(vec_of::<T>(n)), M::from_vec(vec_of::<T>(n))) } else { go!(S::from_vec(vec_of::<T>(n)), S::from_vec(vec_of::<T>(n))) }
                    })?;
                    st.points += 1;
                    if !more.get() { break; }
                    st.faults += 1;
                    j += 1;
                }
            } }
        }
        Ok(())
    }
} } }
fn hit_end() { log().panicked = true; panic!("injected"); }
family!(rc, RcSlice, RcSliceMut, RcFam);
family!(arc, ArcSlice, ArcSliceMut, ArcFam);

pub fn panics(c: &Cfg, a: &Args) -> (Stats, Verdict) {
    let mut st = explore::new_stats();
    st.complete = true;
    let only = Only(a.get("single"));
    let n = a.num("maxlen", 4);
    macro_rules! go { ($t:ty) => { if a.get("fam") == Some("arc") { arc::all::<$t>(c, &mut st, &only, n) } else { rc::all::<$t>(c, &mut st, &only, n) } } }
    let v = match a.get("item").unwrap_or("tracked") {
        "tracked" => go!(Tracked),
        "aligned64" => go!(Wide),
        "heap" => go!(Heap),
        "zst" => go!(Zst),
        x => panic!("item {} not supported here", x),
    };
    match v { Ok(()) => (st, Verdict::Ok), Err(v) => (st, v) }
}
