//! Complete walks over iterators: every interleaving of both ends, clones and
//! drops at every point, adaptors that consume the iterator, extreme sizes.
use crate::alloc::{self, tracked};
use crate::engine::{hist_text, parse_hist, Op, Start, K};
use crate::explore::{self, Cfg, Stats, Verdict};
use crate::fam::Fam;
use crate::items::{self, log, Item, Life, Peek};
use crate::model::{rng_leaves, Rng};
use crate::util::hist_note;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn op(k: K, slot: usize, arg: usize) -> Op { Op { k, slot: slot as u8, arg: arg as u8 } }

struct W<'a> { c: &'a Cfg, st: &'a mut Stats }

impl<'a> W<'a> {
    fn go<F: Fam, T: Item>(&mut self, h: &[Op]) -> Result<(), Verdict> {
        let ht = hist_text(h);
        let text = format!("ops n={} {}", self.c.n, ht);
        if self.c.skip.contains(&text) { return Ok(()); }
        hist_note(&text);
        self.st.transitions += h.len() as u64;
        self.st.states += 1;
        self.st.max_depth = self.st.max_depth.max(h.len());
        if self.st.samples.len() < 3 && self.st.states % 401 == 200 { self.st.samples.push(format!("n={} {}", self.c.n, ht)); }
        if let Err((f, hh, m)) = explore::run::<F, T>(self.c, h, true, self.st) {
            match explore::run::<F, T>(self.c, h, true, self.st) {
                Err((g, _, _)) if g.cat == f.cat && g.msg == f.msg => {}
                _ => { println!("ERROR not reproducible: {} after {}", f.msg, ht); std::process::exit(71); }
            }
            if explore::attributed(&self.c.prop, &f, &hh, &m) { return Err(Verdict::ViolationText { text, msg: format!("{:?}: {}", f.cat, f.msg) }); }
            self.st.unattributed += 1;
            if self.st.unattributed_sample.is_empty() { self.st.unattributed_sample = format!("{:?}: {} after {}", f.cat, f.msg, hist_text(&hh)); }
        }
        Ok(())
    }
}

/// Append steps that consume an iterator by a pattern. Yielded handles get fresh slots.
fn consume(h: &mut Vec<Op>, slots: &mut usize, slot: usize, seq: &[bool], keep: bool) {
    for b in seq {
        h.push(op(if *b { K::Back } else { K::Next }, slot, 0));
        if !keep { h.push(op(K::Drop, *slots, 0)); }
        *slots += 1;
    }
}

fn pattern(kind: usize, n: usize) -> Vec<bool> {
    (0..n).map(|i| match kind { 0 => false, 1 => true, 2 => i % 2 == 1, _ => i % 2 == 0 }).collect()
}

fn all_seqs(n: usize) -> impl Iterator<Item = Vec<bool>> {
    (0u32..1 << n).map(move |m| (0..n).map(|i| m >> i & 1 == 1).collect())
}

/// Shared parts.
fn walk_p<F: Fam, T: Item>(w: &mut W, parts: usize, full: bool) -> Result<(), Verdict> {
    let p = op(K::Parts, 0, parts);
    let end = [op(K::Next, 0, 0), op(K::Back, 0, 0)];
    if full {
        // Every interleaving of both ends.
        for seq in all_seqs(parts) {
            for keep in [true, false] {
                let (mut h, mut slots) = (vec![p], 1);
                consume(&mut h, &mut slots, 0, &seq, keep);
                h.extend(end);
                w.go::<F, T>(&h)?;
            }
        }
    }
    for f in 0..=parts {
        for b in 0..=parts - f {
            let rest = parts - f - b;
            // Get there, then drop it or go on with a clone.
            for order in 0..2 {
                let mut pre = vec![order == 1; if order == 0 { f } else { b }];
                pre.extend(vec![order == 0; if order == 0 { b } else { f }]);
                for keep in [true, false] {
                    let (mut h, mut slots) = (vec![p], 1);
                    consume(&mut h, &mut slots, 0, &pre, keep);
                    h.push(op(K::Drop, 0, 0));
                    w.go::<F, T>(&h)?;
                    h.pop();
                    h.push(op(K::Clone, 0, 0));
                    let cl = slots;
                    slots += 1;
                    for pat in 0..4 {
                        if rest < 2 && pat > 1 { continue; }
                        for pat2 in 0..2 {
                            // The clone first, then the original; and the other way around.
                            for first in 0..2 {
                                let (mut h, mut slots) = (h.clone(), slots);
                                let order = if first == 0 { [cl, 0] } else { [0, cl] };
                                consume(&mut h, &mut slots, order[0], &pattern(pat, rest), keep);
                                consume(&mut h, &mut slots, order[1], &pattern(pat2, rest), keep);
                                h.push(op(K::Next, cl, 0));
                                h.push(op(K::Back, cl, 0));
                                h.extend(end);
                                w.go::<F, T>(&h)?;
                                if parts > 8 { break; }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Unique parts and items.
fn walk_q<F: Fam, T: Item>(w: &mut W, first: Op, count: usize, full: bool) -> Result<(), Verdict> {
    let end = [op(K::Next, 0, 0), op(K::Back, 0, 0)];
    let items = first.k == K::IntoIter;
    let eat = |h: &mut Vec<Op>, slots: &mut usize, slot: usize, seq: &[bool], keep: bool| {
        if items { for b in seq { h.push(op(if *b { K::Back } else { K::Next }, slot, 0)); } } else { consume(h, slots, slot, seq, keep) }
    };
    if full {
        for seq in all_seqs(count) {
            for keep in [true, false] {
                let (mut h, mut slots) = (vec![first], 1);
                eat(&mut h, &mut slots, 0, &seq, keep);
                h.extend(end);
                w.go::<F, T>(&h)?;
                if items { break; }
            }
        }
    }
    for f in 0..=count {
        for b in 0..=count - f {
            let rest = count - f - b;
            for order in 0..2 {
                let mut pre = vec![order == 1; if order == 0 { f } else { b }];
                pre.extend(vec![order == 0; if order == 0 { b } else { f }]);
                for pat in 0..4 {
                    let (mut h, mut slots) = (vec![first], 1);
                    eat(&mut h, &mut slots, 0, &pre, true);
                    if pat == 0 { h.push(op(K::Drop, 0, 0)); w.go::<F, T>(&h)?; h.pop(); }
                    eat(&mut h, &mut slots, 0, &pattern(pat, rest), false);
                    h.extend(end);
                    w.go::<F, T>(&h)?;
                }
                if !items { continue; }
                // Split the rest at every index, and a part of it again.
                for k in [K::From, K::To] {
                    for at in 0..=rest + 1 {
                        let mut h = vec![first];
                        eat(&mut h, &mut 0, 0, &pre, true);
                        h.push(op(k, 0, at));
                        let (mine, other) = if at > rest { (rest, 0) } else if k == K::From { (at, rest - at) } else { (rest - at, at) };
                        if at <= rest {
                            for at2 in 0..=other {
                                for k2 in [K::From, K::To] {
                                    let mut h = h.clone();
                                    h.push(op(k2, 1, at2));
                                    h.push(op(K::Drop, 1, 0));
                                    h.push(op(K::Next, 2, 0));
                                    h.push(op(K::Back, 0, 0));
                                    w.go::<F, T>(&h)?;
                                }
                            }
                            eat(&mut h, &mut 0, 1, &pattern(1, other + 1), true);
                        }
                        eat(&mut h, &mut 0, 0, &pattern(2, mine + 1), true);
                        w.go::<F, T>(&h)?;
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- adaptors, on iterators directly

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ad { Count, Last, Nth(usize), NthBack(usize), Rev, Collect, Fold, Rfold, Skip(usize), StepBy(usize), Peek, Find(usize), ByRef(usize), Max }

pub fn adaptors(n: usize) -> Vec<Ad> {
    let mut v = vec![Ad::Count, Ad::Last, Ad::Rev, Ad::Collect, Ad::Fold, Ad::Rfold, Ad::Peek, Ad::Max];
    for i in 0..=n + 1 { v.extend([Ad::Nth(i), Ad::NthBack(i), Ad::Skip(i), Ad::Find(i), Ad::ByRef(i)]); }
    for i in 1..=n.max(1) { v.push(Ad::StepBy(i)); }
    v
}

/// Apply an adaptor to the iterator, and the same one to the expected sequence.
pub fn adapt<I: DoubleEndedIterator + ExactSizeIterator>(it: I, ad: Ad) -> (Option<usize>, Vec<I::Item>) {
    let mut it = it;
    match ad {
        Ad::Count => (Some(it.count()), vec![]),
        Ad::Last => (None, it.last().into_iter().collect()),
        Ad::Nth(k) => { let mut v: Vec<_> = it.nth(k).into_iter().collect(); let n = it.len(); v.extend(it); (Some(n), v) }
        Ad::NthBack(k) => { let mut v: Vec<_> = it.nth_back(k).into_iter().collect(); let n = it.len(); v.extend(it); (Some(n), v) }
        Ad::Rev => (None, it.rev().collect()),
        Ad::Collect => (None, it.collect()),
        Ad::Fold => (None, it.fold(vec![], |mut v, x| { v.push(x); v })),
        Ad::Rfold => (None, it.rfold(vec![], |mut v, x| { v.push(x); v })),
        Ad::Skip(k) => { let s = it.skip(k); (Some(s.len()), s.collect()) }
        Ad::StepBy(k) => { let s = it.step_by(k); (Some(s.len()), s.collect()) }
        Ad::Peek => { let mut p = it.peekable(); let some = p.peek().is_some(); (Some(some as usize), p.collect()) }
        Ad::Find(k) => { let mut i = 0; let mut v: Vec<_> = it.find(|_| { i += 1; i > k }).into_iter().collect(); let n = it.len(); v.extend(it.next_back()); drop(it); (Some(n), v) }
        Ad::ByRef(k) => { let mut v: Vec<_> = it.by_ref().take(k).collect(); let n = it.len(); v.extend(it.rev()); (Some(n), v) }
        Ad::Max => { let (a, b) = it.size_hint(); assert_eq!(Some(a), b); (Some(a), it.enumerate().map(|(_, x)| x).collect()) }
    }
}

pub fn ids_of<T: Item>(s: &[T]) -> Vec<u32> {
    s.iter().map(|x| match x.peek() { Peek::Item(i, _) => i, Peek::Zst => 0, Peek::Garbage => u32::MAX }).collect()
}

pub fn vec_of<T: Item>(n: usize) -> Vec<T> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(T::make()); } v }

fn end_check<T: Item>(made: usize) -> Result<(), String> {
    if let Some(e) = log().error.clone() { return Err(e); }
    if let Some(e) = alloc::check_all() { return Err(e.into()); }
    if T::TRACKED && T::IDENT { for i in 0..made { if log().life[i] != Life::Dead { return Err(format!("item {} never destroyed", i)); } } }
    if T::TRACKED && !T::IDENT && log().zst_made != log().zst_dropped { return Err("items not all destroyed".into()); }
    let (b, _) = alloc::live();
    if b > 0 { return Err(format!("{} blocks leaked", b)); }
    Ok(())
}

/// Run one case on fresh logs.
pub fn case<R>(text: &str, st: &mut Stats, c: &Cfg, f: impl Fn() -> Result<R, String>) -> Result<(), Verdict> {
    if c.skip.contains(text) { return Ok(()); }
    hist_note(text);
    st.states += 1;
    st.transitions += 1;
    st.histories += 1;
    let once = || {
        items::reset();
        alloc::reset();
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        alloc::track(false);
        match r {
            Ok(Ok(_)) => None,
            Ok(Err(e)) => Some(e),
            Err(e) => { let m = crate::engine::panic_text(&e); std::mem::forget(e); Some(format!("unexpected panic: {}", m)) }
        }
    };
    if st.samples.len() < 6 && st.states % 997 == 300 { st.samples.push(text.to_string()); }
    if let Some(e) = once() {
        if once().as_deref() != Some(&*e) { println!("ERROR not reproducible: {} in {}", e, text); std::process::exit(71); }
        return Err(Verdict::ViolationText { text: text.to_string(), msg: e });
    }
    Ok(())
}

pub struct Only<'a>(pub Option<&'a str>);
impl Only<'_> { pub fn skip(&self, t: &str) -> bool { matches!(self.0, Some(o) if o != t) } }

fn adaptor_walk<F: Fam, T: Item>(c: &Cfg, st: &mut Stats, which: char, n: usize, parts: usize, only: &Only) -> Result<(), Verdict> {
    let rg = Rng { arena: 0, lo: 0, hi: n as u16 };
    let expect: Vec<Vec<u32>> = match which {
        'I' => (0..n).map(|i| vec![if T::IDENT { i as u32 } else { 0 }]).collect(),
        _ => rng_leaves(rg, parts).into_iter().map(|r| (r.lo..r.hi).map(|i| if T::IDENT { i as u32 } else { 0 }).collect()).collect(),
    };
    let count = expect.len();
    for f in 0..=count {
        for b in 0..=count - f {
            for ad in adaptors(count - f - b) {
                let text = format!("adapt {} n={} parts={} f={} b={} {:?}", which, n, parts, f, b, ad);
                if only.skip(&text) { continue; }
                case(&text, st, c, || {
                    let want: Vec<Vec<u32>> = expect[f..count - b].to_vec();
                    let (wn, wv) = adapt(want.into_iter(), ad);
                    let (gn, gv) = tracked(|| {
                        macro_rules! eat { ($it:expr, $ids:expr) => {{
                            let mut it = $it;
                            for _ in 0..f { drop(it.next()); }
                            for _ in 0..b { drop(it.next_back()); }
                            let (n, v) = adapt(it, ad);
                            let ids: Vec<Vec<u32>> = alloc::untracked(|| v.iter().map($ids).collect());
                            drop(v);
                            (n, ids)
                        }}; }
                        match which {
                            'I' => eat!(F::m_from_vec(vec_of::<T>(n)).into_iter(), |x| ids_of(std::slice::from_ref(x))),
                            'P' => eat!(F::s_parts(F::s_from_vec(vec_of::<T>(n)), parts), |s| ids_of(s)),
                            _ => eat!(F::m_parts(F::m_from_vec(vec_of::<T>(n)), parts), |s| ids_of(s)),
                        }
                    });
                    if gn != wn || gv != wv { return Err(format!("gave {:?} {:?} instead of {:?} {:?}", gn, gv, wn, wv)); }
                    end_check::<T>(n)
                })?;
            }
        }
    }
    Ok(())
}

/// The range of a leaf, by its index, for any power of two.
fn leaf(n: usize, log2: u32, i: usize) -> (usize, usize) {
    let (mut lo, mut len) = (0usize, n);
    for d in (0..log2).rev() {
        if i >> d & 1 == 0 { len /= 2 } else { lo += len / 2; len -= len / 2 }
    }
    (lo, len)
}

fn extreme<F: Fam, T: Item>(c: &Cfg, st: &mut Stats, which: char, only: &Only) -> Result<(), Verdict> {
    for n in (0..=6usize).chain([33, 100, 255]) {
        for log2 in [5u32, 6, 7, 10, 16, 20, 31, 32, 33, 47, 62, 63] {
            let parts = 1usize << log2;
            for m in 0..64u32 {
                let seq: Vec<bool> = (0..6).map(|i| m >> i & 1 == 1).collect();
                let text = format!("huge {} n={} parts=2^{} {:?}", which, n, log2, seq.iter().map(|b| if *b { 'b' } else { 'f' }).collect::<String>());
                if only.skip(&text) { continue; }
                case(&text, st, c, || {
                    tracked(|| -> Result<(), String> {
                        macro_rules! eat { ($it:expr, $slice:path) => {{
                            let mut it = $it;
                            let (mut f, mut b) = (0, 0);
                            for back in &seq {
                                let i = if *back { b += 1; parts - b } else { f += 1; f - 1 };
                                let got = if *back { it.next_back() } else { it.next() };
                                let (lo, len) = leaf(n, log2, i);
                                let ok = match &got {
                                    Some(s) => s.len() == len && (!T::IDENT || alloc::untracked(|| ids_of(s) == (lo as u32..(lo + len) as u32).collect::<Vec<_>>())),
                                    None => false,
                                };
                                if !ok { return Err(alloc::untracked(|| format!("part {} is wrong", i))); }
                                let left = parts - f - b;
                                let rest: usize = {
                                    let lo = leaf(n, log2, f).0;
                                    let last = leaf(n, log2, parts - 1 - b);
                                    last.0 + last.1 - lo
                                };
                                if it.len() != left || it.size_hint() != (left, Some(left)) || $slice(&it).len() != rest { return Err("remaining length is wrong".into()); }
                            }
                            Ok(())
                        }}; }
                        if which == 'P' { eat!(F::s_parts(F::s_from_vec(vec_of::<T>(n)), parts), F::p_slice) } else { eat!(F::m_parts(F::m_from_vec(vec_of::<T>(n)), parts), F::q_slice) }
                    })?;
                    end_check::<T>(n)
                })?;
            }
        }
        for bad in [0usize, 3, 5, 6, 7, 9, 10, 12, 15, 24, 100, 255, 257, 1023, (1 << 31) + 1, usize::MAX, (1 << 63) + 1, usize::MAX - 1, 3 << 62] {
            for others in 0..3 {
                let text = format!("bad {} n={} parts={} others={}", which, n, bad, others);
                if only.skip(&text) { continue; }
                case(&text, st, c, || {
                    let r = catch_unwind(AssertUnwindSafe(|| tracked(|| if which == 'P' {
                        let s = F::s_from_vec(vec_of::<T>(n));
                        let o = match others { 0 => None, 1 => Some(s.clone()), _ => Some(F::clone_right(&s)) };
                        let r = catch_unwind(AssertUnwindSafe(|| drop(F::s_parts(s, bad)))).is_ok();
                        if let Some(o) = &o {
                            let want: Vec<u32> = (if others == 2 { n / 2 } else { 0 } as u32..n as u32).map(|i| if T::IDENT { i } else { 0 }).collect();
                            if n != 1 && ids_of(&o[..]) != want { return Err("another handle was damaged".to_string()); }
                        }
                        drop(o);
                        Ok(r)
                    } else {
                        let m = F::m_from_vec(vec_of::<T>(n));
                        Ok(catch_unwind(AssertUnwindSafe(|| drop(F::m_parts(m, bad)))).is_ok())
                    })));
                    match r {
                        Ok(Ok(true)) => return Err("an invalid part count was accepted".into()),
                        Ok(Ok(false)) => {}
                        Ok(Err(e)) => return Err(e),
                        Err(_) => return Err("panicked twice".into()),
                    }
                    end_check::<T>(n)
                })?;
            }
        }
    }
    Ok(())
}

/// Slices of zero-sized items of any length at all.
fn huge_zst<F: Fam>(c: &Cfg, st: &mut Stats, which: char, only: &Only) -> Result<(), Verdict> {
    let lens = [usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, isize::MAX as usize - 1, (1 << 32) + 1];
    fn units(n: usize) -> Vec<()> { let mut v: Vec<()> = Vec::new(); unsafe { v.set_len(n) }; v }
    for n in lens {
        for log2 in [0u32, 1, 2, 3, 20, 63] {
            for m in 0..16u32 {
                let text = format!("zst {} n={} parts=2^{} {}", which, n, log2, m);
                if only.skip(&text) { continue; }
                case(&text, st, c, || {
                    let parts = 1usize << log2;
                    macro_rules! eat { ($it:expr, $slice:path) => {{
                        let mut it = $it;
                        let (mut f, mut b, mut gone) = (0, 0, 0usize);
                        for k in 0..4 {
                            if f + b == parts { if it.next().is_some() || it.next_back().is_some() { return Err("yields too much".to_string()); } break; }
                            let back = m >> k & 1 == 1;
                            let i = if back { b += 1; parts - b } else { f += 1; f - 1 };
                            let got = if back { it.next_back() } else { it.next() };
                            let len = leaf(n, log2, i).1;
                            if got.map(|s| s.len()) != Some(len) { return Err(format!("part {} is wrong", i)); }
                            gone += len;
                            if $slice(&it).len() != n - gone || it.len() != parts - f - b { return Err("remaining length is wrong".to_string()); }
                        }
                        Ok(())
                    }}; }
                    if which == 'P' { eat!(F::s_parts(F::s_from_vec(units(n)), parts), F::p_slice) } else { eat!(F::m_parts(F::m_from_vec(units(n)), parts), F::q_slice) }
                })?;
            }
        }
        if which == 'P' { continue; }
        for at in [0, 1, 2, n / 2, n - 1, n] {
            for m in 0..16 {
                let text = format!("zstiter n={} at={} {}", n, at, m);
                if only.skip(&text) { continue; }
                case(&text, st, c, || {
                    let mut it = F::m_from_vec(units(n)).into_iter();
                    let mut left = n;
                    for k in 0..2 { if m >> k & 1 == 1 { it.next(); } else { it.next_back(); } left -= 1; if it.len() != left || F::i_slice(&it).len() != left { return Err("remaining length is wrong".to_string()); } }
                    let at = at.min(left);
                    let (a, b) = if m & 4 == 0 { let o = F::i_split_from(&mut it, at); (o.len(), left - at) } else { let o = F::i_split_to(&mut it, at); (o.len(), at) };
                    if a != b || it.len() != left - b { return Err(format!("split at {} of {} gave {} and {}", at, left, it.len(), a)); }
                    let l = it.len();
                    let x = if m & 8 == 0 { it.next() } else { it.next_back() };
                    if x.is_some() != (l > 0) { return Err("yields wrongly".into()); }
                    Ok(())
                })?;
            }
        }
        let text = format!("zstsplit n={}", n);
        if only.skip(&text) { continue; }
        case(&text, st, c, || {
            let mut m = F::m_from_vec(units(n));
            let l = F::m_split_left(&mut m);
            if l.len() != n / 2 || m.len() != n - n / 2 { return Err("split_off_left is wrong".to_string()); }
            let r = F::m_split_right(&mut m);
            if m.len() != (n - n / 2) / 2 || r.len() != (n - n / 2) - m.len() { return Err("split_off_right is wrong".into()); }
            let s = F::into_immut(r);
            let (a, b) = (F::clone_left(&s), F::clone_right(&s));
            if a.len() != s.len() / 2 || b.len() != s.len() - s.len() / 2 { return Err("clones are wrong".into()); }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn walk<F: Fam, T: Item>(c: &Cfg, which: char, maxlen: usize, maxparts: usize, single: Option<&str>) -> (Stats, Verdict) {
    let mut st = explore::new_stats();
    st.complete = true;
    let v = walk_all::<F, T>(c, which, maxlen, maxparts, single, &mut st);
    match v { Ok(()) => (st, Verdict::Ok), Err(v) => (st, v) }
}

fn walk_all<F: Fam, T: Item>(c: &Cfg, which: char, maxlen: usize, maxparts: usize, single: Option<&str>, st: &mut Stats) -> Result<(), Verdict> {
    let only = Only(single);
    let mut c2 = c.clone();
    c2.probe = false;
    c2.start = if which == 'P' { Start::SVec } else { Start::MVec };
    if let Some(t) = single.and_then(|t| t.strip_prefix("ops n=")) {
        let (n, h) = t.split_once(' ').expect("bad case");
        c2.n = n.parse().expect("bad length");
        let h = parse_hist(h);
        explore::replay::<F, T>(&c2, &hist_text(&h));
        return W { c: &c2, st }.go::<F, T>(&h);
    }
    for n in 0..=maxlen {
        c2.n = n;
        if single.is_none() {
            let mut w = W { c: &c2, st };
            match which {
                'I' => walk_q::<F, T>(&mut w, op(K::IntoIter, 0, 0), n, n <= 10)?,
                'P' => { let mut p = 1; while p <= maxparts { if p < 16 || n % 4 < 2 { walk_p::<F, T>(&mut w, p, p <= 8)?; } p *= 2; } }
                _ => { let mut p = 1; while p <= maxparts { walk_q::<F, T>(&mut w, op(K::Parts, 0, p), p, p <= 8)?; p *= 2; } }
            }
        }
        if which == 'I' { if n <= 9 { adaptor_walk::<F, T>(c, st, which, n, 1, &only)?; } }
        else { for p in [1, 2, 4, 8] { if p <= maxparts { adaptor_walk::<F, T>(c, st, which, n, p, &only)?; } } }
    }
    if which != 'I' { extreme::<F, T>(c, st, which, &only)?; }
    huge_zst::<F>(c, st, which, &only)?;
    Ok(())
}
