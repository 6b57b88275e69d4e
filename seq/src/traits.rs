//! Standard traits against the plain slice: every pair of short contents over a
//! small alphabet that has equal, ordered, unordered and never-equal items, seen
//! through handles to whole and partial slices.
use crate::explore::{self, Cfg, Stats, Verdict};
use crate::util::{hist_note, Args};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Hasher that remembers everything it was given.
#[derive(Default, PartialEq, Eq, Debug)]
struct Rec(Vec<(u8, Vec<u8>)>);
macro_rules! rec { ($($f:ident $t:ty = $n:literal),*) => { $(fn $f(&mut self, x: $t) { self.0.push(($n, x.to_ne_bytes().to_vec())); })* } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.0.len() as u64 }
    fn write(&mut self, b: &[u8]) { self.0.push((0, b.to_vec())); }
    rec!(write_u8 u8 = 1, write_u16 u16 = 2, write_u32 u32 = 3, write_u64 u64 = 4, write_u128 u128 = 5, write_usize usize = 6,
         write_i8 i8 = 7, write_i16 i16 = 8, write_i32 i32 = 9, write_i64 i64 = 10, write_i128 i128 = 11, write_isize isize = 12);
}

fn rec_of<X: Hash + ?Sized>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }
fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 { let mut r = DefaultHasher::new(); x.hash(&mut r); r.finish() }

// Item types.

/// Equality across two different types, and in one direction only.
#[derive(Clone, Debug)]
pub struct A(u8);
#[derive(Clone, Debug)]
pub struct B(u8);
impl PartialEq<B> for A { fn eq(&self, o: &B) -> bool { self.0 <= o.0 } }
impl PartialEq<A> for B { fn eq(&self, o: &A) -> bool { self.0 > o.0 } }
/// Reversed order, equality blind to part of the value.
#[derive(Clone, Copy, Debug)]
pub struct Rev(u8, u8);
impl PartialEq for Rev { fn eq(&self, o: &Rev) -> bool { self.0 == o.0 } }
impl Eq for Rev {}
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Rev) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rev { fn cmp(&self, o: &Rev) -> Ordering { o.0.cmp(&self.0) } }
impl Hash for Rev { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.0 as u16); } }
/// Sized zero, equal to nothing.
#[derive(Clone, Debug)]
pub struct Never;
impl PartialEq for Never { fn eq(&self, _: &Never) -> bool { false } }
impl PartialOrd for Never { fn partial_cmp(&self, _: &Never) -> Option<Ordering> { None } }
/// Clones differ from their source, and are numbered in the order they're made.
#[derive(Debug, PartialEq, Eq)]
pub struct Gen(u8, u32);
thread_local! { static CLONES: Cell<u32> = const { Cell::new(0) }; }
impl Clone for Gen { fn clone(&self) -> Gen { CLONES.with(|c| { c.set(c.get() + 1); Gen(self.0, c.get()) }) } }

/// An iterator whose hints may be off and that may go on after its end.
struct Odd<T> { items: std::vec::IntoIter<Option<T>>, hint: (usize, Option<usize>) }
impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.items.next().flatten() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

fn contents<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for v in &last { for x in alphabet { let mut w: Vec<T> = v.clone(); w.push(x.clone()); next.push(w); } }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

struct Run<'a> { st: &'a mut Stats, c: &'a Cfg, only: Option<&'a str> }

impl Run<'_> {
    fn case(&mut self, text: String, f: impl Fn() -> Result<(), String>) -> Result<(), Verdict> {
        if matches!(self.only, Some(o) if o != text) || self.c.skip.contains(&text) { return Ok(()); }
        hist_note(&text);
        self.st.states += 1;
        self.st.transitions += 1;
        self.st.histories += 1;
        if self.st.samples.len() < 6 && self.st.states % 1997 == 300 { self.st.samples.push(text.clone()); }
        let once = || match catch_unwind(AssertUnwindSafe(&f)) {
            Ok(r) => r.err(),
            Err(e) => Some(format!("unexpected panic: {}", crate::engine::panic_text(&e))),
        };
        if let Some(e) = once() {
            if once().as_deref() != Some(&*e) { println!("ERROR not reproducible: {} in {}", e, text); std::process::exit(71); }
            return Err(Verdict::ViolationText { text, msg: e });
        }
        Ok(())
    }
}

macro_rules! want { ($a:expr, $b:expr, $($what:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, the plain slice gives {:?}", format!($($what)*), a, b)); } }} }

fn slices_debug<X: Debug + ?Sized, Y: Debug + ?Sized>(x: &X, y: &Y) -> Result<(), String> {
    want!(format!("{:?}", x), format!("{:?}", y), "{{:?}}");
    want!(format!("{:#?}", x), format!("{:#?}", y), "{{:#?}}");
    want!(format!("{:6?}", x), format!("{:6?}", y), "{{:6?}}");
    want!(format!("{:<5.1?}", x), format!("{:<5.1?}", y), "{{:<5.1?}}");
    want!(format!("{:02x?}", x), format!("{:02x?}", y), "{{:02x?}}");
    want!(format!("{:#06X?}", x), format!("{:#06X?}", y), "{{:#06X?}}");
    Ok(())
}

/// Embed a content in a larger slice, so that it can be seen through a part of it.
/// Ways: 0 whole, 1 left half, 2 right half, 3 right half of the left half.
fn embed<T: Clone>(v: &[T], pad: &T, way: usize) -> Vec<T> {
    let n = v.len();
    let mut o = vec![];
    match way {
        0 => o.extend_from_slice(v),
        1 => { o.extend_from_slice(v); for _ in 0..n + 1 { o.push(pad.clone()); } }
        2 => { for _ in 0..n { o.push(pad.clone()); } o.extend_from_slice(v); }
        _ => { for _ in 0..n { o.push(pad.clone()); } o.extend_from_slice(v); for _ in 0..2 * n + 1 { o.push(pad.clone()); } }
    }
    o
}

macro_rules! family { ($fam:ident, $name:literal, $S:ident, $M:ident) => { mod $fam {
    use super::*;
    use rc_slice::{$S as S, $M as M};
    use rc_slice::$fam as family;

    pub fn s<T: Clone>(v: &[T], pad: &T, way: usize) -> S<T> {
        let mut s = S::from_vec(embed(v, pad, way));
        match way {
            0 => s,
            1 => S::clone_left(&s),
            2 => S::split_off_right(&mut s),
            _ => { let l = S::split_off_left(&mut s); S::clone_right(&l) }
        }
    }
    pub fn m<T: Clone>(v: &[T], pad: &T, way: usize) -> M<T> {
        let mut m: M<T> = embed(v, pad, way).into();
        match way {
            0 => m,
            1 => M::split_off_left(&mut m),
            2 => { drop(M::split_off_left(&mut m)); m }
            _ => { let mut l = M::split_off_left(&mut m); M::split_off_right(&mut l) }
        }
    }

    /// How two handles compare against how their contents do.
    fn pair_partial<T: PartialOrd + Clone + Debug>(x: &[T], y: &[T], pad: &T, wx: usize, wy: usize) -> Result<(), String> {
        let same = |a: &[T], p: &[T]| a.len() == p.len();
        macro_rules! go { ($a:expr, $b:expr, $k:literal) => {{
            let (a, b) = ($a, $b);
            if !same(&a, x) || !same(&b, y) { return Err("wrong views".into()); }
            want!(a == b, x == y, "{} ==", $k);
            want!(a != b, x != y, "{} !=", $k);
            want!(a.partial_cmp(&b), x.partial_cmp(y), "{} partial_cmp", $k);
            want!(a < b, x < y, "{} <", $k);
            want!(a <= b, x <= y, "{} <=", $k);
            want!(a > b, x > y, "{} >", $k);
            want!(a >= b, x >= y, "{} >=", $k);
        }} }
        go!(s(x, pad, wx), s(y, pad, wy), "shared");
        go!(m(x, pad, wx), m(y, pad, wy), "unique");
        Ok(())
    }

    fn pair_total<T: Ord + Clone + Debug + Hash>(x: &[T], y: &[T], pad: &T, wx: usize, wy: usize) -> Result<(), String> {
        macro_rules! go { ($a:expr, $b:expr, $k:literal) => {{
            let (a, b) = ($a, $b);
            want!(a.cmp(&b), x.cmp(y), "{} cmp", $k);
            want!(rec_of(&a) == rec_of(&b), rec_of(x) == rec_of(y), "{} hash equality", $k);
            let pick = |l: bool| if l { x } else { y };
            want!(Ord::max($a, $b)[..], *pick(y.cmp(x) == Ordering::Less), "{} max", $k);
            want!(Ord::min($a, $b)[..], *pick(y.cmp(x) != Ordering::Less), "{} min", $k);
            let mut h = HashSet::new();
            h.insert(a);
            want!(h.contains(y), x == y, "{} found by hash", $k);
            want!(h.contains(&b), x == y, "{} found by hash of a handle", $k);
            let mut t = BTreeSet::new();
            t.insert($a);
            want!(t.contains(y), x.cmp(y) == Ordering::Equal, "{} found by order", $k);
        }} }
        go!(s(x, pad, wx), s(y, pad, wy), "shared");
        go!(m(x, pad, wx), m(y, pad, wy), "unique");
        Ok(())
    }

    /// Overlapping handles to one slice: whole and parts against each other.
    fn overlapping<T: PartialOrd + Clone + Debug>(x: &[T]) -> Result<(), String> {
        let w = S::from_vec(x.to_vec());
        let n = x.len();
        let l = S::clone_left(&w);
        let hs = [(w.clone(), 0..n), (w.clone(), 0..n), (S::clone_left(&l), 0..n / 2 / 2), (S::clone_right(&l), n / 2 / 2..n / 2), (l, 0..n / 2), (S::clone_right(&w), n / 2..n)];
        for (a, r) in &hs { for (b, q) in &hs {
            let (p, o) = (&x[r.clone()], &x[q.clone()]);
            want!(a == b, p == o, "{:?} == {:?}", r, q);
            want!(a != b, p != o, "{:?} != {:?}", r, q);
            want!(a.partial_cmp(b), p.partial_cmp(o), "{:?} partial_cmp {:?}", r, q);
            want!(a <= b, p <= o, "{:?} <= {:?}", r, q);
        } }
        Ok(())
    }

    fn single<T: Clone + Debug>(x: &[T], pad: &T, way: usize, eq: fn(&[T], &[T]) -> bool) -> Result<(), String> {
        let a = s(x, pad, way);
        let mut b = m(x, pad, way);
        let view = |p: &[T], what: &str| if eq(p, x) { Ok(()) } else { Err(format!("{} shows {:?}, not {:?}", what, p, x)) };
        slices_debug(&a, x)?;
        slices_debug(&b, x)?;
        let at = |p: &[T]| (p.as_ptr() as usize, p.len());
        view(&a, "Deref")?;
        view(&b, "Deref")?;
        let (ra, rb): (&[T], &[T]) = (a.as_ref(), b.as_ref());
        want!((at(ra), at(rb)), (at(&a), at(&b)), "as_ref");
        let (ra, rb): (&[T], &[T]) = (a.borrow(), b.borrow());
        want!((at(ra), at(rb)), (at(&a), at(&b)), "borrow");
        let p = at(&b);
        want!(at(&mut b[..]), p, "DerefMut");
        want!(at(b.as_mut()), p, "as_mut");
        want!(at(BorrowMut::<[T]>::borrow_mut(&mut b)), p, "borrow_mut");
        for i in 0..b.len() {
            b.as_mut()[i] = pad.clone();
            let mut plain = x.to_vec();
            plain[i] = pad.clone();
            if !eq(&b, &plain) { return Err(format!("a write through as_mut is not what is seen: {:?}", &b[..])); }
            BorrowMut::<[T]>::borrow_mut(&mut b)[i] = x[i].clone();
            if !eq(&b, x) { return Err("a write through borrow_mut is not seen".to_string()); }
            b[i] = pad.clone();
            if !eq(&b, &plain) { return Err("a write through DerefMut is not seen".to_string()); }
            b[i] = x[i].clone();
        }
        // Debug of iterators has to show what remains of them.
        let t = format!("{:?}", x);
        let i = m(x, pad, way).into_iter();
        let q = M::split_into_parts(m(x, pad, way), 2);
        let p = S::split_into_parts(s(x, pad, way), 2);
        for d in [format!("{:?}", i), format!("{:?}", q), format!("{:?}", p)] { if !d.contains(&t) { return Err(format!("an iterator over {} prints {}", t, d)); } }
        // Conversions.
        for k in 0..9usize {
            let n = x.len();
            let odd = |lo, hi, more: bool| {
                let mut v: Vec<Option<T>> = x.iter().cloned().map(Some).collect();
                if more { v.push(None); v.push(Some(pad.clone())); v.push(Some(pad.clone())); }
                Odd { items: v.into_iter(), hint: (lo, hi) }
            };
            let src = || -> Box<dyn Iterator<Item = T>> { match k {
                2 => Box::new(x.to_vec().into_iter()),
                3 => Box::new(odd(0, None, false)),
                4 => Box::new(odd(n, Some(n), true)),
                5 => Box::new(odd(n / 2, Some(n), false)),
                6 => Box::new(odd(0, Some(0), false)),
                7 => Box::new(odd(n + 3, Some(n + 3), true)),
                _ => Box::new(odd(n, None, true)),
            } };
            let (a, b): (S<T>, M<T>) = match k {
                0 => (x.to_vec().into(), x.to_vec().into()),
                1 => (x.to_vec().into_boxed_slice().into(), x.to_vec().into_boxed_slice().into()),
                _ => (src().collect(), src().collect()),
            };
            view(&a, &format!("conversion {} to shared", k))?;
            view(&b, &format!("conversion {} to unique", k))?;
        }
        let mut spare = Vec::with_capacity(x.len() + 5);
        spare.extend_from_slice(x);
        view(&S::from(spare.clone()), "From<Vec>")?;
        view(&M::from(spare), "From<Vec>")?;
        // Between the kinds.
        let z = S::from(m(x, pad, way));
        view(&z, "shared from unique")?;
        let keep = z.clone();
        use std::convert::TryFrom;
        match M::try_from(z) { Ok(_) => return Err("try_from succeeded with another handle around".into()), Err(back) => view(&back, "handle given back")? }
        match M::try_from(keep) { Ok(u) => { view(&u, "unique from shared")?; let v: Vec<T> = u.into_iter().collect(); view(&v, "collected")?; } Err(_) => return Err("try_from failed without another handle".into()) }
        let e: (S<T>, M<T>) = (Vec::new().into(), Vec::new().into());
        if !e.0.is_empty() || !e.1.is_empty() { return Err("empty conversion".into()); }
        Ok(())
    }

    fn deep(x: &[u8], way: usize) -> Result<(), String> {
        let mk = |x: &[u8]| x.iter().map(|b| Gen(*b, 0)).collect::<Vec<_>>();
        let pad = Gen(9, 0);
        let mut src = m(&mk(x), &pad, way);
        for g in src.iter_mut() { g.1 = 0; }
        CLONES.with(|c| c.set(0));
        let mut c = src.clone();
        let got: Vec<_> = c.iter().map(|g| (g.0, g.1)).collect();
        let want: Vec<_> = x.iter().enumerate().map(|(i, b)| (*b, i as u32 + 1)).collect();
        want!(got, want, "deep clone");
        if CLONES.with(|k| k.get()) as usize != x.len() { return Err("deep clone clones too much".into()); }
        let again = c.clone();
        for g in c.iter_mut() { g.0 = 77; }
        if src.iter().map(|g| g.0).ne(x.iter().copied()) { return Err("a write through the clone reaches the source".into()); }
        for g in src.iter_mut() { g.0 = 88; }
        if c.iter().any(|g| g.0 != 77) { return Err("a write through the source reaches the clone".into()); }
        drop(src);
        if c.iter().any(|g| g.0 != 77) || c.len() != x.len() { return Err("dropping the source changes the clone".into()); }
        drop(c);
        want!(again.iter().map(|g| g.0).collect::<Vec<_>>()[..], *x, "clone of the clone");
        if !x.is_empty() {
            let k = S::from(again);
            let _other = k.clone();
        }
        Ok(())
    }

    fn hashes<T: Clone + Hash>(x: &[T], pad: &T, way: usize) -> Result<(), String> {
        let (a, b) = (s(x, pad, way), m(x, pad, way));
        want!(rec_of(&a), rec_of(x), "hash of shared");
        want!(rec_of(&b), rec_of(x), "hash of unique");
        want!((hash_of(&a), hash_of(&b)), (hash_of(x), hash_of(x)), "hash");
        want!(rec_of(&(&a, 1u8)), rec_of(&(x, 1u8)), "hash in a tuple");
        Ok(())
    }

    fn mixed<X: Clone + PartialEq<Y> + Debug, Y: Clone + Debug>(x: &[X], y: &[Y], px: &X, py: &Y, wx: usize, wy: usize) -> Result<(), String> {
        let (a, b) = (s(x, px, wx), s(y, py, wy));
        want!(a == b, x == y, "shared == across types");
        want!(a != b, x != y, "shared != across types");
        let (a, b) = (m(x, px, wx), m(y, py, wy));
        want!(a == b, x == y, "unique == across types");
        want!(a != b, x != y, "unique != across types");
        Ok(())
    }

    #[allow(unused)]
    fn names() { let _ = std::mem::size_of::<family::WeakSlice<u8>>(); }

    pub fn all(r: &mut Run, max: usize) -> Result<(), Verdict> {
        macro_rules! pairs { ($t:ty, $alpha:expr, $pad:expr, $max:expr, $f:ident, $label:literal) => {{
            let alpha: Vec<$t> = $alpha;
            let cs = contents(&alpha, $max);
            let pad: $t = $pad;
            for x in &cs { for y in &cs { for wx in 0..4 { for wy in 0..4 {
                if x.len() + y.len() > 4 && (wx != 0 || wy != 0) && wx != wy { continue; }
                r.case(format!("{} {} {} {:?}/{} {:?}/{}", $name, stringify!($f), $label, x, wx, y, wy), || $f(x, y, &pad, wx, wy))?;
            } } } }
        }} }
        macro_rules! singles { ($t:ty, $alpha:expr, $max:expr, $label:literal, |$x:ident, $w:ident| $e:expr) => {{
            let alpha: Vec<$t> = $alpha;
            for $x in &contents(&alpha, $max) { for $w in 0..4usize { r.case(format!("{} {} {:?}/{}", $name, $label, $x, $w), || $e)?; } }
        }} }
        let nan = f32::NAN;
        pairs!(f32, vec![nan, 0.0, -0.0, 1.0], 7.0, max, pair_partial, "f32");
        pairs!(u8, vec![0, 1, 255], 7, max, pair_partial, "u8");
        pairs!(Never, vec![Never], Never, max + 2, pair_partial, "unequal zst");
        pairs!((), vec![()], (), max + 2, pair_total, "zst");
        pairs!(u8, vec![0, 1, 255], 1, max, pair_total, "u8");
        pairs!(i16, vec![-1, 0, 256], 1, max, pair_total, "i16");
        pairs!(Rev, vec![Rev(0, 0), Rev(0, 1), Rev(1, 0)], Rev(0, 9), max, pair_total, "rev");
        pairs!(String, vec!["".into(), "a".into(), "aa".into()], "a".into(), max.min(2), pair_total, "String");
        pairs!(Vec<u8>, vec![vec![], vec![0]], vec![1], max.min(3), pair_total, "Vec");
        singles!(f32, vec![nan, 0.0, -0.0, 1.0], max + 2, "overlapping f32", |x, _w| overlapping(x));
        singles!(u8, vec![0, 1], max + 3, "overlapping u8", |x, _w| overlapping(x));
        singles!(Never, vec![Never], 9, "overlapping unequal zst", |x, _w| overlapping(x));
        let bits = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits());
        singles!(f32, vec![nan, -0.0, 1.25], max + 1, "single f32", |x, w| single(x, &7.0, w, bits));
        singles!(u8, vec![0, 10, 255], max + 2, "single u8", |x, w| single(x, &7, w, |a, b| a == b));
        singles!(String, vec!["".into(), "a\"b".into(), "x\ny".into()], max + 1, "single String", |x, w| single(x, &"pad".to_string(), w, |a, b| a == b));
        singles!((), vec![()], max + 5, "single zst", |x, w| single(x, &(), w, |a, b| a == b));
        singles!(u8, vec![0, 1, 2], max + 2, "deep", |x, w| deep(x, w));
        singles!(u8, vec![0, 1, 255], max + 2, "hash u8", |x, w| hashes(x, &7, w));
        singles!(i64, vec![-1, 0, 1], max + 1, "hash i64", |x, w| hashes(x, &7, w));
        singles!(String, vec!["".into(), "a".into()], max + 1, "hash String", |x, w| hashes(x, &"z".to_string(), w));
        singles!((), vec![()], max + 5, "hash zst", |x, w| hashes(x, &(), w));
        singles!(Rev, vec![Rev(0, 0), Rev(1, 1)], max + 2, "hash rev", |x, w| hashes(x, &Rev(9, 9), w));
        singles!(Vec<u8>, vec![vec![], vec![0]], max + 1, "hash Vec", |x, w| hashes(x, &vec![1], w));
        // Longer contents, by where they first differ.
        for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129] { for at in 0..=n { for kind in 0..4u8 { for w in 0..4usize {
            let x: Vec<u8> = (0..n).map(|i| (i % 251) as u8 + 1).collect();
            let mut y = x.clone();
            match kind {
                0 => if at < n { y[at] += 1; if at + 1 < n { y[at + 1] = 0; } },
                1 => if at < n { y[at] = 0; y[n - 1] = y[n - 1].wrapping_add(2); },
                2 => y.truncate(at),
                _ => y.insert(at, 3),
            }
            r.case(format!("{} long u8 n={} at={} kind={} way={}", $name, n, at, kind, w), || {
                pair_total(&x, &y, &7, w, 3 - w)?;
                pair_partial(&x, &y, &7, w, (w + 1) % 4)?;
                if at != 0 { return Ok(()); }
                hashes(&y, &7, w)?;
                single(&y, &0, w, |a, b| a == b)?;
                overlapping(&y)?;
                deep(&y, w)
            })?;
        } } } }
        for x in &contents(&[0u8, 1, 2], max) { for y in &contents(&[0u8, 1, 2], max) { for (wx, wy) in [(0, 0), (1, 0), (0, 2), (3, 3), (2, 1)] {
            let (xa, yb): (Vec<A>, Vec<B>) = (x.iter().map(|v| A(*v)).collect(), y.iter().map(|v| B(*v)).collect());
            r.case(format!("{} mixed A B {:?}/{} {:?}/{}", $name, x, wx, y, wy), || mixed(&xa, &yb, &A(9), &B(9), wx, wy))?;
            r.case(format!("{} mixed B A {:?}/{} {:?}/{}", $name, x, wx, y, wy), || {
                let (xb, ya): (Vec<B>, Vec<A>) = (x.iter().map(|v| B(*v)).collect(), y.iter().map(|v| A(*v)).collect());
                mixed(&xb, &ya, &B(9), &A(9), wx, wy)
            })?;
            let (xs, ys): (Vec<String>, Vec<&str>) = (x.iter().map(|v| v.to_string()).collect(), y.iter().map(|v| ["0", "1", "2"][*v as usize]).collect());
            r.case(format!("{} mixed String str {:?}/{} {:?}/{}", $name, x, wx, y, wy), || mixed(&xs, &ys, &"p".to_string(), &"p", wx, wy))?;
        } } }
        Ok(())
    }
} } }

family!(rc, "rc", RcSlice, RcSliceMut);
family!(arc, "arc", ArcSlice, ArcSliceMut);

pub fn traits(c: &Cfg, a: &Args) -> (Stats, Verdict) {
    let mut st = explore::new_stats();
    st.complete = true;
    st.max_depth = a.num("maxlen", 3);
    let max = a.num("maxlen", 3);
    let mut r = Run { st: &mut st, c, only: a.get("single") };
    let v = if a.get("fam") == Some("arc") { arc::all(&mut r, max) } else { rc::all(&mut r, max) };
    match v { Ok(()) => (st, Verdict::Ok), Err(v) => (st, v) }
}
