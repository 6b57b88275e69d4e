//! Performs given operation histories on the real library, under Miri. There is no
//! oracle but Miri itself: whatever the library hands out is read and written in
//! full, so that anything wrong with it is undefined behaviour here.
#[path = "../../seq/src/fam.rs"]
mod fam;
mod items;

use fam::{ArcFam, Fam, RcFam};
use items::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum R<F: Fam, T: Item> {
    S(F::S<T>), W(F::W<T>), M(F::M<T>), I(F::I<T>), P(F::P<T>), Q(F::Q<T>),
}

/// Look at up to `CAP` items from both ends: huge slices only hold zero-sized ones.
const CAP: usize = 64;

fn read<T: Item>(s: &[T]) -> u64 {
    let (n, mut i, mut sum) = (s.len(), 0, 0u64);
    while i < n {
        if i == CAP && n > 2 * CAP { i = n - CAP; }
        sum = sum.wrapping_add(s[i].read());
        i += 1;
    }
    sum
}

fn write<T: Item>(s: &mut [T]) {
    let (n, mut i) = (s.len(), 0);
    while i < n {
        if i == CAP && n > 2 * CAP { i = n - CAP; }
        s[i].write();
        i += 1;
    }
}

struct Sys<F: Fam, T: Item> { rs: Vec<Option<R<F, T>>>, sum: u64 }

impl<F: Fam, T: Item> Sys<F, T> {
    fn start(n: usize, how: &str) -> Self {
        let spare = how.ends_with("Spare");
        let zst = std::mem::size_of::<T>() == 0;
        let v: Vec<T> = if zst {
            let mut v = Vec::new();
            // SAFETY: zero-sized items without invariants.
            unsafe { v.set_len(n) };
            v
        } else {
            let mut v = Vec::with_capacity(if spare { n + 3 } else { n });
            for i in 0..n { v.push(T::make(i as u32)); }
            v
        };
        let r = match how {
            "SVec" | "SSpare" => R::S(F::s_from_vec(v)),
            "SBox" => R::S(F::s_from_box(v.into_boxed_slice())),
            "SCollect" => R::S(F::s_collect(v)),
            "MVec" | "MSpare" => R::M(F::m_from_vec(v)),
            "MBox" => R::M(F::m_from_box(v.into_boxed_slice())),
            "MCollect" => R::M(F::m_collect(v)),
            x => panic!("bad start {}", x),
        };
        Sys { rs: vec![Some(r)], sum: 0 }
    }

    fn access(&mut self, i: usize) {
        match &mut self.rs[i] {
            None | Some(R::W(_)) => {}
            Some(R::S(s)) => { self.sum = self.sum.wrapping_add(read(s)); }
            Some(R::P(p)) => { self.sum = self.sum.wrapping_add(read(F::p_slice(p))); }
            Some(R::M(m)) => { self.sum = self.sum.wrapping_add(read(m)); write(m); }
            Some(R::I(x)) => { self.sum = self.sum.wrapping_add(read(F::i_slice(x))); write(F::i_slice_mut(x)); }
            Some(R::Q(q)) => { self.sum = self.sum.wrapping_add(read(F::q_slice(q))); write(F::q_slice_mut(q)); }
        }
    }

    fn access_next(&mut self) {
        let mut i = 0;
        while i < self.rs.len() {
            if self.rs[i].is_some() { self.access(i); return; }
            i += 1;
        }
    }

    fn access_each(&mut self) {
        let n = self.rs.len();
        let mut i = 0;
        while i < n { self.access(i); i += 1; }
    }

    /// Hold what all handles give out at once, then use all of it.
    fn access_all(&mut self) {
        let n = self.rs.len();
        let mut held: Vec<Result<&mut [T], &[T]>> = Vec::with_capacity(n);
        let mut rs = &mut self.rs[..];
        while let Some((r, rest)) = rs.split_first_mut() {
            match r {
                None | Some(R::W(_)) => {}
                Some(R::S(s)) => held.push(Err(&**s)),
                Some(R::P(p)) => held.push(Err(F::p_slice(p))),
                Some(R::M(m)) => held.push(Ok(&mut **m)),
                Some(R::I(x)) => held.push(Ok(F::i_slice_mut(x))),
                Some(R::Q(q)) => held.push(Ok(F::q_slice_mut(q))),
            }
            rs = rest;
        }
        let mut i = 0;
        while i < held.len() {
            match &mut held[i] { Ok(m) => write(m), Err(s) => { self.sum = self.sum.wrapping_add(read(s)); } }
            i += 1;
        }
        // What was looked at first is still good.
        if let Some(h) = held.first_mut() { match h { Ok(m) => write(m), Err(s) => { self.sum = self.sum.wrapping_add(read(s)); } } }
    }

    /// The results of an operation go to the end, as in the sequential engine.
    fn op(&mut self, name: u8, slot: usize, arg: usize) {
        if name == b'w' { self.rs.push(Some(R::W(F::w_new()))); return; }
        if slot >= self.rs.len() { return; }
        let Some(r) = self.rs[slot].take() else { return };
        let mut new = None;
        let mut item = None;
        let back = match (r, name) {
            (r, b'x') => { drop(r); None }
            (R::S(mut s), _) => match name {
                b'c' => { new = Some(R::S(s.clone())); Some(R::S(s)) }
                b'l' => { new = Some(R::S(F::clone_left(&s))); Some(R::S(s)) }
                b'r' => { new = Some(R::S(F::clone_right(&s))); Some(R::S(s)) }
                b'L' => { new = Some(R::S(F::split_left(&mut s))); Some(R::S(s)) }
                b'R' => { new = Some(R::S(F::split_right(&mut s))); Some(R::S(s)) }
                b'd' => { new = Some(R::W(F::downgrade(&s))); Some(R::S(s)) }
                b'g' => { if let Some(m) = F::get_mut(&mut s) { self.sum = self.sum.wrapping_add(read(m)); write(m); } Some(R::S(s)) }
                b'm' => Some(match F::into_mut(s) { Ok(m) => R::M(m), Err(s) => R::S(s) }),
                b'p' => Some(R::P(F::s_parts(s, arg))),
                _ => Some(R::S(s)),
            },
            (R::W(w), _) => {
                match name {
                    b'c' => new = Some(R::W(w.clone())),
                    b'u' => new = F::upgrade(&w).map(R::S),
                    _ => {}
                }
                Some(R::W(w))
            }
            (R::M(mut m), _) => match name {
                b'L' => { new = Some(R::M(F::m_split_left(&mut m))); Some(R::M(m)) }
                b'R' => { new = Some(R::M(F::m_split_right(&mut m))); Some(R::M(m)) }
                b'i' => Some(R::S(F::into_immut(m))),
                b'I' => Some(R::I(m.into_iter())),
                b'p' => Some(R::Q(F::m_parts(m, arg))),
                b'D' => { new = Some(R::M(F::m_clone(&m))); Some(R::M(m)) }
                _ => Some(R::M(m)),
            },
            (R::I(mut i), _) => {
                match name {
                    b'n' => item = i.next(),
                    b'b' => item = i.next_back(),
                    b'f' => new = Some(R::I(F::i_split_from(&mut i, arg))),
                    b't' => new = Some(R::I(F::i_split_to(&mut i, arg))),
                    _ => {}
                }
                Some(R::I(i))
            }
            (R::P(mut p), _) => {
                match name {
                    b'n' => new = p.next().map(R::S),
                    b'b' => new = p.next_back().map(R::S),
                    b'c' => new = Some(R::P(p.clone())),
                    _ => {}
                }
                Some(R::P(p))
            }
            (R::Q(mut q), _) => {
                match name {
                    b'n' => new = q.next().map(R::M),
                    b'b' => new = q.next_back().map(R::M),
                    _ => {}
                }
                Some(R::Q(q))
            }
        };
        self.rs[slot] = back;
        if let Some(n) = new { self.rs.push(Some(n)); }
        if let Some(mut x) = item {
            self.sum = self.sum.wrapping_add(x.read());
            x.write();
            // It's ours: use it next to what's left.
            self.access_each();
            self.sum = self.sum.wrapping_add(x.read());
        }
    }
}


/// Histories are written as three bytes per operation: what, on which handle, with
/// which argument; the latter two counting from '0'. (Miri is slow at parsing.)
fn run<F: Fam, T: Item>(n: usize, start: &str, panic_at: u32, hist: &[u8]) -> u64 {
    CALLS.with(|c| c.set(0));
    PANIC_AT.with(|c| c.set(panic_at));
    let mut s = Sys::<F, T>::start(n, start);
    let len = hist.len() / 3;
    s.access_each();
    let mut at = 0;
    while at < len {
        let (name, slot, arg) = (hist[3 * at], (hist[3 * at + 1] - b'0') as usize, (hist[3 * at + 2] - b'0') as usize);
        at += 1;
        // Only invalid arguments and injected panics make operations panic.
        if catch_unwind(AssertUnwindSafe(|| s.op(name, slot, arg))).is_err() { continue; }
        s.access_each();
    }
    s.access_all();
    // Let everything go, looking at the rest every time.
    let k = s.rs.len();
    let mut i = 0;
    while i < k {
        let at = if len % 2 == 1 { k - 1 - i } else { i };
        i += 1;
        let r = s.rs[at].take();
        if r.is_some() {
            let _ = catch_unwind(AssertUnwindSafe(|| drop(r)));
            s.access_next();
        }
    }
    s.sum
}

struct Job<'a> { fam: &'a str, item: &'a str, n: usize, start: &'a str, panic_at: u32 }

fn by_item<F: Fam>(j: &Job, hist: &[u8]) -> u64 {
    let (n, start, p) = (j.n, j.start, j.panic_at);
    match j.item {
        "heap" => run::<F, Heap>(n, start, p, hist),
        "odd3" => run::<F, Odd>(n, start, p, hist),
        "word" => run::<F, Word>(n, start, p, hist),
        "large" => run::<F, Large>(n, start, p, hist),
        "aligned64" => run::<F, Wide>(n, start, p, hist),
        "zst" => run::<F, Zst>(n, start, p, hist),
        "zst_aligned32" => run::<F, ZstWide>(n, start, p, hist),
        "zst_plain" => run::<F, ZstPlain>(n, start, p, hist),
        x => panic!("unknown item type {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // FAMILY ITEM N START PANIC_AT FILE FROM TO: run those lines of the file, saying which.
    let a: Vec<String> = std::env::args().collect();
    let j = Job { fam: &a[1], item: &a[2], n: a[3].parse().unwrap(), start: &a[4], panic_at: a[5].parse().unwrap() };
    let text = std::fs::read(&a[6]).unwrap();
    // (Going through the Vec would have Miri remember a reference per byte.)
    let text: &[u8] = &text;
    let mut out = std::fs::File::create(&a[9]).unwrap();
    let (from, to): (usize, usize) = (a[7].parse().unwrap(), a[8].parse().unwrap());
    let (mut line, mut pos, mut count) = (0, 0, 0u64);
    while pos < text.len() && line < to {
        let mut end = pos;
        while text[end] != b'\n' { end += 1; }
        if line >= from {
            say(&mut out, line);
            let h = &text[pos..end];
            match j.fam {
                "rc" => by_item::<RcFam>(&j, h),
                "arc" => by_item::<ArcFam>(&j, h),
                x => panic!("unknown family {}", x),
            };
            count += 1;
        }
        pos = end + 1;
        line += 1;
    }
    println!("DONE {}", count);
}

/// Eight hexadecimal digits and a newline.
fn say(out: &mut std::fs::File, n: usize) {
    let mut b = *b"AT 00000000\n";
    let mut i = 0;
    while i < 8 { b[10 - i] = b"0123456789abcdef"[(n >> (4 * i)) & 15]; i += 1; }
    let _ = out.write_all(&b);
}
