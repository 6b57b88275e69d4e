//! std's atomics on the controlled scheduler.
use crate::engine;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
pub use std::sync::atomic::{compiler_fence, Ordering};
use Ordering::*;

pub fn fence(o: Ordering) {
    if o == Relaxed { panic!("there is no such thing as a relaxed fence") }
    engine::fence(o)
}
pub fn spin_loop_hint() { engine::yield_now() }

pub trait Word: Copy {
    fn to(self) -> u64;
    fn of(w: u64) -> Self;
}
impl Word for bool { #[inline] fn to(self) -> u64 { self as u64 } #[inline] fn of(w: u64) -> bool { w != 0 } }
impl<T> Word for *mut T { #[inline] fn to(self) -> u64 { self as u64 } #[inline] fn of(w: u64) -> *mut T { w as usize as *mut T } }

/// Not known to the scheduler before it's accessed, so that it can be made in a const.
#[repr(C)]
pub struct Atomic<V> {
    id: Cell<u32>,
    /// `plain` may have been written since the last access.
    out: Cell<bool>,
    plain: UnsafeCell<V>,
}
unsafe impl<V> Send for Atomic<V> {}
unsafe impl<V> Sync for Atomic<V> {}
impl<V> std::panic::RefUnwindSafe for Atomic<V> {}

fn strongest_failure(o: Ordering) -> Ordering {
    match o { Release | Relaxed => Relaxed, AcqRel | Acquire => Acquire, o => o }
}

impl<V: Word> Atomic<V> {
    pub const fn new(v: V) -> Self { Atomic { id: Cell::new(0), out: Cell::new(false), plain: UnsafeCell::new(v) } }
    /// Make it known right away.
    pub fn announce(&self) { self.id.set(engine::new_atom(unsafe { *self.plain.get() }.to(), self.addr(), true)); }
    #[inline]
    fn addr(&self) -> usize { self as *const _ as usize }
    #[inline]
    fn id(&self) -> u32 {
        let id = self.id.get();
        if engine::stale(id) {
            let id = engine::new_atom(unsafe { *self.plain.get() }.to(), self.addr(), false);
            self.id.set(id);
            self.out.set(false);
            return id;
        }
        engine::check(id, self.addr());
        if self.out.get() {
            self.out.set(false);
            engine::set_exclusive(id, self.addr(), unsafe { *self.plain.get() }.to());
        }
        id
    }
    /// Whether this can be used by the current thread. Not an access.
    pub fn check(&self) { engine::check(self.id.get(), self.addr()) }
    pub fn load(&self, o: Ordering) -> V {
        if matches!(o, Release | AcqRel) { panic!("there is no such thing as a release load") }
        V::of(engine::load(self.id(), self.addr(), o))
    }
    pub fn store(&self, v: V, o: Ordering) {
        if matches!(o, Acquire | AcqRel) { panic!("there is no such thing as an acquire store") }
        engine::store(self.id(), self.addr(), v.to(), o)
    }
    fn rmw(&self, o: Ordering, mut f: impl FnMut(V) -> V) -> V {
        V::of(engine::rmw(self.id(), self.addr(), o, strongest_failure(o), &mut |w| Some(f(V::of(w)).to())).unwrap_or(0))
    }
    pub fn swap(&self, v: V, o: Ordering) -> V { self.rmw(o, |_| v) }
    pub fn compare_exchange(&self, cur: V, new: V, ok: Ordering, err: Ordering) -> Result<V, V> {
        if matches!(err, Release | AcqRel) { panic!("there is no such thing as a release failure ordering") }
        engine::rmw(self.id(), self.addr(), ok, err, &mut |w| if w == cur.to() { Some(new.to()) } else { None }).map(V::of).map_err(V::of)
    }
    /// Never fails for no reason.
    pub fn compare_exchange_weak(&self, cur: V, new: V, ok: Ordering, err: Ordering) -> Result<V, V> { self.compare_exchange(cur, new, ok, err) }
    pub fn compare_and_swap(&self, cur: V, new: V, o: Ordering) -> V {
        match self.compare_exchange(cur, new, o, strongest_failure(o)) { Ok(v) => v, Err(v) => v }
    }
    pub fn fetch_update(&self, ok: Ordering, err: Ordering, mut f: impl FnMut(V) -> Option<V>) -> Result<V, V> {
        let mut prev = self.load(err);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, ok, err) { x @ Ok(_) => return x, Err(p) => prev = p }
        }
        Err(prev)
    }
    pub fn try_update(&self, ok: Ordering, err: Ordering, f: impl FnMut(V) -> Option<V>) -> Result<V, V> { self.fetch_update(ok, err, f) }
    pub fn update(&self, ok: Ordering, err: Ordering, mut f: impl FnMut(V) -> V) -> V {
        match self.fetch_update(ok, err, |v| Some(f(v))) { Ok(v) => v, Err(v) => v }
    }
    pub(crate) fn once(&self, ok: Ordering, err: Ordering, mut f: impl FnMut(V) -> Option<V>) -> Result<V, V> {
        engine::rmw(self.id(), self.addr(), ok, err, &mut |w| f(V::of(w)).map(V::to)).map(V::of).map_err(V::of)
    }
    pub fn get_mut(&mut self) -> &mut V {
        if !engine::stale(self.id.get()) && !self.out.get() {
            *self.plain.get_mut() = V::of(engine::exclusive(self.id.get(), self.addr()));
            self.out.set(true);
        }
        self.plain.get_mut()
    }
    pub fn into_inner(mut self) -> V { *self.get_mut() }
    pub const fn as_ptr(&self) -> *mut V { self.plain.get() }
}

impl<V: Word> From<V> for Atomic<V> { fn from(v: V) -> Self { Self::new(v) } }
impl<V: Word + fmt::Debug> fmt::Debug for Atomic<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Relaxed), f) }
}

pub type AtomicBool = Atomic<bool>;
pub type AtomicPtr<T> = Atomic<*mut T>;
impl<T> fmt::Pointer for Atomic<*mut T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Pointer::fmt(&self.load(Relaxed), f) }
}
impl<T> Default for Atomic<*mut T> { fn default() -> Self { Self::new(std::ptr::null_mut()) } }
impl Default for Atomic<bool> { fn default() -> Self { Self::new(false) } }
impl Atomic<bool> {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x & v) }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| !(x & v)) }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x | v) }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x ^ v) }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(o, |x| !x) }
}

macro_rules! ints { ($($n:ident $t:ident),*) => { $(
    pub type $n = Atomic<$t>;
    impl Word for $t { #[inline] fn to(self) -> u64 { self as u64 } #[inline] fn of(w: u64) -> $t { w as $t } }
    impl Default for Atomic<$t> { fn default() -> Self { Self::new(0) } }
    impl Atomic<$t> {
        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_add(v)) }
        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_sub(v)) }
        pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x & v) }
        pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| !(x & v)) }
        pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x | v) }
        pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x ^ v) }
        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.max(v)) }
        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.min(v)) }
    }
)* } }
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
      AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
