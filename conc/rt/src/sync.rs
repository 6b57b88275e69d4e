//! std's Arc and Weak on the controlled scheduler: the same accesses with the same orderings.
use crate::atomic::{fence, AtomicUsize, Ordering::*};
use crate::engine::{self, Cat};
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::mem::{self, ManuallyDrop};
use std::ops::Deref;
use std::pin::Pin;
use std::ptr::{self, NonNull};

const MAGIC: u64 = 0x4172_6349_6e6e_6572;

#[repr(C)]
struct Inner<T> {
    strong: AtomicUsize,
    weak: AtomicUsize,
    magic: u64,
    data: T,
}

pub struct Arc<T> { ptr: NonNull<Inner<T>>, phantom: PhantomData<Inner<T>> }
pub struct Weak<T> { ptr: NonNull<Inner<T>> }

unsafe impl<T: Sync + Send> Send for Arc<T> {}
unsafe impl<T: Sync + Send> Sync for Arc<T> {}
unsafe impl<T: Sync + Send> Send for Weak<T> {}
unsafe impl<T: Sync + Send> Sync for Weak<T> {}
impl<T: std::panic::RefUnwindSafe> std::panic::UnwindSafe for Arc<T> {}
impl<T> Unpin for Arc<T> {}

fn offset<T>() -> usize { mem::offset_of!(Inner<T>, data) }
fn is_dangling<T>(p: NonNull<Inner<T>>) -> bool { p.as_ptr() as usize == usize::MAX }

impl<T> Arc<T> {
    pub fn new(data: T) -> Arc<T> {
        let b = Box::new(Inner { strong: AtomicUsize::new(1), weak: AtomicUsize::new(1), magic: MAGIC, data });
        b.strong.announce();
        b.weak.announce();
        unsafe { Arc::of(NonNull::new_unchecked(Box::into_raw(b))) }
    }
    pub fn pin(data: T) -> Pin<Arc<T>> { unsafe { Pin::new_unchecked(Arc::new(data)) } }
    pub fn new_cyclic(f: impl FnOnce(&Weak<T>) -> T) -> Arc<T> {
        let b: Box<Inner<mem::MaybeUninit<T>>> = Box::new(Inner { strong: AtomicUsize::new(0), weak: AtomicUsize::new(1), magic: MAGIC, data: mem::MaybeUninit::uninit() });
        b.strong.announce();
        b.weak.announce();
        let p = unsafe { NonNull::new_unchecked(Box::into_raw(b)).cast::<Inner<T>>() };
        let weak = Weak { ptr: p };
        let data = f(&weak);
        unsafe {
            ptr::write(ptr::addr_of_mut!((*p.as_ptr()).data), data);
            (*p.as_ptr()).strong.fetch_add(1, Release);
        }
        mem::forget(weak);
        unsafe { Arc::of(p) }
    }
    unsafe fn of(ptr: NonNull<Inner<T>>) -> Arc<T> { Arc { ptr, phantom: PhantomData } }
    #[inline]
    fn inner(&self) -> &Inner<T> {
        let i = unsafe { &*self.ptr.as_ptr() };
        if i.magic != MAGIC { engine::fail(Cat::Freed, "the contents of an Arc are used after they were freed") }
        i.strong.check();
        i
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        if this.inner().strong.compare_exchange(1, 0, Relaxed, Relaxed).is_err() { return Err(this) }
        fence(Acquire);
        let this = ManuallyDrop::new(this);
        let data = unsafe { ptr::read(&this.ptr.as_ref().data) };
        drop(Weak { ptr: this.ptr });
        Ok(data)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        let this = ManuallyDrop::new(this);
        if this.inner().strong.fetch_sub(1, Release) != 1 { return None }
        fence(Acquire);
        let data = unsafe { ptr::read(&this.ptr.as_ref().data) };
        drop(Weak { ptr: this.ptr });
        Some(data)
    }
    pub fn as_ptr(this: &Self) -> *const T { unsafe { ptr::addr_of!((*this.ptr.as_ptr()).data) } }
    pub fn into_raw(this: Self) -> *const T { let p = Self::as_ptr(&this); mem::forget(this); p }
    pub unsafe fn from_raw(p: *const T) -> Self { Arc::of(NonNull::new_unchecked((p as usize).wrapping_sub(offset::<T>()) as *mut Inner<T>)) }
    pub unsafe fn increment_strong_count(p: *const T) { let a = ManuallyDrop::new(Arc::from_raw(p)); let _b = ManuallyDrop::new((*a).clone()); }
    pub unsafe fn decrement_strong_count(p: *const T) { drop(Arc::from_raw(p)) }
    pub fn downgrade(this: &Self) -> Weak<T> {
        loop {
            match this.inner().weak.once(Acquire, Relaxed, |n| if n == usize::MAX { None } else { Some(n + 1) }) {
                Ok(_) => return Weak { ptr: this.ptr },
                Err(_) => engine::yield_now(),
            }
        }
    }
    pub fn strong_count(this: &Self) -> usize { this.inner().strong.load(Relaxed) }
    pub fn weak_count(this: &Self) -> usize { let n = this.inner().weak.load(Relaxed); if n == usize::MAX { 0 } else { n - 1 } }
    pub fn ptr_eq(this: &Self, other: &Self) -> bool { this.ptr.as_ptr() == other.ptr.as_ptr() }
    fn is_unique(&self) -> bool {
        if self.inner().weak.compare_exchange(1, usize::MAX, Acquire, Relaxed).is_ok() {
            let unique = self.inner().strong.load(Acquire) == 1;
            self.inner().weak.store(1, Release);
            unique
        } else {
            false
        }
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        if this.is_unique() { Some(unsafe { &mut (*this.ptr.as_ptr()).data }) } else { None }
    }
    pub unsafe fn get_mut_unchecked(this: &mut Self) -> &mut T { &mut (*this.ptr.as_ptr()).data }
    pub fn unwrap_or_clone(this: Self) -> T where T: Clone { Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone()) }
    pub fn make_mut(this: &mut Self) -> &mut T where T: Clone {
        if this.inner().strong.compare_exchange(1, 0, Acquire, Relaxed).is_err() {
            *this = Arc::new((**this).clone());
        } else if this.inner().weak.load(Relaxed) != 1 {
            let _weak = Weak { ptr: this.ptr };
            let new = Arc::new(unsafe { ptr::read(&this.ptr.as_ref().data) });
            unsafe { ptr::write(this, new) }
        } else {
            this.inner().strong.store(1, Release);
        }
        unsafe { &mut (*this.ptr.as_ptr()).data }
    }
}

impl<T> Clone for Arc<T> {
    fn clone(&self) -> Arc<T> {
        let n = self.inner().strong.fetch_add(1, Relaxed);
        if n == 0 || n > 1 << 40 { engine::fail(Cat::Freed, "an Arc without any count is cloned") }
        unsafe { Arc::of(self.ptr) }
    }
}
impl<T> Drop for Arc<T> {
    fn drop(&mut self) {
        let n = self.inner().strong.fetch_sub(1, Release);
        if n == 0 { engine::fail(Cat::Freed, "an Arc is dropped more often than it exists") }
        if n != 1 { return }
        fence(Acquire);
        let _weak = Weak { ptr: self.ptr };
        unsafe { ptr::drop_in_place(&mut (*self.ptr.as_ptr()).data) }
    }
}
impl<T> Deref for Arc<T> { type Target = T; #[inline] fn deref(&self) -> &T { &self.inner().data } }
impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
impl<T> Borrow<T> for Arc<T> { fn borrow(&self) -> &T { self } }
impl<T> From<T> for Arc<T> { fn from(t: T) -> Self { Arc::new(t) } }
impl<T> From<Box<T>> for Arc<T> { fn from(t: Box<T>) -> Self { Arc::new(*t) } }
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T: fmt::Debug> fmt::Debug for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: fmt::Display> fmt::Display for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T> fmt::Pointer for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Pointer::fmt(&Arc::as_ptr(self), f) } }
impl<T: PartialEq> PartialEq for Arc<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<T: Eq> Eq for Arc<T> {}
impl<T: PartialOrd> PartialOrd for Arc<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { (**self).partial_cmp(o) } }
impl<T: Ord> Ord for Arc<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(o) } }
impl<T: Hash> Hash for Arc<T> { fn hash<H: Hasher>(&self, h: &mut H) { (**self).hash(h) } }

impl<T> Weak<T> {
    pub const fn new() -> Weak<T> { Weak { ptr: unsafe { NonNull::new_unchecked(usize::MAX as *mut Inner<T>) } } }
    #[inline]
    fn inner(&self) -> Option<(&AtomicUsize, &AtomicUsize)> {
        if is_dangling(self.ptr) { return None }
        unsafe {
            if *ptr::addr_of!((*self.ptr.as_ptr()).magic) != MAGIC { engine::fail(Cat::Freed, "the counts of an Arc are used after they were freed") }
            let s = &*ptr::addr_of!((*self.ptr.as_ptr()).strong);
            s.check();
            Some((s, &*ptr::addr_of!((*self.ptr.as_ptr()).weak)))
        }
    }
    pub fn upgrade(&self) -> Option<Arc<T>> {
        let (s, _) = self.inner()?;
        if s.once(Acquire, Relaxed, |n| if n == 0 { None } else { Some(n + 1) }).is_ok() { Some(unsafe { Arc::of(self.ptr) }) } else { None }
    }
    pub fn strong_count(&self) -> usize { match self.inner() { Some((s, _)) => s.load(Relaxed), None => 0 } }
    pub fn weak_count(&self) -> usize {
        match self.inner() {
            Some((s, w)) => { let w = w.load(Acquire); let s = s.load(Relaxed); if s == 0 { 0 } else { w - 1 } }
            None => 0,
        }
    }
    pub fn ptr_eq(&self, o: &Self) -> bool { self.ptr.as_ptr() == o.ptr.as_ptr() }
    pub fn as_ptr(&self) -> *const T {
        if is_dangling(self.ptr) { self.ptr.as_ptr() as *const T } else { unsafe { ptr::addr_of!((*self.ptr.as_ptr()).data) } }
    }
    pub fn into_raw(self) -> *const T { let p = self.as_ptr(); mem::forget(self); p }
    pub unsafe fn from_raw(p: *const T) -> Weak<T> {
        let a = if p as usize == usize::MAX { usize::MAX } else { (p as usize).wrapping_sub(offset::<T>()) };
        Weak { ptr: NonNull::new_unchecked(a as *mut Inner<T>) }
    }
}
impl<T> Clone for Weak<T> {
    fn clone(&self) -> Weak<T> {
        if let Some((_, w)) = self.inner() { w.fetch_add(1, Relaxed); }
        Weak { ptr: self.ptr }
    }
}
impl<T> Drop for Weak<T> {
    fn drop(&mut self) {
        let n = match self.inner() { Some((_, w)) => w.fetch_sub(1, Release), None => return };
        if n == 0 || n == usize::MAX { engine::fail(Cat::Freed, "a Weak is dropped more often than it exists") }
        if n == 1 {
            fence(Acquire);
            unsafe { std::alloc::dealloc(self.ptr.as_ptr() as *mut u8, std::alloc::Layout::new::<Inner<T>>()) }
        }
    }
}
impl<T> Default for Weak<T> { fn default() -> Self { Weak::new() } }
impl<T> fmt::Debug for Weak<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("(Weak)") } }
