//! Item types whose every byte is looked at.
use std::cell::Cell;

thread_local! {
    /// Calls to user code so far, and the one that panics.
    pub static CALLS: Cell<u32> = const { Cell::new(0) };
    pub static PANIC_AT: Cell<u32> = const { Cell::new(0) };
}

pub fn user_call() {
    let n = CALLS.with(|c| { c.set(c.get() + 1); c.get() });
    if n == PANIC_AT.with(|p| p.get()) { std::panic::panic_any(Injected); }
}

pub struct Injected;

pub trait Item: Sized + Clone + 'static {
    fn make(i: u32) -> Self;
    fn read(&self) -> u64;
    fn write(&mut self);
}

/// Owns memory, so that an item that is copied or destroyed once too often shows.
pub struct Heap { b: Box<u32>, v: u8 }
impl Item for Heap {
    fn make(i: u32) -> Self { Heap { b: Box::new(i), v: 0 } }
    fn read(&self) -> u64 { *self.b as u64 + self.v as u64 }
    fn write(&mut self) { *self.b = self.b.wrapping_add(1); self.v = self.v.wrapping_add(1); }
}
impl Clone for Heap {
    fn clone(&self) -> Self { user_call(); Heap { b: self.b.clone(), v: self.v } }
}
impl Drop for Heap {
    fn drop(&mut self) { self.write(); user_call(); }
}

macro_rules! plain { ($name:ident, $t:ty, $mk:expr) => {
    #[derive(Clone)]
    pub struct $name($t);
    impl Item for $name {
        fn make(i: u32) -> Self { $name($mk(i)) }
        fn read(&self) -> u64 { self.0[0] as u64 + self.0[self.0.len() - 1] as u64 }
        fn write(&mut self) { self.0[0] = self.0[0].wrapping_add(1); }
    }
} }
plain!(Odd, [u8; 3], |i| [i as u8, 1, 2]);
plain!(Word, [u64; 1], |i| [i as u64]);
plain!(Large, [u64; 9], |i| [i as u64; 9]);

#[repr(align(64))]
pub struct Wide(u8);
impl Item for Wide {
    fn make(i: u32) -> Self { Wide(i as u8) }
    fn read(&self) -> u64 { self.0 as u64 }
    fn write(&mut self) { self.0 = self.0.wrapping_add(1); }
}
impl Clone for Wide { fn clone(&self) -> Self { user_call(); Wide(self.0) } }
impl Drop for Wide { fn drop(&mut self) { self.write(); user_call(); } }

macro_rules! zst { ($(#[$a:meta])? $name:ident) => {
    $(#[$a])?
    pub struct $name;
    impl Item for $name {
        fn make(_: u32) -> Self { $name }
        fn read(&self) -> u64 { 0 }
        fn write(&mut self) {}
    }
    impl Clone for $name { fn clone(&self) -> Self { user_call(); $name } }
    impl Drop for $name { fn drop(&mut self) { user_call(); } }
} }
zst!(Zst);
zst!(#[repr(align(32))] ZstWide);

/// Without a destructor, for slices that are too long to go through.
#[derive(Clone)]
pub struct ZstPlain;
impl Item for ZstPlain {
    fn make(_: u32) -> Self { ZstPlain }
    fn read(&self) -> u64 { 0 }
    fn write(&mut self) {}
}
