//! A tracking global allocator. While tracking is on, every block comes from a
//! dedicated region with red zones around it; blocks are poisoned when freed and
//! never reused within a history, so that use after free reads poison instead of
//! someone else's data. `reset` forgets everything between histories.
use std::alloc::{GlobalAlloc, Layout, System};

const REGION: usize = 1 << 20;
const MAX_BLOCKS: usize = 1 << 10;
const RED: usize = 16;
const POISON_FREE: u8 = 0xDD;
const POISON_NEW: u8 = 0xA5;
const POISON_RED: u8 = 0xE7;

#[derive(Clone, Copy)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    /// Which thread made it, as its how manieth.
    pub tag: u32,
}

pub struct State {
    base: usize,
    next: usize,
    high: usize,
    tracking: bool,
    blocks: [Block; MAX_BLOCKS],
    n_blocks: usize,
    pub live_blocks: usize,
    pub live_bytes: usize,
    error: Option<&'static str>,
    pub total_allocs: u64,
    made: [u32; rt::engine::NT],
}

pub static mut ST: State = State {
    base: 0,
    next: 0,
    high: 0,
    tracking: false,
    blocks: [Block { start: 0, size: 0, align: 0, live: false, tag: 0 }; MAX_BLOCKS],
    n_blocks: 0,
    live_blocks: 0,
    live_bytes: 0,
    error: None,
    total_allocs: 0,
    made: [0; rt::engine::NT],
};

pub fn st() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

pub struct Tracker;

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if !s.tracking {
            return System.alloc(l);
        }
        let a = l.align().max(16);
        let start = (s.next + RED + a - 1) & !(a - 1);
        let end = start + l.size() + RED;
        if end > s.base + REGION || s.n_blocks == MAX_BLOCKS {
            s.tracking = false;
            eprintln!("conc: tracking region exhausted");
            std::process::exit(70);
        }
        std::ptr::write_bytes(s.next as *mut u8, POISON_RED, start - s.next);
        std::ptr::write_bytes(start as *mut u8, POISON_NEW, l.size());
        std::ptr::write_bytes((start + l.size()) as *mut u8, POISON_RED, RED);
        s.next = end;
        s.blocks[s.n_blocks] = Block { start, size: l.size(), align: l.align(), live: true, tag: { let t = rt::engine::eng().cur; s.made[t] += 1; (t as u32) << 16 | s.made[t] } };
        s.n_blocks += 1;
        s.live_blocks += 1;
        s.live_bytes += l.size();
        s.total_allocs += 1;
        start as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        let a = p as usize;
        if a < s.base || a >= s.base + REGION {
            // Could be a pointer that never came from an allocator at all.
            if s.tracking && s.base != 0 && (a < 4096 || a % 16 != 0) {
                s.err("freed a pointer that was never allocated");
                return;
            }
            return System.dealloc(p, l);
        }
        match s.find(a) {
            Some(i) => {
                let b = s.blocks[i];
                if b.start != a {
                    s.err("freed a pointer into the middle of a block");
                } else if !b.live {
                    s.err("block freed twice");
                } else {
                    if b.size != l.size() || b.align != l.align() {
                        s.err("block freed with a layout other than the one it was allocated with");
                    }
                    s.check_red(i);
                    rt::engine::freed(b.start, b.start + b.size);
                    s.blocks[i].live = false;
                    s.live_blocks -= 1;
                    s.live_bytes -= b.size;
                    std::ptr::write_bytes(b.start as *mut u8, POISON_FREE, b.size);
                }
            }
            None => s.err("freed a pointer that was never allocated"),
        }
    }
}

impl State {
    fn err(&mut self, e: &'static str) {
        if self.error.is_none() {
            self.error = Some(e);
        }
    }

    /// Index of the block containing (or ending at) an address.
    fn find(&self, a: usize) -> Option<usize> {
        let (mut lo, mut hi) = (0, self.n_blocks);
        while lo < hi {
            let m = (lo + hi) / 2;
            if self.blocks[m].start <= a { lo = m + 1 } else { hi = m }
        }
        if lo == 0 { return None }
        let b = &self.blocks[lo - 1];
        if a < b.start + b.size.max(1) { Some(lo - 1) } else { None }
    }

    fn check_red(&mut self, i: usize) {
        let b = self.blocks[i];
        for k in 0..RED {
            let after = unsafe { *((b.start + b.size + k) as *const u8) };
            let before = unsafe { *((b.start - 1 - k) as *const u8) };
            if after != POISON_RED || before != POISON_RED {
                self.err("memory written outside a block");
                return;
            }
        }
    }

    fn check_freed(&mut self, i: usize) {
        let b = self.blocks[i];
        for k in 0..b.size {
            if unsafe { *((b.start + k) as *const u8) } != POISON_FREE {
                self.err("memory written after it was freed");
                return;
            }
        }
    }
}

pub fn init() {
    let s = st();
    if s.base == 0 {
        let l = Layout::from_size_align(REGION, 4096).unwrap();
        s.base = unsafe { System.alloc_zeroed(l) } as usize;
        s.next = s.base;
        s.high = s.base;
    }
}

pub fn reset() {
    let s = st();
    s.tracking = false;
    s.next = s.base;
    s.n_blocks = 0;
    s.made = [0; rt::engine::NT];
    s.live_blocks = 0;
    s.live_bytes = 0;
    s.error = None;
}

/// Switch tracking on or off, returning what it was.
pub fn track(on: bool) -> bool {
    let s = st();
    std::mem::replace(&mut s.tracking, on)
}

pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { track(self.0); } }
    let _g = G(track(true));
    f()
}

pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { track(self.0); } }
    let _g = G(track(false));
    f()
}

pub fn error() -> Option<&'static str> { st().error }

/// Check the red zones of every block and the poison of every freed one.
pub fn check_all() -> Option<&'static str> {
    let s = st();
    for i in 0..s.n_blocks {
        s.check_red(i);
        if !s.blocks[i].live { s.check_freed(i); }
    }
    s.error
}

/// The id of the tracked block that contains an address.
pub fn block_of(a: usize) -> Option<usize> { st().find(a) }
pub fn is_live(block: usize) -> bool { st().blocks[block].live }
pub fn live() -> (usize, usize) { (st().live_blocks, st().live_bytes) }

pub struct Digest(u64, u64);
impl Digest {
    pub fn new() -> Digest { Digest(0x1234_5678_9ABC_DEF1, 0x0FED_CBA9_8765_4321) }
    #[inline]
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 31;
        self.1 = (self.1.rotate_left(23) ^ x).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.1 ^= self.1 >> 29;
    }
    /// A word that may be an address, whatever the order of allocations was.
    #[inline]
    pub fn word(&mut self, w: u64) {
        let s = st();
        let a = w as usize;
        if a >= s.base && a < s.base + REGION {
            match s.find(a) {
                Some(i) => { self.add(1 << 40 | s.blocks[i].tag as u64); self.add((a - s.blocks[i].start) as u64) }
                None => self.add(w),
            }
        } else {
            self.add(w)
        }
    }
    pub fn get(self) -> u128 { (self.0 as u128) << 64 | self.1 as u128 }
}

/// A name for an address, whatever the order of allocations was.
pub fn name(a: usize) -> u64 {
    let s = st();
    match s.find(a) { Some(i) => (s.blocks[i].tag as u64) << 16 | (a - s.blocks[i].start) as u64, None => a as u64 | 1 << 63 }
}

/// Everything that is in memory.
pub fn digest(d: &mut Digest) {
    let s = st();
    let mut live: Vec<(u32, usize)> = (0..s.n_blocks).filter(|i| s.blocks[*i].live).map(|i| (s.blocks[i].tag, i)).collect();
    live.sort_unstable();
    d.add(live.len() as u64);
    for (tag, i) in live {
        let b = s.blocks[i];
        d.add(tag as u64);
        d.add(b.size as u64);
        let mut k = 0;
        while k < b.size {
            let p = b.start + k;
            if b.size - k >= 8 {
                let w = unsafe { *(p as *const u64) };
                match rt::engine::latest(w as u32) {
                    // An atomic: its latest value. Then there's a flag.
                    Some(v) => { d.add(2 << 40 | w >> 32 & 1); d.word(v) }
                    None => d.word(w),
                }
                k += 8;
            } else {
                d.add(unsafe { *(p as *const u8) } as u64);
                k += 1;
            }
        }
    }
    d.add(s.error.is_some() as u64);
}
