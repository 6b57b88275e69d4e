//! A tracking global allocator. While tracking is on, every block comes from a
//! dedicated region with red zones around it; blocks are poisoned when freed and
//! never reused within a history, so that use after free reads poison instead of
//! someone else's data. `reset` forgets everything between histories.
use std::alloc::{GlobalAlloc, Layout, System};

const REGION: usize = 64 << 20;
const MAX_BLOCKS: usize = 1 << 16;
const RED: usize = 16;
const POISON_FREE: u8 = 0xDD;
const POISON_NEW: u8 = 0xA5;
const POISON_RED: u8 = 0xE7;

#[derive(Clone, Copy)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
}

pub struct State {
    base: usize,
    next: usize,
    high: usize,
    tracking: bool,
    blocks: [Block; MAX_BLOCKS],
    n_blocks: usize,
    pub live_blocks: usize,
    pub live_bytes: usize,
    error: Option<&'static str>,
    pub total_allocs: u64,
}

pub static mut ST: State = State {
    base: 0,
    next: 0,
    high: 0,
    tracking: false,
    blocks: [Block { start: 0, size: 0, align: 0, live: false }; MAX_BLOCKS],
    n_blocks: 0,
    live_blocks: 0,
    live_bytes: 0,
    error: None,
    total_allocs: 0,
};

pub fn st() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

pub struct Tracker;

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if !s.tracking {
            return System.alloc(l);
        }
        let a = l.align().max(16);
        let mut start = (s.next + RED + a - 1) & !(a - 1);
        // No address in a small block ends in a zero byte, see `memory_digest`.
        if l.size() < 200 && a <= 16 && ((start & 255) < 16 || (start & 255) + l.size() > 255) { start = ((start + 255) & !255) + 16 }
        let end = start + l.size() + RED;
        if end > s.base + REGION || s.n_blocks == MAX_BLOCKS {
            s.tracking = false;
            eprintln!("seq: tracking region exhausted");
            std::process::exit(70);
        }
        std::ptr::write_bytes(s.next as *mut u8, POISON_RED, start - s.next);
        std::ptr::write_bytes(start as *mut u8, POISON_NEW, l.size());
        std::ptr::write_bytes((start + l.size()) as *mut u8, POISON_RED, RED);
        s.next = end;
        s.blocks[s.n_blocks] = Block { start, size: l.size(), align: l.align(), live: true };
        s.n_blocks += 1;
        s.live_blocks += 1;
        s.live_bytes += l.size();
        s.total_allocs += 1;
        start as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        let a = p as usize;
        if a < s.base || a >= s.base + REGION {
            // Could be a pointer that never came from an allocator at all.
            if s.tracking && s.base != 0 && (a < 4096 || a % 16 != 0) {
                s.err("freed a pointer that was never allocated");
                return;
            }
            return System.dealloc(p, l);
        }
        match s.find(a) {
            Some(i) => {
                let b = s.blocks[i];
                if b.start != a {
                    s.err("freed a pointer into the middle of a block");
                } else if !b.live {
                    s.err("block freed twice");
                } else {
                    if b.size != l.size() || b.align != l.align() {
                        s.err("block freed with a layout other than the one it was allocated with");
                    }
                    s.check_red(i);
                    s.blocks[i].live = false;
                    s.live_blocks -= 1;
                    s.live_bytes -= b.size;
                    std::ptr::write_bytes(b.start as *mut u8, POISON_FREE, b.size);
                }
            }
            None => s.err("freed a pointer that was never allocated"),
        }
    }
}

impl State {
    fn err(&mut self, e: &'static str) {
        if self.error.is_none() {
            self.error = Some(e);
        }
    }

    /// Index of the block containing (or ending at) an address.
    fn find(&self, a: usize) -> Option<usize> {
        let (mut lo, mut hi) = (0, self.n_blocks);
        while lo < hi {
            let m = (lo + hi) / 2;
            if self.blocks[m].start <= a { lo = m + 1 } else { hi = m }
        }
        if lo == 0 { return None }
        let b = &self.blocks[lo - 1];
        if a < b.start + b.size.max(1) { Some(lo - 1) } else { None }
    }

    fn check_red(&mut self, i: usize) {
        let b = self.blocks[i];
        for k in 0..RED {
            let after = unsafe { *((b.start + b.size + k) as *const u8) };
            let before = unsafe { *((b.start - 1 - k) as *const u8) };
            if after != POISON_RED || before != POISON_RED {
                self.err("memory written outside a block");
                return;
            }
        }
    }

    fn check_freed(&mut self, i: usize) {
        let b = self.blocks[i];
        for k in 0..b.size {
            if unsafe { *((b.start + k) as *const u8) } != POISON_FREE {
                self.err("memory written after it was freed");
                return;
            }
        }
    }
}

pub fn init() {
    let s = st();
    if s.base == 0 {
        let l = Layout::from_size_align(REGION, 4096).unwrap();
        s.base = unsafe { System.alloc_zeroed(l) } as usize;
        s.next = s.base;
        s.high = s.base;
    }
}

pub fn reset() {
    let s = st();
    s.tracking = false;
    s.next = s.base;
    s.n_blocks = 0;
    s.live_blocks = 0;
    s.live_bytes = 0;
    s.error = None;
}

/// Switch tracking on or off, returning what it was.
pub fn track(on: bool) -> bool {
    let s = st();
    std::mem::replace(&mut s.tracking, on)
}

pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { track(self.0); } }
    let _g = G(track(true));
    f()
}

pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { track(self.0); } }
    let _g = G(track(false));
    f()
}

pub fn error() -> Option<&'static str> { st().error }

/// Check the red zones of every block and the poison of every freed one.
pub fn check_all() -> Option<&'static str> {
    let s = st();
    for i in 0..s.n_blocks {
        s.check_red(i);
        if !s.blocks[i].live { s.check_freed(i); }
    }
    s.error
}

/// The id of the tracked block that contains an address.
pub fn block_of(a: usize) -> Option<usize> { st().find(a) }
pub fn is_live(block: usize) -> bool { st().blocks[block].live }
pub fn live() -> (usize, usize) { (st().live_blocks, st().live_bytes) }
/// A digest of the sizes of all live blocks, in allocation-order-independent form.
pub fn fingerprint() -> u64 {
    let s = st();
    let mut h: u64 = 0;
    for b in &s.blocks[..s.n_blocks] {
        if b.live {
            let x = (b.size as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (b.align as u64);
            let x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            h = h.wrapping_add(x ^ (x >> 32));
        }
    }
    h
}
/// A digest of everything in memory, whatever the order of allocations was: blocks get
/// colours by size, refined by what's in them and the colours of what that points to.
/// `masked`: blocks whose contents don't matter, with a colour each. `roots`: words
/// outside of all blocks, with a label each.
pub fn memory_digest(masked: &[(usize, u64)], roots: &[(u64, Vec<u64>)]) -> u64 {
    let s = st();
    let mix = |a: u64, b: u64| {
        let x = (a.rotate_left(25) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        (x ^ (x >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ (x >> 29)
    };
    let live: Vec<usize> = (0..s.n_blocks).filter(|i| s.blocks[*i].live).collect();
    let mut colour: Vec<u64> = vec![0; s.n_blocks];
    for &i in &live { colour[i] = mix(s.blocks[i].size as u64, s.blocks[i].align as u64) }
    for &(i, c) in masked { if s.blocks[i].live { colour[i] = mix(colour[i], c + 1) } }
    let word = |colour: &Vec<u64>, w: u64| -> u64 {
        let a = w as usize;
        // A bool with whatever was on the stack in the bytes after it. No address, because
        // those of blocks don't look like this.
        if w > 255 && w & 255 < 8 { return w & 255 }
        if a >= s.base && a < s.base + REGION {
            return match s.find(a) {
                Some(i) if s.blocks[i].live => mix(colour[i], (a - s.blocks[i].start) as u64),
                _ => 3,
            };
        }
        // Neither small nor one of the usual patterns.
        if w > 1 << 40 && w < u64::MAX - 1 && w != 0xA5A5_A5A5_A5A5_A5A5 { return 5 }
        w
    };
    for _ in 0..5 {
        let mut next = colour.clone();
        for &i in &live {
            if masked.iter().any(|m| m.0 == i) { continue }
            let b = s.blocks[i];
            let mut c = colour[i];
            let mut k = 0;
            // What an Rc or Arc with no strong reference holds is gone for good.
            let end = if b.size >= 24 && unsafe { *(b.start as *const u64) } == 0 { 16 } else { b.size };
            while k + 8 <= end {
                c = mix(c, word(&colour, unsafe { *((b.start + k) as *const u64) }));
                k += 8;
            }
            next[i] = c;
        }
        colour = next;
    }
    let mut h: u64 = 0;
    for &i in &live { h = h.wrapping_add(mix(colour[i], 11)) }
    for (l, ws) in roots {
        let mut c = mix(*l, 13);
        for w in ws { c = mix(c, word(&colour, *w)) }
        h = h.wrapping_add(mix(c, 17));
    }
    h
}
/// Address range that no tracked block has.
pub fn in_freed_block(a: usize) -> bool {
    let s = st();
    match s.find(a) { Some(i) => !s.blocks[i].live, None => false }
}
pub fn dump() {
    let s = st();
    for i in 0..s.n_blocks { let b = s.blocks[i]; if b.live { print!("#{} [{}]", i, b.size); for k in 0..b.size / 8 { let w = unsafe { *((b.start + 8 * k) as *const u64) }; match s.find(w as usize) { Some(j) => print!(" #{}{}+{}", j, if s.blocks[j].live { "" } else { "dead" }, w as usize - s.blocks[j].start), None => print!(" {:x}", w) } } println!() } }
}
