//! Item types. Tracked ones report every destruction and clone to a log.
use crate::alloc::untracked;

pub const MAX_ITEMS: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life { None, Alive, Dropping, Dead }

/// What user code (a destructor or a clone) is asked to do next to its bookkeeping.
pub type Hook = fn(kind: Call, id: u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call { Drop, Clone, Next, Fmt, Cmp }

pub struct Log {
    pub life: [Life; MAX_ITEMS],
    pub next_id: u32,
    /// ids destroyed since the log was last drained (identity types)
    pub drops: Vec<u32>,
    /// number of destructions since last drained (all tracked types)
    pub n_drops: usize,
    pub n_clones: usize,
    pub clones: Vec<(u32, u32)>,
    pub error: Option<String>,
    /// ZST bookkeeping
    pub zst_made: i64,
    pub zst_dropped: i64,
    /// fault injection
    pub calls: u64,
    pub panic_at: u64,
    pub panicked: bool,
    pub hook: Option<Hook>,
}

pub static mut LOG: Log = Log {
    life: [Life::None; MAX_ITEMS],
    next_id: 0,
    drops: Vec::new(),
    n_drops: 0,
    n_clones: 0,
    clones: Vec::new(),
    error: None,
    zst_made: 0,
    zst_dropped: 0,
    calls: 0,
    panic_at: 0,
    panicked: false,
    hook: None,
};

pub fn log() -> &'static mut Log { unsafe { &mut *std::ptr::addr_of_mut!(LOG) } }

pub fn reset() {
    let l = log();
    for i in 0..(l.next_id as usize).min(MAX_ITEMS) { l.life[i] = Life::None; }
    l.next_id = 0;
    l.drops.clear();
    l.n_drops = 0;
    l.n_clones = 0;
    l.clones.clear();
    l.error = None;
    l.zst_made = 0;
    l.zst_dropped = 0;
    l.calls = 0;
    l.panic_at = 0;
    l.panicked = false;
    l.hook = None;
}

pub fn err(msg: String) {
    let l = log();
    if l.error.is_none() { l.error = Some(msg); }
}

pub fn user_call(kind: Call, id: u32) {
    let l = log();
    l.calls += 1;
    if let Some(h) = l.hook { h(kind, id); }
    if l.calls == l.panic_at {
        l.panicked = true;
        panic!("injected");
    }
}

pub fn fresh_id() -> u32 {
    let l = log();
    let id = l.next_id;
    l.next_id += 1;
    if l.next_id as usize >= MAX_ITEMS { eprintln!("seq: too many items"); std::process::exit(70); }
    l.life[id as usize] = Life::Alive;
    id
}

fn note_drop(id: u32) {
    untracked(|| {
        let l = log();
        if id as usize >= MAX_ITEMS || id >= l.next_id {
            err(format!("destroyed something that never was an item"));
            return;
        }
        match l.life[id as usize] {
            Life::Alive => {}
            x => err(format!("item {} destroyed again (it was {:?})", id, x)),
        }
        l.life[id as usize] = Life::Dead;
        l.drops.push(id);
        l.n_drops += 1;
    });
    user_call(Call::Drop, id);
}

fn note_clone(from: u32) -> u32 {
    user_call(Call::Clone, from);
    untracked(|| {
        let to = fresh_id();
        log().clones.push((from, to));
        log().n_clones += 1;
        to
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Peek { Item(u32, u8), Zst, Garbage }

pub trait Item: Sized + Clone + 'static {
    const NAME: &'static str;
    /// Whether items can be told apart.
    const IDENT: bool;
    /// Whether destructions are reported.
    const TRACKED: bool;
    fn make() -> Self;
    fn peek(&self) -> Peek;
    fn poke(&mut self, val: u8);
}

const MAGIC: u32 = 0x51CE_17E4;

macro_rules! tracked_item {
    ($name:ident, $label:literal, $(#[$attr:meta])? , $pad:expr, $padty:ty) => {
        $(#[$attr])?
        pub struct $name { magic: u32, id: u32, val: u8, pad: $padty }
        impl Item for $name {
            const NAME: &'static str = $label;
            const IDENT: bool = true;
            const TRACKED: bool = true;
            fn make() -> Self { Self { magic: MAGIC, id: fresh_id(), val: 0, pad: $pad } }
            fn peek(&self) -> Peek {
                if self.magic != MAGIC || self.id as usize >= MAX_ITEMS { Peek::Garbage } else { Peek::Item(self.id, self.val) }
            }
            fn poke(&mut self, val: u8) { self.val = val; }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                Self { magic: self.magic, id: note_clone(self.id), val: self.val, pad: $pad }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.magic != MAGIC {
                    err("destroyed memory that holds no item".to_string());
                    return;
                }
                let id = self.id;
                note_drop(id);
                let _ = &self.pad;
            }
        }
    };
}

tracked_item!(Tracked, "tracked", , (), ());
tracked_item!(Wide, "aligned64", #[repr(align(64))], (), ());
tracked_item!(Large, "large", , [7; 40], [u64; 40]);
tracked_item!(Heap, "heap", , Box::new(9), Box<u32>);

/// Odd size, no destructor.
#[derive(Clone, Copy)]
pub struct Odd([u8; 3]);
impl Item for Odd {
    const NAME: &'static str = "odd3";
    const IDENT: bool = true;
    const TRACKED: bool = false;
    fn make() -> Self { Odd([0x3C, fresh_id() as u8, 0]) }
    fn peek(&self) -> Peek { if self.0[0] == 0x3C { Peek::Item(self.0[1] as u32, self.0[2]) } else { Peek::Garbage } }
    fn poke(&mut self, val: u8) { self.0[2] = val; }
}

macro_rules! zst_item {
    ($name:ident, $label:literal, $(#[$attr:meta])?) => {
        $(#[$attr])?
        pub struct $name;
        impl Item for $name {
            const NAME: &'static str = $label;
            const IDENT: bool = false;
            const TRACKED: bool = true;
            fn make() -> Self { log().zst_made += 1; $name }
            fn peek(&self) -> Peek { Peek::Zst }
            fn poke(&mut self, _: u8) {}
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                user_call(Call::Clone, 0);
                log().zst_made += 1;
                log().n_clones += 1;
                $name
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let l = log();
                l.zst_dropped += 1;
                l.n_drops += 1;
                if l.zst_dropped > l.zst_made { err("more zero-sized items destroyed than made".to_string()); }
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 { err("destroyed a misaligned zero-sized item".to_string()); }
                user_call(Call::Drop, 0);
            }
        }
    };
}
zst_item!(Zst, "zst",);
zst_item!(ZstWide, "zst_aligned32", #[repr(align(32))]);

/// What user code may do inside the standard traits is report itself, and panic.
macro_rules! user_traits { ($($name:ident),*) => { $(
    impl PartialEq for $name { fn eq(&self, _: &Self) -> bool { user_call(Call::Cmp, 0); true } }
    impl Eq for $name {}
    impl PartialOrd for $name { fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { user_call(Call::Cmp, 0); Some(std::cmp::Ordering::Equal) } }
    impl Ord for $name { fn cmp(&self, _: &Self) -> std::cmp::Ordering { user_call(Call::Cmp, 0); std::cmp::Ordering::Equal } }
    impl std::hash::Hash for $name { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { user_call(Call::Cmp, 0); h.write_u8(1); } }
    impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { user_call(Call::Fmt, 0); f.write_str("item") } }
)* } }
user_traits!(Tracked, Wide, Heap, Zst);
