//! The reference model: which handles exist, what they cover, and what follows
//! from that. Knows nothing about how the library keeps its books.
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Path { pub bits: u32, pub len: u8 }

impl Path {
    pub const ROOT: Path = Path { bits: 0, len: 0 };
    pub fn child(self, right: bool) -> Path {
        Path { bits: self.bits | ((right as u32) << self.len), len: self.len + 1 }
    }
    pub fn is_prefix_of(self, o: Path) -> bool {
        self.len <= o.len && (o.bits & ((1u64 << self.len) - 1) as u32) == self.bits
    }
    pub fn related(self, o: Path) -> bool { self.is_prefix_of(o) || o.is_prefix_of(self) }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rng { pub arena: u8, pub lo: u16, pub hi: u16 }

impl Rng {
    pub fn len(self) -> usize { (self.hi - self.lo) as usize }
    pub fn left(self) -> Rng { Rng { hi: self.lo + (self.hi - self.lo) / 2, ..self } }
    pub fn right(self) -> Rng { Rng { lo: self.lo + (self.hi - self.lo) / 2, ..self } }
    pub fn has(self, i: u16) -> bool { self.lo <= i && i < self.hi }
}

/// A node: a subslice within one shared lifetime of a slice ("tree").
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Node { pub tree: u16, pub path: Path, pub r: Rng }

impl Node {
    /// The left half. An empty slice is its own half.
    pub fn left(self) -> Node {
        if self.r.len() == 0 { self } else { Node { path: self.path.child(false), r: self.r.left(), ..self } }
    }
    /// The right half. Slices of less than two items are their own right half.
    pub fn right(self) -> Node {
        if self.r.len() <= 1 { self } else { Node { path: self.path.child(true), r: self.r.right(), ..self } }
    }
    pub fn related(self, o: Node) -> bool { self.tree == o.tree && self.path.related(o.path) }
    pub fn leaves(self, n: usize) -> Vec<Node> {
        if n == 1 { return vec![self]; }
        let mut v = self.left().leaves(n / 2);
        v.extend(self.right().leaves(n / 2));
        v
    }
}

pub fn rng_leaves(r: Rng, n: usize) -> Vec<Rng> {
    if n == 1 { return vec![r]; }
    let mut v = rng_leaves(r.left(), n / 2);
    v.extend(rng_leaves(r.right(), n / 2));
    v
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum H {
    S(Node),
    W(Option<Node>),
    M(Rng),
    I(Rng),
    P(Vec<Node>, Rng),
    Q(Vec<Rng>, Rng),
}

impl H {
    pub fn kind(&self) -> char {
        match self { H::S(_) => 'S', H::W(_) => 'W', H::M(_) => 'M', H::I(_) => 'I', H::P(..) => 'P', H::Q(..) => 'Q' }
    }
    /// The range of items this handle covers.
    pub fn covers(&self) -> Option<Rng> {
        match self {
            H::S(n) => Some(n.r),
            H::W(_) => None,
            H::M(r) | H::I(r) => Some(*r),
            H::P(_, r) | H::Q(_, r) => Some(*r),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct It { pub id: u32, pub val: u8, pub alive: bool }

#[derive(Clone, Debug)]
pub struct Arena { pub items: Vec<It> }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Expect { Yes, No, Either }

/// Where a handle comes from.
pub mod lin {
    pub const UPGRADE: u32 = 1;
    pub const PARTS: u32 = 2;
    pub const INTO_MUT: u32 = 4;
    pub const INTO_IMMUT: u32 = 8;
    pub const GET_MUT: u32 = 16;
    pub const UNIQUE: u32 = 32;
    pub const DEEP: u32 = 64;
    pub const MPARTS: u32 = 128;
    pub const ITER: u32 = 256;
}

#[derive(Clone, Debug)]
pub struct Model {
    pub hs: Vec<Option<H>>,
    pub lin: Vec<u32>,
    pub arenas: Vec<Arena>,
    pub ntrees: u16,
    /// Nodes that have come into being as something of their own at some time.
    pub created: BTreeSet<(u16, Path)>,
    pub next_val: u8,
    /// Whether any into_mut succeeded so far.
    pub ended_trees: bool,
}

impl Model {
    pub fn new() -> Self {
        Model { hs: vec![], lin: vec![], arenas: vec![], ntrees: 0, created: BTreeSet::new(), next_val: 1, ended_trees: false }
    }

    pub fn new_tree(&mut self) -> u16 { self.ntrees += 1; self.ntrees - 1 }

    pub fn push(&mut self, h: H, lin: u32) -> usize {
        if let H::S(n) = &h { self.created.insert((n.tree, n.path)); }
        self.hs.push(Some(h));
        self.lin.push(lin);
        self.hs.len() - 1
    }

    pub fn live(&self) -> usize { self.hs.iter().filter(|h| h.is_some()).count() }

    pub fn covered(&self, arena: u8, i: u16) -> bool {
        self.hs.iter().flatten().any(|h| matches!(h.covers(), Some(r) if r.arena == arena && r.has(i)))
    }

    /// Whether some handle covers at least one item of the arena.
    pub fn held(&self, arena: u8) -> bool {
        self.hs.iter().flatten().any(|h| matches!(h.covers(), Some(r) if r.arena == arena && r.len() > 0))
    }

    fn strong_related(&self, but: usize, n: Node) -> bool {
        self.hs.iter().enumerate().any(|(i, h)| i != but && match h {
            Some(H::S(m)) => m.related(n),
            Some(H::P(leaves, _)) => leaves.iter().any(|m| m.related(n)),
            _ => false,
        })
    }

    fn weak_within(&self, n: Node) -> bool {
        self.hs.iter().flatten().any(|h| matches!(h, H::W(Some(m)) if m.tree == n.tree && n.path.is_prefix_of(m.path)))
    }

    pub fn expect_get_mut(&self, slot: usize) -> Expect {
        let Some(H::S(n)) = &self.hs[slot] else { unreachable!() };
        if self.strong_related(slot, *n) || self.weak_within(*n) { Expect::No } else { Expect::Yes }
    }

    pub fn expect_into_mut(&self, slot: usize) -> Expect {
        let Some(H::S(n)) = &self.hs[slot] else { unreachable!() };
        if self.strong_related(slot, *n) { Expect::No } else { Expect::Yes }
    }

    pub fn expect_upgrade(&self, slot: usize) -> Expect {
        let Some(H::W(w)) = &self.hs[slot] else { unreachable!() };
        let Some(w) = w else { return Expect::No };
        let mut e = Expect::No;
        for h in self.hs.iter().flatten() {
            match h {
                H::S(n) if n.tree == w.tree && n.path.is_prefix_of(w.path) => return Expect::Yes,
                H::P(leaves, _) => for l in leaves {
                    if l.tree != w.tree { continue; }
                    if l.path.is_prefix_of(w.path) { return Expect::Yes; }
                    // Whether the iterator still holds on to a larger subslice
                    // than the ones it'll yield is up to the iterator.
                    if w.path.is_prefix_of(l.path) { e = Expect::Either; }
                },
                _ => {}
            }
        }
        e
    }

    /// Items that are alive though no handle covers them, in order.
    pub fn uncovered_alive(&self) -> Vec<(u8, u16)> {
        let mut v = vec![];
        for (a, ar) in self.arenas.iter().enumerate() {
            for (i, it) in ar.items.iter().enumerate() {
                if it.alive && !self.covered(a as u8, i as u16) { v.push((a as u8, i as u16)); }
            }
        }
        v
    }

    pub fn canonical(&self) -> Vec<u8> { self.canonical_with(&mut None) }

    /// Also what identifies each live handle within the canonical state.
    pub fn canonical_with(&self, ids: &mut Option<Vec<(usize, Vec<u8>)>>) -> Vec<u8> {
        let mut out = vec![self.arenas.len() as u8];
        let mut trees: Vec<(u16, Vec<Vec<u8>>)> = vec![];
        let mut rest: Vec<Vec<u8>> = vec![];
        let mut own: Vec<(usize, Option<u16>, Vec<u8>)> = vec![];
        fn node(b: &mut Vec<u8>, n: &Node) {
            b.push(n.path.len);
            b.extend_from_slice(&n.path.bits.to_le_bytes());
            rng(b, &n.r);
        }
        fn rng(b: &mut Vec<u8>, r: &Rng) {
            b.push(r.arena);
            b.push(r.lo as u8);
            b.push(r.hi as u8);
        }
        for (slot, h) in self.hs.iter().enumerate() {
            let Some(h) = h else { continue };
            let mut b = vec![h.kind() as u8];
            let mut tree = None;
            match h {
                H::S(n) => { tree = Some(n.tree); node(&mut b, n); }
                H::W(None) => b.push(255),
                H::W(Some(n)) => { tree = Some(n.tree); node(&mut b, n); }
                H::M(r) | H::I(r) => rng(&mut b, r),
                H::P(l, r) => {
                    b.push(l.len() as u8);
                    rng(&mut b, r);
                    for n in l { tree = Some(n.tree); node(&mut b, n); }
                }
                H::Q(l, r) => { b.push(l.len() as u8); rng(&mut b, r); for r in l { rng(&mut b, r); } }
            }
            if ids.is_some() { own.push((slot, tree, b.clone())); }
            match tree {
                None => rest.push(b),
                Some(t) => match trees.iter_mut().find(|x| x.0 == t) {
                    Some(x) => x.1.push(b),
                    None => trees.push((t, vec![b])),
                },
            }
        }
        let enc: Vec<(u16, Vec<u8>)> = trees.into_iter().map(|(t, mut l)| {
            l.sort();
            let mut b = vec![b'T', l.len() as u8];
            for x in l { b.push(x.len() as u8); b.extend(x); }
            // Nodes that came into being and whose parents may still know them.
            for (ct, p) in &self.created {
                if *ct == t && self.hs.iter().flatten().any(|h| match h {
                    H::S(n) => n.tree == t && n.path.is_prefix_of(*p),
                    H::P(l, _) => l.iter().any(|n| n.tree == t && n.path.related(*p)),
                    _ => false,
                }) {
                    b.push(b'c');
                    b.push(p.len);
                    b.extend_from_slice(&p.bits.to_le_bytes());
                }
            }
            (t, b)
        }).collect();
        if let Some(ids) = ids {
            for (slot, tree, mut b) in own {
                if let Some(t) = tree { b.extend(&enc.iter().find(|e| e.0 == t).unwrap().1); }
                ids.push((slot, b));
            }
        }
        let mut enc: Vec<Vec<u8>> = enc.into_iter().map(|e| e.1).collect();
        enc.sort();
        rest.sort();
        for e in enc { out.extend(e); }
        for e in rest { out.push(e.len() as u8); out.extend(e); }
        out
    }

    /// A descriptor under which two handles are interchangeable.
    pub fn same_handle(&self, i: usize, j: usize) -> bool { self.hs[i] == self.hs[j] }
}
