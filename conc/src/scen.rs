//! Scenarios: which handles there are at first, and what each thread does with its own.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Op {
    // On shared handles.
    Clone, CloneL, CloneR, SplitL, SplitR, Parts, Parts4, Down, GetMut, IntoMut, Cycle, Read, Drop,
    // On weak ones.
    WClone, Upg, WDrop,
    // On unique ones.
    Write, Immut, MSplitL, MSplitR, MParts, MPartsB, Iter, IterSplit, MDrop,
}
use Op::*;

impl Op {
    pub const ALL: [(Op, &'static str, char); 25] = [
        (Clone, "Clone", 'S'), (CloneL, "CloneL", 'S'), (CloneR, "CloneR", 'S'), (SplitL, "SplitL", 'S'), (SplitR, "SplitR", 'S'),
        (Parts, "Parts", 'S'), (Parts4, "Parts4", 'S'), (Down, "Down", 'S'), (GetMut, "GetMut", 'S'), (IntoMut, "IntoMut", 'S'), (Cycle, "Cycle", 'S'),
        (Read, "Read", 'S'), (Drop, "Drop", 'S'),
        (WClone, "WClone", 'W'), (Upg, "Upg", 'W'), (WDrop, "WDrop", 'W'),
        (Write, "Write", 'M'), (Immut, "Immut", 'M'), (MSplitL, "MSplitL", 'M'), (MSplitR, "MSplitR", 'M'), (Iter, "Iter", 'M'), (MParts, "MParts", 'M'), (MPartsB, "MPartsB", 'M'), (IterSplit, "IterSplit", 'M'), (MDrop, "MDrop", 'M'),
    ];
    pub fn name(self) -> &'static str { Op::ALL.iter().find(|x| x.0 == self).unwrap().1 }
    pub fn on(self) -> char { Op::ALL.iter().find(|x| x.0 == self).unwrap().2 }
}

/// A handle of some kind (S, W or M) for the subslice that a path of Ls and Rs leads to,
/// or a reference (R, V) to a shared or weak one that belongs to the main thread.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Hd { pub kind: char, pub path: String }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Prog {
    pub has: Vec<Hd>,
    /// Each operation is applied to the thread's first or its last handle.
    pub ops: Vec<(Op, bool)>,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Scen {
    pub n: usize,
    /// 0: nothing. 1: there were handles for both halves before. 2: there was a weak handle before.
    pub pre: u8,
    /// Handles that stay with the main thread.
    pub hold: Vec<Hd>,
    pub threads: Vec<Prog>,
    /// Threads drop what they have in the end, rather than handing it back.
    pub drop: bool,
}

fn hd_text(h: &Hd) -> String { format!("{}:{}", h.kind, h.path) }
fn hd(s: &str) -> Hd { let (k, p) = s.split_once(':').expect("kind:path"); Hd { kind: k.chars().next().unwrap(), path: p.to_string() } }

impl Scen {
    pub fn text(&self) -> String {
        let hs = |v: &[Hd]| v.iter().map(hd_text).collect::<Vec<_>>().join("+");
        let ts: Vec<String> = self.threads.iter().map(|t| format!("{}[{}]", hs(&t.has), t.ops.iter().map(|(o, last)| format!("{}{}", o.name(), if *last { "'" } else { "" })).collect::<Vec<_>>().join(","))).collect();
        format!("n={} pre={} hold={} end={} {}", self.n, self.pre, hs(&self.hold), if self.drop { "drop" } else { "keep" }, ts.join(" "))
    }
    pub fn parse(s: &str) -> Scen {
        let mut r = Scen { n: 0, pre: 0, hold: vec![], threads: vec![], drop: false };
        let hs = |v: &str| v.split('+').filter(|x| !x.is_empty()).map(hd).collect::<Vec<_>>();
        for w in s.split_whitespace() {
            if let Some(v) = w.strip_prefix("n=") { r.n = v.parse().unwrap() }
            else if let Some(v) = w.strip_prefix("pre=") { r.pre = v.parse().unwrap() }
            else if let Some(v) = w.strip_prefix("hold=") { r.hold = hs(v) }
            else if let Some(v) = w.strip_prefix("end=") { r.drop = v == "drop" }
            else {
                let (h, o) = w.split_once('[').expect("handles[ops]");
                let ops = o.trim_end_matches(']').split(',').filter(|x| !x.is_empty()).map(|x| {
                    let last = x.ends_with('\'');
                    let x = x.trim_end_matches('\'');
                    (Op::ALL.iter().find(|y| y.1 == x).expect("an operation").0, last)
                }).collect();
                r.threads.push(Prog { has: hs(h), ops });
            }
        }
        r
    }
}

const S_OPS: [Op; 12] = [Clone, CloneL, CloneR, SplitL, SplitR, Parts, Down, GetMut, IntoMut, Cycle, Read, Drop];
const W_OPS: [Op; 3] = [WClone, Upg, WDrop];
const R_OPS: [Op; 5] = [Clone, CloneL, CloneR, Down, Read];
const V_OPS: [Op; 2] = [WClone, Upg];
const M_OPS: [Op; 9] = [Write, Immut, MSplitL, MSplitR, MParts, MPartsB, Iter, IterSplit, MDrop];

/// What kind of handle an operation adds at the end, and whether the first one is still of the same kind.
fn after(kind: char, o: Op) -> (Option<char>, Option<char>) {
    if kind == 'R' || kind == 'V' {
        return (Some(kind), match o { Read => None, Down | WClone => Some('W'), _ => Some('S') })
    }
    match o {
        Clone | CloneL | CloneR | SplitL | SplitR => (Some('S'), Some('S')),
        Parts | Parts4 => (Some('S'), None),
        Down => (Some('S'), Some('W')),
        GetMut | Read => (Some('S'), None),
        IntoMut => (Some('M'), None),
        Cycle => (Some('S'), None),
        Drop | WDrop | MDrop | Iter | IterSplit => (None, None),
        WClone => (Some('W'), Some('W')),
        Upg => (Some('W'), Some('S')),
        Write | MParts | MPartsB => (Some('M'), None),
        Immut => (Some('S'), None),
        MSplitL | MSplitR => (Some('M'), Some('M')),
    }
}

fn ops(kind: char) -> &'static [Op] { match kind { 'S' => &S_OPS, 'W' => &W_OPS, 'R' => &R_OPS, 'V' => &V_OPS, _ => &M_OPS } }

/// Programs of up to `k` operations for a thread with one handle.
fn programs(kind: char, k: usize) -> Vec<Vec<(Op, bool)>> {
    let mut out: Vec<Vec<(Op, bool)>> = vec![];
    // (first, last if it's another one, operations)
    let mut level: Vec<(Option<char>, Option<char>, Vec<(Op, bool)>)> = vec![(Some(kind), None, vec![])];
    for _ in 0..k {
        let mut next = vec![];
        for (f, l, p) in &level {
            for (last, kind) in [(false, *f), (true, *l)] {
                let Some(kind) = kind else { continue };
                for &o in ops(kind) {
                    // Reading twice is reading once.
                    let mut q = p.clone();
                    q.push((o, last));
                    out.push(q.clone());
                    let (a, b) = after(kind, o);
                    let (nf, nl) = if !last { if l.is_some() && b.is_none() { (a, *l) } else { (a, b) } } else { (*f, if b.is_some() { b } else { a }) };
                    next.push((nf.or(if nf.is_none() { nl } else { None }), if nf.is_none() { None } else { nl }, q));
                }
            }
        }
        level = next;
    }
    out
}

/// Programs with no effect on anyone else, or with one that another has too.
fn dull(p: &[(Op, bool)]) -> bool {
    p.windows(2).any(|w| matches!((w[0].0, w[1].0), (Read, _)) ) || p.len() > 1 && p.last().unwrap().0 == Read
}

fn paths(n: usize, depth: usize) -> Vec<String> {
    let mut v = vec![(String::new(), n)];
    let mut level = v.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for (p, n) in &level {
            if *n >= 1 { next.push((format!("{}L", p), n / 2)); }
            if *n >= 2 { next.push((format!("{}R", p), n - n / 2)); }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    v.into_iter().map(|x| x.0).collect()
}

fn h(s: &str) -> Hd { hd(s) }
fn holds(v: &[&str]) -> Vec<Vec<Hd>> { v.iter().map(|s| s.split('+').filter(|x| !x.is_empty()).map(h).collect()).collect() }

struct Space { ns: Vec<usize>, depth: usize, pres: Vec<u8>, holds: Vec<Vec<Hd>>, drops: Vec<bool> }

fn one(kind: char, path: &str, ops: Vec<(Op, bool)>) -> Prog { Prog { has: vec![Hd { kind, path: path.to_string() }], ops } }

/// All programs of a thread with one shared or weak handle.
fn progs(n: usize, depth: usize, k: usize, exactly: bool, kinds: &str) -> Vec<Prog> {
    let mut v = vec![];
    for p in paths(n, depth) {
        for kind in kinds.chars() {
            for ops in programs(kind, k) {
                if exactly && ops.len() != k { continue }
                if dull(&ops) { continue }
                v.push(one(kind, &p, ops));
            }
        }
    }
    v
}

fn unordered(out: &mut Vec<Scen>, sp: &Space, lens: &[usize]) { mixed(out, sp, lens, "SW") }

/// With references: at least one thread has one.
fn mixed(out: &mut Vec<Scen>, sp: &Space, lens: &[usize], kinds: &str) {
    for &n in &sp.ns {
        let sets: Vec<Vec<Prog>> = lens.iter().map(|k| progs(n, sp.depth, *k, true, kinds)).collect();
        let mut idx = vec![0; lens.len()];
        'next: loop {
            // Threads with programs of the same length: in order only.
            let ok = (1..lens.len()).all(|i| lens[i] != lens[i - 1] || idx[i] >= idx[i - 1]);
            if ok {
                let threads: Vec<Prog> = idx.iter().zip(&sets).map(|(i, s)| s[*i].clone()).collect();
                // Somebody has to change something.
                let quiet = threads.iter().all(|t| t.ops.iter().all(|o| matches!(o.0, Read)));
                let refs = !kinds.contains('R') || threads.iter().any(|t| matches!(t.has[0].kind, 'R' | 'V'));
                if !quiet && refs {
                    for &pre in &sp.pres { for hold in &sp.holds { for &drop in &sp.drops {
                        if hold.iter().any(|h| h.path.len() > 0 && n < 2) { continue }
                        out.push(Scen { n, pre, hold: hold.clone(), threads: threads.clone(), drop });
                    } } }
                }
            }
            for i in (0..lens.len()).rev() {
                idx[i] += 1;
                if idx[i] < sets[i].len() { continue 'next }
                idx[i] = 0;
            }
            break;
        }
    }
}

/// Unique handles for neighbouring subslices, or a shared one for the other half.
fn unique(out: &mut Vec<Scen>, n: usize, k: usize) {
    let ms: Vec<Vec<(Op, bool)>> = programs('M', k);
    let ss: Vec<Vec<(Op, bool)>> = programs('S', 1);
    for drop in [false, true] {
        for (i, a) in ms.iter().enumerate() {
            for (j, b) in ms.iter().enumerate() {
                if i <= j { out.push(Scen { n, pre: 0, hold: vec![], threads: vec![one('M', "L", a.clone()), one('M', "R", b.clone())], drop }); }
            }
            for b in &ss { out.push(Scen { n, pre: 0, hold: vec![], threads: vec![one('M', "L", a.clone()), one('S', "R", b.clone())], drop }); }
        }
    }
}

/// Three unique handles for neighbouring subslices.
fn unique_three(out: &mut Vec<Scen>, n: usize) {
    let ms: Vec<Vec<(Op, bool)>> = programs('M', 1);
    for drop in [false, true] { for a in &ms { for b in &ms { for c in &ms {
        out.push(Scen { n, pre: 0, hold: vec![], threads: vec![one('M', "L", a.clone()), one('M', "RL", b.clone()), one('M', "RR", c.clone())], drop });
    } } } }
}

pub fn all(set: &str) -> Vec<Scen> {
    let mut v = vec![];
    let sp = |ns: &[usize], depth, pres: &[u8], hs: &[&str], drops: &[bool]| Space { ns: ns.to_vec(), depth, pres: pres.to_vec(), holds: holds(hs), drops: drops.to_vec() };
    for part in set.split(',') {
        match part {
            // Two threads, an operation each.
            "pair" => {
                unordered(&mut v, &sp(&[2], 1, &[0, 1], &["", "S:", "W:", "S:L", "W:L"], &[false, true]), &[1, 1]);
            }
            "pair3" => {
                unordered(&mut v, &sp(&[3], 1, &[0, 2], &["", "W:R"], &[false]), &[1, 1]);
                unordered(&mut v, &sp(&[0, 1], 1, &[0, 1], &["", "W:"], &[true]), &[1, 1]);
            }
            "deep" => unordered(&mut v, &sp(&[4], 2, &[0], &[""], &[false, true]), &[1, 1]),
            "deephold" => unordered(&mut v, &sp(&[4], 2, &[0, 1], &["S:LL", "W:LR", "S:R", "W:"], &[false]), &[1, 1]),
            // Two operations against one.
            "two" => unordered(&mut v, &sp(&[2], 1, &[0], &[""], &[false, true]), &[2, 1]),
            "twohold" => unordered(&mut v, &sp(&[2], 1, &[0, 1], &["S:", "W:", "W:L", "S:R"], &[false]), &[2, 1]),
            "twotwo" => unordered(&mut v, &sp(&[2], 1, &[0], &[""], &[true]), &[2, 2]),
            "three1" => unordered(&mut v, &sp(&[2], 1, &[0], &[""], &[false]), &[3, 1]),
            // Three threads.
            "trio" => unordered(&mut v, &sp(&[2], 1, &[0], &[""], &[true]), &[1, 1, 1]),
            "triokeep" => unordered(&mut v, &sp(&[2], 1, &[0, 1], &["", "W:"], &[false]), &[1, 1, 1]),
            // An iterator over parts, with a clone of it, against anything else.
            "parts" | "parts2" => {
                let (ns, ks): (&[usize], &[usize]) = if part == "parts" { (&[4, 5], &[1]) } else { (&[2], &[2]) };
                for &n in ns { for path in ["", "R"] { for b in ks.iter().flat_map(|k| progs(n, if n > 2 { 2 } else { 1 }, *k, true, "SW")) { for drop in [false, true] {
                    v.push(Scen { n, pre: 0, hold: vec![], threads: vec![one('S', path, vec![(Parts4, false)]), b.clone()], drop });
                } } } }
                for &n in ns { for (a, b) in [("", ""), ("", "L"), ("", "R"), ("R", "R"), ("L", "R")] { for hold in holds(&["", "S:", "W:L", "W:R"]) {
                    v.push(Scen { n, pre: 0, hold, threads: vec![one('S', a, vec![(Parts4, false)]), one('S', b, vec![(Parts4, false)])], drop: false });
                } } }
            }
            // Threads that share references to handles.
            "refs" => mixed(&mut v, &sp(&[2, 3], 1, &[0, 1, 2], &["", "W:L"], &[false, true]), &[1, 1], "RVSW"),
            "refs1" => mixed(&mut v, &sp(&[0, 1], 1, &[0], &[""], &[false, true]), &[1, 1], "RVSW"),
            "refstwo" => mixed(&mut v, &sp(&[2], 1, &[0], &[""], &[false, true]), &[2, 1], "RVSW"),
            "refstrio" => mixed(&mut v, &sp(&[2], 1, &[0], &[""], &[false]), &[1, 1, 1], "RV"),
            "refstwotwo" => mixed(&mut v, &sp(&[2], 1, &[0], &[""], &[true]), &[2, 2], "RV"),
            "unique1" => { unique(&mut v, 2, 1); unique(&mut v, 3, 1) }
            "unique2" => { unique(&mut v, 2, 2) }
            "unique2n5" => { unique(&mut v, 5, 2) }
            "unique3t" => { unique_three(&mut v, 4) }
            x => panic!("no set of scenarios {}", x),
        }
    }
    v
}
