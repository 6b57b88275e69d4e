use crate::engine::{hist_text, Op};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Args(pub Vec<(String, String)>);

impl Args {
    pub fn parse(v: &[String]) -> Args {
        Args(v.iter().filter_map(|s| s.strip_prefix("--").and_then(|s| s.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string()))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&str> { self.0.iter().rev().find(|x| x.0 == k).map(|x| &*x.1) }
    pub fn num(&self, k: &str, d: usize) -> usize { self.get(k).map(|s| s.parse().expect(k)).unwrap_or(d) }
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static mut HIST: *mut u8 = std::ptr::null_mut();
static mut HIST_LEN: usize = 0;
const HIST_CAP: usize = 1 << 16;

pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

/// End the process if nothing happens for too long.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last { same += 1 } else { same = 0; last = b }
            if same >= secs * 2 { unsafe { exit_now(66) } }
        }
    });
}

extern "C" { fn _exit(c: i32) -> !; }
unsafe fn exit_now(c: i32) -> ! { _exit(c) }

extern "C" { fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

/// Keep what's being run in a shared mapping of a file, which outlives this process
/// whatever happens to it.
pub fn hist_file(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("history file");
    f.set_len(HIST_CAP as u64).expect("history file");
    unsafe {
        let p = mmap(std::ptr::null_mut(), HIST_CAP, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        HIST = p;
    }
}

/// Put on record what's about to run, in case it's the last thing this process does.
pub fn hist_begin(h: &[Op]) {
    unsafe { HIST_LEN = 0; }
    for op in h { hist_more(*op); }
    unsafe {
        // A marker where what's being explored ends, and its probes and teardown begin.
        if !HIST.is_null() && HIST_LEN + 7 <= HIST_CAP {
            let p = HIST.add(HIST_LEN);
            *p = 0xFE;
            *p.add(1) = 0;
            *p.add(2) = 0;
            *p.add(3) = 0;
            HIST_LEN += 3;
        }
    }
    beat();
}

pub fn hist_more(op: Op) {
    beat();
    unsafe {
        if HIST.is_null() || HIST_LEN + 4 > HIST_CAP { return }
        let p = HIST.add(HIST_LEN);
        *p = 1 + op.k as u8;
        *p.add(1) = op.slot;
        *p.add(2) = op.arg;
        *p.add(3) = 0;
        HIST_LEN += 3;
    }
}

/// For engines that don't work with ops: any text, after a marker.
pub fn hist_note(s: &str) {
    beat();
    unsafe {
        if HIST.is_null() { return }
        HIST_LEN = HIST_CAP;
        *HIST = 0xFF;
        let n = s.len().min(HIST_CAP - 2);
        std::ptr::copy_nonoverlapping(s.as_ptr(), HIST.add(1), n);
        *HIST.add(1 + n) = 0;
    }
}

pub fn hist_read(path: &str) -> String {
    let b = std::fs::read(path).unwrap_or_default();
    if b.first() == Some(&0xFF) {
        return String::from_utf8_lossy(&b[1..]).split('\0').next().unwrap_or("").to_string();
    }
    let mut h = vec![];
    for c in b.chunks(3) {
        if c[0] == 0 || c.len() < 3 { break }
        if c[0] == 0xFE { h.push("|".to_string()); continue; }
        h.push(hist_text(&[Op { k: crate::engine::ALL_K[c[0] as usize - 1], slot: c[1], arg: c[2] }]));
    }
    h.join(" ")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
