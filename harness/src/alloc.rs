//! Allocator that, while a card is being dropped, looks for marked text in
//! every block that is given back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

pub struct Scan;
static ON: AtomicBool = AtomicBool::new(false);
/// Hand out zeroed blocks, so that what is found in a block was written into it.
pub static CLEAN: AtomicBool = AtomicBool::new(false);
static FREED: AtomicUsize = AtomicUsize::new(0);
const MAX: usize = 8192;
static HITS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];

/// Text with a mark that says which text it is.  It is long, so that what is
/// found in a block was copied there as text: the unused bytes of a structure
/// can hold a few bytes of anything.
pub fn marker(id: u32) -> String {
    format!("Zq7{:04}", id % 10000).repeat(8)
}
const MARK: usize = 7;
const RUN: usize = 5 * MARK;
unsafe fn look(p: *const u8, n: usize) {
    if n < RUN {
        return;
    }
    let s = std::slice::from_raw_parts(p, n);
    for i in 0..=n - RUN {
        if &s[i..i + 3] == b"Zq7"
            && s[i + 3..i + MARK].iter().all(|c| c.is_ascii_digit())
            && s[i..i + RUN - MARK] == s[i + MARK..i + RUN]
        {
            let id = s[i + 3..i + 7].iter().fold(0usize, |a, c| a * 10 + (c - b'0') as usize);
            if id < MAX {
                HITS[id].fetch_add(1, Relaxed);
            }
        }
    }
}
unsafe impl GlobalAlloc for Scan {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CLEAN.load(Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            FREED.fetch_add(1, Relaxed);
            look(p, l.size());
        }
        System.dealloc(p, l)
    }
}
/// Drop the value and report the markers seen in freed blocks, with the
/// number of blocks that were freed.
pub fn drop_scanned<T>(v: T) -> (Vec<u32>, usize) {
    for h in HITS.iter() {
        h.store(0, Relaxed);
    }
    FREED.store(0, SeqCst);
    ON.store(true, SeqCst);
    drop(v);
    ON.store(false, SeqCst);
    let hits = (0..MAX).filter(|i| HITS[*i].load(Relaxed) > 0).map(|i| i as u32).collect();
    (hits, FREED.load(SeqCst))
}
