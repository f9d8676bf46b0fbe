//! Which Rust objects the media library was given a pointer to, and whether they still exist: the allocator tells.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
const N: usize = 1 << 14;
static USED: AtomicUsize = AtomicUsize::new(0);
static ADDR: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
/// Count of callbacks that are running on the object (low half) and whether it is gone (top bit).
static STATE: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
const GONE: u64 = 1 << 63;
pub struct Watching;
#[global_allocator]
static ALLOC: Watching = Watching;
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        freed(p as usize, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if q != p {
            freed(p as usize, l.size());
        }
        q
    }
}
/// Buckets by address, so that freeing looks at few entries; an object may be watched several times.
const B: usize = 1 << 10;
static HEAD: [AtomicUsize; B] = [const { AtomicUsize::new(0) }; B];
static NEXT: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
fn bucket(p: usize) -> usize {
    ((p >> 4) ^ (p >> 14)) & (B - 1)
}
fn freed(p: usize, size: usize) {
    if USED.load(Relaxed) == 0 || size == 0 {
        return;
    }
    let mut i = HEAD[bucket(p)].load(Relaxed);
    while i != 0 {
        if ADDR[i].load(Relaxed) == p {
            STATE[i].fetch_or(GONE, Relaxed);
        }
        i = NEXT[i].load(Relaxed);
    }
}
/// From now on it is known whether the object at `p` exists.  Zero: not watched (null, or too many).
pub fn watch<T>(p: *const T) -> usize {
    let i = USED.load(Relaxed) + 1;
    if p.is_null() || i >= N {
        return 0;
    }
    let b = bucket(p as usize);
    ADDR[i].store(p as usize, Relaxed);
    STATE[i].store(0, Relaxed);
    NEXT[i].store(HEAD[b].load(Relaxed), Relaxed);
    HEAD[b].store(i, Relaxed);
    USED.store(i, Relaxed);
    i
}
pub fn gone(i: usize) -> bool {
    i != 0 && STATE[i].load(Relaxed) & GONE != 0
}
