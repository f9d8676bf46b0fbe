//! simrt: a deterministic simulation runtime at the libc boundary.
//!
//! The code under test runs unmodified on real OS threads, but exactly one of them holds the baton
//! at any time.  Every way it can observe or cause nondeterminism ends here: thread creation, exit
//! and join (`pthread_*`), every blocking lock, condition variable, channel or park (`futex`),
//! clocks and sleeps (virtual time), and randomness (`getrandom`).  Preemption points are the
//! coverage callbacks the compiler put on each basic-block edge of the code under test.
//! A seed decides everything; the same seed gives the same execution.
#![allow(static_mut_refs)]

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering};

pub mod disk;
pub mod os;
pub mod sched;
pub use sched::*;

// ------------------------------------------------------------------------------------------------
// Deterministic hashing / random numbers
// ------------------------------------------------------------------------------------------------

pub const fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn h2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b ^ 0x5bd1_e995))
}
pub fn h3(a: u64, b: u64, c: u64) -> u64 {
    h2(h2(a, b), c)
}
pub fn h4(a: u64, b: u64, c: u64, d: u64) -> u64 {
    h2(h3(a, b, c), d)
}

/// A small sequential generator, for generating inputs (ops lists and the like).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA076_1D64_78BD_642F))
    }
    pub fn derive(seed: u64, name: &str) -> Self {
        Rng::new(h2(seed, hash_str(name)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

// ------------------------------------------------------------------------------------------------
// Run configuration and explicit (minimised) decision sets
// ------------------------------------------------------------------------------------------------

/// Which of the optional decisions of a run are kept.  `None` keeps everything the seed decides.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Keep {
    /// Indices of workload operations that are kept.
    pub ops: Option<BTreeSet<u64>>,
    /// Fault ids (site hash folded with the occurrence number) that may fire.
    pub faults: Option<BTreeSet<u64>>,
    /// Explicit schedule: at (thread, thread-local step) switch to the given thread, after stalling
    /// the first for the given time (0: no stall).
    pub sched: Option<BTreeMap<(u32, u64), (u32, u64)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    /// No preemption; at a block the next runnable thread in round-robin order.
    Fifo,
    /// Uniformly random choice at every scheduling point.
    Random,
    /// Random fixed priorities with a few random priority change points (PCT).
    Pct,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub policy: Policy,
    /// Mean number of edges between two preemption points (0: never preempt on edges).
    pub gap: u64,
    /// Largest random time (ns) a context switch may take.
    pub jitter_ns: u64,
    /// Spurious futex wake-ups: one in this many waits (0: never).
    pub spurious: u64,
    /// One thread stall (pause of a thread for a while) in this many scheduling points (0: never).
    pub stall: u64,
    pub stall_max_ns: u64,
    /// Hard limit of steps (edges + scheduling points) in a run.
    pub max_steps: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg { policy: Policy::Fifo, gap: 0, jitter_ns: 0, spurious: 0, stall: 0, stall_max_ns: 0, max_steps: 400_000_000 }
    }
}
impl SchedCfg {
    /// Swarm-style variation of the scheduler itself.
    pub fn swarm(seed: u64) -> Self {
        let mut r = Rng::derive(seed, "schedcfg");
        let policy = *r.pick(&[Policy::Random, Policy::Random, Policy::Pct, Policy::Fifo]);
        let gap = *r.pick(&[0u64, 20_000, 3_000, 500, 100, 30]);
        let jitter_ns = *r.pick(&[0u64, 2_000, 50_000, 500_000, 5_000_000]);
        let spurious = *r.pick(&[0u64, 0, 20, 4]);
        let stall = *r.pick(&[0u64, 0, 0, 300, 2000]);
        let stall_max_ns = *r.pick(&[1_000_000u64, 30_000_000, 400_000_000]);
        SchedCfg { policy, gap, jitter_ns, spurious, stall, stall_max_ns, ..Default::default() }
    }
}

// ------------------------------------------------------------------------------------------------
// Threads
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum Wait {
    Run,
    Futex { addr: usize, mask: u32 },
    Sleep,
    Join { tid: u32 },
    Key { key: u64 },
    Quiesce,
    Done,
    Frozen,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum Woke {
    No,
    Notified,
    Timeout,
    Spurious,
}

pub(crate) struct Thr {
    pub id: u32,
    pub name: String,
    pub node: u32,
    pub wait: Wait,
    pub deadline: Option<u64>,
    pub woke: Woke,
    pub go: AtomicU32,
    pub steps: u64,
    pub budget_from: u64,
    pub rand_ctr: u64,
    pub prio: u64,
    pub stall_until: u64,
    pub pthread: usize,
    pub nopreempt: u32,
    pub wait_seq: u64,
    pub frozen: bool,
    /// Harness threads may block forever without that being a deadlock.
    pub harness: bool,
}

thread_local! {
    pub(crate) static ME: Cell<u32> = const { Cell::new(u32::MAX) };
}

pub(crate) static mut ACTIVE: bool = false;
pub(crate) static mut STEPS: u64 = 0;
/// Edges left until the next preemption point of the running thread.
pub(crate) static mut BUDGET: u64 = u64::MAX;
pub(crate) static mut NOPREEMPT: u32 = 0;

pub(crate) struct Rt {
    pub seed: u64,
    pub cfg: SchedCfg,
    pub keep: Keep,
    pub thr: Vec<Box<Thr>>,
    pub cur: u32,
    pub now: u64,
    pub wall_off: Vec<i64>,
    pub points: u64,
    pub switches: u64,
    pub wait_ctr: u64,
    pub loghash: u64,
    pub inter: u64,
    pub log: Vec<String>,
    pub log_on: bool,
    pub devs: Vec<(u32, u64, u32, u64)>,
    pub stalled_now: u64,
    pub max_op: u64,
    pub active_prop: String,
    pub also: &'static [&'static str],
    pub fault_ctr: BTreeMap<u64, u64>,
    pub fault_fired: BTreeMap<&'static str, u64>,
    pub faults_hit: Vec<(u64, String)>,
    pub violation: Option<(String, String)>,
    pub stop_on_violation: bool,
    pub panics: Vec<String>,
    pub pct_points: Vec<u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub faults_off: bool,
    pub expected_panics: Vec<String>,
}

pub(crate) static mut RT: Option<Box<Rt>> = None;
#[inline]
pub(crate) fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().expect("simulation not running") }
}
#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

/// Virtual time at which every run starts, so that "time zero" mistakes have room to show.
pub const T0_MONO: u64 = 1_000_000_000_000;
/// 2026-03-01T00:00:00Z
pub const T0_WALL: i64 = 1_772_323_200_000_000_000;


/// Coverage of the code under test: one byte per instrumented edge.
pub static mut COV: [u8; 1 << 17] = [0; 1 << 17];
pub static mut NGUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE {
        return;
    }
    let id = *guard as usize & ((1 << 17) - 1);
    COV[id] = 1;
    STEPS += 1;
    if BUDGET > 1 {
        BUDGET -= 1;
        return;
    }
    sched::edge_point();
}

pub(crate) fn go_wait(a: &AtomicU32) {
    while a.load(Ordering::Acquire) == 0 {
        os::real_futex_wait(a.as_ptr(), 0);
    }
    a.store(0, Ordering::Relaxed);
}
pub(crate) fn go_set(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    os::real_futex_wake(a.as_ptr());
}

/// State shared by harness threads.  Sound because simulated threads run one at a time and harness
/// code is not preempted (only blocking calls and instrumented code switch threads).
pub struct Shr<T>(std::sync::Arc<std::cell::UnsafeCell<T>>);
unsafe impl<T> Send for Shr<T> {}
unsafe impl<T> Sync for Shr<T> {}
impl<T> Clone for Shr<T> {
    fn clone(&self) -> Self {
        Shr(self.0.clone())
    }
}
impl<T> Shr<T> {
    pub fn new(t: T) -> Self {
        Shr(std::sync::Arc::new(std::cell::UnsafeCell::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn g(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
