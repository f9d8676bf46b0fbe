//! The libc entry points the simulator replaces.  Outside a simulation each passes through.
use crate::*;
use libc::{c_char, c_int, c_long, c_void, clockid_t, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};

#[inline]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r as c_long
    }
}
pub fn real_futex_wait(a: *mut u32, v: u32) {
    unsafe { raw(libc::SYS_futex, a as usize, libc::FUTEX_WAIT as usize | 128, v as usize, 0, 0, 0) };
}
pub fn real_futex_wake(a: *mut u32) {
    unsafe { raw(libc::SYS_futex, a as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0) };
}
pub fn real_now_ns() -> u64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[inline]
fn in_sim() -> bool {
    active() && ME.with(|m| m.get()) != u32::MAX
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return sim_futex(a as *const AtomicU32, b as c_int, c as u32, d as *const timespec, f as u32);
        }
        if n == libc::SYS_getrandom {
            fill_random(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return b as c_long;
        }
        if n == libc::SYS_clock_gettime {
            return clock_gettime(a as clockid_t, b as *mut timespec) as c_long;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn sim_futex(addr: *const AtomicU32, op: c_int, val: u32, ts: *const timespec, val3: u32) -> c_long {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sched::point();
            if (*addr).load(Ordering::SeqCst) != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let deadline = if ts.is_null() {
                None
            } else {
                let t = (*ts).tv_sec as u64 as u128 * 1_000_000_000 + (*ts).tv_nsec as u128;
                let t = t.min(u64::MAX as u128) as u64;
                Some(if cmd == libc::FUTEX_WAIT {
                    rt().now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    sched::wall_to_mono(t)
                } else {
                    sched::node_to_mono(t)
                })
            };
            let mask = if cmd == libc::FUTEX_WAIT { !0 } else { val3 };
            match sched::block(Wait::Futex { addr: addr as usize, mask }, deadline) {
                Woke::Timeout => {
                    set_errno(libc::ETIMEDOUT);
                    -1
                }
                _ => 0,
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if cmd == libc::FUTEX_WAKE { !0 } else { val3 };
            let n = sched::futex_wake(addr as usize, val, mask);
            sched::point();
            n as c_long
        }
        _ => {
            sched::fatal(&format!("unsupported futex op {op}"));
        }
    }
}

pub(crate) fn fill_random(buf: &mut [u8]) {
    let r = rt();
    let t = &mut r.thr[r.cur as usize];
    for chunk in buf.chunks_mut(8) {
        t.rand_ctr += 1;
        let v = h4(r.seed, 0x7261_6e64, t.id as u64, t.rand_ctr).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    if in_sim() {
        fill_random(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return len as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if in_sim() {
        let t = sched::read_clock(clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = rt().now.saturating_add(ns);
        sched::block(Wait::Sleep, Some(d));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 {
            if clk == libc::CLOCK_REALTIME { sched::wall_to_mono(ns) } else { sched::node_to_mono(ns) }
        } else {
            rt().now.saturating_add(ns)
        };
        sched::block(Wait::Sleep, Some(d));
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        sched::yield_now();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
type NameFn = unsafe extern "C" fn(pthread_t, *const c_char) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_NAME: Option<NameFn> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;

/// Resolves the real functions; call once before any simulation, while single-threaded.
pub fn init() {
    unsafe {
        if REAL_CREATE.is_some() {
            return;
        }
        let f = |n: &[u8]| {
            let p = libc::dlsym(libc::RTLD_NEXT, n.as_ptr() as *const c_char);
            assert!(!p.is_null());
            p
        };
        REAL_JOIN = Some(std::mem::transmute::<*mut c_void, JoinFn>(f(b"pthread_join\0")));
        REAL_NAME = Some(std::mem::transmute::<*mut c_void, NameFn>(f(b"pthread_setname_np\0")));
        REAL_CREATE = Some(std::mem::transmute::<*mut c_void, CreateFn>(f(b"pthread_create\0")));
        libc::pthread_key_create(&mut EXIT_KEY, Some(exit_dtor));
    }
}

struct Start {
    f: StartFn,
    arg: *mut c_void,
    tid: u32,
}

unsafe extern "C" fn exit_dtor(p: *mut c_void) {
    let _ = p;
    // Last thing this thread does inside the simulation.
    ME.with(|m| m.set(u32::MAX));
    sched::thread_exit();
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        let (f, arg, tid) = (s.f, s.arg, s.tid);
        let go: *const AtomicU32 = &rt().thr[tid as usize].go;
        std::mem::forget(s);
        go_wait(&*go);
        ME.with(|m| m.set(tid));
        libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    if REAL_CREATE.is_none() {
        init();
    }
    let real = REAL_CREATE.unwrap();
    if in_sim() {
        let tid = sched::new_thread();
        let s = Box::into_raw(Box::new(Start { f, arg, tid }));
        let mut pt: pthread_t = 0;
        let r = real(&mut pt, attr, trampoline, s as *mut c_void);
        if r != 0 {
            sched::fatal(&format!("pthread_create failed: {r}"));
        }
        *t = pt;
        rt().thr[tid as usize].pthread = pt as usize;
        sched::thread_started(tid);
        sched::point();
        return 0;
    }
    real(t, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    if in_sim() {
        let tid = rt().thr.iter().rev().find(|x| x.pthread == t as usize).map(|x| x.id);
        if let Some(tid) = tid {
            sched::join(tid);
        }
    }
    if REAL_JOIN.is_none() {
        init();
    }
    (REAL_JOIN.unwrap())(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(t: pthread_t, name: *const c_char) -> c_int {
    if in_sim() {
        let n = std::ffi::CStr::from_ptr(name).to_string_lossy().into_owned();
        let r = rt();
        let c = r.cur as usize;
        r.thr[c].name = n;
        return 0;
    }
    if REAL_NAME.is_none() {
        init();
    }
    (REAL_NAME.unwrap())(t, name)
}
