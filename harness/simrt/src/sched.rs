//! The scheduler, virtual time, fault decisions and the event log.
use crate::*;

/// How long (virtual) a harness thread may stay blocked inside a call into the code under test.
pub const API_BLOCK_LIMIT: u64 = 180_000_000_000;
const PREEMPT_CAP: u64 = 2_000_000;

// ---- life cycle --------------------------------------------------------------------------------

pub fn start(seed: u64, cfg: SchedCfg, keep: Keep) {
    os::init();
    unsafe {
        assert!(!ACTIVE);
        STEPS = 0;
        BUDGET = u64::MAX;
        NOPREEMPT = 0;
        let mut pct_points = Vec::new();
        let mut r = Rng::derive(seed, "pct");
        for _ in 0..r.range(1, 12) {
            let scale = *r.pick(&[100u64, 1000, 5000, 30000]);
            pct_points.push(r.below(scale));
        }
        RT = Some(Box::new(Rt {
            seed,
            cfg,
            keep,
            thr: Vec::new(),
            cur: 0,
            now: T0_MONO,
            wall_off: vec![0; 64],
            points: 0,
            switches: 0,
            wait_ctr: 0,
            loghash: mix(seed),
            inter: 0,
            log: Vec::new(),
            log_on: false,
            devs: Vec::new(),
            stalled_now: 0,
            max_op: 0,
            active_prop: String::new(),
            also: &[],
            fault_ctr: BTreeMap::new(),
            fault_fired: BTreeMap::new(),
            faults_hit: Vec::new(),
            violation: None,
            stop_on_violation: true,
            panics: Vec::new(),
            pct_points,
            probes: BTreeMap::new(),
            faults_off: false,
            expected_panics: Vec::new(),
        }));
        push_thread("main", 0, true);
        rt().thr[0].wait = Wait::Run;
        ME.with(|m| m.set(0));
        ACTIVE = true;
        set_budget();
    }
}

fn push_thread(name: &str, node: u32, harness: bool) -> u32 {
    let r = rt();
    let id = r.thr.len() as u32;
    r.thr.push(Box::new(Thr {
        id,
        name: name.to_string(),
        node,
        wait: Wait::Frozen,
        deadline: None,
        woke: Woke::No,
        go: AtomicU32::new(0),
        steps: 0,
        budget_from: 0,
        rand_ctr: 0,
        prio: h3(r.seed, 0x7072_696f, id as u64) | (1 << 63),
        stall_until: 0,
        pthread: 0,
        nopreempt: 0,
        wait_seq: 0,
        frozen: false,
        harness,
    }));
    id
}

pub(crate) fn new_thread() -> u32 {
    let r = rt();
    let (node, harness) = {
        let c = &r.thr[r.cur as usize];
        (c.node, false)
    };
    push_thread("?", node, harness)
}
pub(crate) fn thread_started(tid: u32) {
    let r = rt();
    r.thr[tid as usize].wait = Wait::Run;
    evh(&[0x74687264, tid as u64, r.cur as u64]);
}

/// Marks the calling thread as harness code living on `node`.
pub fn harness_thread(name: &str, node: u32) {
    let r = rt();
    let c = r.cur as usize;
    r.thr[c].harness = true;
    r.thr[c].node = node;
    r.thr[c].name = name.to_string();
}
/// Node of the current thread; threads it creates inherit it.
pub fn set_node(node: u32) {
    let r = rt();
    let c = r.cur as usize;
    r.thr[c].node = node;
}
pub fn node() -> u32 {
    let r = rt();
    r.thr[r.cur as usize].node
}
pub fn me() -> u32 {
    rt().cur
}
pub fn thread_name(tid: u32) -> String {
    rt().thr[tid as usize].name.clone()
}
/// Number of threads of a node that have not finished.
pub fn live_threads(node: u32) -> Vec<String> {
    rt().thr
        .iter()
        .filter(|t| t.node == node && t.wait != Wait::Done && !t.frozen && !t.harness)
        .map(|t| t.name.clone())
        .collect()
}

// ---- time --------------------------------------------------------------------------------------

pub fn now() -> u64 {
    rt().now
}
/// Nanoseconds since the start of the run.
pub fn elapsed() -> u64 {
    rt().now - T0_MONO
}
pub(crate) fn read_clock(wall: bool) -> u64 {
    let r = rt();
    r.now += 1_000;
    let n = r.thr[r.cur as usize].node as usize;
    if wall {
        (T0_WALL + (r.now - T0_MONO) as i64 + r.wall_off[n & 63]) as u64
    } else {
        r.now
    }
}
pub fn wall_now(node: u32) -> i64 {
    let r = rt();
    T0_WALL + (r.now - T0_MONO) as i64 + r.wall_off[node as usize & 63]
}
pub(crate) fn wall_to_mono(t: u64) -> u64 {
    let r = rt();
    let n = r.thr[r.cur as usize].node as usize;
    let v = t as i128 - T0_WALL as i128 - r.wall_off[n & 63] as i128 + T0_MONO as i128;
    v.clamp(0, u64::MAX as i128) as u64
}
pub(crate) fn node_to_mono(t: u64) -> u64 {
    t
}
/// Clock fault: the wall clock of a node jumps.
pub fn wall_jump(node: u32, delta_ns: i64) {
    rt().wall_off[node as usize & 63] += delta_ns;
}

// ---- event log ---------------------------------------------------------------------------------

pub fn log_enable(on: bool) {
    rt().log_on = on;
}
pub fn log_on() -> bool {
    active() && rt().log_on
}
/// Appends to the run's event log (and to its hash, which is what determinism is judged by).
pub fn ev(s: &str) {
    let r = rt();
    r.loghash = h2(r.loghash, hash_str(s) ^ r.now);
    if r.log_on {
        let line = format!("{:>14.6} t{:<2} {}", (r.now - T0_MONO) as f64 / 1e9, r.cur, s);
        if std::env::var_os("RSIM_TRACE").is_some() {
            eprintln!("{line}");
        }
        r.log.push(line);
    }
}
/// Only hashed, never printed.
pub fn evh(v: &[u64]) {
    let r = rt();
    for x in v {
        r.loghash = h2(r.loghash, *x);
    }
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::ev(&format!($($a)*)) };
}

/// Counts something that actually happened in this run (for vacuity checks and evidence).
pub fn probe(name: &'static str) {
    *rt().probes.entry(name).or_insert(0) += 1;
}
pub fn probe_n(name: &'static str, n: u64) {
    *rt().probes.entry(name).or_insert(0) += n;
}

// ---- faults and decisions ----------------------------------------------------------------------

pub fn seed() -> u64 {
    rt().seed
}
/// A deterministic value for the n-th use of `site` (independent of all other sites).
pub fn draw(site: &str) -> u64 {
    let r = rt();
    let s = hash_str(site);
    let c = r.fault_ctr.entry(s).or_insert(0);
    *c += 1;
    h4(r.seed, 0x6472_6177, s, *c)
}
pub fn draw_below(site: &str, n: u64) -> u64 {
    ((draw(site) as u128 * n as u128) >> 64) as u64
}
/// Decides whether the next occurrence of a fault fires: with probability 1/one_in (0: never).
/// Returns a value to derive the fault's parameters from.
pub fn fault(kind: &'static str, site: &str, one_in: u64) -> Option<u64> {
    let r = rt();
    let s = h2(hash_str(kind), hash_str(site));
    let c = r.fault_ctr.entry(s).or_insert(0);
    *c += 1;
    let n = *c;
    if one_in == 0 || r.faults_off {
        return None;
    }
    let v = h4(r.seed, 0x6661_756c, s, n);
    if v % one_in != 0 {
        return None;
    }
    let id = h2(s, n);
    if let Some(k) = &r.keep.faults {
        if !k.contains(&id) {
            return None;
        }
    }
    *r.fault_fired.entry(kind).or_insert(0) += 1;
    r.faults_hit.push((id, format!("{kind}@{site}#{n}")));
    Some(mix(v))
}
/// Faults stop: from here on the system must make progress.
pub fn faults_off() {
    rt().faults_off = true;
}
pub fn op_kept(i: u64) -> bool {
    rt().max_op = rt().max_op.max(i + 1);
    rt().keep.ops.as_ref().is_none_or(|k| k.contains(&i))
}

// ---- violations --------------------------------------------------------------------------------

pub static mut END_RUN: Option<fn() -> !> = None;

pub fn violation(rule: &str, msg: &str) {
    let r = rt();
    // "<property>:<rule>" counts only while that property is being decided.
    if let Some((p, _)) = rule.split_once(':') {
        if !r.active_prop.is_empty() && p != r.active_prop && !r.also.contains(&rule) {
            return;
        }
    }
    if r.violation.is_none() {
        r.violation = Some((rule.to_string(), msg.to_string()));
        ev(&format!("VIOLATION [{rule}] {msg}"));
        if r.stop_on_violation {
            if let Some(f) = unsafe { END_RUN } {
                f();
            }
        }
    }
}
#[macro_export]
macro_rules! violate {
    ($rule:expr, $($a:tt)*) => { $crate::violation($rule, &format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $rule:expr, $($a:tt)*) => { if !$c { $crate::violation($rule, &format!($($a)*)) } };
}

pub fn fatal(msg: &str) -> ! {
    unsafe { ACTIVE = false };
    eprintln!("simrt fatal: {msg}");
    unsafe { libc::_exit(70) }
}

pub fn on_panic(msg: &str) {
    if !active() || ME.with(|m| m.get()) == u32::MAX {
        return;
    }
    let r = rt();
    let c = r.cur as usize;
    let s = format!("thread '{}' panicked: {}", r.thr[c].name, msg);
    ev(&s);
    if r.expected_panics.iter().any(|p| msg.contains(p.as_str())) {
        return;
    }
    r.panics.push(s.clone());
    violation("panic", &s);
}
/// Panics whose message contains `p` are injected by the harness itself.
pub fn expect_panic(p: &str) {
    rt().expected_panics.push(p.to_string());
}
pub fn panics() -> Vec<String> {
    rt().panics.clone()
}

pub struct Stats {
    pub seed: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub threads: u64,
    pub loghash: u64,
    pub inter: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub faults_hit: Vec<(u64, String)>,
    pub probes: BTreeMap<&'static str, u64>,
    pub devs: Vec<(u32, u64, u32, u64)>,
    pub max_op: u64,
    pub panics: Vec<String>,
    pub violation: Option<(String, String)>,
    pub log: Vec<String>,
}

/// Ends the simulation (the calling thread keeps running; all others stay parked for good).
pub fn stop() -> Stats {
    unsafe {
        sync_steps();
        ACTIVE = false;
        let r = RT.as_mut().unwrap();
        Stats {
            seed: r.seed,
            sim_ns: r.now - T0_MONO,
            steps: STEPS,
            points: r.points,
            switches: r.switches,
            threads: r.thr.len() as u64,
            loghash: h2(r.loghash, h2(STEPS, r.now)),
            inter: r.inter,
            faults: r.fault_fired.clone(),
            faults_hit: std::mem::take(&mut r.faults_hit),
            probes: r.probes.clone(),
            devs: std::mem::take(&mut r.devs),
            max_op: r.max_op,
            panics: r.panics.clone(),
            violation: r.violation.clone(),
            log: std::mem::take(&mut r.log),
        }
    }
}

// ---- scheduling --------------------------------------------------------------------------------

fn sync_steps() {
    unsafe {
        let r = rt();
        let t = &mut r.thr[r.cur as usize];
        let used = t.budget_from - BUDGET.min(t.budget_from);
        t.steps += used;
        t.budget_from = BUDGET;
    }
}

fn set_budget() {
    unsafe {
        let r = rt();
        let seed = r.seed;
        let gap = r.cfg.gap;
        let t = &mut r.thr[r.cur as usize];
        let b = if let Some(m) = &r.keep.sched {
            match m.range((t.id, t.steps + 1)..=(t.id, u64::MAX)).next() {
                Some((k, _)) => (k.1 - t.steps).min(PREEMPT_CAP),
                None => PREEMPT_CAP,
            }
        } else if gap == 0 {
            PREEMPT_CAP
        } else {
            1 + h4(seed, 0x6761_7021, t.id as u64, t.steps) % (2 * gap)
        };
        t.budget_from = b;
        BUDGET = b;
    }
}

fn expire(r: &mut Rt) {
    let now = r.now;
    for t in r.thr.iter_mut() {
        if let Some(d) = t.deadline {
            if d <= now && !matches!(t.wait, Wait::Run | Wait::Done | Wait::Frozen) {
                t.wait = Wait::Run;
                t.deadline = None;
                t.woke = Woke::Timeout;
            }
        }
    }
}

fn runnable(t: &Thr, now: u64) -> bool {
    t.wait == Wait::Run && !t.frozen && t.stall_until <= now
}

/// Picks the next thread.  `stay`: whether the current thread may simply go on.
fn choose(stay: bool, preempting: bool) -> u32 {
    let r = rt();
    r.points += 1;
    loop {
        expire(r);
        let now = r.now;
        let cur = r.cur;
        let n = r.thr.iter().filter(|t| runnable(t, now)).count();
        if n == 0 {
            if let Some(t) = r.thr.iter_mut().find(|t| t.wait == Wait::Quiesce && !t.frozen) {
                t.wait = Wait::Run;
                t.deadline = None;
                t.woke = Woke::Notified;
                continue;
            }
            let next = r
                .thr
                .iter()
                .filter(|t| !t.frozen)
                .filter_map(|t| match t.wait {
                    Wait::Done | Wait::Frozen => None,
                    Wait::Run => Some(t.stall_until),
                    _ => t.deadline,
                })
                .min();
            match next {
                Some(d) => {
                    r.now = r.now.max(d);
                    watchdog(r);
                    continue;
                }
                None => deadlock(r),
            }
        }
        let can_stay = stay && runnable(&r.thr[cur as usize], now);
        // default: stay, else round robin
        let default = if can_stay {
            cur
        } else {
            let len = r.thr.len() as u32;
            (1..=len).map(|i| (cur + i) % len).find(|i| runnable(&r.thr[*i as usize], now)).unwrap()
        };
        if n == 1 {
            return default;
        }
        let (id, steps) = {
            let t = &r.thr[cur as usize];
            (t.id, t.steps)
        };
        if let Some(m) = &r.keep.sched {
            if let Some((to, st)) = m.get(&(id, steps)) {
                if (*to as usize) < r.thr.len() && runnable(&r.thr[*to as usize], now) {
                    r.devs.push((id, steps, *to, *st));
                    r.stalled_now = 0;
                    return *to;
                }
            }
            return default;
        }
        let c = match r.cfg.policy {
            Policy::Fifo => {
                if preempting {
                    let len = r.thr.len() as u32;
                    (1..=len).map(|i| (cur + i) % len).find(|i| runnable(&r.thr[*i as usize], now)).unwrap()
                } else {
                    default
                }
            }
            Policy::Random => {
                let v = h4(r.seed, 0x7363_6864, id as u64, steps);
                if can_stay && !preempting && v % 3 != 0 {
                    cur
                } else {
                    let k = (mix(v) % n as u64) as usize;
                    r.thr.iter().filter(|t| runnable(t, now)).nth(k).unwrap().id
                }
            }
            Policy::Pct => {
                if r.pct_points.contains(&r.points) || (preempting && h4(r.seed, 0x7063_7470, id as u64, steps) % 16 == 0) {
                    r.thr[cur as usize].prio = u32::MAX as u64 - r.points.min(u32::MAX as u64);
                }
                r.thr.iter().filter(|t| runnable(t, now) && (t.id != cur || can_stay)).max_by_key(|t| t.prio).unwrap().id
            }
        };
        if c != default || r.stalled_now > 0 {
            r.devs.push((id, steps, c, r.stalled_now));
            r.stalled_now = 0;
        }
        return c;
    }
}

fn watchdog(r: &mut Rt) {
    let now = r.now;
    for t in r.thr.iter() {
        if t.harness
            && t.id != 0
            && !t.frozen
            && t.deadline.is_none()
            && matches!(t.wait, Wait::Futex { .. } | Wait::Join { .. })
            && now.saturating_sub(t.wait_seq) > API_BLOCK_LIMIT
        {
            let who = t.name.clone();
            let d = blocked(r);
            violation("hang", &format!("a call from thread '{who}' has been blocked for {} s; {d}", API_BLOCK_LIMIT / 1_000_000_000));
            return;
        }
    }
}

fn blocked(r: &Rt) -> String {
    let v: Vec<String> = r
        .thr
        .iter()
        .filter(|t| !matches!(t.wait, Wait::Done | Wait::Frozen | Wait::Run) && !t.frozen)
        .map(|t| {
            let w = match t.wait {
                Wait::Futex { .. } => "lock/condvar/channel".to_string(),
                Wait::Join { tid } => format!("join of '{}'", r.thr[tid as usize].name),
                Wait::Sleep => "sleep".into(),
                Wait::Key { .. } => "simulator queue".into(),
                _ => "quiesce".into(),
            };
            format!("t{} '{}' in {}", t.id, t.name, w)
        })
        .collect();
    format!("blocked threads: {}", v.join(", "))
}

fn deadlock(r: &mut Rt) -> ! {
    let d = blocked(r);
    r.stop_on_violation = true;
    violation("deadlock", &format!("no thread can ever run again; {d}"));
    fatal("deadlock with no run end handler");
}

fn switch_to(next: u32) {
    let r = rt();
    let cur = r.cur;
    if next == cur {
        set_budget();
        return;
    }
    r.switches += 1;
    let (cs, jit) = {
        let t = &r.thr[cur as usize];
        (t.steps, r.cfg.jitter_ns)
    };
    r.inter = h4(r.inter, cur as u64, next as u64, cs);
    if jit > 0 {
        let v = h4(r.seed, 0x6a69_7474, cur as u64, cs);
        // mostly short, sometimes long
        let scale = if v % 8 == 0 { jit } else { jit / 16 + 1 };
        r.now += mix(v) % scale;
    }
    r.cur = next;
    unsafe {
        r.thr[cur as usize].nopreempt = NOPREEMPT;
        NOPREEMPT = r.thr[next as usize].nopreempt;
    }
    let mine: *const AtomicU32 = &r.thr[cur as usize].go;
    let theirs: *const AtomicU32 = &r.thr[next as usize].go;
    let done = r.thr[cur as usize].wait == Wait::Done;
    set_budget();
    unsafe {
        go_set(&*theirs);
        if !done {
            go_wait(&*mine);
        }
    }
}

fn steps_check() {
    unsafe {
        let r = rt();
        if STEPS > r.cfg.max_steps {
            r.cfg.max_steps = u64::MAX;
            let n = r.thr[r.cur as usize].name.clone();
            violation("livelock", &format!("step limit reached while thread '{n}' was running"));
        }
    }
}

/// An edge-count preemption point was reached.
pub(crate) fn edge_point() {
    unsafe {
        BUDGET = 0;
        sync_steps();
        steps_check();
        if NOPREEMPT > 0 {
            set_budget();
            return;
        }
        maybe_stall();
        let next = choose(true, true);
        switch_to(next);
    }
}

fn maybe_stall() {
    let r = rt();
    let c = r.cur as usize;
    if let Some(m) = &r.keep.sched {
        if let Some((_, st)) = m.get(&(r.cur, r.thr[c].steps)) {
            if *st > 0 {
                r.thr[c].stall_until = r.now + st;
                r.stalled_now = *st;
                *r.fault_fired.entry("thread-stall").or_insert(0) += 1;
            }
        }
        return;
    }
    if r.cfg.stall == 0 || r.thr[c].harness {
        return;
    }
    let id = h4(r.seed, 0x7374_616c, r.thr[c].id as u64, r.thr[c].steps);
    if id % r.cfg.stall == 0 && !r.faults_off {
        let d = 1 + mix(id) % r.cfg.stall_max_ns;
        r.thr[c].stall_until = r.now + d;
        *r.fault_fired.entry("thread-stall").or_insert(0) += 1;
        r.stalled_now = d;
    }
}

/// A scheduling point at a synchronisation operation, clock read or call across the seam.
pub fn point() {
    if !active() || ME.with(|m| m.get()) == u32::MAX {
        return;
    }
    unsafe {
        if NOPREEMPT > 0 {
            return;
        }
        sync_steps();
        STEPS += 1;
        steps_check();
        let r = rt();
        r.thr[r.cur as usize].steps += 1;
        maybe_stall();
        let next = choose(true, false);
        switch_to(next);
    }
}

pub fn yield_now() {
    sync_steps();
    unsafe { STEPS += 1 };
    steps_check();
    let r = rt();
    let c = r.cur as usize;
    r.thr[c].steps += 1;
    if r.cfg.policy == Policy::Pct {
        r.thr[c].prio = u32::MAX as u64 - r.points.min(u32::MAX as u64);
    }
    r.now += 1_000;
    let next = choose(true, true);
    switch_to(next);
}

/// Blocks the current thread.
pub(crate) fn block(w: Wait, deadline: Option<u64>) -> Woke {
    sync_steps();
    unsafe { STEPS += 1 };
    steps_check();
    let r = rt();
    let c = r.cur as usize;
    {
        r.wait_ctr += 1;
        let now = r.now;
        let t = &mut r.thr[c];
        t.steps += 1;
        t.woke = Woke::No;
        t.deadline = deadline;
        t.wait = w;
        t.wait_seq = now;
        // spurious wake-up, as the futex contract allows
        if let (Wait::Futex { .. }, true) = (w, r.cfg.spurious > 0 && !t.harness) {
            let id = h4(r.seed, 0x7370_7572, t.id as u64, t.steps);
            let kept = r.keep.faults.as_ref().is_none_or(|k| k.contains(&id));
            if id % r.cfg.spurious == 0 && kept && !r.faults_off {
                t.wait = Wait::Run;
                t.deadline = None;
                t.woke = Woke::Spurious;
                *r.fault_fired.entry("spurious-wakeup").or_insert(0) += 1;
                r.faults_hit.push((id, format!("spurious-wakeup@{}", t.name)));
            }
        }
    }
    let next = choose(true, false);
    switch_to(next);
    let r = rt();
    let t = &mut r.thr[c];
    t.deadline = None;
    let w = t.woke;
    evh(&[0x626c, c as u64, w as u64]);
    w
}

pub(crate) fn futex_wake(addr: usize, n: u32, mask: u32) -> u32 {
    let r = rt();
    let mut woken = 0;
    while woken < n {
        // oldest waiter first, as the kernel does for equal priorities
        let w = r
            .thr
            .iter_mut()
            .filter(|t| !t.frozen && matches!(t.wait, Wait::Futex { addr: a, mask: m } if a == addr && m & mask != 0))
            .min_by_key(|t| (t.wait_seq, t.id));
        match w {
            Some(t) => {
                t.wait = Wait::Run;
                t.deadline = None;
                t.woke = Woke::Notified;
                woken += 1;
            }
            None => break,
        }
    }
    woken
}

pub(crate) fn join(tid: u32) {
    point();
    if rt().thr[tid as usize].wait != Wait::Done {
        block(Wait::Join { tid }, None);
    }
}

pub(crate) fn thread_exit() {
    if !active() {
        return;
    }
    sync_steps();
    let r = rt();
    let cur = r.cur;
    r.thr[cur as usize].wait = Wait::Done;
    r.thr[cur as usize].steps += 1;
    for t in r.thr.iter_mut() {
        if t.wait == (Wait::Join { tid: cur }) {
            t.wait = Wait::Run;
            t.woke = Woke::Notified;
        }
    }
    let next = choose(false, false);
    switch_to(next);
}

// ---- harness-side primitives -------------------------------------------------------------------

/// Waits on a harness key; returns false on timeout.
pub fn wait_key(key: u64, deadline: Option<u64>) -> bool {
    block(Wait::Key { key }, deadline) == Woke::Notified
}
pub fn notify_key(key: u64) {
    for t in rt().thr.iter_mut() {
        if t.wait == (Wait::Key { key }) {
            t.wait = Wait::Run;
            t.deadline = None;
            t.woke = Woke::Notified;
        }
    }
}
pub fn sleep_until(t: u64) {
    if t > now() {
        block(Wait::Sleep, Some(t));
    }
}
pub fn sleep_ns(d: u64) {
    let t = now() + d;
    sleep_until(t);
}
pub fn sleep_ms(d: u64) {
    sleep_ns(d * 1_000_000);
}
/// Lets every runnable thread run until all are blocked, without letting time pass on purpose.
pub fn quiesce() {
    block(Wait::Quiesce, None);
}
/// Crash of a node: its threads never run again.
pub fn freeze_node(node: u32) {
    for t in rt().thr.iter_mut() {
        if t.node == node && !t.harness {
            t.frozen = true;
        }
    }
}
/// Runs `f` without preemption (harness code touching shared simulator state).
pub fn atomic<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        NOPREEMPT += 1;
        let v = f();
        NOPREEMPT -= 1;
        v
    }
}
pub fn max_steps(n: u64) {
    rt().cfg.max_steps = n;
}
pub fn cfg() -> &'static mut SchedCfg {
    &mut rt().cfg
}
pub fn schedule_calm() {
    let r = rt();
    r.cfg.spurious = 0;
    r.cfg.stall = 0;
}

/// The property being decided, and rules of other properties that break it too.
pub fn set_active_prop(p: &str, also: &'static [&'static str]) {
    rt().active_prop = p.to_string();
    rt().also = also;
}
pub fn active_prop() -> String {
    rt().active_prop.clone()
}
