//! Runs many seeds of a property's scenarios over worker processes, minimises and replays failures,
//! and writes the evidence.
use serde_json::{json, Value};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::OnceLock;

pub struct Scenario {
    pub name: &'static str,
    /// Seeds per tier.
    pub quick: u64,
    pub thorough: u64,
    pub cfg: fn(u64) -> SchedCfg,
    pub run: fn(u64),
}
pub struct Prop {
    pub id: &'static str,
    pub scenarios: &'static [Scenario],
    /// How distinct non-trivial executions are counted.
    pub rule: &'static str,
    /// Probes that must have fired for the check to be non-vacuous.
    pub must_probe: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const SHM: usize = 8 << 20;
static mut SHM_PTR: *mut u8 = std::ptr::null_mut();
static mut COV_SHM: *mut u8 = std::ptr::null_mut();
static mut CHILD_LOG: bool = false;

fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub sim_ns: u64,
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub threads: u64,
    pub loghash: u64,
    pub inter: u64,
    pub max_op: u64,
    pub faults: BTreeMap<String, u64>,
    pub faults_hit: Vec<(u64, String)>,
    pub probes: BTreeMap<String, u64>,
    pub devs: Vec<(u32, u64, u32, u64)>,
    pub log: Vec<String>,
    pub harness_error: Option<String>,
}

fn child_finish() -> ! {
    let s = stop();
    let v = json!({
        "violation": s.violation, "sim_ns": s.sim_ns, "steps": s.steps, "points": s.points,
        "switches": s.switches, "threads": s.threads, "loghash": s.loghash, "inter": s.inter,
        "max_op": s.max_op, "faults": s.faults, "probes": s.probes,
        "faults_hit": if s.violation.is_some() || unsafe { CHILD_LOG } { json!(s.faults_hit) } else { json!([]) },
        "devs": if s.violation.is_some() || unsafe { CHILD_LOG } { json!(s.devs) } else { json!([]) },
        "log": s.log,
    });
    let t = v.to_string();
    unsafe {
        let t = t.as_bytes();
        if t.len() + 8 <= SHM {
            std::ptr::copy_nonoverlapping(t.as_ptr(), SHM_PTR.add(8), t.len());
            *(SHM_PTR as *mut u64) = t.len() as u64;
        } else {
            *(SHM_PTR as *mut u64) = u64::MAX;
        }
        if !COV_SHM.is_null() {
            for i in 0..=(NGUARDS as usize).min((1 << 17) - 1) {
                if COV[i] != 0 {
                    *COV_SHM.add(i) = 1;
                }
            }
        }
        libc::_exit(0)
    }
}

/// The application's logger: every record of the code under test is really formatted; a scenario may
/// look at the text.
struct Sink;
pub static mut LOG_HOOK: Option<fn(log::Level, &str)> = None;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        active()
    }
    fn log(&self, r: &log::Record) {
        if !active() {
            return;
        }
        let t = format!("{}", r.args());
        atomic(|| {
            if unsafe { CHILD_LOG } && std::env::var_os("RSIM_LOG").is_some() {
                ev!("    {}: {}", r.target().rsplit(':').next().unwrap_or(""), t);
            }
            if let Some(f) = unsafe { LOG_HOOK } {
                f(r.level(), &t);
            }
        })
    }
    fn flush(&self) {}
}
/// Turns the application's logging on, as deployments have it.
pub fn log_level(l: log::LevelFilter) {
    static SINK: Sink = Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(l);
}

/// What the application's log must not tell anybody: what it is, and the texts that would give it away.
static mut SECRETS: Vec<(&'static str, Vec<String>)> = vec![];
static mut KNOWN: std::collections::BTreeSet<String> = std::collections::BTreeSet::new();
#[allow(static_mut_refs)]
pub fn secret(what: &'static str, patterns: Vec<String>) {
    unsafe {
        if LOG_HOOK.is_some() && KNOWN.insert(patterns[0].clone()) {
            SECRETS.push((what, patterns));
        }
    }
}
/// Key material, in any of the ways it might be written.
pub fn secret_bytes(what: &'static str, b: &[u8]) {
    use base64::Engine;
    if b.len() < 12 || b.iter().all(|x| *x == b[0]) {
        return;
    }
    let hex = hex::encode(&b[..10]);
    let list: Vec<String> = b[..8].iter().map(|x| x.to_string()).collect();
    let hexes: Vec<String> = b[..8].iter().map(|x| format!("{x:02x}")).collect();
    let b64 = base64::engine::general_purpose::STANDARD.encode(&b[..12]);
    secret(what, vec![hex.to_uppercase(), hex, list.join(", "), list.join(","), hexes.join(" "), hexes.join(":"), b64.replace('+', "-").replace('/', "_"), b64]);
}
/// A text, in part or whole.
pub fn secret_text(what: &'static str, s: &str) {
    let h = s.len() / 2;
    secret(what, if s.len() < 16 { vec![s.into()] } else { vec![s[..h].into(), s[h..].into()] });
}
/// An IP address; telling all but one of its parts is telling it.
pub fn secret_address(a: &str) {
    let mut v = vec![a.to_string()];
    if let Some(i) = a.rfind('.') {
        v.push(a[..i + 1].into());
        v.push(a[a.find('.').unwrap()..].into());
    } else {
        let g: Vec<&str> = a.split(':').filter(|g| !g.is_empty()).collect();
        v.push(format!("{}:{}", g[g.len() - 2], g[g.len() - 1]));
    }
    secret("an IP address", v);
}
#[allow(static_mut_refs)]
fn watch(l: log::Level, t: &str) {
    if l > log::Level::Info {
        return;
    }
    probe("log-line");
    for (what, p) in unsafe { &SECRETS } {
        if p.iter().any(|p| t.contains(p.as_str())) {
            let rule = if *what == "a device's name" { "P02:leak" } else { "P01:leak" };
            violate!(rule, "the log tells {what}: {}", t.replace('\n', " | "));
        }
    }
    if t.contains("REDACTED") || t.contains("candidate:***") {
        probe("redacted");
    }
}
/// From now on nothing secret may be logged.
pub fn watch_log() {
    unsafe { LOG_HOOK = Some(watch) }
}

/// Rules of other properties whose violation violates this property's statement as well.
fn also(prop: &str) -> &'static [&'static str] {
    match prop {
        "M01" => &["M04:withheld", "M04:undelivered"],
        "M02" => &["M05:buffer", "M05:merged"],
        "M03" => &["M05:ack", "M05:ack-regressed", "M05:in-order-point"],
        "M04" => &["M01:error", "M01:history", "M03:discard"],
        "M05" => &["M02:receive-window", "M02:send-window", "M02:beyond-window", "M03:discard", "M03:ack-regressed", "M03:in-order-point"],
        "K02" => &["K03:state"],
        "A01" => &["A02:lost"],
        "A02" => &["A01:twice"],
        "C01" => &["C02:ended-twice"],
        "C02" => &["C01:after-end"],
        _ => &[],
    }
}

struct Captured {
    prop: String,
    run: fn(u64),
    seed: u64,
}
static mut CAPTURED: Option<Captured> = None;

fn run_in_child(prop: &str, sc: &Scenario, seed: u64, keep: Keep, log: bool) -> ! {
    unsafe {
        // What grows without bound is a defect of the code under test, and must not take the machine with it.
        let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
        libc::setrlimit(libc::RLIMIT_DATA, &l);
        CHILD_LOG = log;
        // The code under test prints; nobody reads it.
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        // Real-time backstop: far above any simulated run.
        libc::alarm(if log { 600 } else { 120 });
        END_RUN = Some(child_finish);
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
            if !active() {
                eprintln!("panic outside simulation: {msg} at {loc}");
            }
            on_panic(&format!("{msg} at {loc}"));
        }));
        CAPTURED = Some(Captured { prop: prop.to_string(), run: sc.run, seed });
        start(seed, (sc.cfg)(seed), keep);
        set_active_prop(if std::env::var_os("RSIM_ALL").is_some() { "" } else { prop }, also(prop));
        log_enable(log);
        let h = std::thread::Builder::new()
            .name("scenario".into())
            .stack_size(16 << 20)
            .spawn(|| {
                harness_thread("scenario", 0);
                let c = CAPTURED.as_ref().unwrap();
                let _ = &c.prop;
                (c.run)(c.seed);
                child_finish()
            })
            .unwrap();
        let _ = h.join();
        child_finish()
    }
}

/// One simulated execution in a fresh child process.
pub fn execute(prop: &str, sc: &Scenario, seed: u64, keep: &Keep, log: bool) -> Outcome {
    unsafe {
        if SHM_PTR.is_null() {
            SHM_PTR = map_shared(SHM);
        }
        *(SHM_PTR as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            run_in_child(prop, sc, seed, keep.clone(), log);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let n = *(SHM_PTR as *mut u64);
        let mut o = Outcome::default();
        if n == u64::MAX {
            o.harness_error = Some("result too large".into());
            return o;
        }
        if n > 0 {
            let b = std::slice::from_raw_parts(SHM_PTR.add(8), n as usize);
            let v: Value = serde_json::from_slice(b).expect("result json");
            o.violation = v["violation"].as_array().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string()));
            let g = |k: &str| v[k].as_u64().unwrap_or(0);
            o.sim_ns = g("sim_ns");
            o.steps = g("steps");
            o.points = g("points");
            o.switches = g("switches");
            o.threads = g("threads");
            o.loghash = g("loghash");
            o.inter = g("inter");
            o.max_op = g("max_op");
            for (k, x) in v["faults"].as_object().unwrap() {
                o.faults.insert(k.clone(), x.as_u64().unwrap());
            }
            for (k, x) in v["probes"].as_object().unwrap() {
                o.probes.insert(k.clone(), x.as_u64().unwrap());
            }
            for x in v["faults_hit"].as_array().unwrap() {
                o.faults_hit.push((x[0].as_u64().unwrap(), x[1].as_str().unwrap().to_string()));
            }
            for x in v["devs"].as_array().unwrap() {
                o.devs.push((x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap(), x[2].as_u64().unwrap() as u32, x[3].as_u64().unwrap()));
            }
            for x in v["log"].as_array().unwrap() {
                o.log.push(x.as_str().unwrap().to_string());
            }
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM {
                o.violation = Some(("hang".into(), "the run made no progress (real-time limit)".into()));
            } else if sig == libc::SIGKILL {
                o.harness_error = Some("child was killed".into());
            } else {
                o.violation = Some(("crash".into(), if sig == libc::SIGABRT { "the process aborted (memory exhausted, or a panic that could not be handled)".into() } else { format!("process died from signal {sig}") }));
            }
        } else {
            o.harness_error = Some(format!("child exited with {}", libc::WEXITSTATUS(st)));
        }
        o
    }
}

// ---- minimisation ------------------------------------------------------------------------------

fn same(a: &Outcome, rule: &str) -> bool {
    a.violation.as_ref().is_some_and(|v| v.0 == rule)
}

fn ddmin<T: Clone>(items: Vec<T>, deadline: u64, mut test: impl FnMut(&[T]) -> bool) -> Vec<T> {
    if items.is_empty() || test(&[]) {
        return vec![];
    }
    let mut cur = items;
    let mut n = 2usize;
    while cur.len() >= 2 && os::real_now_ns() < deadline {
        let chunk = cur.len().div_ceil(n);
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && os::real_now_ns() < deadline {
            let mut cand = cur.clone();
            cand.drain(i..(i + chunk).min(cand.len()));
            if test(&cand) {
                cur = cand;
                reduced = true;
            } else {
                i += chunk;
            }
        }
        if reduced {
            n = (n - 1).max(2);
        } else if chunk == 1 {
            break;
        } else {
            n = (n * 2).min(cur.len());
        }
    }
    cur
}

pub fn minimise(prop: &str, sc: &Scenario, seed: u64, budget_s: u64) -> (Keep, Outcome) {
    let end = os::real_now_ns() + budget_s * 1_000_000_000;
    let mut keep = Keep::default();
    let base = execute(prop, sc, seed, &keep, true);
    let Some((rule, _)) = base.violation.clone() else {
        return (keep, base);
    };
    let part = |f: u64| os::real_now_ns() + (end.saturating_sub(os::real_now_ns())) / f;
    // faults
    let ids: Vec<u64> = base.faults_hit.iter().map(|x| x.0).collect();
    let d = part(3);
    let kept = ddmin(ids, d, |s| {
        let k = Keep { faults: Some(s.iter().copied().collect()), ..keep.clone() };
        same(&execute(prop, sc, seed, &k, false), &rule)
    });
    keep.faults = Some(kept.into_iter().collect());
    if !same(&execute(prop, sc, seed, &keep, false), &rule) {
        keep.faults = None;
    }
    // operations
    if base.max_op > 0 {
        let d = part(2);
        let kept = ddmin((0..base.max_op).collect(), d, |s| {
            let k = Keep { ops: Some(s.iter().copied().collect()), ..keep.clone() };
            same(&execute(prop, sc, seed, &k, false), &rule)
        });
        let k = Keep { ops: Some(kept.into_iter().collect()), ..keep.clone() };
        if same(&execute(prop, sc, seed, &k, false), &rule) {
            keep = k;
        }
    }
    // schedule
    let cur = execute(prop, sc, seed, &keep, true);
    let mk = |s: &[(u32, u64, u32, u64)]| -> BTreeMap<(u32, u64), (u32, u64)> { s.iter().map(|d| ((d.0, d.1), (d.2, d.3))).collect() };
    let full = Keep { sched: Some(mk(&cur.devs)), ..keep.clone() };
    if same(&execute(prop, sc, seed, &full, false), &rule) {
        let kept = ddmin(cur.devs.clone(), end, |s| {
            let k = Keep { sched: Some(mk(s)), ..keep.clone() };
            same(&execute(prop, sc, seed, &k, false), &rule)
        });
        keep.sched = Some(mk(&kept));
        if !same(&execute(prop, sc, seed, &keep, false), &rule) {
            keep.sched = Some(mk(&cur.devs));
        }
    }
    let out = execute(prop, sc, seed, &keep, true);
    (keep, out)
}

fn keep_json(k: &Keep) -> Value {
    json!({
        "ops": k.ops,
        "faults": k.faults.as_ref().map(|s| s.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>()),
        "schedule": k.sched.as_ref().map(|m| m.iter().map(|(a, b)| json!([a.0, a.1, b.0, b.1])).collect::<Vec<_>>()),
    })
}
fn keep_from(v: &Value) -> Keep {
    Keep {
        ops: v["ops"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()),
        faults: v["faults"].as_array().map(|a| a.iter().map(|x| u64::from_str_radix(x.as_str().unwrap(), 16).unwrap()).collect()),
        sched: v["schedule"].as_array().map(|a| {
            a.iter()
                .map(|x| ((x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap()), (x[2].as_u64().unwrap() as u32, x[3].as_u64().unwrap())))
                .collect()
        }),
    }
}

// ---- the search --------------------------------------------------------------------------------

#[derive(Default)]
struct Agg {
    runs: u64,
    sim_ns: u128,
    steps: u64,
    switches: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    inter: BTreeSet<u64>,
    logs: BTreeSet<u64>,
    per_scenario: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(u64, usize, u64, String, String)>,
    errors: Vec<String>,
    max_threads: u64,
}

fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn run_seed(base: u64, sc: usize, i: u64) -> u64 {
    h4(base, 0x72756e, sc as u64, i) >> 1
}

/// (job index, scenario, seed) in a fixed interleaved order.
fn jobs(p: &Prop, tier: &str, base: u64, scale: f64) -> Vec<(u64, usize, u64)> {
    let mut v: Vec<(u64, u64, usize, u64)> = Vec::new();
    for (si, s) in p.scenarios.iter().enumerate() {
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        let n = ((n as f64 * scale) as u64).max(if n > 0 { 1 } else { 0 });
        for i in 0..n {
            v.push((i * 1_000_000 / n, si as u64, si, run_seed(base, si, i)));
        }
    }
    v.sort();
    v.into_iter().enumerate().map(|(k, x)| (k as u64, x.2, x.3)).collect()
}

fn pin(cpu: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&cur), &mut cur);
        let allowed: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &cur)).collect();
        if allowed.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(allowed[cpu % allowed.len().min(n.max(1)).max(1)], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

fn search(p: &Prop, tier: &str, base: u64, workers: usize, limit_s: u64, scale: f64) -> (Agg, u64, bool) {
    let jobs = jobs(p, tier, base, scale);
    let t0 = os::real_now_ns();
    let cov = map_shared(1 << 17);
    let stopflag = map_shared(4096) as *mut u64;
    let mut pipes = Vec::new();
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                pin(w);
                COV_SHM = cov;
                SHM_PTR = std::ptr::null_mut();
                let mut out = std::fs::File::from_raw_fd(fds[1]);
                for (k, si, seed) in jobs.iter().filter(|j| j.0 as usize % workers == w) {
                    if *stopflag >= 3 || os::real_now_ns() - t0 > limit_s * 1_000_000_000 {
                        break;
                    }
                    let mut o = execute(p.id, &p.scenarios[*si], *seed, &Keep::default(), false);
                    if o.harness_error.is_some() {
                        // once more: the machine, not the simulation, is what can differ
                        o = execute(p.id, &p.scenarios[*si], *seed, &Keep::default(), false);
                    }
                    if o.violation.is_some() {
                        *stopflag += 1;
                    }
                    let line = json!({"k": k, "si": si, "seed": seed, "v": o.violation, "e": o.harness_error,
                        "ns": o.sim_ns, "st": o.steps, "sw": o.switches, "th": o.threads,
                        "lh": o.loghash, "in": o.inter, "f": o.faults, "p": o.probes});
                    let mut s = line.to_string();
                    s.push('\n');
                    if out.write_all(s.as_bytes()).is_err() {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((OwnedFd::from_raw_fd(fds[0]), pid));
        }
    }
    let mut agg = Agg::default();
    let mut bufs: Vec<Vec<u8>> = vec![Vec::new(); workers];
    let mut open: Vec<bool> = vec![true; workers];
    while open.iter().any(|x| *x) {
        let mut pf: Vec<libc::pollfd> = pipes
            .iter()
            .enumerate()
            .map(|(i, x)| libc::pollfd { fd: if open[i] { x.0.as_raw_fd() } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, -1) };
        for i in 0..workers {
            if pf[i].revents == 0 {
                continue;
            }
            let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(pipes[i].0.as_raw_fd()) });
            let mut b = [0u8; 65536];
            match f.read(&mut b) {
                Ok(0) | Err(_) => open[i] = false,
                Ok(n) => {
                    bufs[i].extend_from_slice(&b[..n]);
                    while let Some(pos) = bufs[i].iter().position(|c| *c == b'\n') {
                        let line: Vec<u8> = bufs[i].drain(..=pos).collect();
                        let v: Value = serde_json::from_slice(&line).unwrap();
                        absorb(&mut agg, p, &v);
                    }
                }
            }
        }
    }
    for (_, pid) in &pipes {
        let mut st = 0;
        unsafe { libc::waitpid(*pid, &mut st, 0) };
        if st != 0 {
            agg.errors.push(format!("a worker ended with status {st}"));
        }
    }
    let edges = (0..1 << 17).filter(|i| unsafe { *cov.add(*i) } != 0).count() as u64;
    let complete = agg.runs as usize == jobs.len();
    (agg, edges, complete)
}

fn absorb(a: &mut Agg, p: &Prop, v: &Value) {
    let si = v["si"].as_u64().unwrap() as usize;
    let seed = v["seed"].as_u64().unwrap();
    if let Some(e) = v["e"].as_str() {
        a.errors.push(format!("{} seed {}: {}", p.scenarios[si].name, seed, e));
        return;
    }
    a.runs += 1;
    *a.per_scenario.entry(p.scenarios[si].name.into()).or_insert(0) += 1;
    a.sim_ns += v["ns"].as_u64().unwrap() as u128;
    a.steps += v["st"].as_u64().unwrap();
    a.switches += v["sw"].as_u64().unwrap();
    a.max_threads = a.max_threads.max(v["th"].as_u64().unwrap());
    a.logs.insert(v["lh"].as_u64().unwrap());
    a.inter.insert(h2(v["in"].as_u64().unwrap(), v["lh"].as_u64().unwrap()));
    for (k, x) in v["f"].as_object().unwrap() {
        *a.faults.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
    }
    for (k, x) in v["p"].as_object().unwrap() {
        *a.probes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
    }
    if a.samples.len() < 5 {
        a.samples.push(format!(
            "{} seed={} steps={} switches={} threads={} sim_ms={} faults={} log={:016x}",
            p.scenarios[si].name,
            seed,
            v["st"],
            v["sw"],
            v["th"],
            v["ns"].as_u64().unwrap() / 1_000_000,
            v["f"],
            v["lh"].as_u64().unwrap()
        ));
    }
    if let Some(x) = v["v"].as_array() {
        a.violations.push((v["k"].as_u64().unwrap(), si, seed, x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into()));
    }
}

fn root() -> std::path::PathBuf {
    // .../build/target/release/rsim -> /verif
    static R: OnceLock<std::path::PathBuf> = OnceLock::new();
    R.get_or_init(|| {
        std::env::var_os("RSIM_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
    })
    .clone()
}

struct Known {
    prop: String,
    rule: String,
    needle: String,
    what: String,
}
/// "known: property=<id> rule=<rule> match=<substring> :: <what fails>"
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (head, what) = l.split_once(" :: ")?;
            let (prop, rest) = head.split_once(" rule=")?;
            let (rule, needle) = rest.split_once(" match=")?;
            Some(Known { prop: prop.into(), rule: rule.into(), needle: needle.into(), what: what.into() })
        })
        .collect()
}

fn cmd_check(id: &str, tier: &str) -> i32 {
    let Some(p) = crate::props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = verif_seed();
    let t0 = os::real_now_ns();
    let workers = std::env::var("RSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    });
    let limit = std::env::var("RSIM_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 420 });
    let scale = std::env::var("RSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // Determinism self-test: a few seeds of each scenario twice, in this process, event logs compared.
    let mut det = 0;
    for (si, s) in p.scenarios.iter().enumerate() {
        for i in 0..3 {
            let sd = run_seed(seed, si, i);
            let a = execute(p.id, s, sd, &Keep::default(), false);
            let b = execute(p.id, s, sd, &Keep::default(), false);
            if a.harness_error.is_some() || b.harness_error.is_some() {
                eprintln!("harness error: {:?} {:?}", a.harness_error, b.harness_error);
                return 2;
            }
            if a.loghash != b.loghash && a.violation.is_none() {
                eprintln!("simulator is not deterministic: {} seed {sd}: {:016x} vs {:016x}", s.name, a.loghash, b.loghash);
                return 2;
            }
            det += 1;
        }
    }
    let (mut agg, edges, complete) = search(&p, tier, seed, workers, limit, scale);
    agg.violations.sort();
    let kn = known();
    let mut reported_known = BTreeSet::new();
    let mut fresh = Vec::new();
    for v in &agg.violations {
        if let Some(k) = kn.iter().find(|k| k.prop == p.id && k.rule == v.3 && v.4.contains(&k.needle)) {
            reported_known.insert(k.what.clone());
        } else {
            fresh.push(v.clone());
        }
    }
    for w in kn.iter().filter(|k| k.prop == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, w.what);
    }
    let mut code = 0;
    let mut vrecs = Vec::new();
    if let Some((_, si, sd, rule, msg)) = fresh.first().cloned() {
        let sc = &p.scenarios[si];
        println!("failing: scenario={} seed={} [{}] {}", sc.name, sd, rule, msg);
        let (keep, out) = minimise(p.id, sc, sd, if tier == "thorough" { 180 } else { 60 });
        let dir = root().join("build/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", p.id, sc.name, sd));
        let fired: BTreeMap<u64, String> = out.faults_hit.iter().cloned().collect();
        let rec = json!({
            "property": p.id, "scenario": sc.name, "seed": sd,
            "rule": out.violation.as_ref().map(|v| v.0.clone()).unwrap_or(rule.clone()),
            "message": out.violation.as_ref().map(|v| v.1.clone()).unwrap_or(msg.clone()),
            "loghash": format!("{:016x}", out.loghash),
            "keep": keep_json(&keep),
            "faults": fired.values().collect::<Vec<_>>(),
            "log": out.log,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap()).unwrap();
        // replay in a fresh process
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .status()
            .map(|s| s.code())
            .unwrap_or(None);
        if ok != Some(1) {
            eprintln!("replay did not reproduce the violation exactly (status {ok:?}); reporting the unminimised seed");
            if ok == Some(0) || ok == Some(2) {
                let out = execute(p.id, sc, sd, &Keep::default(), true);
                if out.violation.is_none() {
                    eprintln!("the violation of seed {sd} did not reproduce: harness error");
                    return 2;
                }
                let rec = json!({"property": p.id, "scenario": sc.name, "seed": sd, "rule": rule, "message": msg,
                    "loghash": format!("{:016x}", out.loghash), "keep": keep_json(&Keep::default()), "log": out.log});
                std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap()).unwrap();
            }
        }
        println!(
            "minimised: ops={:?} faults={} schedule deviations={:?} [{}] {}",
            keep.ops.as_ref().map(|x| x.len()),
            out.faults_hit.len(),
            keep.sched.as_ref().map(|x| x.len()),
            rec["rule"].as_str().unwrap_or(""),
            rec["message"].as_str().unwrap_or("")
        );
        println!("VIOLATION property={} replay={}", p.id, path.display());
        vrecs.push(json!({"scenario": sc.name, "seed": sd, "rule": rule, "message": msg, "replay": path.display().to_string()}));
        code = 1;
    }
    if code == 0 && !agg.errors.is_empty() {
        eprintln!("harness errors: {:?}", &agg.errors[..agg.errors.len().min(5)]);
        return 2;
    }
    let missing: Vec<&str> = p.must_probe.iter().filter(|n| agg.probes.get(**n).copied().unwrap_or(0) == 0).copied().collect();
    let wall = (os::real_now_ns() - t0) as f64 / 1e9;
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.inter.len(),
            "rule": p.rule,
            "samples": agg.samples,
            "runs_per_hour": (agg.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": (agg.sim_ns / 1_000_000_000) as u64,
            "steps": agg.steps,
            "context_switches": agg.switches,
            "max_threads_in_a_run": agg.max_threads,
            "distinct_event_logs": agg.logs.len(),
            "code_edges_reached": edges,
            "code_edges_instrumented": unsafe { NGUARDS },
            "fault_kinds_injected": agg.faults,
            "probes": agg.probes,
            "probes_that_must_fire_but_did_not": missing,
            "runs_per_scenario": agg.per_scenario,
            "all_planned_seeds_run": complete,
            "determinism_selftest_seeds_run_twice": det,
            "components_real": p.real,
            "components_stubbed": p.stubs,
            "workers": workers,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": vrecs,
    });
    let path = root().join("evidence").join(format!("{}.json", p.id));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs ({} distinct), {:.0} simulated s, {} edges, faults {:?}, {:.1} s wall{}",
        p.id,
        agg.runs,
        agg.inter.len(),
        agg.sim_ns as f64 / 1e9,
        edges,
        agg.faults,
        wall,
        if complete { "" } else { " (time limit)" }
    );
    if !missing.is_empty() {
        println!("note: never reached: {missing:?}");
    }
    code
}

fn cmd_replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap();
    let p = crate::props::all().into_iter().find(|p| p.id == id).expect("property");
    let sc = p.scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
    let keep = keep_from(&v["keep"]);
    let o = execute(p.id, sc, v["seed"].as_u64().unwrap(), &keep, true);
    for l in &o.log {
        println!("{l}");
    }
    let lh = format!("{:016x}", o.loghash);
    let exact = Some(lh.as_str()) == v["loghash"].as_str();
    match &o.violation {
        Some((r, m)) => {
            println!("[{r}] {m}");
            println!("event log {} the recorded one ({lh})", if exact { "is exactly" } else { "DIFFERS from" });
            println!("VIOLATION property={id} replay={path}");
            if exact {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation on replay {:?}", o.harness_error);
            0
        }
    }
}

fn cmd_run(a: &[String]) -> i32 {
    let p = crate::props::all().into_iter().find(|p| p.id == a[0]).expect("property");
    let sc = p.scenarios.iter().find(|s| s.name == a[1]).expect("scenario");
    let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let first: u64 = a[2].parse().unwrap();
    for s in first..first + n {
        let t = os::real_now_ns();
        let o = execute(p.id, sc, s, &Keep::default(), n == 1);
        for l in &o.log {
            println!("{l}");
        }
        println!(
            "seed {s}: {:?} err {:?} sim {:.3}s steps {} switches {} thr {} log {:016x} faults {:?} probes {:?} wall {:.1}ms",
            o.violation,
            o.harness_error,
            o.sim_ns as f64 / 1e9,
            o.steps,
            o.switches,
            o.threads,
            o.loghash,
            o.faults,
            o.probes,
            (os::real_now_ns() - t) as f64 / 1e6
        );
    }
    0
}

/// Many seeds, each executed several times under different worker counts; all logs must agree.
fn cmd_determinism(id: &str, n: u64) -> i32 {
    let ps: Vec<Prop> = crate::props::all().into_iter().filter(|p| id == "all" || p.id == id).collect();
    let mut bad = 0;
    for p in ps {
        for sc in p.scenarios {
            let cov = map_shared(16 * n as usize * 8);
            for (round, workers) in [(0usize, 1usize), (1, 8)] {
                let mut pids = vec![];
                for w in 0..workers {
                    unsafe {
                        let pid = libc::fork();
                        if pid == 0 {
                            pin(w + round);
                            SHM_PTR = std::ptr::null_mut();
                            for s in (0..n).filter(|s| *s as usize % workers == w) {
                                let o = execute(p.id, sc, s + 1000, &Keep::default(), false);
                                *(cov as *mut u64).add(round * n as usize + s as usize) = o.loghash;
                            }
                            libc::_exit(0);
                        }
                        pids.push(pid);
                    }
                }
                for pid in pids {
                    unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
                }
            }
            let mut d = 0;
            for s in 0..n as usize {
                let (a, b) = unsafe { (*(cov as *mut u64).add(s), *(cov as *mut u64).add(n as usize + s)) };
                if a != b {
                    d += 1;
                    if d < 4 {
                        println!("  differs: seed {}", s + 1000);
                    }
                }
            }
            println!("{} {}: {} seeds twice, {} differ", p.id, sc.name, n, d);
            bad += d;
        }
    }
    if bad == 0 {
        0
    } else {
        1
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        // Same addresses in every process.
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("RSIM_NOEXEC").is_none() {
            if libc::personality((cur | 0x0040000) as libc::c_ulong) >= 0 {
                std::env::set_var("RSIM_NOEXEC", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
    std::env::set_var("RUST_BACKTRACE", "0");
    os::init();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => cmd_check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("replay") => cmd_replay(&a[2]),
        Some("run") => cmd_run(&a[2..]),
        Some("determinism") => cmd_determinism(a.get(2).map(|s| s.as_str()).unwrap_or("all"), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(64)),
        Some("list") => {
            for p in crate::props::all() {
                println!("{} {:?}", p.id, p.scenarios.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: rsim check ID [quick|thorough] | replay FILE | run ID SCENARIO SEED [N] | determinism [ID] [N] | list");
            2
        }
    };
    std::process::exit(code);
}
