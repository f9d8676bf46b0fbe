//! The audio back end (cubeb's C interface) and WebRTC's side of the audio device module, simulated:
//! devices that come and go, streams with their own threads, and calls that are slow or fail.
//! Without `start` there is no sound card and every call fails.
use cubeb_sys::*;
use simrt::*;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

#[derive(Clone, Debug)]
pub struct Dev {
    pub id: usize,
    pub uid: Option<String>,
    pub name: Option<String>,
    pub group: String,
    pub input: bool,
    /// An output monitored as an input.
    pub monitor: bool,
    pub default: bool,
    pub enabled: bool,
}
pub struct Strm {
    pub id: usize,
    pub dev: usize,
    pub input: bool,
    pub started: bool,
    pub destroyed: bool,
    /// The device is gone, or a callback failed or drained: no more callbacks.
    pub failed: bool,
    in_cb: bool,
    user: *mut c_void,
    data: cubeb_data_callback,
    state: cubeb_state_callback,
    /// Sizes of the buffers the hardware asks for.
    size: u64,
    rng: Rng,
    /// Input: samples recorded so far, the callbacks' first samples, and the next sample WebRTC expects.
    pub pos: u64,
    cb_starts: Vec<u64>,
    next: u64,
    pub delivered: u64,
    /// Output: what WebRTC gave and has not been played yet.
    pulled: VecDeque<i16>,
    pub played: u64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Rates {
    pub init: u64,
    pub enumerate: u64,
    pub stream_init: u64,
    pub start: u64,
    pub stop: u64,
    pub latency: u64,
    pub slow: u64,
    pub webrtc: u64,
    pub short: u64,
}
pub struct Audio {
    pub rates: Rates,
    pub rng: Rng,
    pub live: bool,
    pub dropped: bool,
    /// In the order they are listed; these are there now.
    pub devs: Vec<Dev>,
    pub streams: Vec<Box<Strm>>,
    pub version: [u64; 2],
    pub enum_failed: [bool; 2],
    cbs: [Option<(unsafe extern "C" fn(*mut cubeb, *mut c_void), *mut c_void)>; 2],
    notifying: u32,
    log: cubeb_log_callback,
    level: cubeb_log_level,
    by_thread: BTreeMap<u32, usize>,
    pub latencies: Vec<(u64, u16)>,
    pub latency_failed: u64,
    pub gap_ok: bool,
    /// Set when nothing may be played / recorded, because nobody asked for it.
    pub silent: [bool; 2],
    pub adm: *mut c_void,
    pub cbs_table: *const c_void,
    free: Option<unsafe extern "C" fn(*mut c_void)>,
    /// Control calls: the last one's time, and how many are running.
    pub last_call: u64,
    pub in_call: u32,
}
static mut AUDIO: Option<Box<Audio>> = None;
pub fn audio() -> &'static mut Audio {
    unsafe { AUDIO.as_mut().expect("audio") }
}
fn there() -> bool {
    unsafe { AUDIO.is_some() }
}
pub fn start(rates: Rates, rng: Rng, devs: Vec<Dev>) {
    unsafe {
        AUDIO = Some(Box::new(Audio {
            rates, rng, live: false, dropped: false, devs, streams: vec![], version: [0; 2], enum_failed: [false; 2], cbs: [None; 2], notifying: 0, log: None, level: 0,
            by_thread: BTreeMap::new(), latencies: vec![], latency_failed: 0, gap_ok: false, silent: [true; 2], adm: std::ptr::null_mut(), cbs_table: std::ptr::null(), free: None, last_call: 0, in_call: 0,
        }))
    }
}
const CTX: *mut cubeb = 0xC0_BEB0 as *mut cubeb;
const FAIL: c_int = CUBEB_ERROR;
fn devid(id: usize) -> cubeb_devid {
    (0x10000 + id * 8) as cubeb_devid
}
fn dev_of(p: cubeb_devid) -> usize {
    (p as usize - 0x10000) / 8
}
fn handle(id: usize) -> *mut cubeb_stream {
    ((id + 1) * 16) as *mut cubeb_stream
}
fn key(id: usize) -> u64 {
    h2(0xc0beb, id as u64)
}
fn strm(s: *mut cubeb_stream) -> &'static mut Strm {
    let i = s as usize / 16 - 1;
    let a = audio();
    check!(a.live, "D02:order", "a stream is used after its context was destroyed");
    let s = &mut *a.streams[i];
    check!(!s.destroyed, "D02:order", "a stream is used after it was destroyed");
    s
}
fn ctx_ok(c: *mut cubeb) {
    check!(c == CTX && audio().live, "D02:order", "the audio context is used after it was destroyed");
}
struct Call;
impl Call {
    fn new() -> Call {
        audio().in_call += 1;
        Call
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        audio().in_call -= 1;
        audio().last_call = now();
    }
}
fn slow(site: &str) {
    if let Some(v) = fault("slow-audio-call", site, audio().rates.slow) {
        sleep_ns(v % 300_000_000);
    }
}
fn fails(what: &'static str, rate: u64) -> bool {
    fault(what, "cubeb", rate).is_some()
}
/// A line of the library's log.
pub fn emit(line: String) {
    let a = audio();
    if let (Some(f), true) = (a.log, a.level != CUBEB_LOG_DISABLED) {
        let c = CString::new(line).unwrap();
        unsafe { f(c"%s".as_ptr(), c.as_ptr()) };
    }
}
fn log_about(d: &Dev) {
    let a = audio();
    let other = a.devs.get(a.rng.below(a.devs.len().max(1) as u64) as usize).cloned().unwrap_or_else(|| d.clone());
    let (n, m) = (d.name.clone().unwrap_or_default(), other.name.clone().unwrap_or_default());
    let u = d.uid.clone().unwrap_or_default();
    let l = match a.rng.below(9) {
        0 => format!("cubeb_wasapi.cpp:1911:Found matching device for {n}: {m}"),
        1 => format!("cubeb_wasapi.cpp:611:collection: Audio device default changed, id = {u}."),
        2 => format!("cubeb_wasapi.cpp:640:collection: Audio device state changed, id = {u}, state = 1."),
        3 => format!("cubeb_wasapi.cpp:760:endpoint: Audio device default changed flow=0 role=1 new_device_id={u}."),
        4 => format!("mod.rs:1501:Device 12 ({n}) has 2 INPUT-channels"),
        5 => format!("mod.rs:77:input uid=\"{u}\", model_uid=\"{}\", transport_type=usb, source=ispk, source_name=\"{m}\", name=\"{n}\", manufacturer=\"Acme\"", other.group),
        6 => format!("cubeb.c:700:DeviceID: \"{u}\"\n\tName:\t\"{n}\"\n\tGroup:\t\"{}\"", d.group),
        7 => format!("mod.rs:77:input uid=\"{u}\", model_uid=\"Acme\", transport_type=usb, source=ispk, source_name=\"{}\", name=\"{n}\", manufacturer=\"Acme\"", n.split(' ').next().unwrap_or("")),
        _ => "mod.rs:9:Initialising".to_string(),
    };
    emit(l);
}
/// The set of devices (of that kind) changed, or may have.
pub fn notify(input: bool) {
    let a = audio();
    if let Some((cb, user)) = a.cbs[input as usize] {
        a.notifying += 1;
        unsafe { cb(CTX, user) };
        a.notifying -= 1;
        notify_key(1);
    }
}
/// Streams of devices which are gone stop by themselves.
pub fn devices_changed(input: bool) {
    let a = audio();
    a.version[input as usize] += 1;
    for s in a.streams.iter_mut().filter(|s| s.input == input && !s.destroyed) {
        if !a.devs.iter().any(|d| d.id == s.dev && d.enabled) && !s.failed {
            s.failed = true;
            notify_key(key(s.id));
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn cubeb_init(out: *mut *mut cubeb, _n: *const c_char, _b: *const c_char) -> c_int {
    if !there() || fails("audio-init-fails", audio().rates.init) {
        return FAIL;
    }
    slow("init");
    audio().live = true;
    *out = CTX;
    0
}
#[no_mangle]
pub extern "C" fn cubeb_destroy(c: *mut cubeb) {
    let _call = Call::new();
    ctx_ok(c);
    let a = audio();
    check!(a.streams.iter().all(|s| s.destroyed), "D02:order", "the audio context is destroyed before its streams");
    a.live = false;
    a.cbs = [None; 2];
    while a.notifying > 0 {
        wait_key(1, None);
    }
}
#[no_mangle]
pub extern "C" fn cubeb_get_backend_id(_c: *mut cubeb) -> *const c_char {
    c"simulated".as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn cubeb_enumerate_devices(c: *mut cubeb, t: cubeb_device_type, out: *mut cubeb_device_collection) -> c_int {
    let _call = Call::new();
    ctx_ok(c);
    let a = audio();
    let input = t == CUBEB_DEVICE_TYPE_INPUT;
    slow("enumerate");
    if fails("enumerate-fails", a.rates.enumerate) {
        a.enum_failed[input as usize] = true;
        return FAIL;
    }
    a.enum_failed[input as usize] = false;
    let text = |s: &Option<String>| s.as_ref().map_or(std::ptr::null(), |s| CString::new(s.clone()).unwrap().into_raw() as *const c_char);
    let v: Vec<cubeb_device_info> = a
        .devs
        .iter()
        .filter(|d| d.input == input)
        .map(|d| cubeb_device_info {
            devid: devid(d.id),
            device_id: text(&d.uid),
            friendly_name: text(&d.name),
            group_id: text(&Some(d.group.clone())),
            vendor_name: text(&Some("Acme".into())),
            device_type: t,
            state: if d.enabled { CUBEB_DEVICE_STATE_ENABLED } else { CUBEB_DEVICE_STATE_UNPLUGGED },
            preferred: if d.default { CUBEB_DEVICE_PREF_ALL } else { CUBEB_DEVICE_PREF_NONE },
            format: CUBEB_DEVICE_FMT_S16LE,
            default_format: CUBEB_DEVICE_FMT_S16LE,
            max_channels: 2,
            default_rate: 48000,
            max_rate: 48000,
            min_rate: 8000,
            latency_lo: 480,
            latency_hi: 4800,
        })
        .collect();
    for d in a.devs.clone().iter().filter(|d| d.input == input) {
        log_about(d);
    }
    let b = Box::leak(v.into_boxed_slice());
    (*out).count = b.len();
    (*out).device = b.as_mut_ptr();
    slow("enumerated");
    0
}
#[no_mangle]
pub unsafe extern "C" fn cubeb_device_collection_destroy(c: *mut cubeb, v: *mut cubeb_device_collection) -> c_int {
    ctx_ok(c);
    for d in Box::from_raw(std::ptr::slice_from_raw_parts_mut((*v).device, (*v).count)).iter() {
        for p in [d.device_id, d.friendly_name, d.group_id, d.vendor_name] {
            if !p.is_null() {
                drop(CString::from_raw(p as *mut c_char));
            }
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn cubeb_register_device_collection_changed(c: *mut cubeb, t: cubeb_device_type, cb: cubeb_device_collection_changed_callback, user: *mut c_void) -> c_int {
    let _call = Call::new();
    ctx_ok(c);
    let a = audio();
    if cb.is_some() && fails("register-fails", a.rates.init) {
        return FAIL;
    }
    a.cbs[(t == CUBEB_DEVICE_TYPE_INPUT) as usize] = cb.map(|cb| (cb, user));
    while cb.is_none() && a.notifying > 0 {
        wait_key(1, None);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn cubeb_get_min_latency(c: *mut cubeb, _p: *mut cubeb_stream_params, out: *mut c_uint) -> c_int {
    ctx_ok(c);
    if fails("latency-fails", audio().rates.latency) {
        return FAIL;
    }
    *out = 480;
    0
}
#[no_mangle]
pub unsafe extern "C" fn cubeb_stream_init(
    c: *mut cubeb, out: *mut *mut cubeb_stream, _name: *const c_char, idev: cubeb_devid, ip: *mut cubeb_stream_params, odev: cubeb_devid, op: *mut cubeb_stream_params, _latency: c_uint,
    data: cubeb_data_callback, state: cubeb_state_callback, user: *mut c_void,
) -> c_int {
    let _call = Call::new();
    ctx_ok(c);
    let input = !ip.is_null();
    let (dev, p) = if input { (dev_of(idev), &*ip) } else { (dev_of(odev), &*op) };
    check!(p.rate == 48000 && p.format == CUBEB_SAMPLE_S16LE && p.channels == if input { 1 } else { 2 }, "D02:format", "a stream with {} Hz and {} channels", p.rate, p.channels);
    slow("stream-init");
    let a = audio();
    if let Some(d) = a.devs.iter().find(|d| d.id == dev).cloned() {
        log_about(&d);
    }
    if !a.devs.iter().any(|d| d.id == dev && d.enabled && d.input == input) || fails("stream-init-fails", a.rates.stream_init) {
        probe("stream-init-failed");
        return FAIL;
    }
    let id = a.streams.len();
    let mut rng = Rng::new(h2(a.rng.next(), id as u64));
    let size = *rng.pick(&[480u64, 480, 512, 441, 100, 1000, 0]);
    a.streams.push(Box::new(Strm {
        id, dev, input, started: false, destroyed: false, failed: false, in_cb: false, user, data, state, size, rng, pos: 0, cb_starts: vec![], next: 0, delivered: 0,
        pulled: VecDeque::new(), played: 0,
    }));
    ev!("stream {id} input {input} device {dev}");
    std::thread::Builder::new().name(format!("cubeb{id}")).spawn(move || stream_thread(id)).expect("thread");
    *out = handle(id);
    slow("stream-made");
    0
}
fn sample(stream: usize, k: u64) -> i16 {
    ((k + stream as u64 * 5000) & 0x7fff) as i16
}
fn stream_thread(id: usize) {
    harness_thread(&format!("cubeb{id}"), node());
    let a = audio();
    a.by_thread.insert(me(), id);
    let p: *mut Strm = &mut *a.streams[id];
    let mut told = false;
    loop {
        let s = unsafe { &mut *std::hint::black_box(p) };
        if s.destroyed {
            return;
        }
        if s.failed && !told && s.started {
            told = true;
            s.in_cb = true;
            unsafe { (s.state.unwrap())(handle(id), s.user, CUBEB_STATE_ERROR) };
            s.in_cb = false;
            notify_key(key(id));
            continue;
        }
        if !s.started || s.failed {
            wait_key(key(id), None);
            continue;
        }
        let n = if s.size == 0 { s.rng.range(1, 1500) } else { s.size };
        sleep_ns(n * 1_000_000_000 / 48_000);
        if !s.started || s.failed || s.destroyed {
            continue;
        }
        s.in_cb = true;
        let ret;
        if s.input {
            let buf: Vec<i16> = (s.pos..s.pos + n).map(|k| sample(id, k)).collect();
            s.cb_starts.push(s.pos);
            s.pos += n;
            ret = unsafe { (s.data.unwrap())(handle(id), s.user, buf.as_ptr() as *const c_void, std::ptr::null_mut(), n as _) } as i64;
            probe("recorded");
        } else {
            let mut buf = vec![0x5555i16; 2 * n as usize];
            ret = unsafe { (s.data.unwrap())(handle(id), s.user, std::ptr::null(), buf.as_mut_ptr() as *mut c_void, n as _) } as i64;
            check!(ret <= n as i64, "D02:amount", "{ret} frames given, {n} were asked for");
            for k in 0..ret.max(0) as usize {
                let want = s.pulled.pop_front();
                check!(want == Some(buf[2 * k]) && buf[2 * k] == buf[2 * k + 1], "D02:played", "sample {} of stream {id}: {want:?} came from WebRTC, {:?} is played", s.played, &buf[2 * k..2 * k + 2]);
                s.played += 1;
            }
            check!(ret < 0 || s.pulled.len() < 480, "D02:hoard", "{} samples were taken from WebRTC without being played", s.pulled.len());
            probe("played");
        }
        if ret != n as i64 {
            s.failed = true;
            probe("stream-failed");
        }
        s.in_cb = false;
        notify_key(key(id));
    }
}
fn settle_callbacks(id: usize) {
    // By the stream's place: the callback's thread changes it meanwhile.
    while audio().streams[id].in_cb {
        probe("stop-during-callback");
        wait_key(key(id), None);
    }
}
#[no_mangle]
pub extern "C" fn cubeb_stream_start(h: *mut cubeb_stream) -> c_int {
    let _call = Call::new();
    let s = strm(h);
    slow("start");
    if s.failed || fails("stream-start-fails", audio().rates.start) {
        return FAIL;
    }
    s.started = true;
    notify_key(key(s.id));
    0
}
#[no_mangle]
pub extern "C" fn cubeb_stream_stop(h: *mut cubeb_stream) -> c_int {
    let _call = Call::new();
    let s = strm(h);
    slow("stop");
    if fails("stream-stop-fails", audio().rates.stop) {
        return FAIL;
    }
    s.started = false;
    settle_callbacks(s.id);
    0
}
#[no_mangle]
pub extern "C" fn cubeb_stream_destroy(h: *mut cubeb_stream) {
    let _call = Call::new();
    let s = strm(h);
    s.started = false;
    settle_callbacks(s.id);
    s.destroyed = true;
    notify_key(key(s.id));
}
#[no_mangle]
pub unsafe extern "C" fn cubeb_stream_get_latency(h: *mut cubeb_stream, out: *mut c_uint) -> c_int {
    let _call = Call::new();
    strm(h);
    slow("latency");
    let a = audio();
    if fails("latency-fails", a.rates.latency) {
        a.latency_failed = now();
        return FAIL;
    }
    let v = a.latencies.len() as u16 + 1;
    a.latencies.push((now(), v));
    *out = v as c_uint * 48 + 17;
    0
}
#[no_mangle]
pub extern "C" fn cubeb_stream_user_ptr(h: *mut cubeb_stream) -> *mut c_void {
    strm(h).user
}
#[no_mangle]
pub extern "C" fn cubeb_stream_register_device_changed_callback(_h: *mut cubeb_stream, _c: cubeb_device_changed_callback) -> c_int {
    FAIL
}
#[no_mangle]
pub extern "C" fn cubeb_log_get_level() -> cubeb_log_level {
    if there() { audio().level } else { CUBEB_LOG_DISABLED }
}
#[no_mangle]
pub extern "C" fn cubeb_set_log_callback(level: cubeb_log_level, cb: cubeb_log_callback) -> c_int {
    if there() {
        audio().level = level;
        audio().log = cb;
    }
    0
}

// ---- WebRTC's side ------------------------------------------------------------------------------

fn caller() -> &'static mut Strm {
    let a = audio();
    check!(!a.dropped, "D02:after-drop", "audio reached WebRTC after the audio device module was gone");
    let Some(i) = a.by_thread.get(&me()) else {
        fatal("audio data from an unknown thread");
    };
    &mut a.streams[*i]
}
#[no_mangle]
pub unsafe extern "C" fn Rust_recordedDataIsAvailable(p: *const i16, n: usize, bytes: usize, ch: usize, rate: u32, _d: u32, _e: i32, _m: u32, _k: bool, _o: *mut u32, _t: i64) -> i32 {
    let s = caller();
    check!(!audio().silent[1], "D02:unasked", "recorded audio reached WebRTC, which is not recording");
    check!(n == 480 && bytes == 2 && ch == 1 && rate == 48000, "D02:window", "{n} samples of {bytes} bytes, {ch} channels, {rate} Hz");
    for k in 0..n {
        let v = *p.add(k);
        if v != sample(s.id, s.next) {
            // Only whole buffers are left out, and only those recorded while warming up.
            let q = s.cb_starts.iter().copied().find(|q| *q > s.next && sample(s.id, *q) == v);
            let whole = s.next == 0 || s.cb_starts.contains(&s.next);
            check!(q.is_some() && whole && audio().gap_ok, "D02:recorded", "stream {} sample {}: {v} instead of {}", s.id, s.next, sample(s.id, s.next));
            s.next = q.unwrap_or(s.next);
            probe("warm-up-left-out");
        }
        s.next += 1;
    }
    s.delivered += n as u64;
    if fails("webrtc-refuses-audio", audio().rates.webrtc) {
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn Rust_needMorePlayData(n: usize, bytes: usize, ch: usize, rate: u32, p: *mut i16, n_out: *mut usize, _e: *mut i64, _t: *mut i64) -> i32 {
    let s = caller();
    check!(!audio().silent[0], "D02:unasked", "WebRTC was asked for audio, but is not playing");
    check!(n == 480 && bytes == 2 && ch == 1 && rate == 48000, "D02:window", "{n} samples of {bytes} bytes, {ch} channels, {rate} Hz");
    if fails("webrtc-refuses-audio", audio().rates.webrtc) {
        *n_out = n;
        return -1;
    }
    let m = fault("short-audio", "webrtc", audio().rates.short).map_or(n, |v| (v % n as u64) as usize);
    for k in 0..m {
        let v = sample(s.id, s.pos);
        s.pos += 1;
        *p.add(k) = v;
        s.pulled.push_back(v);
    }
    *n_out = m;
    0
}
/// The factory keeps the audio device module it is given.
pub fn adopt(config: *const c_void) {
    #[repr(C)]
    struct Config {
        flags: [bool; 4],
        adm: *mut c_void,
        cbs: *const c_void,
        free: unsafe extern "C" fn(*mut c_void),
    }
    if there() && !config.is_null() {
        let c = unsafe { &*(config as *const Config) };
        let a = audio();
        (a.adm, a.cbs_table, a.free) = (c.adm, c.cbs, Some(c.free));
    }
}
pub fn release() {
    if there() {
        let a = audio();
        if let Some(f) = a.free.take() {
            unsafe { f(a.adm) };
        }
    }
}
