//! A stand-in for the WebRTC C++ library, at RingRTC's own FFI boundary (`Rust_*` functions).
//!
//! It keeps what matters to the callers: every factory has a signaling thread and a network thread,
//! API calls block on the signaling thread (sending RTP on the network thread), observers are called
//! on those threads and never after close, session descriptions carry ICE credentials and SRTP keys,
//! and two peer connections connect when their descriptions match and candidates are known.
//! Everything else (media, real ICE) is absent.
#![allow(non_snake_case)]
use crate::driver::{secret_address, secret_text};
use crate::watch;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ffi::{c_char, c_void, CStr, CString};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type P = *const c_void;
const NULL: P = std::ptr::null();

// ------------------------------------------------------------------------------------------------
// Threads
// ------------------------------------------------------------------------------------------------
type Task = Box<dyn FnOnce() + Send>;
struct Queue {
    now: VecDeque<Task>,
    later: BTreeMap<(u64, u64), Task>,
    seq: u64,
    stop: bool,
}
pub struct Looper {
    q: Mutex<Queue>,
    cv: Condvar,
    tid: Shr<u32>,
}
impl Looper {
    fn start(name: &str, node: u32) -> Arc<Looper> {
        let l = Arc::new(Looper { q: Mutex::new(Queue { now: VecDeque::new(), later: BTreeMap::new(), seq: 0, stop: false }), cv: Condvar::new(), tid: Shr::new(u32::MAX) });
        let l2 = l.clone();
        let n = name.to_string();
        std::thread::Builder::new()
            .name(n.clone())
            .spawn(move || {
                set_node(node);
                *l2.tid.g() = me();
                l2.run()
            })
            .expect("thread");
        l
    }
    fn run(&self) {
        let mut g = self.q.lock().unwrap();
        loop {
            let t = now();
            while g.later.first_key_value().is_some_and(|(k, _)| k.0 <= t) {
                let x = g.later.pop_first().unwrap().1;
                g.now.push_back(x);
            }
            if let Some(x) = g.now.pop_front() {
                drop(g);
                x();
                g = self.q.lock().unwrap();
                continue;
            }
            if g.stop {
                return;
            }
            g = match g.later.first_key_value() {
                Some((k, _)) => {
                    let d = k.0 - t;
                    self.cv.wait_timeout(g, Duration::from_nanos(d)).unwrap().0
                }
                None => self.cv.wait(g).unwrap(),
            };
        }
    }
    pub fn post(&self, f: impl FnOnce() + 'static) {
        self.post_at(0, f)
    }
    /// `at`: simulated time in ns
    pub fn post_at(&self, at: u64, f: impl FnOnce() + 'static) {
        struct S<T>(T);
        unsafe impl<T> Send for S<T> {}
        let s = S(f);
        let b: Task = Box::new(move || {
            let s = s;
            (s.0)()
        });
        let mut g = self.q.lock().unwrap();
        if at <= now() {
            g.now.push_back(b);
        } else {
            g.seq += 1;
            let k = (at, g.seq);
            g.later.insert(k, b);
        }
        drop(g);
        self.cv.notify_one();
    }
    /// Runs `f` on the thread and waits for it.
    pub fn call<T: 'static>(&self, f: impl FnOnce() -> T + 'static) -> T {
        if *self.tid.g() == me() || self.q.lock().unwrap().stop {
            return f();
        }
        let done = Arc::new((Mutex::new(None::<T>), Condvar::new()));
        struct S<T>(T);
        unsafe impl<T> Send for S<T> {}
        let d2 = S(done.clone());
        self.post(move || {
            let d2 = d2;
            let v = f();
            *d2.0 .0.lock().unwrap() = Some(v);
            d2.0 .1.notify_one();
        });
        let mut g = done.0.lock().unwrap();
        while g.is_none() {
            g = done.1.wait(g).unwrap();
        }
        g.take().unwrap()
    }
    fn stop(&self) {
        self.q.lock().unwrap().stop = true;
        self.cv.notify_one();
    }
}

// ------------------------------------------------------------------------------------------------
// Objects
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Srtp {
    pub suite: i32,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Desc {
    pub offer: bool,
    pub ufrag: String,
    pub pwd: String,
    pub srtp: Option<Srtp>,
    /// The video codecs (1 is VP8, 2 VP9) its owner may send and can decode, whether it came about the old way, and the TCC flag it was made with.
    pub send: u8,
    pub recv: u8,
    pub old: bool,
    pub tcc: Option<bool>,
    pub group: Option<(u32, Vec<u32>)>,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct PcCallbacks {
    on_ice_candidate: extern "C" fn(P, P),
    on_ice_candidate_removed: extern "C" fn(P, IpPort),
    on_ice_connection_change: extern "C" fn(P, i32),
    on_ice_network_route_change: extern "C" fn(P, Route, *const c_char, *const c_char),
    on_add_stream: extern "C" fn(P, P),
    on_add_audio: extern "C" fn(P, P),
    on_add_video: extern "C" fn(P, P, u32),
    on_video_frame: extern "C" fn(P, u32, VideoMeta, P),
    get_ciphertext_size: extern "C" fn(P, bool, usize) -> usize,
    encrypt: extern "C" fn(P, *const u8, usize, *mut u8, usize, *mut usize) -> bool,
    get_plaintext_size: extern "C" fn(P, u32, bool, usize) -> usize,
    decrypt: extern "C" fn(P, u32, *const u8, usize, *mut u8, usize, *mut usize) -> bool,
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Ip {
    v6: bool,
    address: [u8; 16],
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct IpPort {
    ip: Ip,
    port: u16,
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Route {
    local: i32,
    under_vpn: i32,
    local_relayed: bool,
    relay_protocol: i32,
    remote_relayed: bool,
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct VideoMeta {
    width: u32,
    height: u32,
    rotation: i32,
}
#[repr(C)]
struct CppCandidate {
    sdp: *const c_char,
    is_relayed: bool,
    protocol: i32,
}
pub struct PcObserver {
    obs: P,
    cbs: PcCallbacks,
    rust: usize,
    pub deleted: bool,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct RtpCallbacks {
    on_rtp: extern "C" fn(P, u8, u16, u32, u32, *const u8, usize),
}
struct RtpObserver {
    obs: P,
    cbs: RtpCallbacks,
    rust: usize,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct CsdCallbacks {
    ok: extern "C" fn(P, P),
    fail: extern "C" fn(P, *const c_char, i32),
}
#[derive(Clone, Copy)]
#[repr(C)]
struct SsdCallbacks {
    ok: extern "C" fn(P),
    fail: extern "C" fn(P, *const c_char, i32),
}
#[derive(Clone, Copy)]
#[repr(C)]
struct StatsCallbacks {
    done: extern "C" fn(P, P, *const c_char),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(i32)]
pub enum Ice {
    New,
    Checking,
    Connected,
    Completed,
    Failed,
    Disconnected,
    Closed,
}
#[derive(Clone)]
pub struct Poll {
    pub t: u64,
    pub captured: u16,
    pub received: Vec<(u32, u16)>,
    pub told: bool,
}
pub struct Pc {
    pub id: usize,
    pub node: u32,
    /// The thread that asked for this peer connection.
    pub creator: u32,
    factory: Factory,
    pub observer: *mut PcObserver,
    rtp_observer: *const RtpObserver,
    pub local: Option<Desc>,
    pub remote: Option<Desc>,
    pub gatherer: Option<(String, String)>,
    own: (String, String),
    pub remote_cands: BTreeSet<String>,
    pub gathered: bool,
    pub ice: Ice,
    pub closed: bool,
    pub group: bool,
    pub relayed: bool,
    /// Whether the route currently goes through a relay of this end, and of the other one.
    pub route: (bool, bool),
    pub outgoing_media: bool,
    pub incoming_media: bool,
    pub playout: bool,
    pub recording: bool,
    pub receive_rtp: BTreeSet<u8>,
    pub audio_track: usize,
    voice: u64,
    /// Audio levels as they were measured, and whether the application was told.
    pub polls: Vec<Poll>,
    video_track: usize,
    pub peer: Option<usize>,
    pub callbacks: u32,
    pub max_bitrate: i32,
    pub min_bitrate: i32,
    pub start_bitrate: i32,
    /// Packets the sender was told could not be sent.
    pub send_failures: u64,
    pub connected_once: bool,
    pub rtp_sent: u64,
    pub rtp_seen: u64,
    pub transceivers: Vec<u32>,
    pub settings: Settings,
    freed: bool,
    /// Encoders and decoders at work, which closing waits for.
    coding: u32,
}
/// What the application chose for a connection, as it arrived.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Settings {
    /// User, password, host and addresses of each relay.
    pub servers: Vec<(String, String, String, Vec<String>)>,
    pub jitter: (i32, i32, i32, bool),
    pub rtcp: i32,
    pub encoder: Option<([i32; 9], [bool; 3], [i32; 2])>,
    pub decoder: Option<i32>,
}
#[derive(Clone)]
pub struct Factory {
    pub node: u32,
    pub sig: Arc<Looper>,
    pub net: Arc<Looper>,
}
enum Body {
    Factory(Factory),
    Pc(usize),
    Csd(P, CsdCallbacks),
    Ssd(P, SsdCallbacks),
    Stats(P, StatsCallbacks),
    Gatherer(String, String),
    Track(usize),
    Frame(Picture),
    Plain,
}
pub struct Obj {
    rc: i64,
    body: Body,
    kind: &'static str,
    /// The Rust object that is called back.
    rust: usize,
}
fn obj(kind: &'static str, b: Body) -> P {
    let rust = match &b {
        Body::Csd(ob, _) | Body::Ssd(ob, _) | Body::Stats(ob, _) => register(*ob, "the Rust side of an observer"),
        _ => 0,
    };
    let p = Box::into_raw(Box::new(Obj { rc: 1, body: b, kind, rust })) as P;
    ether().live.insert(p as usize, (kind, node()));
    p
}
fn register(p: P, kind: &'static str) -> usize {
    let i = watch::watch(p);
    ether().rust.push((i, kind, node()));
    i
}
/// Calls the Rust side back, which must still have the object that it registered, until it returns (an observer of
/// one description may be gone as soon as its waiter was told, which is the last thing its callback does).
fn callback(rust: usize, what: &'static str, f: impl FnOnce()) {
    check!(!watch::gone(rust), "W01:callback", "the library calls back ({what}) on an object that is gone");
    if !watch::gone(rust) {
        f();
        check!(!watch::gone(rust) || what.ends_with("description"), "W01:callback", "an object is gone while the library's callback ({what}) runs on it");
        probe("library-callback");
    }
}
/// What the library still owns on behalf of somebody.
pub fn leftovers(node: u32) -> Vec<String> {
    let mut n = BTreeMap::<&str, usize>::new();
    for (k, _) in ether().live.values().filter(|v| v.1 == node) {
        *n.entry(k).or_default() += 1;
    }
    for (_, k, _) in ether().rust.iter().filter(|v| v.0 != 0 && v.2 == node && !watch::gone(v.0)) {
        *n.entry(k).or_default() += 1;
    }
    n.into_iter().map(|(k, n)| format!("{n} x {k}")).collect()
}
/// An object with one owner.
fn own(p: P, kind: &'static str) -> P {
    ether().live.insert(p as usize, (kind, node()));
    p
}
/// ... which must exist
fn owned(p: P, kind: &'static str) {
    let k = ether().live.get(&(p as usize)).map(|v| v.0);
    check!(k == Some(kind), "W01:released", "{kind} is used or released, but {}", k.map_or("it was released before".into(), |k| format!("it is {k}")));
}
fn disown(p: P, kind: &'static str) {
    owned(p, kind);
    ether().live.remove(&(p as usize));
}
fn o(p: P) -> &'static mut Obj {
    assert!(!p.is_null(), "null object given to WebRTC");
    let x = unsafe { &mut *(p as *mut Obj) };
    check!(x.rc > 0, "W01:released", "{} was used after its last reference was dropped", x.kind);
    x
}
fn pcx(p: P) -> usize {
    match o(p).body {
        Body::Pc(i) => i,
        _ => panic!("not a peer connection"),
    }
}
fn fac(p: P) -> Factory {
    match &o(p).body {
        Body::Factory(f) => f.clone(),
        _ => panic!("not a factory"),
    }
}

/// The world outside the process: which peer connections exist and how the network treats them.
pub struct Ether {
    pub pcs: Vec<Box<Pc>>,
    /// What somebody must release: its kind and on which node it was made.
    pub live: BTreeMap<usize, (&'static str, u32)>,
    pub rust: Vec<(usize, &'static str, u32)>,
    pub track_enabled: BTreeMap<usize, bool>,
    pub video_enabled: BTreeMap<usize, bool>,
    /// Track -> the source it shows.
    sources: BTreeMap<usize, usize>,
    /// What is being shown to an application, by the thread that shows it: track and picture.
    pub showing: BTreeMap<u32, (u32, u32)>,
    /// Frames that a connection could not decrypt, by sender.
    pub undecryptable: BTreeMap<(usize, u32), u32>,
    next_track: usize,
    next_node: u32,
    /// one-in-N fault rates
    pub rates: Rates,
    pub blocked: BTreeSet<(u32, u32)>,
    /// Every candidate gathered, and every address reported removed, with the node it belongs to.
    pub gathered: BTreeSet<(u32, String)>,
    pub removed: BTreeSet<(u32, bool, [u8; 16], u16)>,
    /// SFU side of group calls
    pub sfu: Option<Box<dyn Fn(usize, SfuEvent)>>,
    pub monitor: Option<Box<dyn Fn(usize, Mon)>>,
}
#[derive(Clone, Debug)]
pub enum SfuEvent {
    Connect { ufrag: String, pwd: String, server_ufrag: String, srtp: (Srtp, Srtp) },
    Rtp { pt: u8, ssrc: u32, seq: u16, ts: u32, data: Vec<u8> },
    Closed,
}
/// What a harness may want to look at as it happens.
#[derive(Clone, Debug)]
pub enum Mon {
    Created,
    SendRtp { pt: u8, ssrc: u32, seq: u16, ts: u32, data: Vec<u8> },
    DeliverRtp { from: usize, pt: u8, ssrc: u32, seq: u16, ts: u32, data: Vec<u8> },
    Ice(Ice),
    Media,
    Closed,
    Freed,
}
#[derive(Clone, Default)]
pub struct Rates {
    pub ice_delay_ms: u64,
    pub ice_fail: u64,
    pub ice_drop: u64,
    pub rtp_loss: u64,
    pub rtp_dup: u64,
    pub rtp_delay: u64,
    pub rtp_delay_ms: u64,
    pub rtp_tamper: u64,
    pub candidates: u64,
    pub api_fail: u64,
    pub more_candidates: u64,
}
static mut ETHER: Option<Box<Ether>> = None;
pub fn ether() -> &'static mut Ether {
    unsafe { ETHER.as_mut().expect("no ether") }
}
pub fn init(rates: Rates) {
    unsafe {
        ETHER = Some(Box::new(Ether { pcs: vec![], live: BTreeMap::new(), rust: vec![], track_enabled: BTreeMap::new(), video_enabled: BTreeMap::new(), sources: BTreeMap::new(), showing: BTreeMap::new(), undecryptable: BTreeMap::new(), next_track: 1, next_node: 0, rates, blocked: BTreeSet::new(), gathered: BTreeSet::new(), removed: BTreeSet::new(), sfu: None, monitor: None }));
    }
}
fn pc(i: usize) -> &'static mut Pc {
    &mut ether().pcs[i]
}
fn mon(i: usize, m: Mon) {
    if let Some(f) = &ether().monitor {
        f(i, m)
    }
}
/// Creates the C++ factory object for node `node`; the result can be given to `from_native_factory`.
pub fn native_factory(node: u32) -> P {
    ether().next_node = node;
    obj("a native factory", Body::Plain)
}
fn new_factory(node: u32) -> P {
    obj("a factory", Body::Factory(Factory { node, sig: Looper::start(&format!("sig{node}"), node), net: Looper::start(&format!("net{node}"), node) }))
}
fn new_pc(f: Factory, observer: *mut PcObserver, kind: u8, (track, video_track): (usize, usize), creator: u32, settings: Settings) -> P {
    let e = ether();
    let id = e.pcs.len();
    let own = (format!("u{:06x}", draw("ufrag") & 0xff_ffff), format!("pwd{:016x}", draw("pwd")));
    secret_text("an ICE password", &own.1);
    e.pcs.push(Box::new(Pc {
        id, node: f.node, creator, factory: f, observer, rtp_observer: std::ptr::null(), local: None, remote: None, gatherer: None, own,
        remote_cands: BTreeSet::new(), gathered: false, ice: Ice::New, closed: false, group: kind == 2, relayed: kind == 1, route: (false, false),
        outgoing_media: kind == 2, incoming_media: kind == 2, playout: kind == 2, recording: kind == 2, receive_rtp: BTreeSet::new(), audio_track: track, voice: draw("voice"), polls: vec![], video_track, peer: None,
        callbacks: 0, max_bitrate: -1, min_bitrate: -1, start_bitrate: -1, send_failures: 0, connected_once: false, rtp_sent: 0, rtp_seen: 0, transceivers: vec![], settings, freed: false, coding: 0,
    }));
    mon(id, Mon::Created);
    obj("a peer connection", Body::Pc(id))
}

// ------------------------------------------------------------------------------------------------
// Behaviour
// ------------------------------------------------------------------------------------------------
impl Pc {
    fn creds(&self) -> (String, String) {
        self.gatherer.clone().unwrap_or_else(|| self.own.clone())
    }
    pub fn stable(&self) -> bool {
        self.local.is_some() && self.remote.is_some()
    }
    /// Could audio from the microphone leave through this connection?
    pub fn sends_media(&self) -> bool {
        !self.closed && self.stable() && self.outgoing_media && self.recording && ether().track_enabled.get(&self.audio_track).copied().unwrap_or(true) && matches!(self.ice, Ice::Connected | Ice::Completed)
    }
    pub fn plays_media(&self) -> bool {
        !self.closed && self.stable() && self.incoming_media && self.playout && matches!(self.ice, Ice::Connected | Ice::Completed)
    }
}
/// Calls back on the observer, unless the connection was closed.
fn with_obs(i: usize, f: impl FnOnce(P, &PcCallbacks)) {
    let p = pc(i);
    if p.closed || p.observer.is_null() {
        return;
    }
    let o = unsafe { &*p.observer };
    if o.deleted {
        violate!("W01:observer", "a peer connection is open but its observer was deleted");
        return;
    }
    p.callbacks += 1;
    callback(o.rust, "peer connection", || f(o.obs, &o.cbs));
    pc(i).callbacks -= 1;
}
fn set_ice(i: usize, s: Ice) {
    let p = pc(i);
    if p.closed || p.ice == s {
        return;
    }
    p.ice = s;
    if matches!(s, Ice::Connected | Ice::Completed) {
        p.connected_once = true;
    }
    mon(i, Mon::Ice(s));
    with_obs(i, |ob, cb| (cb.on_ice_connection_change)(ob, s as i32));
}
fn lag(site: &'static str, max_ms: u64) -> u64 {
    now() + 1_000_000 + if max_ms > 0 { draw_below(site, max_ms * 1_000_000) } else { 0 }
}
/// An address of connection `i`, in one of the ways WebRTC writes them.
fn address(i: usize) -> String {
    let v = draw("address");
    let (a, b) = (0x1000 + (v >> 8) % 0xe000, 0x1000 + (v >> 24) % 0xe000);
    let v4 = format!("{}.{}.{}.{}", 101 + v % 100, 100 + a % 156, 100 + b % 156, 1 + (i as u64 + (v >> 40)) % 254);
    let s = match v % 16 {
        0..=7 => v4,
        8 | 9 => format!("2001:db8:{a:x}::{b:x}"),
        10 => format!("fe80::{a:x}:{b:x}"),
        11 => format!("2001:db8:1:22:333:4444:{a:x}:{b:x}"),
        12 => format!("fd00:{a:x}:{b:x}::"),
        13 => format!("2001:db8:0:{i}::{a:x}:{b:x}"),
        14 => format!("::ffff:{v4}"),
        _ => format!("2001:db8::{a:x}:0:{b:x}"),
    };
    secret_address(&s);
    s
}
/// The same in a log of WebRTC's, which leaves out the last part.
fn masked(a: &str) -> String {
    let i = a.rfind(['.', ':']).unwrap();
    if a.ends_with(':') || draw_below("mask", 2) == 0 { a.into() } else { format!("{}x", &a[..i + 1]) }
}
/// Candidate lines handed to the application carry this node's address.
fn gather(i: usize) {
    let p = pc(i);
    if p.gathered || p.closed || p.group {
        return;
    }
    p.gathered = true;
    let n = 1 + draw_below("candidates", ether().rates.candidates.max(1));
    let (sig, node) = (p.factory.sig.clone(), p.node);
    let ufrag = p.creds().0;
    for k in 0..n {
        let at = lag("gather", 200);
        let ufrag = ufrag.clone();
        let (a, b) = (address(i), address(i));
        let f = 1_000_000_000 + draw("foundation") % 3_000_000_000;
        secret_text("a candidate's foundation", &f.to_string());
        sig.post_at(at, move || {
            let relay = k % 3 == 2;
            let s = if k % 4 == 3 {
                format!("candidate:{f} 1 TCP 1686052607 {a} {} typ host tcptype passive generation 0 ufrag {ufrag}", 4000 + k)
            } else if relay {
                format!("candidate:{f} 1 UDP 2122262783 {a} {} typ relay raddr {b} rport {} generation 0 ufrag {ufrag}", 4000 + k, 5000 + k)
            } else {
                format!("candidate:{f} 1 UDP 2122262783 {a} {} typ host generation 0 ufrag {ufrag}", 4000 + k)
            };
            ether().gathered.insert((node, s.clone()));
            let c = CString::new(s).unwrap();
            with_obs(i, |ob, cb| {
                let cand = CppCandidate { sdp: c.as_ptr(), is_relayed: relay, protocol: 0 };
                (cb.on_ice_candidate)(ob, &cand as *const _ as P)
            });
        });
    }
    if let Some(v) = fault("candidate-removed", "ice", ether().rates.more_candidates) {
        let mut address = [10, node as u8, i as u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let v6 = v & 1 == 1;
        if v6 {
            address[8..].copy_from_slice(&draw("removed-address").to_be_bytes());
        }
        let port = (v >> 20) as u16;
        sig.post_at(now() + v % 3_000_000_000, move || {
            ether().removed.insert((node, v6, address, port));
            with_obs(i, |ob, cb| (cb.on_ice_candidate_removed)(ob, IpPort { ip: Ip { v6, address }, port }))
        });
    }
}
fn matches(a: &Pc, b: &Pc) -> bool {
    let (Some(al), Some(ar), Some(bl), Some(br)) = (&a.local, &a.remote, &b.local, &b.remote) else { return false };
    !a.closed && !b.closed && (&al.ufrag, &al.pwd) == (&br.ufrag, &br.pwd) && (&ar.ufrag, &ar.pwd) == (&bl.ufrag, &bl.pwd)
}
fn candidate_known(a: &Pc, b: &Pc) -> bool {
    let tag = format!("ufrag {}", b.local.as_ref().unwrap().ufrag);
    a.remote_cands.iter().any(|c| c.contains(&tag))
}
/// Looks for something to do for connection `i` after its inputs changed.
fn progress(i: usize) {
    let p = pc(i);
    if p.closed || !p.stable() {
        return;
    }
    if p.group {
        return progress_group(i);
    }
    if p.ice == Ice::New && !p.remote_cands.is_empty() {
        p.factory.sig.clone().post(move || set_ice_from(i, &[Ice::New], Ice::Checking));
        // give up eventually
        let at = now() + 15_000_000_000 + draw_below("ice-giveup", 20_000_000_000);
        p.factory.sig.clone().post_at(at, move || set_ice_from(i, &[Ice::New, Ice::Checking], Ice::Failed));
    }
    if p.peer.is_some() {
        return;
    }
    for j in 0..ether().pcs.len() {
        if j != i && matches(pc(i), pc(j)) && pc(j).peer.is_none() && (candidate_known(pc(i), pc(j)) || candidate_known(pc(j), pc(i))) {
            if fault("ice-never-connects", "ice", ether().rates.ice_fail).is_some() {
                return;
            }
            pc(i).peer = Some(j);
            pc(j).peer = Some(i);
            for (a, b) in [(i, j), (j, i)] {
                let at = lag("ice-connect", ether().rates.ice_delay_ms);
                pc(a).factory.sig.clone().post_at(at, move || connected(a, b));
            }
            break;
        }
    }
}
fn set_ice_from(i: usize, from: &[Ice], to: Ice) {
    if from.contains(&pc(i).ice) && (to != Ice::Failed || pc(i).peer.is_none()) {
        set_ice(i, to)
    }
}
fn blocked(a: u32, b: u32) -> bool {
    ether().blocked.contains(&(a.min(b), a.max(b)))
}
fn connected(a: usize, b: usize) {
    if pc(a).closed {
        return;
    }
    if pc(b).closed || blocked(pc(a).node, pc(b).node) {
        // the other end went away
        if matches!(pc(a).ice, Ice::New | Ice::Checking) {
            let at = now() + 15_000_000_000;
            pc(a).factory.sig.clone().post_at(at, move || if matches!(pc(a).ice, Ice::New | Ice::Checking) { set_ice(a, Ice::Failed) });
        }
        return;
    }
    set_ice_from(a, &[Ice::New], Ice::Checking);
    route(a);
    set_ice(a, Ice::Connected);
    if draw_below("ice-completed", 3) == 0 {
        pc(a).factory.sig.clone().post_at(lag("ice-completed-at", 500), move || set_ice_from(a, &[Ice::Connected], Ice::Completed));
    }
    if let Some(v) = fault("ice-disconnect", "ice", ether().rates.ice_drop) {
        let at = now() + v % 8_000_000_000;
        pc(a).factory.sig.clone().post_at(at, move || drop_ice(a, b, v >> 40));
    }
}
fn drop_ice(a: usize, b: usize, v: u64) {
    if !matches!(pc(a).ice, Ice::Connected | Ice::Completed) {
        return;
    }
    set_ice(a, Ice::Disconnected);
    let at = now() + 200_000_000 + (v % 16_000) * 1_000_000;
    pc(a).factory.sig.clone().post_at(at, move || {
        if pc(a).ice != Ice::Disconnected {
        } else if pc(b).closed || v % 4 == 0 {
            set_ice(a, Ice::Failed)
        } else {
            route(a);
            set_ice(a, Ice::Connected)
        }
    });
}
/// No media traffic between `node` and `peers` for a while.
pub fn partition(node: u32, peers: &[u32], ns: u64) {
    for &p in peers {
        ether().blocked.insert((node.min(p), node.max(p)));
    }
    for i in 0..ether().pcs.len() {
        if let Some(j) = pc(i).peer {
            if (pc(i).node == node && peers.contains(&pc(j).node)) || (pc(j).node == node && peers.contains(&pc(i).node)) {
                let v = draw("partition");
                let down = now() + 1_000_000_000 + v % 4_000_000_000;
                let up = now() + ns;
                sig_of(i).post_at(down, move || {
                    if blocked(pc(i).node, pc(j).node) && matches!(pc(i).ice, Ice::Connected | Ice::Completed) {
                        set_ice(i, Ice::Disconnected);
                        let failed = now() + 12_000_000_000;
                        sig_of(i).post_at(failed, move || if blocked(pc(i).node, pc(j).node) { set_ice_any(i, Ice::Disconnected, Ice::Failed) });
                        sig_of(i).post_at(up + 1_000_000_000 + v % 2_000_000_000, move || {
                            if pc(i).ice == Ice::Disconnected {
                                if pc(j).closed {
                                    set_ice(i, Ice::Failed)
                                } else {
                                    route(i);
                                    set_ice(i, Ice::Connected)
                                }
                            }
                        });
                    }
                });
            }
        }
    }
}
/// No traffic between `node` and the SFU (node 0) for a while.
pub fn cut(node: u32, ns: u64) {
    if !ether().pcs.iter().any(|p| p.node == node) {
        return;
    }
    ether().blocked.insert((0, node));
    for i in 0..ether().pcs.len() {
        if pc(i).node == node && pc(i).group {
            let v = draw("cut");
            sig_of(i).post_at(now() + 1_000_000_000 + v % 4_000_000_000, move || {
                if blocked(0, node) && matches!(pc(i).ice, Ice::Connected | Ice::Completed) {
                    set_ice(i, Ice::Disconnected);
                    let failed = now() + 12_000_000_000;
                    sig_of(i).post_at(failed, move || if blocked(0, node) { set_ice_any(i, Ice::Disconnected, Ice::Failed) });
                    let up = now() + ns + 1_000_000_000 + v % 2_000_000_000;
                    sig_of(i).post_at(up, move || if pc(i).ice == Ice::Disconnected { set_ice(i, Ice::Connected) });
                }
            });
        }
    }
    let l = match ether().pcs.iter().find(|p| p.node == node) {
        Some(p) => p.factory.sig.clone(),
        None => return,
    };
    l.post_at(now() + ns, move || {
        ether().blocked.remove(&(0, node));
    });
}
pub fn is_cut(node: u32) -> bool {
    blocked(0, node)
}
/// Runs `f` on the network thread of connection `i`, where frames and packets are processed.
pub fn on_net(i: usize, f: impl FnOnce() + 'static) {
    pc(i).factory.net.clone().post(f)
}
pub fn heal() {
    ether().blocked.clear();
}
/// The process of `node` is gone: nobody hears from it any more.
pub fn crash(node: u32) {
    for i in 0..ether().pcs.len() {
        if pc(i).node == node && !pc(i).closed {
            pc(i).closed = true;
            peer_gone(i);
        }
    }
}
/// The connections of `node` find a better network route.
pub fn flap(node: u32) {
    for i in 0..ether().pcs.len() {
        if pc(i).node == node && !pc(i).closed && matches!(pc(i).ice, Ice::Connected | Ice::Completed) {
            sig_of(i).post(move || if !pc(i).closed { route(i) });
        }
    }
}
fn route(i: usize) {
    let s = |i: usize| {
        let a = masked(&address(i));
        CString::new(if a.contains(':') { format!("Net[wlan0:192.0.2.x/24:Wifi:id=1] [{a}]:4000") } else { format!("{a}:4000") }).unwrap()
    };
    let (l, r) = (s(i), s(pc(i).peer.unwrap_or(i)));
    // Hiding the address means that this end always uses a relay.
    pc(i).route = (pc(i).relayed || draw_below("local-relayed", 4) == 0, draw_below("remote-relayed", 4) == 0);
    let (local_relayed, remote_relayed) = pc(i).route;
    let t = *[2, 1, 4, 512].get(draw_below("adapter", 4) as usize).unwrap();
    with_obs(i, |ob, cb| (cb.on_ice_network_route_change)(ob, Route { local: t, under_vpn: 0, local_relayed, relay_protocol: 3, remote_relayed }, l.as_ptr(), r.as_ptr()));
}
fn connected_group(i: usize, tries: u32) {
    if pc(i).closed {
        return;
    }
    if blocked(0, pc(i).node) {
        return match tries {
            30 => set_ice_from(i, &[Ice::New, Ice::Checking], Ice::Failed),
            _ => sig_of(i).post_at(now() + 500_000_000, move || connected_group(i, tries + 1)),
        };
    }
    let (l, r) = (pc(i).local.clone().unwrap(), pc(i).remote.clone().unwrap());
    route(i);
    set_ice(i, Ice::Connected);
    sfu(i, SfuEvent::Connect { ufrag: l.ufrag, pwd: l.pwd, server_ufrag: r.ufrag, srtp: (l.srtp.unwrap_or_default(), r.srtp.unwrap_or_default()) });
    if let Some(v) = fault("ice-disconnect", "ice", ether().rates.ice_drop) {
        sig_of(i).post_at(now() + v % 8_000_000_000, move || drop_ice(i, i, v >> 40));
    }
}
fn progress_group(i: usize) {
    let p = pc(i);
    if p.ice == Ice::New && !p.remote_cands.is_empty() {
        let sig = p.factory.sig.clone();
        sig.post(move || set_ice_from(i, &[Ice::New], Ice::Checking));
        let fail = fault("ice-never-connects", "ice", ether().rates.ice_fail).is_some();
        let at = lag("ice-connect", ether().rates.ice_delay_ms);
        if fail {
            sig.post_at(now() + 15_000_000_000, move || set_ice_from(i, &[Ice::New, Ice::Checking], Ice::Failed));
        } else {
            sig.post_at(at, move || connected_group(i, 0));
        }
    }
}
fn sig_of(i: usize) -> Arc<Looper> {
    pc(i).factory.sig.clone()
}
fn sfu(i: usize, e: SfuEvent) {
    if let Some(f) = &ether().sfu {
        f(i, e)
    }
}
/// The network carries an RTP packet to connection `i`.
pub fn deliver_rtp(i: usize, from: usize, pt: u8, seq: u16, ts: u32, ssrc: u32, data: Vec<u8>, at: u64) {
    pc(i).factory.net.clone().post_at(at, move || {
        let p = pc(i);
        if p.closed || (p.group && blocked(0, p.node)) || p.rtp_observer.is_null() || !p.receive_rtp.contains(&pt) || !(p.connected_once || p.group) {
            return;
        }
        p.rtp_seen += 1;
        mon(i, Mon::DeliverRtp { from, pt, ssrc, seq, ts, data: data.clone() });
        let o = unsafe { &*pc(i).rtp_observer };
        callback(o.rust, "RTP", || (o.cbs.on_rtp)(o.obs, pt, seq, ts, ssrc, data.as_ptr(), data.len()));
    });
}
/// One hop of the simulated media network: loss, duplication, delay, tampering.
pub fn hop(i: usize, from: usize, pt: u8, seq: u16, ts: u32, ssrc: u32, data: &[u8]) {
    let r = ether().rates.clone();
    if fault("rtp-loss", "rtp", r.rtp_loss).is_some() {
        return;
    }
    let base = now() + 1_000_000 + draw_below("rtp-latency", 30_000_000);
    let mut at = base;
    if let Some(v) = fault("rtp-delay", "rtp", r.rtp_delay) {
        at += v % (r.rtp_delay_ms.max(1) * 1_000_000);
    }
    deliver_rtp(i, from, pt, seq, ts, ssrc, data.to_vec(), at);
    if let Some(v) = fault("rtp-duplicate", "rtp", r.rtp_dup) {
        deliver_rtp(i, from, pt, seq, ts, ssrc, data.to_vec(), base + v % (1 + r.rtp_delay_ms.max(100) * 2_000_000));
    }
}
fn close(i: usize) {
    let p = pc(i);
    if p.closed {
        return;
    }
    p.closed = true;
    mon(i, Mon::Closed);
    let p = pc(i);
    p.ice = Ice::Closed;
    p.factory.net.clone().call(|| ());
    while pc(i).coding > 0 {
        sleep_ms(1);
    }
    let p = pc(i);
    if p.group {
        sfu(i, SfuEvent::Closed);
    }
    peer_gone(i);
}
fn peer_gone(i: usize) {
    if let Some(j) = pc(i).peer {
        if !pc(j).closed {
            let at = now() + 2_000_000_000 + draw_below("peer-gone", 6_000_000_000);
            pc(j).factory.sig.clone().post_at(at, move || {
                if matches!(pc(j).ice, Ice::Connected | Ice::Completed) {
                    set_ice(j, Ice::Disconnected);
                    let at = now() + 10_000_000_000;
                    pc(j).factory.sig.clone().post_at(at, move || set_ice_any(j, Ice::Disconnected, Ice::Failed));
                } else if matches!(pc(j).ice, Ice::New | Ice::Checking) {
                    set_ice(j, Ice::Failed);
                }
            });
        }
    }
}
fn set_ice_any(i: usize, from: Ice, to: Ice) {
    if pc(i).ice == from {
        set_ice(i, to)
    }
}
/// Runs the frame encryptor of a group call's connection, as an encoder thread would.
pub fn encrypt(i: usize, is_audio: bool, plain: &[u8]) -> Option<Vec<u8>> {
    let mut out = None;
    pc(i).coding += 1;
    with_obs(i, |ob, cb| {
        let n = (cb.get_ciphertext_size)(ob, is_audio, plain.len());
        let mut buf = vec![0u8; n];
        let mut len = 0usize;
        if (cb.encrypt)(ob, plain.as_ptr(), plain.len(), buf.as_mut_ptr(), n, &mut len) {
            buf.truncate(len);
            out = Some(buf);
        }
    });
    pc(i).coding -= 1;
    out
}
pub fn decrypt(i: usize, track: u32, is_audio: bool, cipher: &[u8]) -> Option<Vec<u8>> {
    let mut out = None;
    pc(i).coding += 1;
    with_obs(i, |ob, cb| {
        let n = (cb.get_plaintext_size)(ob, track, is_audio, cipher.len());
        let mut buf = vec![0u8; n];
        let mut len = 0usize;
        if (cb.decrypt)(ob, track, cipher.as_ptr(), cipher.len(), buf.as_mut_ptr(), n, &mut len) {
            buf.truncate(len);
            out = Some(buf);
        } else {
            *ether().undecryptable.entry((i, track)).or_insert(0) += 1;
        }
    });
    pc(i).coding -= 1;
    out
}
fn cstr(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
unsafe fn slice<'a, T>(p: *const T, n: usize) -> &'a [T] {
    if n == 0 || p.is_null() {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
fn api_fails(site: &'static str) -> bool {
    fault("webrtc-api-failure", site, ether().rates.api_fail).is_some()
}

// ------------------------------------------------------------------------------------------------
// The C functions
// ------------------------------------------------------------------------------------------------
#[no_mangle]
pub extern "C" fn Rust_incRc(p: P) {
    if !p.is_null() {
        o(p).rc += 1;
    }
}
#[no_mangle]
pub extern "C" fn Rust_decRc(p: P) {
    if p.is_null() {
        return;
    }
    let x = unsafe { &mut *(p as *mut Obj) };
    check!(x.rc > 0, "W01:released", "{} was released more often than it was taken", x.kind);
    x.rc -= 1;
    if x.rc > 0 {
        return;
    }
    ether().live.remove(&(p as usize));
    // The memory stays, so that a use after free is seen.
    match std::mem::replace(&mut x.body, Body::Plain) {
        Body::Pc(i) => {
            let sig = sig_of(i);
            sig.call(move || close(i));
            pc(i).freed = true;
            mon(i, Mon::Freed);
        }
        Body::Factory(f) => {
            let open = ether().pcs.iter().filter(|p| !p.freed && Arc::ptr_eq(&p.factory.sig, &f.sig)).count();
            check!(open == 0, "W01:factory", "a factory is gone before {open} of its peer connections");
            crate::cubeb::release();
            f.sig.stop();
            f.net.stop();
        }
        _ => {}
    }
}
#[no_mangle]
pub extern "C" fn Rust_createPeerConnectionFactory(a: P, _inj: bool, _f: *const c_char) -> P {
    crate::cubeb::adopt(a as *const _);
    new_factory(ether().next_node)
}
#[no_mangle]
pub extern "C" fn Rust_createPeerConnectionFactoryWrapper(_f: P) -> P {
    new_factory(ether().next_node)
}
#[no_mangle]
pub extern "C" fn Rust_getInjectableNetwork(_f: P) -> P {
    NULL
}
#[repr(C)]
struct IceServer {
    user: *const c_char,
    pwd: *const c_char,
    host: *const c_char,
    urls: *const *const c_char,
    n: usize,
}
#[repr(C)]
struct Jitter {
    a: i32,
    b: i32,
    c: i32,
    d: bool,
}
#[no_mangle]
pub unsafe extern "C" fn Rust_createPeerConnection(f: P, observer: *mut PcObserver, kind: u8, jb: P, rtcp: i32, ice: P, track: P, video: P) -> P {
    if api_fails("create-peer-connection") {
        return NULL;
    }
    let t = |p: P| match o(p).body {
        Body::Track(t) => t,
        _ => 0,
    };
    let t = (t(track), if video.is_null() { 0 } else { t(video) });
    let f = fac(f);
    let sig = f.sig.clone();
    let creator = simrt::me();
    let (a, b) = &*(ice as *const (*const IceServer, usize));
    let servers = slice(*a, *b).iter().map(|s| (cstr(s.user), cstr(s.pwd), cstr(s.host), slice(s.urls, s.n).iter().map(|u| cstr(*u)).collect())).collect();
    let jb = &*(jb as *const Jitter);
    let settings = Settings { servers, jitter: (jb.a, jb.b, jb.c, jb.d), rtcp, ..Default::default() };
    sig.call(move || new_pc(f, observer, kind, t, creator, settings))
}
fn new_track() -> P {
    let e = ether();
    let t = e.next_track;
    e.next_track += 1;
    obj("a track", Body::Track(t))
}
#[no_mangle]
pub extern "C" fn Rust_createAudioTrack(_f: P) -> P {
    new_track()
}
#[no_mangle]
pub extern "C" fn Rust_createVideoSource() -> P {
    obj("a video source", Body::Plain)
}
#[no_mangle]
pub extern "C" fn Rust_createVideoTrack(_f: P, s: P) -> P {
    let t = new_track();
    ether().sources.insert(track(t), s as usize);
    t
}
fn track(p: P) -> usize {
    match o(p).body {
        Body::Track(t) => t,
        _ => panic!("not a track"),
    }
}
#[no_mangle]
pub extern "C" fn Rust_setAudioTrackEnabled(t: P, on: bool) {
    ether().track_enabled.insert(track(t), on);
}
#[no_mangle]
pub extern "C" fn Rust_setVideoTrackEnabled(t: P, on: bool) {
    ether().video_enabled.insert(track(t), on);
}
#[no_mangle]
pub extern "C" fn Rust_setVideoTrackContentHint(_t: P, _s: bool) {}
// ---- pictures: small ones, which say who they are ----
#[derive(Clone, PartialEq)]
pub struct Picture {
    pub w: u32,
    pub h: u32,
    /// I420
    pub data: Vec<u8>,
}
/// The width, height and brightness of picture number `id`.
pub fn picture(id: u32) -> (u32, u32, Vec<u8>) {
    let (w, h) = (2 * (1 + id % 7), 2 * (1 + id / 7 % 7));
    let mut y: Vec<u8> = (0..w * h).map(|k| h3(77, id as u64, k as u64) as u8).collect();
    y[..4].copy_from_slice(&id.to_le_bytes());
    (w, h, y)
}
fn i420(w: u32, h: u32, y: Vec<u8>) -> Picture {
    let mut data = y;
    data.resize((w * h * 3 / 2) as usize, 128);
    Picture { w, h, data }
}
fn rotated(p: &Picture, r: i32) -> Picture {
    let (w, h) = (p.w as usize, p.h as usize);
    let at = |x: usize, y: usize| p.data[y * w + x];
    let (nw, nh) = if r % 180 == 0 { (w, h) } else { (h, w) };
    let mut y = vec![];
    for j in 0..nh {
        for i in 0..nw {
            y.push(match r {
                90 => at(j, h - 1 - i),
                180 => at(w - 1 - i, h - 1 - j),
                270 => at(w - 1 - j, i),
                _ => at(i, j),
            });
        }
    }
    i420(nw as u32, nh as u32, y)
}
fn frame(b: P) -> &'static mut Picture {
    match &mut o(b).body {
        Body::Frame(f) => f,
        _ => panic!("not a video frame"),
    }
}
/// Decodes a picture for a connection's application, held as the sender held its camera.
pub fn deliver_video(i: usize, track: u32, id: u32, at: u64, before: impl FnOnce(u32) + 'static) {
    pc(i).factory.net.clone().post_at(at, move || {
        let p = pc(i);
        if p.closed || p.observer.is_null() || !p.incoming_media || (p.group && blocked(0, p.node)) || !(p.connected_once || p.group) {
            return;
        }
        let (w, h, y) = picture(id);
        let r = [0, 0, 90, 180, 270][draw_below("video-rotation", 5) as usize];
        let raw = rotated(&i420(w, h, y), (360 - r) % 360);
        let meta = VideoMeta { width: raw.w, height: raw.h, rotation: r };
        ether().showing.insert(simrt::me(), (track, id));
        before(meta.height);
        let b = obj("a video frame", Body::Frame(raw));
        with_obs(i, |ob, cb| (cb.on_video_frame)(ob, track, meta, b));
        check!(ether().showing.remove(&simrt::me()).is_none(), "X01:lost", "a decoded frame of {track} was not shown to the application");
    });
}
#[no_mangle]
pub extern "C" fn Rust_pushVideoFrame(s: P, b: P) {
    let y = &frame(b).data;
    let id = u32::from_le_bytes(y[..4].try_into().unwrap());
    let (w, h, want) = picture(id);
    let f = frame(b);
    check!((f.w, f.h) == (w, h) && f.data[..want.len()] == want[..], "X01:camera", "what the camera took is not what is sent");
    let e = ether();
    for i in 0..e.pcs.len() {
        let p = pc(i);
        if p.closed || p.group || !p.stable() || !p.outgoing_media || e.sources.get(&p.video_track) != Some(&(s as usize)) || e.video_enabled.get(&p.video_track) == Some(&false) || !matches!(p.ice, Ice::Connected | Ice::Completed) {
            continue;
        }
        let Some(j) = p.peer else { continue };
        if blocked(p.node, pc(j).node) || fault("video-loss", "rtp", e.rates.rtp_loss).is_some() {
            continue;
        }
        let at = now() + 1_000_000 + draw_below("video-latency", 60_000_000);
        deliver_video(j, 0, id, at, |_| ());
    }
}
#[no_mangle]
pub extern "C" fn Rust_adaptOutputVideoFormat(_s: P, _w: u16, _h: u16, _f: u8) {}
unsafe fn taken(w: u32, h: u32, y: Vec<u8>) -> P {
    obj("a video frame", Body::Frame(i420(w, h, y)))
}
#[no_mangle]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromI420(w: u32, h: u32, s: *const u8) -> P {
    taken(w, h, slice(s, (w * h * 3 / 2) as usize)[..(w * h) as usize].to_vec())
}
#[no_mangle]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromNv12(w: u32, h: u32, s: *const u8) -> P {
    taken(w, h, slice(s, (w * h * 3 / 2) as usize)[..(w * h) as usize].to_vec())
}
#[no_mangle]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromRgba(w: u32, h: u32, s: *const u8) -> P {
    taken(w, h, slice(s, (w * h * 4) as usize).iter().step_by(4).copied().collect())
}
#[no_mangle]
pub unsafe extern "C" fn Rust_convertVideoFrameBufferToRgba(b: P, out: *mut u8) -> bool {
    let f = frame(b);
    for k in 0..(f.w * f.h) as usize {
        std::ptr::copy_nonoverlapping([f.data[k], f.data[k], f.data[k], 255].as_ptr(), out.add(4 * k), 4);
    }
    true
}
#[no_mangle]
pub extern "C" fn Rust_getVideoFrameBufferAsI420(b: P) -> *const u8 {
    frame(b).data.as_ptr()
}
#[no_mangle]
pub extern "C" fn Rust_scaleVideoFrameBuffer(b: P, w: isize, h: isize) -> P {
    let f = frame(b);
    let (w, h) = (w as u32, h as u32);
    let y = (0..h).flat_map(|j| (0..w).map(move |i| (i, j))).map(|(i, j)| f.data[(j * f.h / h * f.w + i * f.w / w) as usize]).collect();
    obj("a video frame", Body::Frame(i420(w, h, y)))
}
#[no_mangle]
pub extern "C" fn Rust_copyAndRotateVideoFrameBuffer(b: P, r: i32) -> P {
    obj("a video frame", Body::Frame(rotated(frame(b), r)))
}
/// The application looks at a frame that it is shown, as applications do.
pub fn look(track: u32, f: ringrtc::webrtc::media::VideoFrame) {
    let Some((t, id)) = ether().showing.remove(&simrt::me()) else {
        violate!("X01:twice", "the application is shown a frame that was not decoded");
        return;
    };
    check!(t == track, "X01:whose", "a frame of {t} is shown as one of {track}");
    let f = f.apply_rotation();
    let (w, h, y) = picture(id);
    let m = f.metadata();
    check!((f.width(), f.height(), m.height) == (w, h, h), "X01:size", "a picture of {w} x {h} is shown as {} x {}", f.width(), f.height());
    let same = |f: &ringrtc::webrtc::media::VideoFrame| f.as_i420().is_some_and(|b| b.len() == (w * h * 3 / 2) as usize && b[..y.len()] == y[..]);
    if (f.width(), f.height()) == (w, h) {
        check!(same(&f), "X01:picture", "the picture shown is not upright or not the one sent");
        let mut out = vec![7; (w * h * 4) as usize];
        check!(f.to_rgba(&mut out) && out.chunks(4).map(|c| c[0]).eq(y.iter().copied()), "X01:picture", "the picture's pixels are not what was sent");
        let again = f.scale(w * 2, h * 2).scale(w, h);
        check!(same(&again) && (again.width(), again.height()) == (w, h), "X01:picture", "scaling a picture there and back changes it");
    }
    probe("frame-shown");
}
/// The application's camera takes picture `id`.
pub fn take(s: &ringrtc::webrtc::media::VideoSource, id: u32, format: u64) {
    use ringrtc::webrtc::media::{VideoFrame, VideoPixelFormat::*};
    let (w, h, y) = picture(id);
    let f = match format % 3 {
        2 => Rgba,
        1 => Nv12,
        _ => I420,
    };
    let data: Vec<u8> = if f == Rgba { y.iter().flat_map(|v| [*v, *v, *v, 255]).collect() } else { i420(w, h, y).data };
    s.push_frame(VideoFrame::copy_from_slice(w, h, f, &data));
    probe("frame-taken");
}
#[no_mangle]
pub extern "C" fn Rust_setLogger(_c: P, _s: i32) {}
#[no_mangle]
pub unsafe extern "C" fn Rust_createPeerConnectionObserver(obs: P, cbs: P, _e: bool, _v: bool, _c: bool) -> *mut PcObserver {
    let ob = Box::into_raw(Box::new(PcObserver { obs, cbs: *(cbs as *const PcCallbacks), rust: register(obs, "what a connection reports to"), deleted: false }));
    own(ob as P, "a peer connection's observer");
    ob
}
#[no_mangle]
pub unsafe extern "C" fn Rust_deletePeerConnectionObserver(ob: *mut PcObserver) {
    if !ob.is_null() {
        disown(ob as P, "a peer connection's observer");
        (*ob).deleted = true;
    }
}
#[no_mangle]
pub unsafe extern "C" fn Rust_createRtpObserver(obs: P, cbs: P) -> P {
    own(Box::into_raw(Box::new(RtpObserver { obs, cbs: *(cbs as *const RtpCallbacks), rust: register(obs, "what a connection reports to") })) as P, "an RTP observer")
}
#[no_mangle]
pub extern "C" fn Rust_deleteRtpObserver(ob: P) {
    if !ob.is_null() {
        disown(ob, "an RTP observer");
    }
    for p in &mut ether().pcs {
        if p.rtp_observer as P == ob && !ob.is_null() {
            check!(p.closed, "W01:observer", "an RTP observer was deleted while its peer connection is open");
            p.rtp_observer = std::ptr::null();
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn Rust_createSetSessionDescriptionObserver(obs: P, cbs: P) -> P {
    obj("a set-description observer", Body::Ssd(obs, *(cbs as *const SsdCallbacks)))
}
#[no_mangle]
pub unsafe extern "C" fn Rust_createCreateSessionDescriptionObserver(obs: P, cbs: P) -> P {
    obj("a create-description observer", Body::Csd(obs, *(cbs as *const CsdCallbacks)))
}
#[no_mangle]
pub unsafe extern "C" fn Rust_createStatsObserver(obs: P, cbs: P) -> P {
    obj("a statistics observer", Body::Stats(obs, *(cbs as *const StatsCallbacks)))
}
#[no_mangle]
pub extern "C" fn Rust_setCollectRawStatsReport(_s: P, _c: bool) {}

fn create_desc(p: P, csd: P, offer: bool) {
    let i = pcx(p);
    let Body::Csd(ob, cb) = o(csd).body else { panic!("not a csd observer") };
    let rust = o(csd).rust;
    Rust_incRc(csd);
    let sig = sig_of(i);
    sig.clone().call(move || {
        let at = lag("create-description", 20);
        let d = Desc { offer, ..Default::default() };
        sig.post_at(at, move || {
            let p = pc(i);
            if p.closed || api_fails("create-description") {
                callback(rust, "description", || (cb.fail)(ob, c"description failure".as_ptr(), 1));
            } else {
                let mut d = d;
                (d.ufrag, d.pwd) = p.creds();
                (d.send, d.recv) = p.remote.as_ref().map_or((3, 3), |r| if offer { (3, 3) } else { (r.recv, r.send) });
                callback(rust, "description", || (cb.ok)(ob, new_desc(d)));
            }
            Rust_decRc(csd);
        });
    });
}
#[no_mangle]
pub extern "C" fn Rust_createOffer(p: P, csd: P) {
    create_desc(p, csd, true)
}
#[no_mangle]
pub extern "C" fn Rust_createAnswer(p: P, csd: P) {
    create_desc(p, csd, false)
}
fn set_desc(p: P, ssd: P, d: P, local: bool) {
    let i = pcx(p);
    let Body::Ssd(ob, cb) = o(ssd).body else { panic!("not an ssd observer") };
    let rust = o(ssd).rust;
    Rust_incRc(ssd);
    disown(d, "a description");
    let d = unsafe { *Box::from_raw(d as *mut Desc) };
    let sig = sig_of(i);
    sig.clone().call(move || {
        let at = lag("set-description", 20);
        sig.post_at(at, move || {
            let p = pc(i);
            if p.closed || api_fails("set-description") {
                callback(rust, "set description", || (cb.fail)(ob, c"set failure".as_ptr(), 1));
            } else {
                let had = p.stable();
                if local {
                    p.local = Some(d);
                } else {
                    p.remote = Some(d);
                }
                if !local && !had && !pc(i).group {
                    with_obs(i, |ob, cb| (cb.on_add_stream)(ob, obj("a stream", Body::Plain)));
                }
                mon(i, Mon::Media);
                callback(rust, "set description", || (cb.ok)(ob));
                if local {
                    gather(i);
                }
                progress(i);
            }
            Rust_decRc(ssd);
        });
    });
}
#[no_mangle]
pub extern "C" fn Rust_setLocalDescription(p: P, ssd: P, d: P) {
    set_desc(p, ssd, d, true)
}
#[no_mangle]
pub extern "C" fn Rust_setRemoteDescription(p: P, ssd: P, d: P) {
    set_desc(p, ssd, d, false)
}
#[no_mangle]
pub unsafe extern "C" fn Rust_updateTransceivers(p: P, ids: *const u32, n: usize) -> bool {
    let i = pcx(p);
    let ids = slice(ids, n).to_vec();
    sig_of(i).call(move || pc(i).transceivers = ids);
    true
}
#[no_mangle]
pub extern "C" fn Rust_createSendOnlyTransceiver(p: P) -> bool {
    let _ = pcx(p);
    true
}
#[no_mangle]
pub extern "C" fn Rust_setOutgoingMediaEnabled(p: P, on: bool) {
    let i = pcx(p);
    sig_of(i).call(move || {
        pc(i).outgoing_media = on;
        mon(i, Mon::Media);
    });
}
#[no_mangle]
pub extern "C" fn Rust_setIncomingMediaEnabled(p: P, on: bool) -> bool {
    let i = pcx(p);
    sig_of(i).call(move || {
        pc(i).incoming_media = on;
        mon(i, Mon::Media);
    });
    true
}
#[no_mangle]
pub extern "C" fn Rust_setAudioPlayoutEnabled(p: P, on: bool) {
    let i = pcx(p);
    sig_of(i).call(move || {
        pc(i).playout = on;
        mon(i, Mon::Media);
    });
}
#[no_mangle]
pub extern "C" fn Rust_setAudioRecordingEnabled(p: P, on: bool) {
    let i = pcx(p);
    sig_of(i).call(move || {
        pc(i).recording = on;
        mon(i, Mon::Media);
    });
}
#[no_mangle]
pub extern "C" fn Rust_addIceCandidateFromSdp(p: P, sdp: *const c_char) -> bool {
    let i = pcx(p);
    let s = cstr(sdp);
    let known = ether().gathered.iter().any(|g| g.0 != pc(i).node && g.1 == s);
    check!(known, "C13:candidate", "connection {i} is given a candidate the other side never had: {s}");
    sig_of(i).call(move || {
        if !s.starts_with("candidate:") || pc(i).closed || pc(i).remote.is_none() {
            return false;
        }
        pc(i).remote_cands.insert(s);
        progress(i);
        true
    })
}
#[no_mangle]
pub extern "C" fn Rust_addIceCandidateFromServer(p: P, _ip: Ip, _port: u16, _tcp: bool, _host: *const c_char) -> bool {
    let i = pcx(p);
    sig_of(i).call(move || {
        let n = pc(i).remote_cands.len();
        pc(i).remote_cands.insert(format!("server {n}"));
        progress(i);
        true
    })
}
#[no_mangle]
pub unsafe extern "C" fn Rust_removeIceCandidates(p: P, a: *const IpPort, n: usize) -> bool {
    let i = pcx(p);
    for a in slice(a, n) {
        let mut k = a.ip.address;
        if !a.ip.v6 {
            k[4..].fill(0);
        }
        let known = ether().removed.iter().any(|r| r.0 != pc(i).node && (r.1, r.2, r.3) == (a.ip.v6, k, a.port));
        check!(known, "C13:removed", "connection {i} is told to forget the address {k:?} port {}, which the other side never removed", a.port);
        probe("removed-candidate");
    }
    sig_of(i).call(|| true)
}
#[no_mangle]
pub extern "C" fn Rust_createSharedIceGatherer(p: P) -> P {
    let i = pcx(p);
    sig_of(i).call(move || {
        if api_fails("ice-gatherer") {
            return NULL;
        }
        let (u, w) = pc(i).own.clone();
        obj("an ICE gatherer", Body::Gatherer(u, w))
    })
}
#[no_mangle]
pub extern "C" fn Rust_useSharedIceGatherer(p: P, g: P) -> bool {
    let i = pcx(p);
    let Body::Gatherer(u, w) = &o(g).body else { panic!("not a gatherer") };
    let uw = (u.clone(), w.clone());
    sig_of(i).call(move || {
        if api_fails("ice-gatherer") {
            return false;
        }
        pc(i).gatherer = Some(uw);
        true
    })
}
#[repr(C)]
struct ConnStats {
    id: *const c_char,
    f: [f64; 2],
    n: [u64; 4],
}
#[repr(C)]
struct MediaStats {
    timestamp_us: i64,
    lists: [(u32, usize); 4],
    nominated: ConnStats,
    pairs: *const ConnStats,
    n_pairs: u32,
}
#[no_mangle]
pub extern "C" fn Rust_getStats(p: P, st: P) {
    let i = pcx(p);
    let Body::Stats(ob, cb) = o(st).body else { panic!("not a stats observer") };
    let rust = o(st).rust;
    Rust_incRc(st);
    let sig = sig_of(i);
    sig.clone().call(move || {
        let at = lag("stats", 10);
        sig.post_at(at, move || {
            if !pc(i).closed {
                callback(rust, "statistics", || stats(ob, cb));
            }
            Rust_decRc(st);
        })
    });
}
/// A report is ready for this observer.
pub fn deliver_stats(ob: *const ringrtc::webrtc::stats_observer::StatsObserver, report: &ringrtc::webrtc::stats_observer::MediaStatistics, json: *const c_char) {
    let st = unsafe { (*ob).rffi().as_borrowed().as_ptr() } as P;
    let Body::Stats(ob, cb) = o(st).body else { panic!("not a stats observer") };
    (cb.done)(ob, report as *const _ as P, json);
}
fn stats(ob: P, cb: StatsCallbacks) {
    let none = || ConnStats { id: std::ptr::null(), f: [0.0; 2], n: [0; 4] };
    let m = MediaStats { timestamp_us: (now() / 1000) as i64, lists: [(0, 0); 4], nominated: none(), pairs: std::ptr::null(), n_pairs: 0 };
    (cb.done)(ob, &m as *const _ as P, c"{}".as_ptr());
}
#[no_mangle]
pub extern "C" fn Rust_setSendBitrates(p: P, min: i32, start: i32, max: i32) {
    let i = pcx(p);
    sig_of(i).call(move || {
        pc(i).min_bitrate = min;
        pc(i).start_bitrate = start;
        pc(i).max_bitrate = max;
    });
}
#[no_mangle]
pub unsafe extern "C" fn Rust_sendRtp(p: P, pt: u8, seq: u16, ts: u32, ssrc: u32, data: *const u8, n: usize) -> bool {
    let i = pcx(p);
    let data = slice(data, n).to_vec();
    pc(i).factory.net.clone().call(move || {
        let x = pc(i);
        if x.closed || !matches!(x.ice, Ice::Connected | Ice::Completed | Ice::Disconnected) {
            x.send_failures += 1;
            return false;
        }
        if fault("rtp-send-failure", "rtp", if ether().rates.rtp_loss > 0 { 40 } else { 0 }).is_some() {
            pc(i).send_failures += 1;
            return false;
        }
        x.rtp_sent += 1;
        mon(i, Mon::SendRtp { pt, ssrc, seq, ts, data: data.clone() });
        let x = pc(i);
        if x.group {
            sfu(i, SfuEvent::Rtp { pt, ssrc, seq, ts, data });
        } else if let Some(j) = x.peer {
            // Packets protected with another key than the receiver's are dropped there.
            let mine = x.local.as_ref().and_then(|d| d.srtp.clone());
            let theirs = pc(j).remote.as_ref().and_then(|d| d.srtp.clone());
            if !blocked(x.node, pc(j).node) && mine == theirs {
                hop(j, i, pt, seq, ts, ssrc, &data);
            }
        }
        true
    })
}
#[no_mangle]
pub extern "C" fn Rust_receiveRtp(p: P, pt: u8, on: bool) -> bool {
    let i = pcx(p);
    pc(i).factory.net.clone().call(move || {
        pc(i).receive_rtp.insert(pt);
        if on {
            pc(i).incoming_media = true;
        }
        true
    })
}
#[repr(C)]
struct Encoder {
    n: [i32; 9],
    b: [bool; 3],
    m: [i32; 2],
}
#[no_mangle]
pub unsafe extern "C" fn Rust_configureAudioEncoders(p: P, c: P) {
    let i = pcx(p);
    let c = &*(c as *const Encoder);
    pc(i).settings.encoder = Some((c.n, c.b, c.m));
}
#[repr(C)]
struct Decoder {
    weights: P,
    n: i32,
    complexity: i32,
}
#[no_mangle]
pub unsafe extern "C" fn Rust_configureAudioDecoders(p: P, c: P) {
    let i = pcx(p);
    pc(i).settings.decoder = Some((*(c as *const Decoder)).complexity);
}
#[repr(C)]
struct Level {
    demux: u32,
    level: u16,
}
/// People talk, pause and are silent for a while.
#[no_mangle]
pub unsafe extern "C" fn Rust_getAudioLevels(p: P, cap: *mut u16, out: *mut Level, n: usize, n_out: *mut usize) {
    let i = pcx(p);
    let (v, t) = (pc(i).voice, now());
    let talks = match h3(v, 1, t / 16_000_000_000) % 4 {
        0 => false,
        1 | 2 => true,
        _ => h3(v, 2, t / 700_000_000) % 2 == 0,
    };
    let x = h3(v, 3, t);
    let captured = if talks { 1001 + (x % 30_000) as u16 } else { 1000 - (x % 40 * (x >> 8 & 25)) as u16 };
    let received: Vec<(u32, u16)> = (0..(x >> 32) % 4).map(|k| (h3(v, 4, k) as u32, h3(v, t, k) as u16)).take(n).collect();
    *cap = captured;
    for (k, r) in received.iter().enumerate() {
        *out.add(k) = Level { demux: r.0, level: r.1 };
    }
    *n_out = received.len();
    pc(i).polls.push(Poll { t, captured, received, told: false });
}
/// The application of a 1:1 call is told how loud it is.
pub fn level_told(node: u32, captured: u16, received: u16, ms: u64) {
    for p in &mut ether().pcs {
        if p.node != node || p.group {
            continue;
        }
        if let Some(q) = p.polls.iter_mut().rev().find(|q| !q.told && q.captured == captured && q.received.first().map_or(0, |r| r.1) == received) {
            q.told = true;
            let n = p.polls.iter().filter(|q| q.told).count() as u64;
            let first = p.polls.iter().find(|q| q.told).map_or(0, |q| q.t);
            let most = (now() - first) / (ms * 1_000_000) + 3;
            check!(n <= most, "X02:often", "the application is told audio levels {n} times, {most} at most were asked for");
            probe("levels");
            return;
        }
    }
    violate!("X02:level", "the application is told levels {captured} and {received}, which were not measured or were told before");
}
#[no_mangle]
pub extern "C" fn Rust_getLastBandwidthEstimateBps(p: P) -> u32 {
    let _ = pcx(p);
    (draw_below("bwe", 2_000_000) + 20_000) as u32
}
#[no_mangle]
pub extern "C" fn Rust_setRtpPacketObserver(p: P, ob: P) {
    let i = pcx(p);
    struct S(P);
    pc(i).factory.net.clone().call(move || {
        let s = S(ob);
        pc(i).rtp_observer = s.0 as *const RtpObserver;
    });
}
#[no_mangle]
pub extern "C" fn Rust_closePeerConnection(p: P) {
    let i = pcx(p);
    sig_of(i).call(move || close(i));
}
#[no_mangle]
pub extern "C" fn Rust_regatherOnAllNetworks(p: P) {
    let _ = pcx(p);
}
// ---- session descriptions ----
fn desc<'a>(p: P) -> &'a mut Desc {
    assert!(!p.is_null());
    owned(p, "a description");
    unsafe { &mut *(p as *mut Desc) }
}
fn new_desc(d: Desc) -> P {
    own(Box::into_raw(Box::new(d)) as P, "a description")
}
#[no_mangle]
pub extern "C" fn Rust_toSdp(d: P) -> *mut c_char {
    let d = desc(d);
    secret_text("an ICE password", &d.pwd);
    let (a, b, c) = (address(0), address(1), address(2));
    let m = |a: &str, mid: u32| format!("m=audio 9 UDP/TLS/RTP/SAVPF 111\r\nc=IN IP4 {a}\r\na=rtcp:9 IN IP6 {c}\r\na=candidate:1 1 udp 2122260223 {b} 5000 typ srflx raddr {a} rport 5001\r\na=ice-ufrag:{}\r\na=ice-pwd:{}\r\na=mid:{mid}\r\n", d.ufrag, d.pwd);
    let s = CString::new(format!("v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\n{}{}", m(&a, 0), m(&b, 1))).unwrap();
    unsafe { libc::strdup(s.as_ptr()) }
}
#[no_mangle]
pub unsafe extern "C" fn Rust_disableDtlsAndSetSrtpKey(d: P, suite: i32, k: *const u8, kn: usize, s: *const u8, sn: usize) -> bool {
    desc(d).srtp = Some(Srtp { suite, key: slice(k, kn).to_vec(), salt: slice(s, sn).to_vec() });
    true
}
#[repr(C)]
struct V4 {
    ufrag: *const c_char,
    pwd: *const c_char,
    codecs: [(P, usize); 3],
}
static CODECS: [[i32; 2]; 4] = [[0, 0], [8, 0], [9, 0], [8, 9]];
fn codecs(m: u8) -> (P, usize) {
    (CODECS[m as usize & 3].as_ptr() as P, m.count_ones() as usize)
}
fn limit(vp9: bool) -> u8 {
    if vp9 { 3 } else { 1 }
}
fn to_v4(d: P, lists: [(P, usize); 3]) -> P {
    let d = desc(d);
    own(Box::into_raw(Box::new(V4 { ufrag: CString::new(d.ufrag.clone()).unwrap().into_raw(), pwd: CString::new(d.pwd.clone()).unwrap().into_raw(), codecs: lists })) as P, "connection parameters")
}
#[no_mangle]
pub extern "C" fn Rust_sessionDescriptionToV4Legacy(d: P, vp9: bool) -> P {
    let q = desc(d);
    to_v4(d, [codecs(q.send & q.recv & limit(vp9)), (NULL, 0), (NULL, 0)])
}
#[no_mangle]
pub extern "C" fn Rust_sessionDescriptionToV4(d: P, e: bool, dd: bool) -> P {
    let q = desc(d);
    let (a, b) = (q.send & limit(e), q.recv & limit(dd));
    to_v4(d, [codecs(a & b), codecs(a), codecs(b)])
}
#[no_mangle]
pub unsafe extern "C" fn Rust_deleteV4(v: P) {
    disown(v, "connection parameters");
    let v = Box::from_raw(v as *mut V4);
    drop(CString::from_raw(v.ufrag as *mut c_char));
    drop(CString::from_raw(v.pwd as *mut c_char));
}
unsafe fn from_v4(offer: bool, v: P, tcc: bool, old: bool, limits: (u8, u8)) -> P {
    let v = &*(v as *const V4);
    let m = |c: (P, usize)| slice(c.0 as *const i32, c.1).iter().fold(0u8, |m, k| m | match k { 8 => 1, 9 => 2, _ => 0 });
    let (send, recv) = if old { (m(v.codecs[0]), m(v.codecs[0])) } else { (m(v.codecs[1]), m(v.codecs[2])) };
    new_desc(Desc { offer, ufrag: cstr(v.ufrag), pwd: cstr(v.pwd), send: send & limits.0, recv: recv & limits.1, old, tcc: Some(tcc), ..Default::default() })
}
#[no_mangle]
pub unsafe extern "C" fn Rust_sessionDescriptionFromV4Legacy(offer: bool, v: P, tcc: bool, vp9: bool) -> P {
    from_v4(offer, v, tcc, true, (limit(vp9), limit(vp9)))
}
#[no_mangle]
pub unsafe extern "C" fn Rust_sessionDescriptionFromV4(offer: bool, v: P, tcc: bool, e: bool, d: bool, local: bool) -> P {
    from_v4(offer, v, tcc, false, if local { (limit(e), limit(d)) } else { (limit(d), limit(e)) })
}
#[repr(C)]
pub struct RffiSrtp {
    suite: i32,
    k: *const u8,
    kn: usize,
    s: *const u8,
    sn: usize,
}
unsafe fn group_desc(offer: bool, u: *const c_char, p: *const c_char, k: RffiSrtp, id: u32, ids: *const u32, n: usize) -> P {
    let srtp = Some(Srtp { suite: k.suite, key: slice(k.k, k.kn).to_vec(), salt: slice(k.s, k.sn).to_vec() });
    new_desc(Desc { offer, ufrag: cstr(u), pwd: cstr(p), srtp, group: Some((id, slice(ids, n).to_vec())), ..Default::default() })
}
#[no_mangle]
pub unsafe extern "C" fn Rust_localDescriptionForGroupCall(u: *const c_char, p: *const c_char, k: RffiSrtp, id: u32, ids: *const u32, n: usize) -> P {
    group_desc(true, u, p, k, id, ids, n)
}
#[no_mangle]
pub unsafe extern "C" fn Rust_remoteDescriptionForGroupCall(u: *const c_char, p: *const c_char, k: RffiSrtp, id: u32, ids: *const u32, n: usize) -> P {
    group_desc(false, u, p, k, id, ids, n)
}
#[no_mangle]
pub unsafe extern "C" fn Rust_deleteSessionDescription(d: P) {
    if !d.is_null() {
        disown(d, "a description");
        drop(Box::from_raw(d as *mut Desc));
    }
}
// ---- injectable network, audio device module (not used) ----
#[no_mangle]
pub extern "C" fn Rust_InjectableNetwork_SetSender(_n: P, _s: P) {}
#[no_mangle]
pub extern "C" fn Rust_InjectableNetwork_AddInterface(_n: P, _a: P, _t: i32, _ip: P, _p: u16) {}
#[no_mangle]
pub extern "C" fn Rust_InjectableNetwork_RemoveInterface(_n: P, _a: P) {}
#[no_mangle]
pub extern "C" fn Rust_InjectableNetwork_ReceiveUdp(_n: P, _s: P, _d: P, _x: P, _l: usize) {}
