//! The audio device module: WebRTC and the app drive it, devices come and go, cubeb (simulated) is slow or fails.
use crate::cubeb::{audio, Dev, Rates};
use crate::driver::{Prop, Scenario};
use ringrtc::webrtc::peer_connection_factory::{AudioConfig, AudioDevice, AudioDeviceObserver, PeerConnectionFactory};
use simrt::*;
use std::os::raw::c_void;
use std::sync::{Arc, Mutex};

type List = Vec<Option<AudioDevice>>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rec {
    Off,
    Warm,
    On,
}
struct World {
    seed: u64,
    notified: [Vec<List>; 2],
    /// What could be listed: every set of devices there has been, from the time given.
    truth: [Vec<(u64, List)>; 2],
    pending: Vec<(bool, usize, u64)>,
    initial: [List; 2],
    /// The device selected last, and the version of the device list when it was known to be there.
    sel: [Option<(usize, u64)>; 2],
    play: bool,
    rec: Rec,
    next_dev: usize,
    /// Identifiers of devices which are gone, or were never to be chosen.
    strange: Vec<String>,
}
type W = Shr<World>;

/// The app waits for news.
const TOLD: u64 = 0x701d;
struct Obs(W);
impl std::fmt::Debug for Obs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Obs")
    }
}
unsafe impl Send for Obs {}
impl AudioDeviceObserver for Obs {
    fn output_changed(&self, devices: List) {
        self.told(false, devices)
    }
    fn input_changed(&self, devices: List) {
        self.told(true, devices)
    }
}
impl Obs {
    fn told(&self, input: bool, l: List) {
        probe("devices-changed");
        let w = self.0.g();
        let d = input as usize;
        check!(w.truth[d].iter().any(|(_, t)| *t == l), "D01:invented", "a list of devices that never was: {l:?}");
        w.notified[d].push(l);
        w.pending.push((input, w.notified[d].len() - 1, now()));
        notify_key(TOLD);
    }
}

/// What can be chosen: the default device first, then all but monitors.
fn listing(input: bool) -> List {
    let all: Vec<&Dev> = audio().devs.iter().filter(|d| d.input == input && d.name.is_some() && d.enabled).collect();
    let shown: Vec<&Dev> = all.iter().copied().filter(|d| !d.monitor).collect();
    let default = all.iter().copied().find(|d| d.default);
    if shown.is_empty() && default.is_none() {
        return vec![];
    }
    let one = |i: usize, d: &Dev| {
        let n = d.name.clone().unwrap();
        Some(AudioDevice { name: if i == 0 { format!("default ({n})") } else { n.clone() }, unique_id: d.uid.clone().unwrap_or_else(|| format!("{n}-{i}")), i18n_key: String::new() })
    };
    let mut v = vec![default.and_then(|d| one(0, d))];
    v.extend(shown.iter().enumerate().map(|(i, d)| one(i + 1, d)));
    v
}
/// The device at a place of the list.
fn device_at(input: bool, i: usize) -> Option<usize> {
    let all: Vec<&Dev> = audio().devs.iter().filter(|d| d.input == input && d.name.is_some() && d.enabled).collect();
    if i == 0 { all.iter().find(|d| d.default).map(|d| d.id) } else { all.iter().filter(|d| !d.monitor).nth(i - 1).map(|d| d.id) }
}
fn device_by_id(input: bool, id: &str) -> Option<usize> {
    listing(input).iter().position(|d| d.as_ref().is_some_and(|d| d.unique_id == id)).and_then(|i| device_at(input, i))
}

// ---- WebRTC's calls -----------------------------------------------------------------------------
fn f0<R>(i: usize) -> R {
    let a = audio();
    unsafe {
        let p = *(a.cbs_table as *const usize).add(i);
        let f: extern "C" fn(*mut c_void) -> R = std::mem::transmute(p);
        f(a.adm)
    }
}
fn out<T: Default>(i: usize) -> (i32, T) {
    let a = audio();
    let mut v = T::default();
    unsafe {
        let p = *(a.cbs_table as *const usize).add(i);
        let f: extern "C" fn(*mut c_void, *mut T) -> i32 = std::mem::transmute(p);
        (f(a.adm, &mut v), v)
    }
}
fn device_name(input: bool, i: u16) -> (i32, Vec<u8>, Vec<u8>) {
    let a = audio();
    let (mut n, mut g) = (vec![0xaau8; 160], vec![0xaau8; 160]);
    let rc = unsafe {
        let p = *(a.cbs_table as *const usize).add(6 + input as usize);
        let f: extern "C" fn(*mut c_void, u16, *mut u8, *mut u8) -> i32 = std::mem::transmute(p);
        f(a.adm, i, n.as_mut_ptr(), g.as_mut_ptr())
    };
    check!(n[128..].iter().chain(&g[128..]).all(|b| *b == 0xaa), "D01:overrun", "a name was written beyond its buffer");
    (rc, n, g)
}
const DELAY: usize = 46;
/// WebRTC asks how long playing takes.
fn ask_delay(running: bool) {
    let a = audio();
    let t = now();
    let (rc, v) = out::<u16>(DELAY);
    let took = now() - t;
    if rc == 0 {
        probe("delay-answered");
        let m = a.latencies.iter().find(|(_, l)| *l == v);
        check!(m.is_some_and(|(at, _)| *at >= t), "D03:stale", "the playout delay is told as {v}, which was measured {} ms before it was asked for", m.map_or(0, |(at, _)| t.saturating_sub(*at) / 1_000_000));
    } else {
        probe("delay-unknown");
        check!(!running || took >= 49_000_000 || a.latency_failed >= t, "D03:refused", "the playout delay of a running stream is refused after {} us", took / 1000);
    }
    if cfg().stall == 0 {
        check!(took <= 80_000_000 + 40 * cfg().jitter_ns, "D03:slow", "asking for the playout delay took {} ms", took / 1_000_000);
    }
}
fn start_play(w: &W) {
    if f0::<bool>(16) {
        return;
    }
    if f0::<i32>(9) == 0 {
        audio().silent[0] = false;
        w.g().play = true;
        f0::<i32>(14);
    }
}
fn stop_play(w: &W) {
    f0::<i32>(15);
    w.g().play = false;
}
fn start_rec(w: &W) {
    if f0::<bool>(19) {
        return;
    }
    if f0::<i32>(12) == 0 {
        audio().silent[1] = false;
        w.g().rec = Rec::On;
        f0::<i32>(17);
    }
}
fn stop_rec(w: &W) {
    f0::<i32>(18);
    w.g().rec = Rec::Off;
}
fn webrtc_thread(w: W, mut r: Rng, n: u64, rec_lock: Arc<Mutex<()>>) {
    for _ in 0..n {
        sleep_ns(r.below(400_000_000));
        match r.below(12) {
            0..=3 => {
                if w.g().play {
                    stop_play(&w)
                } else {
                    start_play(&w)
                }
            }
            4..=6 => {
                let _g = rec_lock.lock().unwrap();
                if w.g().rec == Rec::On {
                    stop_rec(&w)
                } else {
                    start_rec(&w)
                }
            }
            7 if r.chance(1, 3) && !w.g().play => {
                if r.chance(1, 2) {
                    f0::<i32>(9);
                }
                stop_play(&w);
            }
            _ => ask_delay(false),
        }
    }
}
fn list(p: &mut PeerConnectionFactory, input: bool) -> Option<Vec<AudioDevice>> {
    if input { p.get_audio_recording_devices().ok() } else { p.get_audio_playout_devices().ok() }
}
/// The app picks a device by its identifier, if it can.
fn select(w: &W, p: &mut PeerConnectionFactory, input: bool, r: &mut Rng) -> bool {
    let d = input as usize;
    let count = w.g().notified[d].len();
    let Some(l) = list(p, input) else { return false };
    if l.is_empty() {
        return false;
    }
    let i = r.below(l.len() as u64) as usize;
    let id = l[i].unique_id.clone();
    // Who it is: only certain while it stays.
    let version = audio().version[d];
    let dev = device_by_id(input, &id);
    let by_index = r.chance(1, 4);
    let ok = match (by_index, input) {
        (true, true) => p.set_audio_recording_device(i).is_ok(),
        (true, false) => p.set_audio_playout_device(i).is_ok(),
        (false, true) => p.set_audio_recording_device_by_id(&id).is_ok(),
        (false, false) => p.set_audio_playout_device_by_id(&id).is_ok(),
    };
    if list(p, input).as_ref() == Some(&l) && w.g().notified[d].len() == count {
        check!(ok, "D01:refused", "device {i} of {l:?} is refused");
    }
    if ok {
        probe("selected");
        // By its place it is only known if no change of the list is on its way.
        let now_listed = listing(input).into_iter().collect::<Option<Vec<_>>>();
        let sure = version == audio().version[d] && now_listed.as_ref() == Some(&l) && (dev.is_some_and(|x| audio().devs.iter().any(|y| y.id == x && y.uid.is_some())) && !by_index || w.g().notified[d].last().unwrap_or(&w.g().initial[d]) == &listing(input));
        let dev = if by_index { device_at(input, i) } else { dev };
        w.g().sel[d] = dev.filter(|_| sure).map(|x| (x, version));
        return w.g().sel[d].is_some();
    }
    false
}
fn app_thread(w: W, mut p: PeerConnectionFactory, mut r: Rng, n: u64, rec_lock: Arc<Mutex<()>>) {
    for _ in 0..n {
        if w.g().pending.is_empty() {
            wait_key(TOLD, Some(now() + r.below(400_000_000)));
        }
        // What was told can be used at once.
        for (input, k, at) in std::mem::take(&mut w.g().pending) {
            let d = input as usize;
            let got: Option<Vec<AudioDevice>> = list(&mut p, input);
            let x = w.g();
            let fits = |l: &List| l.iter().cloned().collect::<Option<Vec<_>>>() == got;
            let later = x.notified[d][k..].iter().any(fits) || x.truth[d].iter().enumerate().any(|(i, (_, l))| fits(l) && x.truth[d].get(i + 1).is_none_or(|(until, _)| *until >= at));
            check!(later, "D01:stale-list", "told of {:?}, the app is given {got:?}", x.notified[d][k]);
        }
        match r.below(10) {
            0..=3 => {
                let input = r.chance(1, 2);
                select(&w, &mut p, input, &mut r);
            }
            4 => {
                let input = r.chance(1, 2);
                let before = list(&mut p, input);
                let some = before.as_ref().is_some_and(|l| !l.is_empty());
                let count = w.g().notified[input as usize].len();
                // One that is gone, or hidden, or a part of one that is there.
                let hidden = audio().devs.iter().filter(|d| d.input == input && (d.monitor || !d.enabled)).find_map(|d| d.uid.clone());
                let part = before.as_ref().and_then(|l| l.last()).map(|d| d.unique_id.chars().take(d.unique_id.chars().count() - 1).collect::<String>());
                let id = match r.below(4) {
                    0 => "nope".to_string(),
                    1 => part.unwrap_or_default(),
                    2 => hidden.unwrap_or_default(),
                    _ => w.g().strange.last().cloned().unwrap_or_default(),
                };
                let listed = |l: &Option<Vec<AudioDevice>>| l.iter().flatten().any(|d| d.unique_id == id);
                let ok = if input { p.set_audio_recording_device_by_id(&id).is_ok() } else { p.set_audio_playout_device_by_id(&id).is_ok() };
                let after = list(&mut p, input);
                let still = after.as_ref().is_some_and(|l| !l.is_empty()) && w.g().notified[input as usize].len() == count;
                check!(!(ok && some && still) || listed(&before) || listed(&after), "D01:unknown", "an unknown device is accepted: {id}");
                if ok {
                    w.g().sel[input as usize] = None;
                }
                probe("strange-device");
            }
            5 | 6 => {
                let _g = rec_lock.lock().unwrap();
                match w.g().rec {
                    Rec::Off => {
                        audio().gap_ok = true;
                        w.g().rec = Rec::Warm;
                        probe("warm-up");
                        let _ = p.set_audio_warmup(true);
                    }
                    Rec::Warm => {
                        let _ = p.set_audio_warmup(false);
                        w.g().rec = Rec::Off;
                    }
                    Rec::On => {}
                }
            }
            7 => {
                let _ = p.set_input_voice_processing_enabled(r.chance(1, 2));
            }
            _ => {}
        }
    }
}
fn new_dev(w: &W, r: &mut Rng, input: bool) -> Dev {
    let id = w.g().next_dev;
    w.g().next_dev += 1;
    let tok = format!("{:010x}", r.next() & 0xff_ffff_ffff);
    let other = audio().devs.iter().filter_map(|d| d.name.clone()).next();
    let name = match r.below(8) {
        0 => format!("耳机 of {tok}"),
        1 => format!("{}{tok}", "长".repeat(r.range(38, 44) as usize)),
        2 => format!("{}{tok}", "x".repeat(r.range(110, 140) as usize)),
        3 | 4 if other.is_some() => format!("{} {tok}", other.unwrap().split(' ').take(2).collect::<Vec<_>>().join(" ")),
        5 => format!("USB {tok} (Acme: 2)"),
        _ => format!("Headset of {tok}"),
    };
    let name: String = name.chars().take(180).collect();
    let monitor = input && r.chance(1, 6);
    let longer = audio().devs.iter().filter(|d| d.input == input && !monitor).find_map(|d| d.uid.clone()).filter(|_| r.chance(1, 5));
    let uid = if let Some(u) = longer { Some(format!("{u}.{tok}")) } else if r.chance(1, 8) && !monitor { None } else { Some(format!("alsa_{}.{tok}{}", if input { "input" } else { "output" }, if monitor { ".monitor" } else { "" })) };
    crate::driver::secret("a device's name", vec![tok.clone()]);
    Dev { id, uid, name: if r.chance(1, 25) { None } else { Some(name) }, group: format!("grp.{tok}"), input, monitor, default: false, enabled: !r.chance(1, 12) }
}
fn changed(w: &W, input: bool) {
    crate::cubeb::devices_changed(input);
    let l = listing(input);
    w.g().truth[input as usize].push((now(), l));
}
fn plug_thread(w: W, mut r: Rng, n: u64) {
    for _ in 0..n {
        sleep_ns(r.below(500_000_000));
        let a = audio();
        let input = r.chance(1, 2);
        let mine: Vec<usize> = (0..a.devs.len()).filter(|i| a.devs[*i].input == input).collect();
        let some = if mine.is_empty() { None } else { Some(*r.pick(&mine)) };
        match (fault("device-change", "cubeb", 1).map_or(9, |v| v % 9), some) {
            (0 | 1, _) => {
                let d = new_dev(&w, &mut r, input);
                let at = r.below(a.devs.len() as u64 + 1) as usize;
                a.devs.insert(at, d);
                probe("plugged");
            }
            (2 | 3, Some(i)) => {
                let d = a.devs.remove(i);
                w.g().strange.extend(d.uid);
                probe("unplugged");
            }
            (4 | 5, Some(i)) => {
                let was = a.devs[i].default;
                for k in &mine {
                    a.devs[*k].default = false;
                }
                a.devs[i].default = !was || r.chance(1, 2);
            }
            (6, Some(i)) => a.devs[i].enabled ^= true,
            _ => {}
        }
        changed(&w, input);
        if r.chance(1, 3) {
            sleep_ns(r.below(50_000_000));
        }
        crate::cubeb::notify(input);
    }
}
/// Until the module's worker has nothing more to do.
fn settle() {
    let a = audio();
    loop {
        sleep_ms(300);
        if a.in_call == 0 && now() >= a.last_call + 1_300_000_000 + cfg().stall_max_ns.min(if cfg().stall > 0 { u64::MAX } else { 0 }) {
            return;
        }
    }
}
fn flows(input: bool) -> (u64, u64, u64) {
    let a = audio();
    let sum = |a: &crate::cubeb::Audio| a.streams.iter().filter(|s| s.input == input).fold((0, 0), |x, s| (x.0 + if s.input { s.pos } else { s.played }, x.1 + s.delivered));
    let b = sum(a);
    let t = now();
    sleep_ms(300);
    let e = sum(a);
    (e.0 - b.0, e.1 - b.1, (now() - t) / 1_000_000)
}
fn judge(w: &W, p: &mut PeerConnectionFactory, must: bool) {
    let a = audio();
    for input in [false, true] {
        let d = input as usize;
        let x = w.g();
        let l = listing(input);
        if !a.enum_failed[d] {
            let got = list(p, input);
            let want = l.iter().cloned().collect::<Option<Vec<_>>>();
            check!(got == want, "D01:list", "the app is given {got:?} instead of {want:?}");
            if let Some(t) = x.notified[d].last() {
                check!(*t == l, "D01:told", "the app was last told of {t:?}, there are {l:?}");
            } else {
                check!(x.initial[d] == l, "D01:told", "the app was not told of {l:?}, it knows {:?}", x.initial[d]);
            }
            let n: i16 = f0(4 + d);
            check!(n as usize == l.len(), "D01:count", "WebRTC is told of {n} devices instead of {}", l.len());
            for (i, e) in l.iter().enumerate() {
                let (rc, name, id) = device_name(input, i as u16);
                let Some(e) = e else {
                    check!(rc == -1, "D01:name", "device {i}, which is none, has a name");
                    continue;
                };
                let cut = |s: &str| {
                    let mut k = s.len().min(127);
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    let mut v = s.as_bytes()[..k].to_vec();
                    v.push(0);
                    v
                };
                if e.name.len() > 127 {
                    probe("long-name");
                }
                let (wn, wi) = (cut(&e.name), cut(&e.unique_id));
                check!(rc == 0 && name[..wn.len()] == wn[..] && id[..wi.len()] == wi[..], "D01:name", "device {i} of {l:?} is told to WebRTC as {rc} {:?} {:?}", String::from_utf8_lossy(&name[..40]), String::from_utf8_lossy(&id[..40]));
            }
            check!(device_name(input, l.len() as u16).0 == -1, "D01:name", "a device beyond the list has a name");
        }
        let open: Vec<&Box<crate::cubeb::Strm>> = a.streams.iter().filter(|s| s.input == input && !s.destroyed).collect();
        check!(open.len() <= 1, "D02:streams", "{} streams are open", open.len());
        let on = if input { x.rec != Rec::Off } else { x.play };
        let started = open.iter().any(|s| s.started && !s.failed);
        check!(on || !open.iter().any(|s| s.started), "D02:still-on", "a stream runs (input {input}) which nobody wants");
        if on && must {
            check!(started, "D02:silent", "no stream runs (input {input}), {:?} play {}", x.rec, x.play);
            probe("running");
            if let (Some((dev, v)), Some(s)) = (x.sel[d], open.iter().find(|s| s.started)) {
                if v == a.version[d] {
                    probe("on-selected-device");
                    check!(s.dev == dev, "D01:device", "device {dev} was selected, device {} is used (input {input})", s.dev);
                }
            }
        }
        // Commands are done: from here on nothing may flow that is not wanted.
        a.silent[d] = if input { x.rec != Rec::On } else { !x.play };
    }
    let play = w.g().play;
    let (n, _, ms) = flows(false);
    if must && play && cfg().stall == 0 {
        check!(n * 10 >= 48 * ms, "D02:trickle", "{n} samples were played in {ms} ms");
    }
    if must {
        ask_delay(play);
    }
    let (n, sent, ms) = flows(true);
    if must && w.g().rec == Rec::On && cfg().stall == 0 {
        check!(n * 10 >= 48 * ms, "D02:trickle", "{n} samples were recorded in {ms} ms");
        check!(sent + 480 + 1500 >= n, "D02:withheld", "{n} samples were recorded, {sent} reached WebRTC");
    }
}
/// Whatever failed before: starting again finds a device, if there is one, without the app choosing.
fn fall_back(w: &W) {
    if w.g().play {
        stop_play(w);
    }
    if w.g().rec == Rec::On {
        stop_rec(w);
    }
    settle();
    // Warming up goes on with the stream it has, if that did not break.
    let broken = |input: bool| audio().streams.iter().any(|s| s.input == input && !s.destroyed && s.failed);
    let can: Vec<bool> = [false, true].into_iter().map(|i| !audio().enum_failed[i as usize] && listing(i).first().is_some_and(|d| d.is_some()) && !broken(i)).collect();
    start_play(w);
    start_rec(w);
    settle();
    let on = |input: bool| audio().streams.iter().any(|s| s.input == input && !s.destroyed && s.started && !s.failed);
    check!(!can[0] || !w.g().play || on(false), "D02:fallback", "nothing is played though there are devices");
    check!(!can[1] || w.g().rec != Rec::On || on(true), "D02:fallback", "nothing is recorded though there are devices");
    if can[0] && can[1] {
        probe("fell-back");
    }
}
fn run(seed: u64) {
    crate::webrtc::init(Default::default());
    crate::driver::watch_log();
    crate::driver::log_level(if seed % 4 == 0 { log::LevelFilter::Off } else { log::LevelFilter::Info });
    let mut r = Rng::derive(seed, "audio");
    let calm = r.chance(1, 3);
    let bad = |r: &mut Rng, v: &[u64]| if calm { 0 } else { *r.pick(v) };
    let rates = Rates {
        init: bad(&mut r, &[0, 0, 0, 30]),
        enumerate: bad(&mut r, &[0, 0, 6]),
        stream_init: bad(&mut r, &[0, 0, 10, 3]),
        start: bad(&mut r, &[0, 0, 10, 3]),
        stop: bad(&mut r, &[0, 0, 10, 3]),
        latency: bad(&mut r, &[0, 8]),
        slow: *r.pick(&[0u64, 0, 20, 5]),
        webrtc: bad(&mut r, &[0, 0, 0, 300]),
        short: bad(&mut r, &[0, 0, 0, 300]),
    };
    let hot = if calm { 0 } else { *r.pick(&[0u64, 3, 10]) };
    let w: W = Shr::new(World { seed, notified: Default::default(), truth: Default::default(), pending: vec![], initial: Default::default(), sel: [None; 2], play: false, rec: Rec::Off, next_dev: 0, strange: vec![] });
    crate::cubeb::start(rates, Rng::derive(seed, "cubeb"), vec![]);
    for input in [false, true] {
        let n = if calm { r.range(1, 4) } else { r.below(4) };
        let first = audio().devs.len();
        for _ in 0..n {
            let d = new_dev(&w, &mut r, input);
            audio().devs.push(d);
        }
        if n > 0 && (calm || r.chance(5, 6)) {
            let k = first + r.below(n) as usize;
            let d = &mut audio().devs[k];
            d.default = true;
            if calm {
                (d.enabled, d.name) = (true, d.name.take().or(Some("Mic".into())));
            }
        }
        changed(&w, input);
    }
    set_node(1);
    let pcf = PeerConnectionFactory::new(&AudioConfig::default(), false, "", Some(Box::new(Obs(w.clone())))).expect("factory");
    set_node(0);
    if audio().adm.is_null() {
        probe("no-audio");
        let mut p = pcf.clone();
        check!(list(&mut p, true).is_none() && p.set_audio_playout_device(0).is_err() && p.set_audio_warmup(true).is_err(), "D02:order", "a module that could not start works");
        check!(!audio().live || audio().rates.init > 0, "D02:leak", "the audio context stays open");
        drop((p, pcf));
        return;
    }
    audio().rates.init = 0;
    settle();
    // Until devices can be listed, none are known.
    w.g().initial = [false, true].map(|i| if audio().enum_failed[i as usize] { vec![] } else { listing(i) });
    let rec_lock = Arc::new(Mutex::new(()));
    for e in 0..r.range(1, 5) {
        if !op_kept(e) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 0x6175_6469, e));
        set_node(1);
        let mut ts = vec![];
        let n = r.range(1, 14);
        let (w1, w2, w3, r1, r2, r3) = (w.clone(), w.clone(), w.clone(), Rng::new(r.next()), Rng::new(r.next()), Rng::new(r.next()));
        let (l1, l2) = (rec_lock.clone(), rec_lock.clone());
        let p = pcf.clone();
        ts.push(std::thread::Builder::new().name("webrtc".into()).spawn(move || webrtc_thread(w1, r1, n, l1)).unwrap());
        let n = r.range(1, 14);
        ts.push(std::thread::Builder::new().name("app".into()).spawn(move || app_thread(w2, p, r2, n, l2)).unwrap());
        if hot > 0 {
            let n = r.range(1, hot);
            ts.push(std::thread::Builder::new().name("plug".into()).spawn(move || plug_thread(w3, r3, n)).unwrap());
        }
        set_node(0);
        for t in ts {
            t.join().unwrap();
        }
        settle();
        judge(&w, &mut pcf.clone(), calm);
    }
    // Everything works again: what is wanted must, too, once the app chose a device.
    faults_off();
    schedule_calm();
    let mut p = pcf.clone();
    for input in [false, true] {
        let mut d = new_dev(&w, &mut r, input);
        let had = audio().devs.iter().any(|d| d.input == input && d.default && d.enabled && d.name.is_some());
        (d.enabled, d.name, d.default) = (true, d.name.take().or(Some("Speaker".into())), !had);
        if !had {
            audio().devs.iter_mut().filter(|d| d.input == input).for_each(|d| d.default = false);
        }
        if d.monitor {
            (d.monitor, d.uid) = (false, Some("alsa_input.last".into()));
        }
        audio().devs.push(d);
        changed(&w, input);
        crate::cubeb::notify(input);
    }
    settle();
    fall_back(&w);
    for input in [false, true] {
        let ok = select(&w, &mut p, input, &mut r);
        check!(ok, "D01:refused", "no device can be selected");
    }
    settle();
    judge(&w, &mut p, true);
    // And when WebRTC stops and starts.
    if w.g().play {
        stop_play(&w);
    }
    if w.g().rec == Rec::On {
        stop_rec(&w);
    }
    settle();
    judge(&w, &mut p, true);
    let warm = r.chance(1, 3);
    if warm {
        audio().gap_ok = true;
        w.g().rec = Rec::Warm;
        let _ = p.set_audio_warmup(true);
        settle();
        judge(&w, &mut p, true);
    }
    let made = audio().streams.len();
    if r.chance(3, 4) {
        start_play(&w);
    }
    start_rec(&w);
    settle();
    judge(&w, &mut p, true);
    check!(!warm || audio().streams[made..].iter().all(|s| !s.input), "D02:cold", "the microphone which was warmed up is opened again");
    let t = now();
    drop((p, pcf));
    audio().dropped = true;
    check!(now() - t < 10_000_000_000, "D02:drop", "dropping the module took {} ms", (now() - t) / 1_000_000);
    check!(!audio().live, "D02:leak", "the audio context is still open");
    check!(audio().streams.iter().all(|s| s.destroyed), "D02:leak", "a stream is still open");
    crate::cubeb::notify(true);
    sleep_ms(500);
    let left = live_threads(1);
    check!(left.is_empty(), "D02:leak", "threads are left: {left:?}");
}

pub fn props() -> Vec<Prop> {
    const S: Scenario = Scenario { name: "audio", quick: 1600, thorough: 60000, cfg: SchedCfg::swarm, run };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[S],
        rule: "one execution = one seed's devices, commands of WebRTC and the app, device changes, faults and thread schedule",
        must_probe,
        real: &["webrtc::audio_device_module", "webrtc::audio_device_module_utils", "webrtc::ffi::audio_device_module", "webrtc::peer_connection_factory", "cubeb and cubeb-core (Rust wrappers)"],
        stubs: &["libcubeb (sound cards, streams and their threads)", "WebRTC's audio transport and engine", "kernel scheduler, futexes, clock"],
        assumptions: &["the back end announces every change of its devices", "stopping or destroying a stream waits for its callback, as cubeb does", "the app warms the microphone up only while WebRTC does not record", "Linux rules for default and monitor devices"],
    };
    vec![
        mk("D01", &["selected", "devices-changed", "on-selected-device", "long-name", "plugged", "unplugged"]),
        mk("D02", &["played", "recorded", "warm-up", "warm-up-left-out", "stream-failed", "stream-init-failed", "running", "stop-during-callback"]),
        mk("D03", &["delay-answered", "delay-unknown"]),
        mk("P02", &["log-line"]),
    ]
}
