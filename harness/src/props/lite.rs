//! Smaller shared-state parts: the app-driven HTTP client, the asset registry, the locks that
//! guard call state, the event stream.
use crate::driver::{Prop, Scenario};
use ringrtc::common::SemanticVersion;
use ringrtc::core::assets::{AssetHandle, AssetManager, AssetManifestEntry};
use ringrtc::lite::http::{Client, Delegate, DelegatingClient, Method, Request, Response};
use ringrtc::protobuf::assets::AssetMetadata;
use sha2::{Digest, Sha512};
use simrt::*;
use std::collections::BTreeMap;

// ---- HTTP --------------------------------------------------------------------------------------

struct Http {
    /// request number -> (calls of its callback)
    calls: Vec<u32>,
    /// id given to the app -> request number
    by_id: BTreeMap<u32, usize>,
    /// responses on their way: (due, order, id, response)
    net: Vec<(u64, u64, u32, Option<(u16, Vec<u8>)>)>,
    ord: u64,
    delivered: BTreeMap<usize, Option<(u16, Vec<u8>)>>,
    done: u32,
    lost: Vec<usize>,
    loss: u64,
    dup: u64,
    delay: u64,
    sync: u64,
    client: Option<DelegatingClient>,
}
type H = Shr<Http>;
fn code(n: usize) -> u16 {
    match n % 8 {
        0 => 0,
        1 => 404,
        2 => 413,
        3 => u16::MAX,
        4 => 602,
        _ => 200 + (n % 300) as u16,
    }
}
struct Del(H);
impl Delegate for Del {
    fn send_request(&self, id: u32, r: Request) {
        let h = self.0.g();
        let n: usize = r.url.rsplit('/').next().unwrap().parse().unwrap();
        check!(r.url == format!("https://sfu/{n}"), "H01:request", "url was changed to {}", r.url);
        check!(r.body.as_deref() == Some(format!("body{n}").as_bytes()), "H01:request", "body of request {n} was changed");
        check!(r.headers.get("n").map(|s| s.as_str()) == Some(format!("{n}").as_str()), "H01:request", "headers of request {n} were changed");
        check!(r.method == [Method::Get, Method::Put, Method::Post, Method::Delete][n % 4], "H01:request", "method of request {n} was changed");
        let clash = h.by_id.insert(id, n);
        check!(clash.is_none(), "H01:id-reuse", "request id {id} given to both {clash:?} and {n}");
        if fault("app-slow", "http", h.delay).is_some() {
            std::thread::sleep(std::time::Duration::from_millis(3));
        }
        let h = self.0.g();
        if fault("response-lost", "http", h.loss).is_some() {
            h.lost.push(n);
            return;
        }
        let resp = if fault("request-failed", "http", 6).is_some() { None } else { Some((code(n), format!("response {n}").into_bytes())) };
        h.ord += 1;
        h.net.push((now() + fault("response-delay", "http", h.delay).map_or(0, |v| v % 200_000_000), h.ord, id, resp.clone()));
        if let Some(v) = fault("response-duplicate", "http", h.dup) {
            h.ord += 1;
            h.net.push((now() + v % 300_000_000, h.ord, id, resp));
        }
        if let Some(v) = fault("response-unknown-id", "http", h.dup) {
            h.ord += 1;
            let id = *Rng::new(v).pick(&[id.wrapping_add(1000), u32::MAX, id.wrapping_sub(1) ^ 0x8000_0000]);
            h.net.push((now(), h.ord, id, Some((200, b"bogus".to_vec()))));
        }
        notify_key(5);
        let due = h.sync > 0 && draw_below("sync", h.sync) == 0;
        if due {
            // The app answers before send_request returns.
            if let Some(k) = h.net.iter().position(|x| x.2 == id) {
                let (_, _, id, resp) = h.net.remove(k);
                respond(&self.0, id, resp);
            }
        }
    }
}
fn respond(h: &H, id: u32, resp: Option<(u16, Vec<u8>)>) {
    let c = h.g().client.clone().unwrap();
    if let Some(n) = h.g().by_id.get(&id).copied() {
        h.g().delivered.entry(n).or_insert_with(|| resp.clone());
    }
    c.received_response(id, resp.map(|(code, body)| Response { status: code.into(), body }));
}
fn request(h: &H, follow: bool) {
    let x = h.g();
    let n = x.calls.len();
    x.calls.push(0);
    let c = x.client.clone().unwrap();
    let h2 = h.clone();
    c.send_request(
        Request {
            method: [Method::Get, Method::Put, Method::Post, Method::Delete][n % 4],
            url: format!("https://sfu/{n}"),
            headers: [("n".to_string(), n.to_string())].into_iter().collect(),
            body: Some(format!("body{n}").into_bytes()),
        },
        Box::new(move |r| {
            let x = h2.g();
            x.calls[n] += 1;
            check!(x.calls[n] == 1, "H01:twice", "request {n} was answered {} times", x.calls[n]);
            probe("answered");
            check!(x.delivered.get(&n).is_some_and(|d| d.is_some() == r.is_some()), "H01:mixed-up", "request {n} got {:?}, the app said {:?}", r.as_ref().map(|r| r.status.code), x.delivered.get(&n));
            match r {
                Some(r) => {
                    check!(r.body == format!("response {n}").into_bytes() && r.status.code == code(n), "H01:mixed-up", "request {n} got {:?}", String::from_utf8_lossy(&r.body));
                }
                None => probe("failed-request"),
            }
            if follow {
                probe("follow-up");
                request(&h2, false);
            }
        }),
    );
}
fn run_http(seed: u64) {
    let mut r = Rng::derive(seed, "http");
    let h: H = Shr::new(Http {
        calls: vec![],
        by_id: BTreeMap::new(),
        net: vec![],
        ord: 0,
        delivered: BTreeMap::new(),
        done: 0,
        lost: vec![],
        loss: *r.pick(&[0u64, 0, 10]),
        dup: *r.pick(&[0u64, 10, 3]),
        delay: *r.pick(&[0u64, 2, 4]),
        sync: *r.pick(&[0u64, 0, 3]),
        client: None,
    });
    h.g().client = Some(DelegatingClient::new(Del(h.clone())));
    let follow = h.g().sync == 0 && r.chance(1, 2);
    let requesters = r.range(1, 4) as u32;
    let responders = r.range(1, 3) as u32;
    let each = if r.chance(1, 15) { 120 } else { 12 };
    for q in 0..requesters {
        let h = h.clone();
        std::thread::spawn(move || {
            harness_thread("requester", 0);
            for i in 0..each {
                let id = q as u64 * 200 + i;
                if !op_kept(id) {
                    continue;
                }
                let mut r = Rng::new(h3(seed, 9, id));
                if r.chance(1, 2) {
                    sleep_ns(r.below(10_000_000));
                }
                request(&h, follow && r.chance(1, 3));
            }
            h.g().done += 1;
            notify_key(5);
        });
    }
    for _ in 0..responders {
        let h = h.clone();
        std::thread::spawn(move || {
            harness_thread("responder", 0);
            loop {
                let t = now();
                let x = h.g();
                if let Some(k) = x.net.iter().enumerate().filter(|(_, m)| m.0 <= t).min_by_key(|(_, m)| (m.0, m.1)).map(|(k, _)| k) {
                    let (_, _, id, resp) = x.net.remove(k);
                    respond(&h, id, resp);
                    continue;
                }
                if x.done == 1000 {
                    break;
                }
                let next = x.net.iter().map(|m| m.0).min();
                wait_key(5, next);
            }
            notify_key(6);
        });
    }
    while h.g().done < requesters {
        wait_key(5, None);
    }
    sleep_ms(2000);
    let x = h.g();
    for (n, c) in x.calls.iter().enumerate() {
        let want = if x.lost.contains(&n) { 0 } else { 1 };
        check!(*c == want, "H01:lost", "request {n} was answered {c} times, expected {want}");
    }
    x.done = 1000;
    x.client = None;
    notify_key(5);
    sleep_ms(10);
}

// ---- assets ------------------------------------------------------------------------------------

struct Assets {
    /// (group, version) -> content, as accepted
    have: BTreeMap<(String, String), Vec<u8>>,
    stop: bool,
    seen: u64,
}
fn ver(s: &str) -> Option<SemanticVersion> {
    let p: Vec<&str> = s.split('.').collect();
    Some(SemanticVersion::new(p.first()?.parse().ok()?, p.get(1)?.parse().ok()?, p.get(2)?.parse().ok()?))
}
fn run_assets(seed: u64) {
    let mut r = Rng::derive(seed, "assets");
    let groups = ["dred", "dred-2", "other"];
    let versions = ["0.0.1", "0.0.2", "1.0.0", "0.10.0", "bad", "1.2", "2.0.x"];
    // contents, some of which are prefixes of others
    let mut contents: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        let n = *r.pick(&[0u64, 1, 40, 300, 5000]) as usize;
        contents.push(r.bytes(n));
        let mut longer = contents.last().unwrap().clone();
        longer.extend(r.bytes(17));
        contents.push(longer);
    }
    let mut manifest = vec![];
    for _ in 0..r.range(0, 7) {
        let c = r.pick(&contents).clone();
        let mut sha = Sha512::digest(&c).to_vec();
        if r.chance(1, 10) {
            sha = r.bytes(64);
        }
        if r.chance(1, 12) {
            sha.truncate(*r.pick(&[0, 1, 32, 63]));
        }
        if r.chance(1, 20) {
            sha.push(0);
        }
        let size = match r.below(12) {
            0 => u32::MAX,
            1 => c.len() as u32 + 1,
            _ => c.len() as u32,
        };
        manifest.push((r.pick(&groups).to_string(), r.pick(&versions).to_string(), size, sha, r.chance(1, 5)));
    }
    let mut m = AssetManager::new(manifest.iter().map(|(g, v, s, h, d)| AssetManifestEntry { metadata: AssetMetadata { asset_group: g.clone(), version: v.clone(), size_bytes: *s, sha512_hash: h.clone() }, disabled: *d }).collect());
    let w = Shr::new(Assets { have: BTreeMap::new(), stop: false, seen: 0 });
    let readers = r.below(3);
    let mut joins = vec![];
    for q in 0..readers {
        let (w, reg, manifest) = (w.clone(), m.get_registry(), manifest.clone());
        joins.push(std::thread::spawn(move || {
            harness_thread("reader", 0);
            let mut r = Rng::new(h3(seed, 3, q));
            let mut known: BTreeMap<(String, String), Vec<u8>> = BTreeMap::new();
            while !w.g().stop {
                sleep_ns(r.below(3_000_000));
                let g = r.pick(&groups).to_string();
                let v = r.pick(&versions[..4]).to_string();
                let got = reg.get_asset(&g, ver(&v).unwrap());
                match got {
                    Some(a) => {
                        let ok = manifest.iter().any(|(mg, mv, ms, mh, d)| *mg == g && *mv == v && !d && *ms as usize == a.content.len() && Sha512::digest(&a.content[..])[..] == mh[..]);
                        check!(ok, "S01:unverified", "{g} {v} holds {} bytes that no enabled manifest entry vouches for", a.content.len());
                        if let Some(k) = known.get(&(g.clone(), v.clone())) {
                            check!(*k == *a.content, "S01:changed", "{g} {v} changed its content");
                        }
                        known.insert((g.clone(), v.clone()), a.content.to_vec());
                        w.g().seen += 1;
                        probe("asset-read");
                    }
                    None => check!(!known.contains_key(&(g.clone(), v.clone())), "S01:vanished", "{g} {v} disappeared"),
                }
                let opts = reg.get_options_for(&g).unwrap_or_default();
                for (kg, kv) in known.keys() {
                    if *kg == g {
                        check!(opts.contains(&ver(kv).unwrap()), "S01:options", "{g} has {kv} but does not list it");
                    }
                }
                for (i, o) in opts.iter().enumerate() {
                    check!(!opts[..i].contains(o), "S01:options", "{g} lists {o} twice");
                }
            }
        }));
    }
    for i in 0..r.range(1, 20) {
        if !op_kept(i) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 4, i));
        sleep_ns(r.below(4_000_000));
        let g = if r.chance(1, 10) { r.pick(&["nobody", "dred-22", "dre", "", "DRED"]).to_string() } else { r.pick(&groups).to_string() };
        let mut content = r.pick(&contents).clone();
        if r.chance(1, 5) {
            // padded, truncated or damaged on the way
            match r.below(3) {
                0 => content.extend(r.bytes(5)),
                1 => content.truncate(content.len() / 2),
                _ => {
                    if let Some(b) = content.last_mut() {
                        *b ^= 1
                    }
                }
            }
        }
        let mut io_error = false;
        let mut replaced = false;
        let handle = if r.chance(1, 2) {
            let path = format!("/simdisk/{i}");
            disk::put(&path, content.clone());
            if fault("disk-missing-file", "assets", 12).is_some() {
                disk::remove(&path);
                io_error = true;
            } else if fault("disk-read-error", "assets", 8).is_some() {
                disk::fail_after(&path, r.below(content.len() as u64 + 1));
                io_error = true;
            } else {
                if fault("disk-short-reads", "assets", 2).is_some() {
                    disk::short(&path, r.range(1, 64));
                }
                if fault("disk-interrupted-read", "assets", 4).is_some() {
                    disk::eintr(&path);
                }
                if fault("disk-truncated-file", "assets", 8).is_some() {
                    content.truncate(content.len() / 2);
                    disk::put(&path, content.clone());
                }
                if let Some(v) = fault("disk-file-replaced", "assets", 6) {
                    let mut other = if v % 2 == 0 { content.clone() } else { r.pick(&contents).clone() };
                    if let Some(b) = other.last_mut() {
                        *b ^= (v % 4 < 2) as u8;
                    }
                    disk::swap(&path, v / 16 % 8, other);
                    replaced = true;
                }
            }
            AssetHandle::FilePath(path)
        } else {
            AssetHandle::Content(content.clone())
        };
        let mine: Vec<_> = manifest.iter().filter(|e| e.0 == g).collect();
        let matching: Vec<_> = mine.iter().filter(|e| e.2 as usize <= content.len() && Sha512::digest(&content[..e.2 as usize])[..] == e.3[..]).collect();
        let listed = groups.map(|g| m.get_options_for(g));
        let res = m.add_asset_for_feature(&g, handle);
        check!(res.is_ok() || listed == groups.map(|g| m.get_options_for(g)), "S01:changed", "a refused asset of {g} changed what is listed: {listed:?}");
        ev!("add {g} {} bytes: {:?}", content.len(), res.is_ok());
        let accepted = res.is_ok();
        if mine.is_empty() || !replaced && (matching.is_empty() || io_error || matching.iter().all(|e| e.4)) {
            check!(!accepted, "S01:accepted", "{g} accepted {} bytes that the manifest does not allow (read error {io_error})", content.len());
        }
        if matching.len() == 1 && !io_error && !replaced && !matching[0].4 {
            let e = matching[0];
            let dup = w.g().have.contains_key(&(g.clone(), e.1.clone()));
            check!(accepted == (ver(&e.1).is_some() && !dup), "S01:refused", "{g} {} ({} bytes): {:?}", e.1, content.len(), res);
            if dup {
                probe("duplicate-version");
            }
        }
        if accepted {
            probe("asset-added");
            // exactly one new version, whose content is the vouched prefix
            let mut fresh = vec![];
            for o in m.get_options_for(&g).unwrap_or_default() {
                let a = m.get_registry().get_asset(&g, o).expect("listed");
                let name = versions.iter().find(|v| ver(v) == Some(o)).unwrap().to_string();
                match w.g().have.get(&(g.clone(), name.clone())) {
                    Some(c) => check!(*c == *a.content, "S01:changed", "{g} {name} changed its content"),
                    None => fresh.push((name, a.content.to_vec())),
                }
            }
            check!(fresh.len() == 1, "S01:added", "{g}: {} versions appeared", fresh.len());
            for (name, c) in fresh {
                // Which of the contents of a file that is being replaced was read is open, but not that it is vouched for.
                let ok = matching.iter().any(|e| !e.4 && e.1 == name && c == content[..e.2 as usize])
                    || replaced && mine.iter().any(|e| !e.4 && e.1 == name && c.len() == e.2 as usize && Sha512::digest(&c)[..] == e.3[..]);
                if replaced {
                    probe("replaced-accepted");
                }
                check!(ok, "S01:unverified", "{g} {name}: registered content is not what its manifest entry vouches for");
                w.g().have.insert((g.clone(), name), c);
            }
        } else if !mine.is_empty() {
            probe("asset-refused");
        }
        for ((g, v), c) in &w.g().have {
            let a = m.get_registry().get_asset(g, ver(v).unwrap());
            check!(a.is_some_and(|a| *a.content == *c), "S01:vanished", "{g} {v} is gone or changed");
        }
    }
    sleep_ms(5);
    w.g().stop = true;
    for j in joins {
        let _ = j.join();
    }
}

// ---- locks -------------------------------------------------------------------------------------

struct Locks {
    inside: i64,
    writers: i64,
    poisoned: bool,
    resets: u64,
    value: u64,
    /// The value inside was left half-written by a panicking holder and not yet reset.
    broken: bool,
    done: u32,
}
fn run_locks(seed: u64) {
    use glue::locks::{Mx, Rw};
    let mut r = Rng::derive(seed, "locks");
    let n = r.range(2, 4) as u32;
    let panicky = *r.pick(&[0u64, 0, 12]);
    expect_panic("holder panics on purpose");
    let m = std::sync::Arc::new(Mx::new());
    let rw = std::sync::Arc::new(Rw::new());
    let wm = Shr::new(Locks { inside: 0, writers: 0, poisoned: false, resets: 0, value: 0, broken: false, done: 0 });
    let wr = Shr::new(Locks { inside: 0, writers: 0, poisoned: false, resets: 0, value: 0, broken: false, done: 0 });
    for q in 0..n {
        let (m, rw, wm, wr) = (m.clone(), rw.clone(), wm.clone(), wr.clone());
        std::thread::spawn(move || {
            harness_thread("locker", 0);
            for i in 0..30u64 {
                let op = q as u64 * 100 + i;
                if !op_kept(op) {
                    continue;
                }
                let mut r = Rng::new(h3(seed, 5, op));
                let die = fault("holder-panic", "locks", panicky).is_some();
                let body = |w: &Shr<Locks>, v: &mut u64, write: bool| {
                    let x = w.g();
                    x.inside += 1;
                    x.writers += write as i64;
                    check!(x.writers == 0 || x.inside == 1, "L01:exclusion", "{} holders, {} of them writing", x.inside, x.writers);
                    check!(x.broken || *v == x.value, "L01:torn", "value is {v}, expected {}", x.value);
                    check!(!x.broken, "L01:half-written", "a holder got state that a panicking holder left half-written");
                    if r.chance(1, 2) {
                        std::thread::yield_now();
                    }
                    let x = w.g();
                    check!(x.writers == 0 || x.inside == 1, "L01:exclusion", "{} holders, {} of them writing", x.inside, x.writers);
                    if write {
                        *v += 1;
                        if die {
                            x.poisoned = true;
                            x.broken = true;
                            x.inside -= 1;
                            x.writers -= 1;
                            panic!("holder panics on purpose");
                        }
                        x.value += 1;
                    }
                    x.inside -= 1;
                    x.writers -= write as i64;
                };
                let mut body = body;
                let kind = draw_below("lock-kind", 6);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
                    0 | 1 => {
                        let ok = m.lock(&mut |v| body(&wm, v, true));
                        if !ok {
                            probe("poison-error");
                            check!(wm.g().poisoned, "L01:spurious-poison", "lock failed though no holder panicked");
                        }
                    }
                    2 => {
                        let wm2 = wm.clone();
                        m.lock_or_reset(
                            &mut |_| {
                                let x = wm2.g();
                                check!(x.poisoned, "L01:spurious-reset", "state was reset though no holder panicked");
                                probe("reset");
                                x.resets += 1;
                                x.broken = false;
                                x.value = 7000 + x.resets;
                                x.value
                            },
                            &mut |v| body(&wm, v, true),
                        );
                    }
                    3 | 4 => {
                        let ok = rw.read(&mut |v| {
                            let mut c = v;
                            body(&wr, &mut c, false)
                        });
                        check!(ok || wr.g().poisoned, "L01:spurious-poison", "read failed though no writer panicked");
                    }
                    _ => {
                        let ok = rw.write(&mut |v| body(&wr, v, true));
                        check!(ok || wr.g().poisoned, "L01:spurious-poison", "write failed though no writer panicked");
                    }
                }));
                if r.chance(1, 3) {
                    sleep_ns(r.below(1_000_000));
                }
            }
            wm.g().done += 1;
            notify_key(9);
        });
    }
    while wm.g().done < n {
        wait_key(9, None);
    }
    probe("locks-done");
}

pub fn props() -> Vec<Prop> {
    const HTTP: Scenario = Scenario { name: "http", quick: 12000, thorough: 400000, cfg: SchedCfg::swarm, run: run_http };
    const ASSETS: Scenario = Scenario { name: "assets", quick: 12000, thorough: 400000, cfg: SchedCfg::swarm, run: run_assets };
    const LOCKS: Scenario = Scenario { name: "locks", quick: 12000, thorough: 400000, cfg: SchedCfg::swarm, run: run_locks };
    vec![
        Prop {
            id: "H01",
            scenarios: &[HTTP],
            rule: "one execution = one seed's requests, responses, threads and schedule; distinct by hash of event log and schedule",
            must_probe: &["answered", "failed-request", "follow-up"],
            real: &["lite::http::DelegatingClient"],
            stubs: &["the app's HTTP delegate and the network behind it", "threads, clock"],
            assumptions: &["the app's delegate does not make a new request from inside send_request"],
        },
        Prop {
            id: "S01",
            scenarios: &[ASSETS],
            rule: "one execution = one seed's manifest, asset contents, disk faults, reader threads and schedule",
            must_probe: &["asset-added", "asset-refused", "asset-read", "duplicate-version"],
            real: &["core::assets::{AssetManager, AssetRegistry}", "core::call_rwlock::CallRwLock", "std::fs::read"],
            stubs: &["disk (in memory, with read faults)", "threads, clock"],
            assumptions: &["SHA-512 is collision free"],
        },
        Prop {
            id: "L01",
            scenarios: &[LOCKS],
            rule: "one execution = one seed's lock users, panics and schedule",
            must_probe: &["locks-done", "poison-error", "reset"],
            real: &["core::call_mutex::CallMutex", "core::call_rwlock::CallRwLock", "std::sync::{Mutex, RwLock}"],
            stubs: &["futex, threads, clock"],
            assumptions: &[],
        },
    ]
}
