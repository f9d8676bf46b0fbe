//! Call links: the room's key as it travels between devices, and the requests that create, read,
//! change and delete a room at the server, made by several threads of several devices.
use crate::driver::{log_level, secret_bytes, secret_text, watch_log, Prop, Scenario};
use aes_gcm_siv::{aead::Aead, Aes256GcmSiv, KeyInit};
use base64::{engine::general_purpose::STANDARD as B64, Engine};
use rand::SeedableRng;
use ringrtc::lite::call_links::{create_call_link, delete_call_link, read_call_link, update_call_link, CallLinkDeleteRequest, CallLinkMemberResolver, CallLinkRestrictions, CallLinkRootKey, CallLinkState, CallLinkUpdateRequest};
use ringrtc::lite::http::{Delegate, DelegatingClient, Method, Request, Response};
use ringrtc::lite::sfu::MemberResolver;
use serde_json::{json, Value};
use simrt::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

// ---- what other versions of the clients and the server do, written down independently -----------

fn hkdf32(secret: &[u8], info: &[u8]) -> [u8; 32] {
    let mut out = [0; 32];
    hkdf::Hkdf::<sha2::Sha256>::new(None, secret).expand(info, &mut out).unwrap();
    out
}
fn room_id(crn: &[u8]) -> String {
    hex::encode(hkdf32(crn, b"20230501-Signal-CallLinkRootKey-RoomId"))
}
/// `key` as it is written down: its bytes.
fn cipher(key: &[u8]) -> Aes256GcmSiv {
    let info: &[u8] = if key.len() == 16 { b"20230501-Signal-CallLinkRootKey-AES" } else { b"20251219-Signal-CallLinkRootKey-AES" };
    Aes256GcmSiv::new(&hkdf32(&key[..16], info).into())
}
fn seal(key: &[u8], name: &[u8], nonce: [u8; 12], pad: bool) -> Vec<u8> {
    let mut p = name.to_vec();
    if pad {
        p.push(0x80);
        while (p.len() + 12) % 32 != 0 {
            p.push(0);
        }
    }
    [&nonce[..], &cipher(key).encrypt(&nonce.into(), &p[..]).unwrap()].concat()
}
fn open(key: &[u8], sealed: &[u8]) -> Option<Vec<u8>> {
    let nonce: [u8; 12] = sealed.get(..12)?.try_into().ok()?;
    let mut p = cipher(key).decrypt(&nonce.into(), &sealed[12..]).ok()?;
    while p.last() == Some(&0) {
        p.pop();
    }
    (p.pop()? == 0x80).then_some(p)
}
fn digits(b: &[u8]) -> String {
    b.iter().flat_map(|x| [x >> 4, x & 15]).map(|d| b"bcdfghkmnpqrstxz"[d as usize] as char).collect()
}
fn written(key: &[u8]) -> String {
    if key.len() == 16 {
        return key.chunks(2).map(digits).collect::<Vec<_>>().join("-");
    }
    [&key[..4], &key[4..8], &key[8..12], &key[12..16], &key[16..17], &key[17..]].map(digits).join("-")
}
fn repeats(crn: &[u8]) -> bool {
    crn.chunks(2).any(|c| {
        let d = [c[0] >> 4, c[0] & 15, c[1] >> 4, c[1] & 15];
        d.iter().all(|x| *x == d[0])
    })
}
/// Whether a key of these bytes is one that clients make.
fn proper(b: &[u8]) -> bool {
    (b.len() == 16 || b.len() == 21 && b[16] & 0x7f == 1) && !repeats(&b[..16])
}

struct Room {
    epoch: Option<u32>,
    passkey: Vec<u8>,
    name: Option<String>,
    restrictions: &'static str,
    revoked: bool,
    expiration: u64,
}
struct Ask {
    what: &'static str,
    key: Vec<u8>,
    auth: Vec<u8>,
    body: Option<Value>,
    url: String,
    seen: u32,
    answers: u32,
    /// What the device was told: the answer as it arrived, and whether it is known what it says.
    told: Option<Option<(u16, Vec<u8>, bool)>>,
}
struct World {
    rooms: BTreeMap<String, Room>,
    asks: Vec<Ask>,
    /// request id -> ask, per device
    ids: BTreeMap<(usize, u32), usize>,
    /// (due, order, device, id, answer)
    net: Vec<(u64, u64, usize, u32, Option<(u16, Vec<u8>, bool)>)>,
    ord: u64,
    clients: Vec<DelegatingClient>,
    /// names known to have been set, by the text that encrypts them
    names: BTreeMap<String, (Vec<u8>, Vec<u8>)>,
    done: u32,
    epochs: bool,
    rate: u64,
    calm: bool,
}
type W = Shr<World>;
struct Del(W, usize);

fn head<'a>(r: &'a Request, n: &str) -> Option<&'a str> {
    let mut it = r.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n));
    let v = it.next()?.1.as_str();
    it.next().is_none().then_some(v)
}
impl Delegate for Del {
    fn send_request(&self, id: u32, r: Request) {
        let w = self.0.g();
        let Some(n) = w.asks.iter().rposition(|a| a.seen == 0 && head(&r, "Authorization").is_some_and(|h| h.ends_with(&format!(".{}", B64.encode(&a.auth))))) else {
            violate!("N01:request", "a request nobody made, or one that does not say on whose behalf: {} {:?}", r.url, r.method);
            return;
        };
        let a = &mut w.asks[n];
        a.seen += 1;
        let create = a.what == "create";
        let want = format!("Bearer {}.{}", if create { "create" } else { "auth" }, B64.encode(&a.auth));
        check!(head(&r, "Authorization") == Some(&want), "N01:request", "a {} is authorised by {:?}", a.what, head(&r, "Authorization"));
        check!(r.url == a.url, "N01:request", "a {} goes to {}, not {}", a.what, r.url, a.url);
        let m = match a.what {
            "read" => Method::Get,
            "delete" => Method::Delete,
            _ => Method::Put,
        };
        check!(r.method == m, "N01:request", "a {} is a {:?}", a.what, r.method);
        check!(head(&r, "Content-Type") == Some("application/json"), "N01:request", "content type {:?}", head(&r, "Content-Type"));
        check!(head(&r, "X-Room-Id") == Some(&room_id(&a.key[..16])), "N01:room", "a {} for room {} asks for {:?}", a.what, room_id(&a.key[..16]), head(&r, "X-Room-Id"));
        let epoch = (a.key.len() == 21 && a.key[16] == 1).then(|| u32::from_be_bytes(a.key[17..21].try_into().unwrap()));
        check!(head(&r, "X-Epoch") == epoch.map(|e| e.to_string()).as_deref(), "N01:room", "a {} for epoch {epoch:?} asks for {:?}", a.what, head(&r, "X-Epoch"));
        check!(r.headers.len() == 3 + epoch.is_some() as usize, "N01:request", "headers {:?}", r.headers.keys());
        let body: Option<Value> = r.body.as_ref().map(|b| serde_json::from_slice(b).unwrap_or(Value::Null));
        check!(body == a.body, "N01:request", "a {} says {body:?}, was asked to say {:?}", a.what, a.body);
        // Nothing the server must not know.
        let crn = &a.key[..16];
        let mut all = r.url.clone().into_bytes();
        for (k, v) in &r.headers {
            all.extend(format!("\n{k}: {v}").bytes());
        }
        all.extend(r.body.iter().flatten());
        for p in [crn.to_vec(), hex::encode(crn).into_bytes(), hex::encode_upper(crn).into_bytes(), B64.encode(&crn[..15]).into_bytes(), digits(&crn[..2]).into_bytes(), written(&a.key).into_bytes()] {
            if p.len() > 4 {
                check!(!all.windows(p.len()).any(|x| x == p), "N01:secret", "a {} tells the server the room's key", a.what);
            }
        }
        probe(a.what);
        // The server.
        let rid = room_id(&a.key[..16]);
        let say = |w: &Room| {
            let mut v = json!({"restrictions": w.restrictions, "revoked": w.revoked, "expiration": w.expiration, "name": w.name.clone().unwrap_or_default()});
            if let Some(e) = w.epoch {
                v["epoch"] = json!(e);
            }
            v
        };
        let pass = body.as_ref().and_then(|b| b["adminPasskey"].as_str()).and_then(|s| B64.decode(s).ok());
        let broken = fault("server-error", "rooms", if w.calm { 0 } else { w.rate });
        let (mut code, mut text) = if let Some(v) = broken {
            (*Rng::new(v).pick(&[400u16, 401, 429, 500, 503, 302, 100, 0]), if v % 2 == 0 { b"{}".to_vec() } else { vec![] })
        } else if create {
            let expiration = 1_700_000_000 + draw_below("expiration", 1_000_000_000);
            let e = (w.epochs && draw_below("epoch", 4) > 0).then(|| *Rng::new(draw("epoch")).pick(&[0u32, 1, 77, 0x0102_0304, u32::MAX]));
            let restrictions = if a.body.as_ref().unwrap()["restrictions"] == json!("adminApproval") { "adminApproval" } else { "none" };
            let room = w.rooms.entry(rid).or_insert_with(|| Room { epoch: e, passkey: pass.clone().unwrap(), name: None, restrictions, revoked: false, expiration });
            if Some(&room.passkey) == pass.as_ref() {
                (200, say(room).to_string().into_bytes())
            } else {
                (409, vec![])
            }
        } else {
            match w.rooms.get_mut(&rid) {
                Some(room) if room.epoch == epoch => match a.what {
                    "read" => (200, say(room).to_string().into_bytes()),
                    _ if Some(&room.passkey) != pass.as_ref() => (403, vec![]),
                    "delete" => {
                        w.rooms.remove(&rid);
                        (200, b"{}".to_vec())
                    }
                    _ => {
                        let b = body.as_ref().unwrap();
                        if let Some(n) = b["name"].as_str() {
                            room.name = Some(n.into());
                        }
                        if let Some(n) = b["restrictions"].as_str() {
                            room.restrictions = if n == "none" { "none" } else { "adminApproval" };
                        }
                        if let Some(n) = b["revoked"].as_bool() {
                            room.revoked = n;
                        }
                        (200, say(room).to_string().into_bytes())
                    }
                },
                _ => (404, vec![]),
            }
        };
        let mut known = true;
        if code == 200 && !w.calm && a.what != "delete" {
            if let Some(v) = fault("answer-unusual", "rooms", w.rate) {
                let mut r = Rng::new(v);
                let mut j: Value = serde_json::from_slice(&text).unwrap();
                match r.below(12) {
                    0 => {
                        j.as_object_mut().unwrap().remove(*r.pick(&["name", "restrictions", "revoked", "expiration"]));
                    }
                    1 => j["restrictions"] = json!(*r.pick(&["somethingNew", "None", "", "admin_approval"])),
                    2 => j["later"] = json!({"more": [1, 2], "name": "x"}),
                    3 => j["name"] = json!(*r.pick(&["", "****", "AA==", "A", "AAAAAAAAAAAAAAAAAAAA"])),
                    4 => {
                        // A name by a client that does not agree with this one about the key, or that is damaged.
                        let mut s = seal(&a.key, b"hello", [7; 12], true);
                        match r.below(4) {
                            0 => s = seal(&[3; 16], b"hello", [7; 12], true),
                            1 => s[14] ^= 1,
                            2 => s.truncate(r.below(s.len() as u64) as usize),
                            _ => s = seal(&a.key, &[0xff, 0xfe, 0x80, 1], [8; 12], true),
                        }
                        j["name"] = json!(B64.encode(s));
                    }
                    5 => j["name"] = json!(B64.encode(seal(&a.key, b"no padding", [9; 12], false))),
                    6 => j["revoked"] = json!(*r.pick(&["yes", ""])),
                    7 => j["expiration"] = json!(*r.pick(&[0u64, 1, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])),
                    8 => j["expiration"] = if r.chance(1, 2) { json!(-1) } else { json!(1.5) },
                    9 => j["epoch"] = if r.chance(1, 2) { json!(1u64 << 32) } else { Value::Null },
                    10 => j = if r.chance(1, 2) { Value::Null } else { json!([1]) },
                    _ => code = *r.pick(&[201u16, 204, 299]),
                }
                text = j.to_string().into_bytes();
            }
            if let Some(v) = fault("answer-damaged", "rooms", w.rate) {
                let mut r = Rng::new(v);
                if r.chance(1, 3) || text.is_empty() {
                    text.truncate(r.below(text.len() as u64 + 1) as usize);
                } else {
                    let i = r.below(text.len() as u64) as usize;
                    text[i] ^= 1 << r.below(8);
                }
                known = false;
            }
        }
        let mut answer = Some((code, text, known));
        if !w.calm {
            if fault("answer-lost", "rooms", w.rate).is_some() {
                answer = None;
            }
            if fault("answer-never", "rooms", w.rate * 2).is_some() {
                return;
            }
        }
        let dup = fault("answer-duplicate", "rooms", w.rate);
        for k in 0..1 + dup.is_some() as u64 {
            let d = fault("answer-delay", "rooms", 3).map_or(0, |v| v % 300_000_000);
            w.ord += 1;
            w.net.push((now() + 1_000_000 + d + k * 1_000_000, w.ord, self.1, id, answer.clone()));
        }
        w.ids.insert((self.1, id), n);
        notify_key(5);
    }
}

/// What a device has to be told for this answer, given which key the state must carry.
fn meaning(w: &World, a: &Ask, ans: &Option<(u16, Vec<u8>, bool)>) -> Result<Option<(Vec<u8>, Value)>, u16> {
    let Some((code, text, _)) = ans else { return Err(602) };
    if !(200..300).contains(code) {
        return Err(*code);
    }
    let bad = Err(702);
    let Ok(j) = serde_json::from_slice::<Value>(text) else { return bad };
    if a.what == "delete" {
        return Ok(None);
    }
    let _ = w;
    if !j["name"].is_string() || !j["restrictions"].is_string() || !j["revoked"].is_boolean() || !j["expiration"].is_u64() {
        return bad;
    }
    let epoch = match &j["epoch"] {
        Value::Null => None,
        v => match v.as_u64() {
            Some(e) if e <= u32::MAX as u64 => Some(e as u32),
            _ => return bad,
        },
    };
    let mut key = a.key.clone();
    if a.what == "create" {
        match epoch {
            None => key.truncate(16),
            Some(e) => {
                key[16] = 1;
                key[17..21].copy_from_slice(&e.to_be_bytes());
            }
        }
    }
    Ok(Some((key, j)))
}
fn judge(w: &W, n: usize, got: Result<Option<CallLinkState>, u16>) {
    let x = w.g();
    x.asks[n].answers += 1;
    check!(x.asks[n].answers == 1, "N01:once", "a {} was answered {} times", x.asks[n].what, x.asks[n].answers);
    let a = &x.asks[n];
    let Some(told) = &a.told else {
        violate!("N01:once", "a {} was answered before the server's answer came", a.what);
        return;
    };
    let want = meaning(x, a, told);
    if told.as_ref().is_some_and(|t| !t.2) {
        // Damaged on the way: refuse it, or read it as what it still says; a name is the admin's or none.
        match got {
            Err(c) => check!(c == 702, "N01:answer", "a damaged answer to a {} is reported as {c}", a.what),
            Ok(Some(s)) => {
                let known = s.name.is_empty() || x.names.values().any(|(k, v)| k[..16] == a.key[..16] && v[..] == *s.name.as_bytes());
                check!(known, "N01:name", "a damaged answer gives the room the name {:?}", s.name);
                probe("damaged-answer-read");
            }
            Ok(None) => {}
        }
        return;
    }
    match (got, want) {
        (Err(c), Err(d)) => {
            check!(c == d, "N01:answer", "a {} that failed with {d} is reported as {c}", a.what);
            probe(if d == 702 { "bad-answer" } else { "failed" });
        }
        (Ok(None), Ok(None)) => {}
        (Ok(Some(s)), Ok(Some((key, j)))) => {
            check!(s.root_key.as_slice() == key, "N01:key", "a {} with key {} gives key {}", a.what, hex::encode(&key), hex::encode(s.root_key.as_slice()));
            let r = match j["restrictions"].as_str().unwrap() {
                "none" => CallLinkRestrictions::None,
                "adminApproval" => CallLinkRestrictions::AdminApproval,
                _ => CallLinkRestrictions::Unknown,
            };
            check!(s.restrictions == r, "N01:answer", "restrictions {} are told as {:?}", j["restrictions"], s.restrictions);
            check!(Some(s.revoked) == j["revoked"].as_bool(), "N01:answer", "revoked {} is told as {}", j["revoked"], s.revoked);
            let e = j["expiration"].as_u64().unwrap();
            if e < 1 << 40 {
                check!(s.expiration == SystemTime::UNIX_EPOCH + Duration::from_secs(e), "N01:answer", "expiration {e} is told as {:?}", s.expiration);
            } else {
                check!(s.expiration > SystemTime::UNIX_EPOCH + Duration::from_secs(1 << 32), "N01:answer", "expiration {e} is told as {:?}", s.expiration);
                probe("far-expiration");
            }
            let name = j["name"].as_str().unwrap();
            let plain = B64.decode(name).ok().and_then(|b| open(&key, &b)).and_then(|b| String::from_utf8(b).ok());
            if plain.is_none() && !name.is_empty() {
                probe("unreadable-name");
            }
            check!(s.name == plain.clone().unwrap_or_default(), "N01:name", "the name {plain:?} is told as {:?}", s.name);
            if let Some((_, set)) = x.names.get(name) {
                if x.names[name].0 == key {
                    check!(s.name.as_bytes() == &set[..], "N01:name", "a room named {:?} is told as {:?}", String::from_utf8_lossy(set), s.name);
                    probe("name-read");
                }
            }
        }
        (g, want) => violate!("N01:answer", "a {} is reported as {:?}, the answer means {:?}", a.what, g.map(|s| s.map(|s| s.name)), want.map(|_| "success")),
    }
}
fn ask(w: &W, what: &'static str, key: &CallLinkRootKey, base: &str, auth: Vec<u8>, body: Option<Value>) -> usize {
    let x = w.g();
    x.asks.push(Ask { what, key: key.as_slice().to_vec(), auth, body, url: format!("{}/v1/call-link", base.trim_end_matches('/')), seen: 0, answers: 0, told: None });
    x.asks.len() - 1
}
/// A key that does not fit the request is refused at once, and the server hears nothing.
fn refused(w: &W, n: usize, got: Result<(), u16>, code: u16) {
    let x = w.g();
    x.asks[n].answers += 1;
    x.asks[n].seen += 1;
    check!(got == Err(code), "N01:refused", "a {} with an unfit key is reported as {got:?}", x.asks[n].what);
    probe("unfit-key");
}

fn any_name(r: &mut Rng) -> String {
    let n = *r.pick(&[0u64, 1, 5, 18, 19, 20, 21, 50, 51, 52, 53, 119]) as usize;
    let mut s: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    match r.below(6) {
        0 => s.push_str("\u{0}"),
        1 => s.push_str("\u{c0}"),
        2 => s.push_str("\u{c0}\u{0}\u{0}"),
        3 => s.push_str("\u{1f600}\u{4000}"),
        _ => {}
    }
    s
}
fn run_rooms(seed: u64) {
    let mut r = Rng::derive(seed, "rooms");
    if seed % 4 != 0 {
        log_level(log::LevelFilter::Info);
        watch_log();
    }
    let w: W = Shr::new(World {
        rooms: BTreeMap::new(),
        asks: vec![],
        ids: BTreeMap::new(),
        net: vec![],
        ord: 0,
        clients: vec![],
        names: BTreeMap::new(),
        done: 0,
        epochs: r.chance(3, 4),
        rate: *r.pick(&[0u64, 20, 6, 3]),
        calm: false,
    });
    let devices = r.range(1, 4) as usize;
    for d in 0..devices {
        let c = DelegatingClient::new(Del(w.clone(), d));
        w.g().clients.push(c);
    }
    // The keys of the rooms, as one device makes them and others get them.
    let mut keys: Vec<(CallLinkRootKey, Vec<u8>)> = vec![];
    for _ in 0..r.range(1, 4) {
        let k = CallLinkRootKey::generate(rand::rngs::StdRng::seed_from_u64(r.next()));
        check!(!k.is_valid() && proper(k.as_slice()), "N01:key", "a generated key is {}", hex::encode(k.as_slice()));
        secret_bytes("a call link's key", k.as_slice());
        secret_text("a call link's key", &written(k.as_slice())[..24]);
        let p = CallLinkRootKey::generate_admin_passkey(rand::rngs::StdRng::seed_from_u64(r.next()));
        check!(p.len() >= 16 && p != [0; 16], "N01:key", "an admin passkey is {}", hex::encode(&p));
        secret_bytes("an admin passkey", &p);
        keys.push((k, p));
    }
    for (i, k) in keys.iter().enumerate() {
        check!(keys[..i].iter().all(|o| o.0.as_slice()[..16] != k.0.as_slice()[..16] && o.1 != k.1), "N01:key", "two generated keys are the same");
    }
    let shared: Shr<Vec<Option<CallLinkRootKey>>> = Shr::new(vec![None; keys.len()]);
    let base = format!("https://sfu.test{}", r.pick(&["", "/", "//", "/x", "/x/"]));
    let threads = r.range(devices as u64, 2 * devices as u64 + 1);
    for t in 0..threads {
        let (w, keys, base, shared) = (w.clone(), keys.clone(), base.clone(), shared.clone());
        std::thread::spawn(move || {
            harness_thread("device", 0);
            for i in 0..10 {
                let id = t * 100 + i;
                if !op_kept(id) {
                    continue;
                }
                let mut r = Rng::new(h3(seed, 9, id));
                sleep_ns(r.below(80_000_000));
                device_op(&w, &keys, &shared, &base, t as usize % devices, &mut r);
            }
            w.g().done += 1;
            notify_key(5);
        });
    }
    for _ in 0..r.range(1, 3) {
        let w = w.clone();
        std::thread::spawn(move || {
            harness_thread("network", 0);
            loop {
                let t = now();
                let x = w.g();
                if let Some(k) = x.net.iter().enumerate().filter(|(_, m)| m.0 <= t).min_by_key(|(_, m)| (m.0, m.1)).map(|(k, _)| k) {
                    let (_, _, dev, id, ans) = x.net.remove(k);
                    let n = x.ids[&(dev, id)];
                    if x.asks[n].told.is_none() {
                        x.asks[n].told = Some(ans.clone());
                    }
                    let c = x.clients[dev].clone();
                    c.received_response(id, ans.map(|(code, body, _)| Response { status: code.into(), body }));
                    continue;
                }
                if x.done == 1000 {
                    break;
                }
                let next = x.net.iter().map(|m| m.0).min();
                wait_key(5, next);
            }
        });
    }
    members(seed, &keys);
    while (w.g().done as u64) < threads {
        wait_key(5, None);
    }
    // Calm: everybody who has a key reads the room, and sees what the server has.
    faults_off();
    w.g().calm = true;
    sleep_ms(1500);
    for i in 0..keys.len() {
        if let Some(k) = shared.g()[i] {
            for d in 0..devices {
                read(&w, &k, &base, d, &mut r);
            }
        }
    }
    sleep_ms(1500);
    let x = w.g();
    for a in &x.asks {
        check!(a.seen == 1, "N01:request", "a {} never got to the server", a.what);
        check!(a.told.is_none() || a.answers == 1, "N01:once", "a {} was answered, and nobody was told", a.what);
    }
    x.done = 1000;
    x.clients.clear();
    notify_key(5);
    sleep_ms(10);
    probe("rooms-done");
}
fn read(w: &W, k: &CallLinkRootKey, base: &str, d: usize, r: &mut Rng) {
    let auth = r.bytes(24);
    let n = ask(w, "read", k, base, auth.clone(), None);
    let (w2, valid) = (w.clone(), k.is_valid());
    let c = w.g().clients[d].clone();
    read_call_link(
        &c,
        base,
        *k,
        &auth,
        Box::new(move |s| {
            let s = s.map(Some).map_err(|e| e.code);
            if valid {
                judge(&w2, n, s);
            } else {
                refused(&w2, n, s.map(|_| ()), 704);
            }
        }),
    );
}
fn device_op(w: &W, keys: &[(CallLinkRootKey, Vec<u8>)], shared: &Shr<Vec<Option<CallLinkRootKey>>>, base: &str, d: usize, r: &mut Rng) {
    let i = r.below(keys.len() as u64) as usize;
    let (fresh, pass) = &keys[i];
    let c = w.g().clients[d].clone();
    // The key as this device has it: made here, or received as text or bytes.
    let k = match shared.g()[i] {
        Some(k) if !r.chance(1, 12) => carry(&k, r),
        _ => carry(fresh, r),
    };
    let pass = if r.chance(1, 8) { r.bytes(16) } else { pass.clone() };
    let auth = r.bytes(24);
    let w2 = w.clone();
    let valid = k.is_valid();
    let what = match (valid, r.below(10)) {
        (false, 0..=6) | (true, 0) => "create",
        (_, 0..=3) => "read",
        (_, 4..=8) => "update",
        _ => "delete",
    };
    match what {
        "create" => {
            let zk = { let n = r.below(40) as usize; r.bytes(n) };
            let restrictions = match r.below(3) {
                0 => None,
                1 => Some(CallLinkRestrictions::None),
                _ => Some(CallLinkRestrictions::AdminApproval),
            };
            let mut b = json!({"adminPasskey": B64.encode(&pass), "zkparams": B64.encode(&zk)});
            if let Some(x) = &restrictions {
                b["restrictions"] = json!(if *x == CallLinkRestrictions::None { "none" } else { "adminApproval" });
            }
            let n = ask(w, what, &k, base, auth.clone(), Some(b));
            let shared = shared.clone();
            create_call_link(
                &c,
                base,
                k,
                &auth,
                &pass,
                &zk,
                restrictions,
                Box::new(move |s| {
                    if valid {
                        return refused(&w2, n, s.map(|_| ()).map_err(|e| e.code), 705);
                    }
                    let key = s.as_ref().ok().map(|s| s.root_key);
                    judge(&w2, n, s.map(Some).map_err(|e| e.code));
                    if let Some(key) = key {
                        check!(key.is_valid(), "N01:key", "the key of a created room is {}", hex::encode(key.as_slice()));
                        if key.as_slice().len() == 16 {
                            probe("old-key");
                        } else {
                            probe("epoch-key");
                        }
                        shared.g()[i] = Some(key);
                    }
                }),
            );
        }
        "read" => read(w, &k, base, d, r),
        "update" => {
            let mut b = json!({"adminPasskey": B64.encode(&pass)});
            let mut sealed = None;
            if r.chance(2, 3) {
                let name = any_name(r);
                let e = k.encrypt(name.as_bytes(), rand::rngs::StdRng::seed_from_u64(r.next()));
                check!(open(k.as_slice(), &e).as_deref() == Some(name.as_bytes()), "N01:name", "the name {name:?} is encrypted as something others read as {:?}", open(k.as_slice(), &e));
                check!(e.len() % 32 == 16 && e.len() <= name.len() + 1 + 31 + 28, "N01:length", "a name of {} bytes becomes {} bytes", name.len(), e.len());
                check!(k.decrypt(&e).ok().as_deref() == Some(name.as_bytes()), "N01:name", "the name {name:?} cannot be read back");
                let e2 = k.encrypt(name.as_bytes(), rand::rngs::StdRng::seed_from_u64(r.next()));
                check!(e2[..12] != e[..12], "N01:secret", "two names are encrypted with the same nonce");
                b["name"] = json!(B64.encode(&e));
                w.g().names.insert(B64.encode(&e), (k.as_slice().to_vec(), name.into_bytes()));
                sealed = Some(e);
            } else if r.chance(1, 4) {
                b["name"] = json!("");
                sealed = Some(vec![]);
            }
            let restrictions = r.chance(1, 2).then(|| if r.chance(1, 2) { CallLinkRestrictions::None } else { CallLinkRestrictions::AdminApproval });
            if let Some(x) = &restrictions {
                b["restrictions"] = json!(if *x == CallLinkRestrictions::None { "none" } else { "adminApproval" });
            }
            let revoked = r.chance(1, 3).then(|| r.chance(1, 2));
            if let Some(x) = revoked {
                b["revoked"] = json!(x);
            }
            let n = ask(w, what, &k, base, auth.clone(), Some(b));
            update_call_link(
                &c,
                base,
                k,
                &auth,
                &CallLinkUpdateRequest { admin_passkey: &pass, encrypted_name: sealed.as_deref(), restrictions, revoked },
                Box::new(move |s| {
                    let s = s.map(Some).map_err(|e| e.code);
                    if valid {
                        judge(&w2, n, s);
                    } else {
                        refused(&w2, n, s.map(|_| ()), 704);
                    }
                }),
            );
        }
        _ => {
            let n = ask(w, what, &k, base, auth.clone(), Some(json!({"adminPasskey": B64.encode(&pass)})));
            delete_call_link(
                &c,
                base,
                k,
                &auth,
                &CallLinkDeleteRequest { admin_passkey: &pass },
                Box::new(move |s| {
                    let s = s.map(|_| None).map_err(|e| e.code);
                    if valid {
                        judge(&w2, n, s);
                    } else {
                        refused(&w2, n, s.map(|_: Option<CallLinkState>| ()), 704);
                    }
                }),
            );
        }
    }
}
/// A key on its way from one device to another, as a text in a message or as bytes in storage.
fn carry(k: &CallLinkRootKey, r: &mut Rng) -> CallLinkRootKey {
    let text = k.to_formatted_string();
    check!(text == written(k.as_slice()), "N01:text", "the key {} is written as {text}", hex::encode(k.as_slice()));
    let got = if r.chance(1, 2) { CallLinkRootKey::try_from(text.as_str()) } else { CallLinkRootKey::try_from(k.as_slice()) };
    check!(got.as_ref().is_ok_and(|g| g == k), "N01:text", "the key {text} is read as {:?}", got);
    let got = got.unwrap();
    check!(hex::encode(got.derive_room_id()) == room_id(&k.as_slice()[..16]), "N01:room", "the room of {text} is {}", hex::encode(got.derive_room_id()));
    // What reaches somebody damaged is refused, or is another proper key.
    for _ in 0..2 {
        if fault("key-damaged", "rooms", 3).is_none() {
            continue;
        }
        let mut t: Vec<char> = text.chars().collect();
        let at = r.below(t.len() as u64) as usize;
        match r.below(7) {
            0 => {
                t.remove(at);
            }
            1 => t.insert(at, *r.pick(&['-', 'b', 'z', 'é', ' '])),
            2 => t[at] = *r.pick(&['-', 'b', 'z', 'a', 'é', 'B', '\u{1f600}']),
            3 => t.truncate(at),
            4 => t.push(*r.pick(&['-', 'b', 'é'])),
            5 => t.extend("-bcdf".chars()),
            _ => {
                let other = r.below(t.len() as u64) as usize;
                t.swap(at, other);
            }
        }
        let t: String = t.into_iter().collect();
        if let Ok(g) = CallLinkRootKey::try_from(t.as_str()) {
            let back = written(g.as_slice());
            // (What follows a complete key and a dash is passed over.)
            check!(proper(g.as_slice()) && (t == back || t.starts_with(&format!("{back}-"))), "N01:text", "the text {t} is read as the key {back}");
            probe("damaged-text-read");
        } else {
            probe("damaged-text-refused");
        }
        let mut b = k.as_slice().to_vec();
        match r.below(5) {
            0 => b.truncate(r.below(b.len() as u64) as usize),
            1 => b.extend(r.bytes(9)),
            2 => b[(at / 2) % 16 & !1..][..2].fill(0x44),
            3 if b.len() == 21 => b[16] = r.next() as u8,
            _ => {
                let l = b.len() as u64;
                b[r.below(l) as usize] ^= 1 << r.below(8);
            }
        }
        let g = CallLinkRootKey::try_from(b.as_slice());
        check!(g.is_ok() == proper(&b), "N01:text", "the bytes {} are {}", hex::encode(&b), if g.is_ok() { "taken for a key" } else { "refused" });
        if let Ok(g) = g {
            check!(g.as_slice() == b, "N01:text", "the bytes {} are read as {}", hex::encode(&b), hex::encode(g.as_slice()));
        }
    }
    got
}
/// Who is in the room: the same people for everybody who asks, however often and from wherever.
fn members(seed: u64, keys: &[(CallLinkRootKey, Vec<u8>)]) {
    let mut r = Rng::derive(seed, "members");
    let all: Vec<Arc<CallLinkMemberResolver>> = keys.iter().map(|k| Arc::new(CallLinkMemberResolver::from(&k.0))).collect();
    let users: Vec<[u8; 16]> = (0..*r.pick(&[3u64, 16, 17, 18, 30])).map(|_| r.bytes(16).try_into().unwrap()).collect();
    let n = r.range(1, 4);
    let left = Shr::new(n);
    for t in 0..n {
        let (all, users, left) = (all.clone(), users.clone(), left.clone());
        let keys: Vec<Vec<u8>> = keys.iter().map(|k| k.0.as_slice().to_vec()).collect();
        std::thread::spawn(move || {
            harness_thread("members", 0);
            let mut r = Rng::new(h3(seed, 21, t));
            for _ in 0..40 {
                let i = r.below(all.len() as u64) as usize;
                let of = if r.chance(1, 8) { r.below(all.len() as u64) as usize } else { i };
                let u = *r.pick(&users);
                let p = zkgroup::call_links::CallLinkSecretParams::derive_from_root_key(&keys[of]);
                let mut b = zkgroup::serialize(&p.encrypt_uid(zkgroup::Aci::from_uuid_bytes(u)));
                let mut want = (of == i).then(|| u.to_vec());
                if r.chance(1, 6) {
                    want = None;
                    let l = b.len() as u64;
                    if r.chance(1, 2) {
                        b[r.below(l) as usize] ^= 1;
                    } else {
                        b.truncate(r.below(l) as usize);
                    }
                }
                let got = match r.below(3) {
                    0 => all[i].resolve_bytes(&b),
                    1 => {
                        let h = hex::encode(&b);
                        if r.chance(1, 10) {
                            let bad = &h[..h.len().saturating_sub(1)];
                            check!(bad.is_empty() || all[i].resolve(bad).is_none(), "N01:member", "half a member is resolved");
                        }
                        all[i].resolve(&h)
                    }
                    _ => all[i].resolve(&hex::encode(&b)),
                };
                check!(got == want, "N01:member", "a member who is {:?} is taken for {:?}", want.as_ref().map(hex::encode), got.as_ref().map(hex::encode));
                probe(if got.is_some() { "member-known" } else { "member-unknown" });
            }
            *left.g() -= 1;
            notify_key(7);
        });
    }
    while *left.g() > 0 {
        wait_key(7, None);
    }
}

pub fn props() -> Vec<Prop> {
    const ROOMS: Scenario = Scenario { name: "rooms", quick: 6000, thorough: 200000, cfg: SchedCfg::swarm, run: run_rooms };
    vec![Prop {
        id: "N01",
        scenarios: &[ROOMS],
        rule: "one execution = one seed's rooms, devices, requests, answers, faults and schedule; distinct by hash of event log and schedule",
        must_probe: &["rooms-done", "create", "read", "update", "delete", "name-read", "unreadable-name", "bad-answer", "failed", "unfit-key", "old-key", "epoch-key", "member-known", "member-unknown", "damaged-text-refused"],
        real: &["lite::call_links (requests, responses, root keys, names, member resolver)", "lite::http::DelegatingClient", "core::call_mutex::CallMutex"],
        stubs: &["the server and the network behind the app's HTTP delegate", "zkgroup (toy construction)", "threads, clock"],
        assumptions: &["AES-GCM-SIV and HKDF are what they should be (the same libraries are used by the reference)"],
    }]
}
