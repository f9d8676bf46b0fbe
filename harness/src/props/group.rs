//! Group calls: users with several devices, a signaling service, an HTTP path and a selective forwarding unit (SFU).
use crate::driver::{Prop, Scenario};
use crate::webrtc::{self, ether, Ice, Mon, Rates, SfuEvent};
use anyhow::Result;
use base64::Engine;
use glue::cm::Cm;
use prost::Message as _;
use ringrtc::common::units::DataRate;
use ringrtc::common::{CallEndReason, CallId, CallMediaType, DataMode, DeviceId};
use ringrtc::core::crypto;
use ringrtc::core::group_call::{self, ConnectionState, JoinState, RemoteDeviceState, RingUpdate, VideoRequest};
use ringrtc::core::signaling;
use ringrtc::lite::call_links::CallLinkRootKey;
use ringrtc::lite::http;
use ringrtc::lite::sfu::{GroupMember, PeekInfo, UserId};
use ringrtc::native::{CallState, CallStateHandler, GroupUpdate, GroupUpdateHandler, NativePlatform, SignalingSender};
use ringrtc::protobuf::group_call::{device_to_device as d2d, device_to_sfu as d2s, sfu_to_device as s2d, DeviceToDevice, DeviceToSfu, MrpHeader, SfuToDevice};
use ringrtc::protobuf::signaling::{call_message, CallMessage};
use ringrtc::webrtc::media::{AudioTrack, VideoFrame, VideoSink, VideoTrack};
use ringrtc::webrtc::peer_connection_factory::PeerConnectionFactory;
use ringrtc::webrtc::peer_connection_observer::NetworkRoute;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::Duration;
use zkgroup::groups::{GroupSendEndorsement, GroupSendEndorsementsResponse};

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;
const PT: u8 = 101;

// ------------------------------------------------------------------------------------------------
// The world
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Op {
    Create { room: usize, join_ms: Option<u64> },
    Join,
    Leave(u64),
    Disconnect,
    React,
    Raise(bool),
    Audio(bool),
    Video(bool),
    Present(bool),
    Share(bool),
    Request,
    Mode(u32),
    MuteOther,
    Approve(bool),
    Remove(bool),
    Ring,
    CancelRing,
    Resend,
    Call,
    HangupCall,
    Proof,
    Peek(usize),
    ForgeKey,
    ForgeLeave,
    Crash,
    Cut(u64),
}
enum Ev {
    Http(u32, Option<http::Response>),
    Msg { from: usize, dev: DeviceId, bytes: Vec<u8>, at: u64 },
    Proof(u32),
    Members(u32),
    Op(Op),
    MutedBy(u32, u32),
    DisconnectCl(u32),
    JoinCl(u32),
    Delete(u32),
    CheckBusy(Vec<u64>),
    Close,
    Quit,
}
/// What a client of a group call has said and was told.
struct Cl {
    id: u32,
    room: usize,
    pc: usize,
    conn: ConnectionState,
    join: JoinState,
    ended: Option<(u64, CallEndReason)>,
    demux: Option<u32>,
    joins: u32,
    joining_at: u64,
    joined_at: u64,
    left_at: Option<u64>,
    left_api: Option<u64>,
    disc_api: Option<u64>,
    admin: bool,
    devs: Vec<RemoteDeviceState>,
    /// When each user was among the remote devices.
    view: BTreeMap<usize, Vec<(u64, Option<u64>)>>,
    /// What the application said (audio muted, video muted, presenting, sharing), and what each remote device was seen to say.
    said: [Vec<bool>; 4],
    seen: BTreeMap<u32, [Vec<bool>; 4]>,
    muted_by: Option<u32>,
    joins_seen: u32,
    join_api: u64,
    live: JoinState,
    must: Vec<(u8, u32)>,
    /// Remote mutes the application accepted.
    accepted: BTreeSet<u32>,
    asked: BTreeSet<u32>,
    actions: Vec<(u8, u32)>,
    reactions: Vec<String>,
    raise: Option<bool>,
    raised: Vec<u32>,
    request: Option<(Vec<(u32, u16, u16)>, u16)>,
    mode: Option<DataMode>,
    got_reactions: BTreeMap<(u32, String), u32>,
    /// Devices that were once missing from the remote devices and came back.
    gone: BTreeSet<u32>,
    back: BTreeSet<u32>,
    ring: bool,
    ring_sent: Option<i64>,
    ring_cancelled: bool,
    /// Whether nobody else was there when it rang, and whether somebody came since.
    ring_alone: bool,
    ring_met: bool,
    /// When each membership proof was given to the client, and what its keys are to be mixed with.
    proof: Vec<u64>,
    extra: Vec<u8>,
    /// Whether audio levels were asked for, when each was told, and what was said of the user's speech.
    levels: Option<u64>,
    told: Vec<u64>,
    speech: Vec<group_call::SpeechEvent>,
    /// When the application last muted and unmuted the microphone.
    muted_t: u64,
    unmuted_t: Option<u64>,
    http_failed: bool,
    failed: bool,
    full: bool,
    ice_failed: bool,
}
impl Cl {
    fn removed_by_sfu(&self, x: &World) -> bool {
        let id = self.demux_id();
        id.is_some() && x.mems.iter().any(|m| Some(m.demux) == id && m.removed.is_some())
    }
    /// Who the client is in its call: it may speak as soon as its peer connection is set up, a little before it says that it joined.
    fn demux_id(&self) -> Option<u32> {
        self.demux.or_else(|| ether().pcs.get(self.pc).and_then(|p| p.local.as_ref()?.group.as_ref().map(|g| g.0)))
    }
}
struct Dv {
    user: usize,
    id: DeviceId,
    node: u32,
    dead: bool,
    closed: bool,
    inbox: BTreeMap<(u64, u64), Ev>,
    cm: Option<Cm>,
    cls: Vec<Cl>,
    one: Option<u64>,
    one_at: u64,
    calls_made: u64,
    calls_over: u64,
    /// What kept the device busy, from when until when.
    holds: Vec<(u64, u64, Option<u64>)>,
    peeks: BTreeMap<u32, (usize, u64)>,
    npeek: u32,
    /// Ring messages handed to the device: (room, ring id, sender, kind, age)
    got_rings: Vec<(usize, i64, usize, u8, u64)>,
    requested: BTreeSet<(usize, i64)>,
    reacted: u32,
    early: BTreeMap<u32, CallEndReason>,
}
struct Room {
    link: Option<CallLinkRootKey>,
    gid: Vec<u8>,
    epk: [u8; 32],
    passkey: Vec<u8>,
    approval: bool,
    max: usize,
    era: Option<String>,
    eras: Vec<(String, usize)>,
    creator: Option<usize>,
    approved: BTreeSet<usize>,
    blocked: BTreeSet<usize>,
    hist: Vec<(u64, BTreeMap<u32, usize>, BTreeMap<u32, usize>)>,
    mode: u8,
    exp: u64,
    raised: Vec<u32>,
    speakers: BTreeSet<u32>,
    forwarded: BTreeSet<u32>,
}
/// A client as the SFU sees it.
struct Mem {
    demux: u32,
    user: usize,
    dev: usize,
    cl: Option<usize>,
    room: usize,
    ufrag: String,
    server_ufrag: String,
    keys: Option<[Vec<u8>; 4]>,
    pc: Option<usize>,
    good: bool,
    active: bool,
    blocked: bool,
    last_seen: u64,
    gone: Option<(u64, &'static str)>,
    removed: Option<u64>,
    removed_acked: Option<u64>,
    removed_seq: u64,
    admin: bool,
    tx_next: u64,
    tx: BTreeMap<u64, (Vec<u8>, u64)>,
    txq: Vec<(SfuToDevice, u32)>,
    rx_next: u64,
    rx: BTreeMap<u64, (DeviceToSfu, u32)>,
    acts: Vec<(u8, u32)>,
    ts: u32,
    raise: bool,
    ever_raised: bool,
    ever_active: bool,
    raise_seq: u32,
    request: Option<d2s::VideoRequestMessage>,
    leaves: u32,
}
enum Se {
    Http { d: usize, id: u32, req: http::Request },
    Connect { pc: usize, ufrag: String, server_ufrag: String, srtp: (webrtc::Srtp, webrtc::Srtp) },
    Rtp { pc: usize, ssrc: u32, seq: u16, ts: u32, data: Vec<u8> },
    Tick,
}
struct KeySent {
    d: usize,
    c: usize,
    demux: u32,
    rc: u8,
    secret: [u8; 32],
    to: usize,
    at: u64,
}
struct Frame {
    d: usize,
    c: usize,
    demux: u32,
    at: u64,
    data: Vec<u8>,
}
#[derive(Clone, Default)]
struct Net {
    http_loss: u64,
    http_err: u64,
    http_ms: u64,
    sig_loss: u64,
    sig_dup: u64,
    sig_delay: u64,
    sig_ms: u64,
    up_loss: u64,
    up_ms: u64,
    weak_dhe: u64,
    relabel: u64,
    api: bool,
}
struct World {
    devs: Vec<Dv>,
    users: usize,
    rooms: Vec<Room>,
    mems: Vec<Mem>,
    net: Net,
    sfu: BTreeMap<(u64, u64), Se>,
    seq: u64,
    rng: Rng,
    keys: Vec<KeySent>,
    secrets: BTreeMap<[u8; 32], (usize, usize)>,
    frames: Vec<Frame>,
    nframes: BTreeMap<(usize, usize), u32>,
    /// genuine endorsements: (room, expiration, user) -> tags
    tags: BTreeMap<(usize, u64, usize), BTreeSet<[u8; 32]>>,
    mute_asks: BTreeSet<(u32, u32)>,
    /// How often each was asked for, less how often it was reported.
    mutes_in: BTreeMap<(u32, u32), usize>,
    forged: Vec<(usize, u32, [u8; 32])>,
    pc_by_thread: BTreeMap<u32, usize>,
    /// What the SFU said that it forwards, and what was shown: (connection, demux ID, height)
    heights: BTreeSet<(usize, u32, u32)>,
    shown: BTreeSet<(usize, u32, u32)>,
    last_shown: BTreeMap<(usize, u32), u32>,
    /// Decryption failures that the SFU was told of, and in which packets.
    errors: BTreeMap<(usize, u32), u32>,
    error_packets: BTreeSet<(usize, u16)>,
    /// Data packets sent on, some of which may be undecryptable.
    relayed: BTreeMap<(usize, u32), u32>,
    /// The SFU no longer forwards what it likes.
    steady: bool,
    garbage: u64,
    stopped: bool,
}
type W = Shr<World>;

fn key(d: usize) -> u64 {
    0x6_0000 + d as u64
}
const SFU_KEY: u64 = 0x5F00;
fn post(w: &W, d: usize, at: u64, e: Ev) {
    let x = w.g();
    x.seq += 1;
    let s = x.seq;
    x.devs[d].inbox.insert((at.max(now()), s), e);
    notify_key(key(d));
}
fn to_sfu(w: &W, at: u64, e: Se) {
    let x = w.g();
    x.seq += 1;
    let s = x.seq;
    x.sfu.insert((at.max(now()), s), e);
    notify_key(SFU_KEY);
}
/// How late a notification may be because threads were stalled.
fn slack() -> u64 {
    S + 10 * cfg().stall_max_ns
}
fn uuid(u: usize) -> Vec<u8> {
    vec![u as u8 + 1; 16]
}
fn user_of(b: &[u8]) -> Option<usize> {
    if b.len() == 16 && b.iter().all(|x| *x == b[0] && *x > 0) { Some(b[0] as usize - 1) } else { None }
}
fn member_id(room: usize, u: usize) -> Vec<u8> {
    format!("member-{room}-{u}").into_bytes()
}
fn ciphertext(r: &Room, u: usize) -> zkgroup::groups::UuidCiphertext {
    let p = zkgroup::call_links::CallLinkSecretParams::derive_from_root_key(r.link.as_ref().unwrap().as_slice());
    p.encrypt_uid(zkgroup::Aci::from_uuid_bytes(uuid(u).try_into().unwrap()))
}
fn opaque(x: &World, room: usize, u: usize) -> String {
    use sha2::Digest;
    match &x.rooms[room].link {
        None => hex::encode(sha2::Sha256::digest(member_id(room, u))),
        Some(_) => hex::encode(zkgroup::serialize(&ciphertext(&x.rooms[room], u))),
    }
}
fn url(room: usize) -> String {
    format!("https://sfu{room}.example")
}
/// The user name and proof a request is made with.
fn auth(req: &http::Request) -> Option<String> {
    let auth = req.headers.iter().find(|h| h.0.eq_ignore_ascii_case("authorization"))?.1;
    let b64 = base64::engine::general_purpose::STANDARD;
    String::from_utf8(b64.decode(auth.strip_prefix("Basic ")?).ok()?).ok()
}
fn proof_number(s: &str) -> Option<(usize, u64)> {
    let mut v = s.rsplit(':');
    let n = v.next()?.parse().ok()?;
    Some((v.next()?.parse().ok()?, n))
}
fn proof(u: usize, room: usize, n: u64) -> Vec<u8> {
    let p = format!("{}:{room}:{n}", hex::encode(uuid(u)));
    let b64 = base64::engine::general_purpose::STANDARD;
    crate::driver::secret("a membership proof", vec![p.clone(), b64.encode(format!("{}:{p}", hex::encode(uuid(u))))]);
    p.into_bytes()
}
fn joined(j: JoinState) -> Option<u32> {
    match j {
        JoinState::Joined(d) => Some(d),
        _ => None,
    }
}
fn busy_state(j: JoinState) -> bool {
    !matches!(j, JoinState::NotJoined(_))
}
impl World {
    fn cl(&mut self, d: usize, id: u32) -> Option<usize> {
        self.devs[d].cls.iter().position(|c| c.id == id)
    }
    /// The client the user of device `d` is looking at.
    fn cur(&self, d: usize) -> Option<usize> {
        self.devs[d].cls.iter().rposition(|c| c.ended.is_none())
    }
    fn by_pc(&self, pc: usize) -> Option<(usize, usize)> {
        let node = ether().pcs[pc].node;
        let d = node as usize - 1;
        if d >= self.devs.len() {
            return None;
        }
        self.devs[d].cls.iter().position(|c| c.pc == pc).map(|c| (d, c))
    }
    fn snapshot(&self, room: usize) -> (BTreeMap<u32, usize>, BTreeMap<u32, usize>) {
        let f = |a: bool| self.mems.iter().filter(|m| m.room == room && m.gone.is_none() && m.active == a && !m.blocked).map(|m| (m.demux, m.user)).collect();
        (f(true), f(false))
    }
    fn owner(&self, demux: u32) -> Option<usize> {
        self.mems.iter().position(|m| m.demux == demux)
    }
}

// ------------------------------------------------------------------------------------------------
// The SFU
// ------------------------------------------------------------------------------------------------
fn sfu_thread(w: W) {
    harness_thread("sfu", 0);
    loop {
        if w.g().stopped {
            return;
        }
        let next = w.g().sfu.first_key_value().map(|(k, _)| *k);
        match next {
            Some(k) if k.0 <= now() => {
                let e = w.g().sfu.remove(&k).unwrap();
                sfu(&w, e)
            }
            Some(k) => {
                wait_key(SFU_KEY, Some(k.0));
            }
            None => {
                wait_key(SFU_KEY, None);
            }
        }
    }
}
fn peek_proto(x: &World, room: usize) -> s2d::PeekInfo {
    let (a, p) = x.snapshot(room);
    let f = |m: BTreeMap<u32, usize>| m.into_iter().map(|(d, u)| s2d::peek_info::PeekDeviceInfo { demux_id: Some(d), opaque_user_id: Some(opaque(x, room, u)) }).collect::<Vec<_>>();
    let r = &x.rooms[room];
    s2d::PeekInfo { era_id: r.era.clone(), max_devices: Some(r.max as u32), creator: r.creator.map(|u| opaque(x, room, u)), devices: f(a), pending_devices: f(p), call_link_state: None }
}
fn respond(w: &W, d: usize, id: u32, code: u16, body: Vec<u8>) {
    let net = w.g().net.clone();
    let at = now() + MS + draw_below("http-latency", net.http_ms.max(1) * MS);
    if fault("http-loss", "response", net.http_loss).is_some() {
        note_http(w, d, id);
        return post(w, d, now() + 5 * S, Ev::Http(id, None));
    }
    post(w, d, at, Ev::Http(id, Some(http::Response { status: http::ResponseStatus { code }, body })));
}
/// Requests of device `d` may have failed from now on.
fn note_http(w: &W, d: usize, _id: u32) {
    for c in &mut w.g().devs[d].cls {
        if c.ended.is_none() {
            c.http_failed = true;
        }
    }
}
fn sfu(w: &W, e: Se) {
    match e {
        Se::Http { d, id, req } => sfu_http(w, d, id, req),
        Se::Connect { pc, ufrag, server_ufrag, srtp } => {
            let x = w.g();
            let dev = ether().pcs[pc].node as usize - 1;
            let Some(m) = x.mems.iter().position(|m| m.ufrag == ufrag && m.server_ufrag == server_ufrag) else {
                violate!("G05:credentials", "device {dev} connected with ICE credentials the SFU never gave out");
                return;
            };
            check!(x.mems[m].dev == dev, "G05:credentials", "device {dev} connected as a client of device {}", x.mems[m].dev);
            x.mems[m].pc = Some(pc);
            x.mems[m].last_seen = now();
            if let Some(k) = &x.mems[m].keys {
                let same = srtp.0.key == k[0] && srtp.0.salt == k[1] && srtp.1.key == k[2] && srtp.1.salt == k[3];
                let ending = x.by_pc(pc).is_some_and(|(d, c)| x.devs[d].cls[c].joins_seen > 1);
                check!(same || ending, "G05:srtp", "device {dev} and the SFU derived different SRTP keys");
                check!(k[0] != k[2], "G05:srtp", "both directions use the same SRTP key");
                x.mems[m].good = same;
                probe("sfu-connected");
            } else {
                violate!("G05:weak", "device {dev} accepted a key agreement with a low-order public key");
            }
            let room = x.mems[m].room;
            if x.mems[m].gone.is_none() {
                notify_change(w, m, room);
            }
        }
        Se::Rtp { pc, ssrc, seq, ts, data } => sfu_rtp(w, pc, ssrc, seq, ts, data),
        Se::Tick => {
            sfu_tick(w);
            to_sfu(w, now() + 250 * MS, Se::Tick);
        }
    }
}
fn sfu_http(w: &W, d: usize, id: u32, req: http::Request) {
    let x = w.g();
    let net = x.net.clone();
    let t = now();
    let user = x.devs[d].user;
    let Some(room) = (0..x.rooms.len()).find(|&r| req.url == format!("{}/v2/conference/participants", url(r))) else {
        violate!("G14:url", "a request went to {}", req.url);
        return;
    };
    // Requests speak for the right user.
    let auth = req.headers.iter().find(|h| h.0.eq_ignore_ascii_case("authorization")).map(|h| h.1.clone()).unwrap_or_default();
    let b64 = base64::engine::general_purpose::STANDARD;
    let ok = if let Some(root) = &x.rooms[room].link {
        let want = format!("Bearer auth.{}", b64.encode(link_auth(user, room)));
        req.headers.iter().any(|h| h.0.eq_ignore_ascii_case("x-room-id") && *h.1 == hex::encode(root.derive_room_id())) && auth == want
    } else {
        let s = self::auth(&req).unwrap_or_default();
        proof_number(&s).is_some_and(|(_, n)| s == format!("{}:{}", hex::encode(uuid(user)), String::from_utf8(proof(user, room, n)).unwrap()))
    };
    check!(ok, "G14:auth", "device {d}: a request for room {room} has the wrong credentials");
    if fault("http-error", "sfu", net.http_err).is_some() {
        note_http(w, d, id);
        return respond(w, d, id, [500, 503, 401][draw_below("code", 3) as usize], b"oops".to_vec());
    }
    let x = w.g();
    if req.method == http::Method::Get {
        probe("peek-request");
        if x.rooms[room].era.is_none() {
            return respond(w, d, id, 404, vec![]);
        }
        let p = peek_proto(x, room);
        let f = |v: &[s2d::peek_info::PeekDeviceInfo]| v.iter().map(|q| serde_json::json!({"opaqueUserId": q.opaque_user_id, "demuxId": q.demux_id})).collect::<Vec<_>>();
        let body = serde_json::json!({"conferenceId": p.era_id, "maxDevices": p.max_devices, "participants": f(&p.devices), "creator": p.creator, "pendingClients": f(&p.pending_devices)});
        return respond(w, d, id, 200, body.to_string().into_bytes());
    }
    let body: serde_json::Value = serde_json::from_slice(&req.body.unwrap_or_default()).unwrap_or_default();
    let text = |k: &str| body[k].as_str().unwrap_or("").to_string();
    let live = x.mems.iter().filter(|m| m.room == room && m.gone.is_none()).count();
    if live >= x.rooms[room].max {
        for c in &mut x.devs[d].cls {
            c.full |= c.ended.is_none() && c.room == room;
        }
        return respond(w, d, id, 413, vec![]);
    }
    let admin = x.rooms[room].link.is_none() || body["adminPasskey"].as_str().is_some_and(|s| s == b64.encode(&x.rooms[room].passkey));
    if let Some(c) = x.devs[d].cls.iter().rposition(|c| c.room == room) {
        check!(x.devs[d].cls.iter().any(|c| c.room == room && text("hkdfExtraInfo") == hex::encode(&c.extra)), "G05:extra", "device {d}: the SFU is asked to mix the wrong data into the SRTP keys");
        check!(x.rooms[room].link.is_none() || admin == x.devs[d].cls[c].admin, "G14:passkey", "device {d}: the admin passkey of the join request is wrong");
    }
    let new_call = x.rooms[room].era.is_none();
    if new_call {
        let e = match x.rng.below(4) {
            0 => format!("era-{}", x.rng.below(1 << 40)),
            _ => format!("{:016x}", x.rng.next()),
        };
        x.rooms[room].era = Some(e.clone());
        x.rooms[room].eras.push((e, user));
        x.rooms[room].creator = Some(user);
        x.rooms[room].raised.clear();
    }
    let demux = loop {
        let q = (x.rng.next() as u32) & 0x7fff_fff0;
        if q != 0 && x.owner(q).is_none() {
            break q;
        }
    };
    let (blocked, approved) = (x.rooms[room].blocked.contains(&user), admin || !x.rooms[room].approval || x.rooms[room].approved.contains(&user));
    let active = approved && !blocked;
    // Key agreement
    let secret = x25519_dalek::StaticSecret::from(<[u8; 32]>::try_from(x.rng.bytes(32)).unwrap());
    let mut public = *x25519_dalek::PublicKey::from(&secret).as_bytes();
    let theirs: [u8; 32] = hex::decode(text("dhePublicKey")).ok().and_then(|v| v.try_into().ok()).unwrap_or_default();
    let extra = hex::decode(text("hkdfExtraInfo")).unwrap_or_default();
    let weak = fault("weak-key", "sfu", net.weak_dhe).is_some();
    let x = w.g();
    let keys = if weak {
        public = [0; 32];
        public[0] = (x.rng.below(2)) as u8;
        None
    } else {
        let shared = secret.diffie_hellman(&x25519_dalek::PublicKey::from(theirs));
        let mut info = b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF".to_vec();
        info.extend(&extra);
        let mut out = [0u8; 56];
        hkdf::Hkdf::<sha2::Sha256>::new(Some(&[0u8; 32]), shared.as_bytes()).expand(&info, &mut out).unwrap();
        Some([out[..16].to_vec(), out[16..28].to_vec(), out[28..44].to_vec(), out[44..].to_vec()])
    };
    crate::driver::secret_text("an ICE password", &text("icePwd"));
    crate::driver::secret_bytes("the agreed SRTP key", keys.as_ref().map_or(&[], |k| &k[0]));
    crate::driver::secret_bytes("the agreed SRTP key", keys.as_ref().map_or(&[], |k| &k[2]));
    let server_ufrag = format!("sfu{}", x.mems.len());
    let server_pwd = format!("pw{}", hex::encode(x.rng.bytes(11)));
    crate::driver::secret_text("an ICE password", &server_pwd);
    let first_seq = [1u64, 1, 1, 1][x.rng.below(4) as usize];
    x.mems.push(Mem {
        demux, user, dev: d, cl: None, room, ufrag: text("iceUfrag"), server_ufrag: server_ufrag.clone(), keys, pc: None, good: false, active, blocked, last_seen: t, gone: None, removed: None, removed_acked: None, removed_seq: 0, admin,
        tx_next: first_seq, tx: BTreeMap::new(), txq: vec![], rx_next: 1, rx: BTreeMap::new(), acts: vec![], ts: 0, raise: false, ever_raised: false, ever_active: active, raise_seq: 0, request: None, leaves: 0,
    });
    let status = if blocked { "BLOCKED" } else if active { "ACTIVE" } else { "PENDING" };
    let creator = x.rooms[room].creator.map(|u| opaque(x, room, u));
    let tls = x.rng.chance(1, 2);
    let ips = [vec!["10.0.0.1"], vec!["10.0.0.1", "2001:db8::1"]][x.rng.below(2) as usize].clone();
    let mut b = serde_json::json!({"demuxId": demux, "ips": ips, "port": 10000, "portTcp": 443, "iceUfrag": server_ufrag, "icePwd": server_pwd, "dhePublicKey": hex::encode(public), "callCreator": creator, "conferenceId": x.rooms[room].era, "clientStatus": status});
    if tls {
        b["portTls"] = 5349.into();
        b["hostname"] = "sfu.example".into();
    }
    probe(if active { "join-active" } else { "join-pending" });
    respond(w, d, id, 200, b.to_string().into_bytes());
    changed(w, room);
}
fn link_auth(u: usize, room: usize) -> Vec<u8> {
    let p = format!("presentation-{u}-{room}");
    crate::driver::secret("call link credentials", vec![p.clone(), base64::engine::general_purpose::STANDARD.encode(&p), hex::encode(&p)]);
    p.into_bytes()
}
/// The participants of a room are not what they were.
fn changed(w: &W, room: usize) {
    let x = w.g();
    let (a, p) = x.snapshot(room);
    if a.is_empty() && p.is_empty() {
        x.rooms[room].era = None;
        x.rooms[room].creator = None;
        x.rooms[room].approved.clear();
        x.rooms[room].blocked.clear();
    }
    let up = x.rooms[room].raised.len();
    let keep: Vec<u32> = x.rooms[room].raised.iter().copied().filter(|d| a.contains_key(d)).collect();
    x.rooms[room].raised = keep;
    x.rooms[room].hist.push((now(), a, p));
    let all: Vec<usize> = (0..x.mems.len()).filter(|&m| x.mems[m].room == room && x.mems[m].gone.is_none()).collect();
    for m in all {
        notify_change(w, m, room);
        if up != w.g().rooms[room].raised.len() {
            raised_hands(w, m);
        }
    }
}
fn notify_change(w: &W, m: usize, room: usize) {
    let x = w.g();
    let mode = x.rooms[room].mode;
    if x.mems[m].blocked {
        return;
    }
    let info = if mode == 0 { None } else { Some(peek_proto(x, room)) };
    let mut msg = SfuToDevice { device_joined_or_left: Some(s2d::DeviceJoinedOrLeft { peek_info: info }), ..Default::default() };
    if x.rooms[room].link.is_some() && mode != 0 {
        msg.endorsements = Some(endorse(x, room));
    }
    match mode {
        0 | 1 => unreliable(w, m, msg),
        2 => reliable(w, m, msg, 0),
        _ => {
            let n = 20 + w.g().rng.below(200) as u32;
            reliable(w, m, msg, n)
        }
    }
}
fn endorse(x: &mut World, room: usize) -> s2d::SendEndorsementsResponse {
    let users: BTreeSet<usize> = x.mems.iter().filter(|m| m.room == room && m.gone.is_none() && m.active).map(|m| m.user).collect();
    if x.rng.chance(1, 3) {
        x.rooms[room].exp += 86_400;
    }
    let exp = x.rooms[room].exp;
    let salt = x.rng.next();
    let r = &x.rooms[room];
    let cts: Vec<_> = users.iter().map(|&u| ciphertext(r, u)).collect();
    let resp = GroupSendEndorsementsResponse::issue(&cts, &zkgroup::EndorsementPublicKey(r.epk), zkgroup::Timestamp::from_epoch_seconds(exp), salt);
    for (u, tag) in users.iter().zip(resp.tags()) {
        x.tags.entry((room, exp, *u)).or_default().insert(*tag);
    }
    probe("endorsements");
    s2d::SendEndorsementsResponse { serialized: Some(zkgroup::serialize(&resp)), member_ciphertexts: cts.iter().map(zkgroup::serialize).collect() }
}
fn raw(w: &W, m: usize, bytes: Vec<u8>) {
    let x = w.g();
    let mm = &mut x.mems[m];
    let Some(pc) = mm.pc else { return };
    if !mm.good {
        return;
    }
    mm.ts += 1;
    let ts = mm.ts;
    webrtc::hop(pc, pc, PT, ts as u16, ts, 1, &bytes);
}
fn unreliable(w: &W, m: usize, msg: SfuToDevice) {
    raw(w, m, msg.encode_to_vec())
}
/// Sends `msg` in order and until it is acknowledged, in pieces of `frag` bytes if that is not 0.
fn reliable(w: &W, m: usize, msg: SfuToDevice, frag: u32) {
    w.g().mems[m].txq.push((msg, frag));
    pump(w, m);
}
fn pump(w: &W, m: usize) {
    loop {
        let x = w.g();
        let mm = &mut x.mems[m];
        if mm.pc.is_none() || mm.txq.is_empty() || mm.tx.len() > 30 {
            return;
        }
        let (msg, frag) = mm.txq.remove(0);
        let body = msg.encode_to_vec();
        let mut parts = vec![];
        if frag > 0 && body.len() > frag as usize {
            let n = body.chunks(frag as usize).count();
            for (i, c) in body.chunks(frag as usize).enumerate() {
                parts.push(SfuToDevice { content: Some(c.to_vec()), mrp_header: Some(MrpHeader { seqnum: None, ack_num: None, num_packets: (i == 0).then_some(n as u32) }), ..Default::default() });
            }
            probe("sfu-fragmented");
        } else {
            let mut q = msg.clone();
            q.mrp_header = Some(MrpHeader { num_packets: Some(1), ..Default::default() });
            parts.push(q);
        }
        let mut out = vec![];
        for mut p in parts {
            let s = mm.tx_next;
            mm.tx_next += 1;
            p.mrp_header.as_mut().unwrap().seqnum = Some(s);
            if msg.removed.is_some() {
                mm.removed_seq = s;
            }
            let b = p.encode_to_vec();
            mm.tx.insert(s, (b.clone(), now()));
            out.push(b);
        }
        for b in out {
            raw(w, m, b);
        }
    }
}
fn gone(w: &W, m: usize, why: &'static str) {
    let x = w.g();
    if x.mems[m].gone.is_some() {
        return;
    }
    x.mems[m].gone = Some((now(), why));
    ev!("sfu: {} of dev{} left ({why})", x.mems[m].demux, x.mems[m].dev);
    let room = x.mems[m].room;
    changed(w, room);
}
fn remove(w: &W, m: usize) {
    let x = w.g();
    if x.mems[m].gone.is_some() {
        return;
    }
    x.mems[m].removed = Some(now());
    probe("sfu-removed");
    gone(w, m, "removed");
    reliable(w, m, SfuToDevice { removed: Some(s2d::Removed {}), ..Default::default() }, 0);
}
fn raised_hands(w: &W, m: usize) {
    let x = w.g();
    let r = &x.rooms[x.mems[m].room].raised;
    let seqs = r.iter().map(|d| x.owner(*d).map_or(0, |o| x.mems[o].raise_seq)).collect();
    let msg = SfuToDevice { raised_hands: Some(s2d::RaisedHands { demux_ids: r.clone(), seqnums: seqs, target_seqnum: Some(x.mems[m].raise_seq) }), ..Default::default() };
    unreliable(w, m, msg)
}
/// The SFU says whose video it forwards to `m`, and how high.
fn forward(w: &W, m: usize, videos: Vec<u32>, height: u32) {
    let x = w.g();
    let (room, pc) = (x.mems[m].room, x.mems[m].pc);
    for q in &videos {
        x.rooms[room].forwarded.insert(*q);
        x.heights.insert((pc.unwrap_or(usize::MAX), *q, height));
    }
    let all = x.snapshot(room).0.into_keys().collect();
    let allocated_heights = vec![height; videos.len()];
    unreliable(w, m, SfuToDevice { current_devices: Some(s2d::CurrentDevices { demux_ids_with_video: videos, all_demux_ids: all, allocated_heights }), ..Default::default() });
}
/// Frames that nobody encrypted arrive at `m`, from each of the others.
fn garbage(w: &W, m: usize, n: u64) {
    let x = w.g();
    let Some(pc) = x.mems[m].pc else { return };
    for q in x.snapshot(x.mems[m].room).0.into_keys().filter(|q| *q != x.mems[m].demux) {
        for k in 0..n {
            w.g().garbage += 1;
            let w = w.clone();
            webrtc::on_net(pc, move || {
                w.g().garbage -= 1;
                let mut f: Vec<u8> = (0..60).map(|i| simrt::h3(q as u64, now() + k, i) as u8).collect();
                // To try the keys at a far ratchet counter would take seconds.
                f[39] = 8;
                webrtc::decrypt(pc, q, true, &f);
            });
        }
    }
}
/// A picture of `q` arrives at `m`.
fn show(w: &W, m: usize, q: u32, id: u32) {
    let Some(pc) = w.g().mems[m].pc else { return };
    let w = w.clone();
    webrtc::deliver_video(pc, q, id, now() + draw_below("video-latency", 60 * MS), move |h| {
        w.g().shown.insert((pc, q, h));
        w.g().last_shown.insert((pc, q), h);
    });
}
fn sfu_tick(w: &W) {
    let t = now();
    let n = w.g().mems.len();
    for m in 0..n {
        let x = w.g();
        let mm = &mut x.mems[m];
        if mm.gone.is_none() && mm.last_seen + 30 * S < t {
            probe("sfu-timeout");
            gone(w, m, "timeout");
            continue;
        }
        if mm.gone.is_some_and(|g| g.0 + 30 * S < t) {
            continue;
        }
        let old: Vec<(u64, Vec<u8>)> = mm.tx.iter().filter(|q| q.1 .1 + S <= t).take(8).map(|q| (*q.0, q.1 .0.clone())).collect();
        for (s, b) in old {
            if let Some(q) = w.g().mems[m].tx.get_mut(&s) {
                q.1 = t;
            }
            raw(w, m, b);
        }
        pump(w, m);
        let x = w.g();
        if x.mems[m].gone.is_none() && x.mems[m].active {
            if draw_below("hands", 8) == 0 {
                raised_hands(w, m);
            }
            let x = w.g();
            let room = x.mems[m].room;
            if draw_below("speaker", 12) == 0 {
                let others: Vec<u32> = x.snapshot(room).0.into_keys().collect();
                let s = others[draw_below("who", others.len() as u64) as usize];
                let mut msg = SfuToDevice::default();
                if draw_below("what", 2) == 0 {
                    x.rooms[room].speakers.insert(s);
                    msg.speaker = Some(s2d::Speaker { demux_id: Some(s) });
                } else if !x.steady {
                    return forward(w, m, if draw_below("none", 5) == 0 { vec![] } else { vec![s] }, *[2, 6, 10, 240].get(draw_below("height", 4) as usize).unwrap());
                }
                unreliable(w, m, msg);
            }
            let x = w.g();
            if !x.steady && draw_below("garbage", 30) == 0 {
                garbage(w, m, 1);
            }
            let x = w.g();
            if !x.steady && draw_below("picture", 6) == 0 {
                let others: Vec<u32> = x.rooms[room].forwarded.iter().copied().filter(|q| *q != x.mems[m].demux).collect();
                if !others.is_empty() {
                    show(w, m, others[draw_below("who", others.len() as u64) as usize], draw("picture") as u32);
                }
            }
        }
    }
}
fn sfu_rtp(w: &W, pc: usize, ssrc: u32, seq: u16, ts: u32, data: Vec<u8>) {
    let x = w.g();
    let Some(m) = x.mems.iter().position(|m| m.pc == Some(pc) && m.good) else { return };
    x.mems[m].last_seen = now();
    if ssrc != 1 {
        let mm = &x.mems[m];
        if mm.gone.is_some() || !mm.active || ssrc != mm.demux + 0xD {
            return;
        }
        let (demux, room) = (mm.demux, mm.room);
        let to: Vec<(usize, usize)> = (0..x.mems.len()).filter(|&k| k != m && x.mems[k].room == room && x.mems[k].gone.is_none() && x.mems[k].active && x.mems[k].good).map(|k| (k, x.mems[k].pc.unwrap())).collect();
        for (k, p) in to {
            let mut ssrc = demux + 0xD;
            // A dishonest SFU passes a packet off as someone else's.
            if let Some(v) = fault("sfu-relabels", "rtp", w.g().net.relabel) {
                let x = w.g();
                let l: Vec<u32> = x.mems.iter().filter(|q| q.room == room && q.demux != x.mems[k].demux).map(|q| q.demux).collect();
                ssrc = l[v as usize % l.len()] + 0xD;
                if ssrc != demux + 0xD {
                    *w.g().relayed.entry((p, ssrc - 0xD)).or_insert(0) += 1;
                    webrtc::hop(p, p, PT, seq.wrapping_add(7), ts.wrapping_add(1000), ssrc, &data);
                    continue;
                }
            }
            *w.g().relayed.entry((p, demux)).or_insert(0) += 1;
            webrtc::hop(p, p, PT, seq, ts, ssrc, &data);
        }
        return;
    }
    let Ok(msg) = DeviceToSfu::decode(data.as_slice()) else {
        violate!("G06:garbage", "device {} sent an undecodable message to the SFU", x.mems[m].dev);
        return;
    };
    if let Some(s) = msg.stats.as_ref().filter(|_| x.error_packets.insert((pc, seq))) {
        for e in &s.client_errors {
            let Some(d2s::client_error::Error::Decryption(e)) = &e.error else { continue };
            let k = (pc, e.sender_demux_id());
            *x.errors.entry(k).or_insert(0) += e.count();
            let (said, real) = (x.errors[&k], ether().undecryptable.get(&k).copied().unwrap_or(0) + 2 * x.relayed.get(&k).copied().unwrap_or(0));
            check!(e.count() > 0 && said <= real, "G16:more", "device {} reported {said} decryption failures for {}, but there were {real} at most", x.mems[m].dev, k.1);
            probe("failures-reported");
        }
    }
    if let Some(h) = msg.mrp_header {
        if let Some(a) = h.ack_num {
            let mm = &mut x.mems[m];
            check!(a <= mm.tx_next, "G06:ack", "a client acknowledged a packet that was never sent");
            mm.tx = mm.tx.split_off(&a);
            if mm.removed.is_some() && mm.removed_seq > 0 && a > mm.removed_seq && mm.removed_acked.is_none() {
                mm.removed_acked = Some(now());
            }
            return pump(w, m);
        }
        let mm = &mut x.mems[m];
        let s = h.seqnum.unwrap_or(0);
        if s >= mm.rx_next && s < mm.rx_next + 64 {
            mm.rx.insert(s, (msg, h.num_packets.unwrap_or(0)));
        }
        // Whole messages, in order
        loop {
            let mm = &mut w.g().mems[m];
            let Some((_, n)) = mm.rx.get(&mm.rx_next) else { break };
            let n = (*n).max(1) as u64;
            if !(0..n).all(|i| mm.rx.contains_key(&(mm.rx_next + i))) {
                break;
            }
            let mut parts: Vec<DeviceToSfu> = (0..n).map(|i| mm.rx.remove(&(mm.rx_next + i)).unwrap().0).collect();
            mm.rx_next += n;
            let msg = if n == 1 && parts[0].content.is_none() {
                parts.remove(0)
            } else {
                let body: Vec<u8> = parts.iter().flat_map(|p| p.content.clone().unwrap_or_default()).collect();
                match DeviceToSfu::decode(body.as_slice()) {
                    Ok(v) => v,
                    Err(_) => {
                        violate!("G06:fragments", "a fragmented message to the SFU cannot be put together");
                        continue;
                    }
                }
            };
            sfu_msg(w, m, msg);
        }
        let next = w.g().mems[m].rx_next;
        unreliable(w, m, SfuToDevice { mrp_header: Some(MrpHeader { ack_num: Some(next), ..Default::default() }), ..Default::default() });
        return;
    }
    sfu_msg(w, m, msg)
}
fn sfu_msg(w: &W, m: usize, msg: DeviceToSfu) {
    let x = w.g();
    let mm = &mut x.mems[m];
    let room = mm.room;
    if let Some(v) = msg.video_request {
        mm.request = Some(v);
    }
    if let Some(r) = msg.raise_hand {
        let (up, s) = (r.raise.unwrap_or(false), r.seqnum.unwrap_or(0));
        let demux = mm.demux;
        if s > mm.raise_seq && mm.gone.is_none() && mm.active {
            mm.raise_seq = s;
            if mm.raise != up {
                mm.raise = up;
                x.rooms[room].raised.retain(|d| *d != demux);
                if up {
                    x.mems[m].ever_raised = true;
                    x.rooms[room].raised.push(demux);
                }
                let all: Vec<usize> = (0..x.mems.len()).filter(|&k| k != m && x.mems[k].room == room && x.mems[k].gone.is_none() && x.mems[k].active).collect();
                for k in all {
                    raised_hands(w, k);
                }
            }
        }
        raised_hands(w, m);
    }
    let x = w.g();
    if let Some(a) = msg.admin_action {
        use d2s::AdminAction::*;
        let (k, t) = match a {
            Approve(g) => (0, g.target_demux_id),
            Deny(g) => (1, g.target_demux_id),
            Remove(g) => (2, g.target_demux_id),
            Block(g) => (3, g.target_demux_id),
        };
        let t = t.unwrap_or(0);
        x.mems[m].acts.push((k, t));
        if let Some((d, c)) = x.mems[m].pc.and_then(|p| x.by_pc(p)) {
            let want = &x.devs[d].cls[c].actions;
            let got = &x.mems[m].acts;
            // (approve and deny name a user, so the target is not known)
            let mut i = 0;
            let fits = got.iter().all(|g| {
                while i < want.len() && !(want[i].0 == g.0 && (want[i].1 == g.1 || g.0 < 2)) {
                    i += 1;
                }
                i += 1;
                i <= want.len()
            });
            check!(fits, "G06:actions", "device {d}: the SFU was asked for {got:?} but the application asked for {want:?}");
            probe("admin-action");
        }
        let Some(o) = x.owner(t) else { return };
        if !x.mems[m].admin || x.mems[o].room != room || x.rooms[room].link.is_none() {
            return;
        }
        let user = x.mems[o].user;
        match k {
            0 => {
                x.rooms[room].approved.insert(user);
                if x.mems[o].gone.is_none() && !x.mems[o].active {
                    for q in &mut x.mems {
                        if q.room == room && q.user == user && !q.blocked {
                            q.active = true;
                            q.ever_active = true;
                        }
                    }
                    probe("approved");
                    changed(w, room);
                }
            }
            1 => {
                if !x.mems[o].active {
                    remove(w, o)
                }
            }
            2 => {
                x.rooms[room].approved.remove(&user);
                remove(w, o)
            }
            _ => {
                x.rooms[room].approved.remove(&user);
                x.rooms[room].blocked.insert(user);
                let all: Vec<usize> = (0..x.mems.len()).filter(|&k| x.mems[k].room == room && x.mems[k].user == user).collect();
                for k in all {
                    remove(w, k)
                }
            }
        }
    }
    if msg.leave.is_some() {
        w.g().mems[m].leaves += 1;
        probe("sfu-leave");
        gone(w, m, "left");
    }
}

// ------------------------------------------------------------------------------------------------
// A device: what the application of a user does
impl Cl {
    fn muted(&mut self, t: u64, v: bool) {
        if v {
            self.muted_t = t;
            self.unmuted_t = None;
        } else {
            self.unmuted_t.get_or_insert(t);
        }
    }
    /// What is said of the user's speech must follow from the levels measured.
    fn speech_event(&mut self, d: usize, e: group_call::SpeechEvent) {
        use group_call::SpeechEvent::*;
        let id = self.id;
        let polls = &ether().pcs[self.pc].polls;
        let Some(end) = polls.last().map(|p| p.t) else {
            violate!("X02:speech", "device {d}: client {id} says {e:?} without having listened");
            return;
        };
        check!(self.speech.last().map_or(e == LowerHandSuggestion, |l| *l != e), "X02:speech-twice", "device {d}: client {id} says {e:?} after {:?}", self.speech.last());
        // Between measurements the client may have been held up.
        let slack = 400 * MS + polls.windows(2).filter(|q| q[1].t + 12 * S > end).map(|q| q[1].t - q[0].t).max().unwrap_or(0);
        let unmuted = self.unmuted_t.is_some_and(|u| u + 4 * S + slack < end);
        match e {
            LowerHandSuggestion => {
                let (mut start, mut silent) = (None, None);
                for p in polls {
                    if p.captured > 1000 {
                        silent = None;
                        start = start.or(Some(p.t));
                    } else {
                        let s = *silent.get_or_insert(p.t);
                        if p.t - s >= 3 * S + slack {
                            start = None;
                        }
                    }
                }
                check!(start.is_some_and(|s| s + 5 * S <= end + slack), "X02:speech", "device {d}: client {id} suggests to lower the hand, but speech began at {start:?} and now is {end}");
                check!(self.unmuted_t.is_some() || self.muted_t > 0 && self.muted_t + 4 * S + slack > end, "X02:muted", "device {d}: client {id} hears speech from a muted microphone");
                probe("speech-lower");
            }
            StoppedSpeaking => {
                let spoke = polls.iter().rev().find(|p| p.captured > 1000).map(|p| p.t);
                check!(!unmuted || spoke.is_none_or(|s| s + 3 * S <= end + slack), "X02:speech", "device {d}: client {id} says that the user stopped speaking, who spoke at {spoke:?} and now is {end}");
                probe("speech-stopped");
            }
        }
        self.speech.push(e);
    }
    /// In a calm client, what was said last is up to date.
    fn speech_settled(&self, d: usize) {
        let polls: Vec<_> = ether().pcs[self.pc].polls.iter().filter(|p| p.t + 9 * S > now()).collect();
        let id = self.id;
        check!(polls.windows(2).all(|q| q[1].t < q[0].t + S) && polls.last().is_some_and(|p| p.t + S > now()), "X02:deaf", "device {d}: client {id} does not listen to the microphone");
        check!(self.levels.is_none_or(|i| self.told.last().is_some_and(|t| t + S + i * MS > now())), "X02:levels-lost", "device {d}: client {id} no longer tells the audio levels");
        let lower = self.speech.last() == Some(&group_call::SpeechEvent::LowerHandSuggestion);
        if self.unmuted_t.is_some_and(|u| u + 9 * S < now()) && polls.iter().all(|p| p.captured > 1000) {
            check!(lower, "X02:speech-lost", "device {d}: client {id} does not notice that the user speaks");
            probe("speech-settled");
        }
        if polls.iter().all(|p| p.captured <= 1000) || (self.unmuted_t.is_none() && self.muted_t + 9 * S < now()) {
            check!(!lower, "X02:speech-lost", "device {d}: client {id} does not notice that the user is silent");
            probe("silence-settled");
        }
    }
}
// ------------------------------------------------------------------------------------------------
#[derive(Clone)]
struct H {
    w: W,
    d: usize,
}
#[derive(Clone)]
struct Sink;
impl VideoSink for Sink {
    fn on_video_frame(&self, d: u32, f: VideoFrame) {
        webrtc::look(d, f);
    }
    fn box_clone(&self) -> Box<dyn VideoSink> {
        Box::new(Sink)
    }
}
fn ring_id(era: &str) -> i64 {
    use sha2::Digest;
    if era.len() == 16 {
        if let Ok(v) = u64::from_str_radix(era, 16) {
            return if v == 0 { -1 } else { v as i64 };
        }
    }
    i64::from_le_bytes(sha2::Sha256::digest(era.as_bytes())[..8].try_into().unwrap())
}
impl H {
    fn room_of(&self, gid: &[u8]) -> Option<usize> {
        self.w.g().rooms.iter().position(|r| r.gid == gid)
    }
    /// What the device tells others through the signaling service.
    fn signal(&self, to: Vec<usize>, bytes: Vec<u8>, whole_group: bool) {
        let (w, d) = (&self.w, self.d);
        let x = w.g();
        if x.devs[d].dead {
            return;
        }
        let t = now();
        check!(!x.devs[d].closed, "G01:after-close", "device {d} was given a message after close()");
        let Ok(m) = CallMessage::decode(bytes.as_slice()) else {
            violate!("G03:garbage", "device {d} sent an undecodable call message");
            return;
        };
        let me = x.devs[d].user;
        if let Some(g) = &m.group_call_message {
            let Some(room) = self.room_of(g.group_id()) else {
                violate!("G03:group", "device {d} sent a message for an unknown group");
                return;
            };
            check!(!whole_group, "G03:whole-group", "device {d} sent a message of a call to every member of the group");
            if let Some(k) = &g.media_key {
                let demux = k.demux_id();
                crate::driver::secret_bytes("a media key", k.secret());
                // (One that joined again while it was ending has another one than at first.)
                let again = x.mems.iter().any(|m| m.dev == d && m.room == room && m.demux == demux);
                let Some(c) = x.devs[d].cls.iter().position(|c| c.room == room && (c.demux_id() == Some(demux) || (again && c.joins_seen > 1 && c.ended.is_none()))) else {
                    violate!("G03:demux", "device {d} sent a key for client {demux} of someone else");
                    return;
                };
                let secret: [u8; 32] = k.secret().try_into().unwrap_or([0; 32]);
                for &u in &to {
                    let there = x.devs[d].cls[c].devs.iter().any(|r| user_of(&r.user_id) == Some(u));
                    check!(there, "G03:recipient", "device {d} sent its key to user {u}, who is not in the call");
                    x.keys.push(KeySent { d, c, demux, rc: k.ratchet_counter() as u8, secret, to: u, at: t });
                }
                probe("key-sent");
                let old = *x.secrets.entry(secret).or_insert((d, c));
                check!(old == (d, c), "G03:reuse", "the same key is used by client {:?} and by client {:?}", old, (d, c));
                ev!("dev{d} sends the key {}.{:02x}{:02x} of {demux} to users {to:?}", k.ratchet_counter(), secret[0], secret[1]);
            }
            if let Some(l) = &g.leaving {
                let own = x.devs[d].cls.iter().any(|c| c.demux_id() == l.demux_id && c.room == room && (c.left_api.is_some() || c.disc_api.is_some() || c.join == JoinState::NotJoined(None) || c.removed_by_sfu(x) || c.ice_failed || c.failed || c.joins_seen > 1 || x.net.api));
                check!(own, "G10:announced", "device {d} announced that {:?} leaves, which it does not", l.demux_id);
            }
        }
        if let Some(r) = &m.ring_intention {
            let kind = r.r#type();
            let id = r.ring_id();
            ev!("dev{d} rings {kind:?} {id}");
            let Some(room) = self.room_of(r.group_id()) else {
                violate!("G13:group", "device {d} rings an unknown group");
                return;
            };
            check!(whole_group, "G13:recipients", "device {d} rings only some members");
            if kind == call_message::ring_intention::Type::Ring {
                let own_era = x.rooms[room].eras.iter().any(|(e, u)| *u == me && ring_id(e) == id);
                check!(own_era, "G13:creator", "device {d} rings for a call its user did not start");
                let c = x.devs[d].cls.iter().rposition(|c| c.room == room && c.ring);
                match c {
                    Some(c) => {
                        let c = &mut x.devs[d].cls[c];
                        check!(c.ring_sent.is_none(), "G13:twice", "device {d} rang twice for one call");
                        c.ring_sent = Some(id);
                        c.ring_alone = c.devs.is_empty();
                        probe("ring-sent");
                    }
                    None => violate!("G13:uninvited", "device {d} rings although nobody asked it to"),
                }
            } else if let Some(c) = x.devs[d].cls.iter_mut().rfind(|c| c.room == room && c.ring_sent == Some(id)) {
                check!(!c.ring_cancelled || c.joins_seen > 1, "G13:twice", "device {d} cancelled a ring twice");
                check!((c.ring_alone && !c.ring_met) || c.joins_seen > 1, "G13:cancel", "device {d} cancelled ring {id} although somebody joined");
                c.ring_cancelled = true;
                probe("ring-cancelled");
            } else {
                violate!("G13:cancel", "device {d} cancelled ring {id}, which it never sent");
            }
        }
        if let Some(r) = &m.ring_response {
            ev!("dev{d} answers ring {:?} {:?}", r.ring_id, r.r#type());
            check!(to == [me] && !whole_group, "G13:response", "device {d} told users {to:?} how it answered a ring");
            probe("ring-response");
        }
        let net = x.net.clone();
        let id = x.devs[d].id;
        let targets: Vec<usize> = (0..x.devs.len()).filter(|&i| i != d && !x.devs[i].dead && to.contains(&x.devs[i].user)).collect();
        for i in targets {
            if fault("signaling-loss", "signaling", net.sig_loss).is_some() {
                continue;
            }
            let mut at = now() + MS + draw_below("latency", net.sig_ms.max(1) * MS);
            if let Some(v) = fault("signaling-delay", "signaling", net.sig_delay) {
                at += v % (90 * S);
            }
            let dup = fault("signaling-duplicate", "signaling", net.sig_dup);
            post(w, i, at, Ev::Msg { from: me, dev: id, bytes: bytes.clone(), at: t });
            if let Some(v) = dup {
                post(w, i, at + v % (5 * S), Ev::Msg { from: me, dev: id, bytes: bytes.clone(), at: t });
            }
        }
    }
}
impl SignalingSender for H {
    fn send_signaling(&self, _r: &str, _c: CallId, _v: Option<DeviceId>, _m: signaling::Message) -> Result<()> {
        Ok(())
    }
    fn send_call_message(&self, to: UserId, m: Vec<u8>, _u: group_call::SignalingMessageUrgency) -> Result<()> {
        match user_of(&to) {
            Some(u) => self.signal(vec![u], m, false),
            None => violate!("G03:unknown", "device {} sent a message to an unknown user", self.d),
        }
        Ok(())
    }
    fn send_call_message_to_group(&self, gid: group_call::GroupId, m: Vec<u8>, _u: group_call::SignalingMessageUrgency, only: HashSet<UserId>) -> Result<()> {
        let me = self.w.g().devs[self.d].user;
        let Some(room) = self.room_of(&gid) else {
            violate!("G03:group", "device {} sent a message to an unknown group", self.d);
            return Ok(());
        };
        check!(self.w.g().rooms[room].link.is_none(), "G03:group", "device {} sent a message to the group of a call link", self.d);
        let whole = only.is_empty();
        let mut to: Vec<usize> = if whole { (0..self.w.g().users).filter(|&u| u != me).collect() } else { only.iter().filter_map(|u| user_of(u)).collect() };
        to.sort();
        check!(!to.contains(&me), "G03:self", "device {} sent a group message to its own user", self.d);
        self.signal(to, m, whole);
        Ok(())
    }
    fn send_call_message_to_adhoc_group(&self, m: Vec<u8>, _u: group_call::SignalingMessageUrgency, exp: u64, to: HashMap<UserId, Vec<u8>>) -> Result<()> {
        let (w, d) = (&self.w, self.d);
        if w.g().devs[d].dead {
            return Ok(());
        }
        let gid = CallMessage::decode(m.as_slice()).ok().and_then(|m| m.group_call_message).and_then(|g| g.group_id).unwrap_or_default();
        let Some(room) = self.room_of(&gid) else {
            violate!("E01:group", "device {d} sent a message for an unknown call link");
            return Ok(());
        };
        let mut users = vec![];
        for (u, e) in &to {
            let Some(u) = user_of(u) else {
                violate!("E01:unknown", "device {d} endorses a message to an unknown user");
                continue;
            };
            let ok = w.g().tags.get(&(room, exp, u)).is_some_and(|s| s.iter().any(|tag| zkgroup::serialize(&GroupSendEndorsement { tag: *tag }) == *e));
            check!(ok, "E01:endorsement", "device {d} uses an endorsement for user {u} which the SFU did not issue for that user, room and expiration");
            users.push(u);
        }
        let secs = wall_now(w.g().devs[d].node) as u64 / S;
        check!(exp + slack() / S >= secs, "E01:expired", "device {d} uses an endorsement that expired {} s ago", secs.saturating_sub(exp));
        probe("endorsed-send");
        users.sort();
        self.signal(users, m, false);
        Ok(())
    }
}
impl http::Delegate for H {
    fn send_request(&self, id: u32, req: http::Request) {
        let (w, d) = (&self.w, self.d);
        if w.g().devs[d].dead {
            return;
        }
        // A request is made with the newest proof that was given.
        let x = w.g();
        let net = x.net.clone();
        let by_client = auth(&req).and_then(|s| proof_number(&s)).filter(|p| p.1 > 0);
        if let Some((room, n)) = by_client {
            let late = now().saturating_sub(slack());
            let newest = x.devs[d].cls.iter().filter(|c| c.room == room).map(|c| c.proof.iter().filter(|t| **t < late).count() as u64).min();
            check!(newest.is_none_or(|m| n >= m), "G14:stale", "device {d}: a request for room {room} has proof {n}, but {newest:?} was given long ago");
        }
        if fault("http-loss", "request", net.http_loss).is_some() {
            note_http(w, d, id);
            if by_client.is_some() && req.method == http::Method::Get && draw_below("http-never", 2) == 0 {
                return;
            }
            return post(w, d, now() + 5 * S, Ev::Http(id, None));
        }
        to_sfu(w, now() + MS + draw_below("http-latency", net.http_ms.max(1) * MS), Se::Http { d, id, req });
    }
}
impl Dv {
    /// Whether anything but `who` may have kept the device busy since `since`.
    fn held(&self, who: u64, since: u64) -> bool {
        self.holds.iter().any(|h| h.0 != who && h.2.is_none_or(|u| u + slack() >= since))
    }
    fn hold(&mut self, who: u64) {
        if !self.holds.iter().any(|h| h.0 == who && h.2.is_none()) {
            self.holds.push((who, now(), None));
        }
    }
    fn unhold(&mut self, who: u64) {
        for h in &mut self.holds {
            if h.0 == who && h.2.is_none() {
                h.2 = Some(now());
            }
        }
    }
}
const ONE: u64 = 1 << 40;
impl CallStateHandler for H {
    fn handle_call_state(&self, _p: &str, call: CallId, state: CallState) -> Result<()> {
        let (w, d) = (&self.w, self.d);
        let x = w.g();
        if x.devs[d].dead {
            return Ok(());
        }
        ev!("dev{d} call: {state}");
        let dv = &mut x.devs[d];
        match state {
            CallState::Outgoing(_) => {
                dv.one = Some(call.as_u64());
                dv.one_at = now();
                probe("call-while-group");
                busy_check(w, d);
            }
            CallState::Incoming(_) => violate!("G11:phantom", "device {d} got a call nobody made"),
            CallState::Ended(..) => {
                if dv.one == Some(call.as_u64()) {
                    dv.one = None;
                }
            }
            CallState::Concluded => {
                if dv.one == Some(call.as_u64()) {
                    dv.one = None;
                }
                dv.calls_over += 1;
                if dv.calls_over == dv.calls_made {
                    dv.unhold(ONE);
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn handle_remote_audio_state(&self, _: &str, _: bool) -> Result<()> {
        Ok(())
    }
    fn handle_remote_video_state(&self, _: &str, _: bool) -> Result<()> {
        Ok(())
    }
    fn handle_remote_sharing_screen(&self, _: &str, _: bool) -> Result<()> {
        Ok(())
    }
    fn handle_network_route(&self, _: &str, _: NetworkRoute) -> Result<()> {
        Ok(())
    }
    fn handle_audio_levels(&self, _: &str, c: u16, r: u16) -> Result<()> {
        webrtc::level_told(self.w.g().devs[self.d].node, c, r, 200);
        Ok(())
    }
    fn handle_low_bandwidth_for_video(&self, _: &str, _: bool) -> Result<()> {
        Ok(())
    }
}
/// Who uses the device's microphone: clients and the call.
fn busy_now(x: &World, d: usize) -> Vec<u64> {
    let mut v: Vec<u64> = x.devs[d].cls.iter().filter(|c| busy_state(c.join) && c.ended.is_none()).map(|c| c.id as u64).collect();
    v.extend(x.devs[d].one.map(|_| ONE));
    v
}
/// Something began to use the device: in a while, it must be the only one.
fn busy_check(w: &W, d: usize) {
    let v = busy_now(w.g(), d);
    if v.len() > 1 {
        post(w, d, now() + slack(), Ev::CheckBusy(v));
    }
}
fn same_set(a: &BTreeMap<u32, usize>, v: &[ringrtc::lite::sfu::PeekDeviceInfo]) -> bool {
    v.len() == a.len() && v.iter().all(|p| a.get(&p.demux_id).is_some_and(|u| p.user_id.as_ref().is_none_or(|q| user_of(q) == Some(*u))))
}
/// Is this what the SFU said about `room` at some time since `since`?
fn peek_true(x: &World, room: usize, p: &PeekInfo, since: u64) -> bool {
    let h = &x.rooms[room].hist;
    let fits = (0..h.len()).any(|i| h.get(i + 1).is_none_or(|n| n.0 >= since) && same_set(&h[i].1, &p.devices) && same_set(&h[i].2, &p.pending_devices));
    let era = match &p.era_id {
        None => true,
        Some(e) => x.rooms[room].eras.iter().any(|q| q.0 == *e && p.creator.as_ref().is_none_or(|c| user_of(c) == Some(q.1))),
    };
    fits && era
}
impl GroupUpdateHandler for H {
    fn handle_group_update(&self, u: GroupUpdate) -> Result<()> {
        let (w, d) = (&self.w, self.d);
        if w.g().devs[d].dead {
            return Ok(());
        }
        check!(!w.g().devs[d].closed, "G01:after-close", "device {d} was notified after close()");
        let id = match &u {
            GroupUpdate::RequestMembershipProof(id) | GroupUpdate::RequestGroupMembers(id) | GroupUpdate::ConnectionStateChanged(id, _) | GroupUpdate::JoinStateChanged(id, _) => *id,
            GroupUpdate::RemoteDeviceStatesChanged(id, _) | GroupUpdate::Ended(id, ..) | GroupUpdate::NetworkRouteChanged(id, _) | GroupUpdate::AudioLevels(id, ..) => *id,
            GroupUpdate::Reactions(id, _) | GroupUpdate::RaisedHands(id, _) | GroupUpdate::SpeechEvent(id, _) => *id,
            GroupUpdate::PeekChanged { client_id, .. } | GroupUpdate::RemoteMute { client_id, .. } | GroupUpdate::ObservedRemoteMute { client_id, .. } => *client_id,
            GroupUpdate::LowBandwidthForVideo { group_id, .. } => *group_id,
            GroupUpdate::PeekResult { .. } | GroupUpdate::Ring { .. } | GroupUpdate::RtcStatsReportComplete { .. } => 0,
        };
        match u {
            GroupUpdate::PeekResult { request_id, peek_result } => self.peeked(request_id, peek_result),
            GroupUpdate::Ring { group_id, ring_id, sender_id, update } => self.ring(&group_id, ring_id.into(), &sender_id, update),
            GroupUpdate::RtcStatsReportComplete { .. } => {}
            u => match w.g().cl(d, id) {
                Some(c) => self.update(c, u),
                None => {
                    let early = matches!(u, GroupUpdate::Ended(_, CallEndReason::FailedToCreatePeerConnection | CallEndReason::FailedToCreatePeerConnectionFactory, _)) && w.g().net.api;
                    check!(early, "G01:unknown", "device {d} was notified about client {id}, which does not exist");
                    if let GroupUpdate::Ended(_, why, _) = u {
                        w.g().devs[d].early.insert(id, why);
                    }
                }
            },
        }
        Ok(())
    }
}
impl H {
    fn update(&self, c: usize, u: GroupUpdate) {
        let (w, d) = (&self.w, self.d);
        let t = now();
        let x = w.g();
        let cl = &mut x.devs[d].cls[c];
        let (id, room) = (cl.id, cl.room);
        if cl.ended.is_some() {
            violate!("G01:after-ended", "device {d}: client {id} was heard of after it had ended");
            return;
        }
        // A client speaks from the thread that made its peer connection.
        if cl.pc == usize::MAX {
            match x.pc_by_thread.get(&me()) {
                Some(pc) => cl.pc = *pc,
                None => {
                    check!(matches!(u, GroupUpdate::Ended(_, CallEndReason::FailedToCreatePeerConnection | CallEndReason::FailedToCreatePeerConnectionFactory, _)) && x.net.api, "G01:create", "device {d}: client {id} has no peer connection");
                    cl.ended = Some((t, CallEndReason::FailedToCreatePeerConnection));
                    return;
                }
            }
        }
        match u {
            GroupUpdate::AudioLevels(_, c, r) => {
                check!(cl.levels.is_some(), "X02:unasked", "device {d}: client {id} tells audio levels that nobody asked for");
                let Some(p) = ether().pcs[cl.pc].polls.last_mut() else {
                    violate!("X02:level", "device {d}: client {id} tells audio levels which were never measured");
                    return;
                };
                let r: Vec<(u32, u16)> = r.iter().map(|r| (r.demux_id, r.level)).collect();
                check!(!p.told && p.captured == c && p.received == r, "X02:level", "device {d}: client {id} tells {c} and {r:?} but measured {} and {:?}", p.captured, p.received);
                p.told = true;
                cl.told.push(t);
                let most = (t - cl.told[0]) / (cl.levels.unwrap_or(200) * MS) + 3;
                check!(cl.told.len() as u64 <= most, "X02:often", "device {d}: client {id} told audio levels {} times, {most} at most were asked for", cl.told.len());
                probe("levels");
            }
            GroupUpdate::SpeechEvent(_, e) => cl.speech_event(d, e),
            GroupUpdate::RequestMembershipProof(_) => {
                let ms = [1, 100, 1500][draw_below("proof-ms", 3) as usize];
                post(w, d, t + draw_below("proof", ms * MS), Ev::Proof(id));
            }
            GroupUpdate::RequestGroupMembers(_) => {
                let ms = [1, 100, 1500][draw_below("members-ms", 3) as usize];
                post(w, d, t + draw_below("members", ms * MS), Ev::Members(id));
            }
            GroupUpdate::ConnectionStateChanged(_, s) => {
                use ConnectionState::*;
                let old = cl.conn;
                ev!("dev{d} client {id}: {s:?}");
                let ok = matches!((old, s), (NotConnected, Connecting) | (Connecting, Connected) | (Connected, Reconnecting) | (Reconnecting, Connected) | (Connecting | Connected | Reconnecting, NotConnected));
                check!(ok, "G01:connection", "device {d}: the connection of client {id} went from {old:?} to {s:?}");
                cl.conn = s;
                if s == Connected {
                    check!(ether().pcs[cl.pc].connected_once, "G01:connected", "device {d}: client {id} says it is connected but the peer connection never was");
                    probe(if old == Reconnecting { "reconnected" } else { "connected" });
                }
                if s == NotConnected {
                    check!(ether().pcs[cl.pc].closed, "G01:open", "device {d}: client {id} is disconnected but its peer connection is open");
                }
            }
            GroupUpdate::JoinStateChanged(_, s) => self.join_state(c, s),
            GroupUpdate::RemoteDeviceStatesChanged(_, v) => self.remote(c, v),
            GroupUpdate::PeekChanged { peek_info, .. } => {
                check!(peek_true(x, room, &peek_info, 0), "G02:peek", "device {d}: client {id} reports participants {:?} and {:?}, which the SFU never had", peek_info.devices, peek_info.pending_devices);
                probe("peek-changed");
            }
            GroupUpdate::Ended(_, why, _) => self.ended(c, why),
            GroupUpdate::Reactions(_, v) => {
                for r in v {
                    let from = x.owner(r.demux_id).and_then(|m| x.mems[m].cl.map(|c| (x.mems[m].dev, c)));
                    let said = from.is_some_and(|(e, k)| x.devs[e].cls[k].reactions.contains(&r.value));
                    check!(said, "G08:author", "device {d}: reaction {:?} is attributed to {}, who did not send it", r.value, r.demux_id);
                    let cl = &mut x.devs[d].cls[c];
                    let n = cl.got_reactions.entry((r.demux_id, r.value.clone())).or_insert(0);
                    *n += 1;
                    check!(*n == 1, "G08:twice", "device {d}: reaction {:?} of {} was delivered {n} times", r.value, r.demux_id);
                    probe("reaction");
                }
            }
            GroupUpdate::RaisedHands(_, v) => {
                for q in &v {
                    let up = x.owner(*q).is_some_and(|m| x.mems[m].ever_raised || x.mems[m].dev == d);
                    check!(up, "G09:phantom", "device {d}: client {id} reports a raised hand of {q}, who never raised it");
                }
                x.devs[d].cls[c].raised = v;
                probe("raised-hands");
            }
            GroupUpdate::RemoteMute { mute_source, .. } => {
                let me = cl.demux.unwrap_or(0);
                check!(x.mute_asks.contains(&(mute_source, me)), "G07:mute", "device {d}: client {id} is asked to mute by {mute_source}, who did not ask");
                let n = x.mutes_in.entry((mute_source, me)).or_default();
                check!(*n > 0, "G07:mute-twice", "device {d}: client {id} is asked to mute by {mute_source} more often than it was");
                *n = n.saturating_sub(1);
                probe("remote-mute");
                if draw_below("obey", 4) > 0 {
                    post(w, d, t + draw_below("obey-ms", 300 * MS), Ev::MutedBy(id, mute_source));
                }
            }
            GroupUpdate::ObservedRemoteMute { mute_source, mute_target, .. } => {
                let o = x.owner(mute_target).and_then(|m| x.mems[m].cl.map(|c| (x.mems[m].dev, c)));
                let real = x.mute_asks.contains(&(mute_source, mute_target)) && o.is_some_and(|(e, k)| x.devs[e].cls[k].accepted.contains(&mute_source));
                check!(real, "G07:observed", "device {d}: {mute_source} is said to have muted {mute_target}, which did not happen");
                probe("observed-mute");
            }
            _ => {}
        }
    }
    fn join_state(&self, c: usize, s: JoinState) {
        let (w, d) = (&self.w, self.d);
        let t = now();
        let x = w.g();
        let cl = &mut x.devs[d].cls[c];
        let (id, old) = (cl.id, cl.join);
        ev!("dev{d} client {id}: {s:?}");
        use JoinState::*;
        let ok = match (old, s) {
            (NotJoined(_), Joining) => {
                cl.joins_seen += 1;
                cl.joins_seen <= cl.joins
            }
            (Joining, Pending(_) | Joined(_) | NotJoined(_)) => true,
            (Pending(a), Joined(b)) => a == b,
            (Joined(a), Joined(b)) => a == b,
            (Pending(_) | Joined(_), NotJoined(_)) => true,
            // Reported again by a join that failed half way.
            (NotJoined(_), NotJoined(_)) => x.net.api,
            _ => false,
        };
        check!(ok, "G01:join", "device {d}: client {id} went from {old:?} to {s:?} (the application asked to join {} times)", cl.joins);
        cl.join = s;
        match s {
            Joining => {
                cl.joining_at = t;
                x.devs[d].hold(id as u64);
                busy_check(w, d);
            }
            Pending(q) | Joined(q) => {
                let pending = matches!(s, Pending(_));
                cl.live = s;
                cl.demux = Some(q);
                if !pending && cl.joined_at == 0 {
                    cl.joined_at = t;
                }
                let room = cl.room;
                match x.mems.iter().position(|m| m.demux == q) {
                    Some(m) => {
                        let mm = &mut x.mems[m];
                        check!(mm.dev == d && mm.room == room, "G01:demux", "device {d}: client {id} believes it is {q}, which device {} is", mm.dev);
                        mm.cl = Some(c);
                        if !pending {
                            check!(mm.ever_active, "G01:approved", "device {d}: client {id} says it joined but nobody let it in");
                        }
                        probe(if pending { "pending" } else { "joined" });
                    }
                    None => violate!("G01:demux", "device {d}: client {id} got demux id {q} out of nowhere"),
                }
                let cl = &x.devs[d].cls[c];
                if !pending {
                    check!(!cl.devs.iter().any(|r| r.demux_id == q), "G02:self", "device {d}: client {id} lists itself among the remote devices");
                }
            }
            NotJoined(_) => {
                cl.left_at = Some(t);
                let failed = old == Joining && cl.left_api.is_none() && cl.disc_api.is_none();
                cl.failed |= failed;
                let dj = cl.disc_api.is_some() && cl.ended.is_none();
                if matches!(old, Pending(_) | Joined(_)) {
                    let cl = &x.devs[d].cls[c];
                    let unmet = cl.ring_sent.is_some() && cl.ring_alone && !cl.ring_met && cl.joins_seen == 1;
                    check!(!unmet || cl.ring_cancelled, "G13:not-cancelled", "device {d}: client {id} left before anybody joined and still rings");
                    let media = ether().pcs.get(cl.pc).is_some_and(|p| p.outgoing_media || p.incoming_media);
                    check!(!media, "G10:media", "device {d}: client {id} left and its media is still on");
                }
                x.devs[d].unhold(id as u64);
                // The user tries again right away.
                if (failed && draw_below("retry", 3) == 0) || (dj && draw_below("rejoin", 12) == 0) {
                    post(w, d, t + draw_below("retry-ms", 25 * MS), Ev::JoinCl(id));
                }
            }
        }
    }
    fn remote(&self, c: usize, v: Vec<RemoteDeviceState>) {
        let (w, d) = (&self.w, self.d);
        let t = now();
        let x = w.g();
        let old = std::mem::take(&mut x.devs[d].cls[c].devs);
        let (id, room, me) = (x.devs[d].cls[c].id, x.devs[d].cls[c].room, joined(x.devs[d].cls[c].join));
        let mut seen = BTreeSet::new();
        for o in &old {
            if !v.iter().any(|r| r.demux_id == o.demux_id) {
                x.devs[d].cls[c].gone.insert(o.demux_id);
            }
        }
        for r in &v {
            let q = r.demux_id;
            check!(Some(q) != me, "G02:self", "device {d}: client {id} lists itself among the remote devices");
            check!(seen.insert(q), "G02:duplicate", "device {d}: client {id} lists {q} twice");
            let Some(m) = x.owner(q) else {
                violate!("G02:phantom", "device {d}: client {id} lists {q}, which the SFU never announced");
                continue;
            };
            check!(user_of(&r.user_id) == Some(x.mems[m].user) && x.mems[m].room == room, "G02:user", "device {d}: client {id} believes {q} is another user");
            if let Some(o) = old.iter().find(|o| o.demux_id == q) {
                check!(o.added_time == r.added_time, "G02:added-time", "device {d}: client {id}: when {q} was added changed");
                check!(!o.media_keys_received || r.media_keys_received, "G02:keys-lost", "device {d}: client {id} had the keys of {q} and lost them");
                check!(!o.leaving_received || r.leaving_received, "G10:undone", "device {d}: client {id} no longer believes that {q} leaves");
            } else {
                let cl = &mut x.devs[d].cls[c];
                cl.seen.remove(&q);
                if cl.gone.contains(&q) {
                    cl.back.insert(q);
                }
            }
            check!(r.speaker_time.is_none() || x.rooms[room].speakers.contains(&q), "G02:speaker", "device {d}: client {id} lists {q} as a speaker, but the SFU did not");
            check!(r.forwarding_video != Some(true) || x.rooms[room].forwarded.contains(&q), "G02:forwarding", "device {d}: client {id} believes the video of {q} is forwarded, but the SFU did not say so");
            let pc = x.devs[d].cls[c].pc;
            let a = r.server_allocated_height as u32;
            check!(a == 0 || x.heights.contains(&(pc, q, a)), "G15:allocated", "device {d}: client {id} believes the SFU allocated a height of {a} to {q}, but it did not say so");
            check!((a > 0) == (r.forwarding_video == Some(true)), "G15:allocated", "device {d}: client {id} believes {q} is allocated {a} and forwarded {:?}", r.forwarding_video);
            check!(r.client_decoded_height.is_none_or(|h| x.shown.contains(&(pc, q, h))), "G15:decoded", "device {d}: client {id} believes it decoded video of {q} {:?} high, but it did not", r.client_decoded_height);
            check!(r.heartbeat_state.video_muted != Some(true) || r.client_decoded_height.is_none(), "G15:muted", "device {d}: client {id} believes it decodes video of {q}, who has muted it");
            check!(r.is_higher_resolution_pending == (a > r.client_decoded_height.unwrap_or(0)), "G15:pending", "device {d}: client {id}: {q} is allocated {a}, decoded {:?}, pending {}", r.client_decoded_height, r.is_higher_resolution_pending);
            let mm = &x.mems[m];
            let o = mm.cl.map(|k| &x.devs[mm.dev].cls[k]);
            let left = o.is_none_or(|k| k.left_api.is_some() || k.disc_api.is_some() || k.left_at.is_some() || x.devs[mm.dev].dead || k.removed_by_sfu(x) || k.ice_failed);
            check!(!r.leaving_received || left, "G10:leaving", "device {d}: client {id} believes that {q} leaves, which it does not");
            for s in &r.remote_mute_requesters {
                check!(x.mute_asks.contains(&(*s, q)), "G07:requester", "device {d}: client {id} believes {s} asked {q} to mute");
            }
            let h = &r.heartbeat_state;
            let now_said = [h.audio_muted, h.video_muted, h.presenting, h.sharing_screen];
            if now_said.iter().any(|s| s.is_some()) || h.muted_by_demux_id.is_some() {
                let Some(k) = mm.cl else {
                    violate!("G07:early", "device {d}: client {id} heard the state of {q}, who has not said anything");
                    continue;
                };
                let said = x.devs[mm.dev].cls[k].said.clone();
                let by = h.muted_by_demux_id.is_none_or(|b| x.devs[mm.dev].cls[k].accepted.contains(&b));
                check!(by, "G07:muted-by", "device {d}: client {id} believes {q} was muted by {:?}", h.muted_by_demux_id);
                let e = x.devs[d].cls[c].seen.entry(q).or_default();
                for i in 0..4 {
                    if let Some(b) = now_said[i] {
                        if e[i].last() != Some(&b) {
                            e[i].push(b);
                            let mut j = 0;
                            let ok = e[i].iter().all(|b| {
                                while j < said[i].len() && said[i][j] != *b {
                                    j += 1;
                                }
                                j < said[i].len()
                            });
                            check!(ok, "G07:state", "device {d}: client {id} saw the {} state of {q} as {:?}, but it was {:?}", ["audio", "video", "presenting", "sharing"][i], e[i], said[i]);
                        }
                    }
                }
                probe("heartbeat");
            }
        }
        let there: BTreeSet<usize> = v.iter().filter_map(|r| user_of(&r.user_id)).collect();
        let cl = &mut x.devs[d].cls[c];
        for (u, l) in &mut cl.view {
            if !there.contains(u) {
                if let Some(i) = l.last_mut() {
                    i.1.get_or_insert(t);
                }
            }
        }
        for u in there {
            let l = cl.view.entry(u).or_default();
            if l.last().is_none_or(|i| i.1.is_some()) {
                l.push((t, None));
            }
        }
        ev!("dev{d} client {id} sees {:?}", v.iter().map(|r| (r.demux_id, r.media_keys_received)).collect::<Vec<_>>());
        cl.ring_met |= cl.ring_sent.is_some() && !v.is_empty();
        cl.devs = v;
    }
    fn ended(&self, c: usize, why: CallEndReason) {
        let (w, d) = (&self.w, self.d);
        let t = now();
        let x = w.g();
        ev!("dev{d} client {}: ended {why:?}", x.devs[d].cls[c].id);
        let cl = &mut x.devs[d].cls[c];
        let id = cl.id;
        check!(cl.conn == ConnectionState::NotConnected, "G01:ended-connected", "device {d}: client {id} ended while {:?}", cl.conn);
        check!(!busy_state(cl.join), "G01:ended-joined", "device {d}: client {id} ended while {:?}", cl.join);
        check!(ether().pcs[cl.pc].closed, "G01:open", "device {d}: client {id} ended but its peer connection is open");
        cl.ended = Some((t, why.clone()));
        for l in cl.view.values_mut() {
            if let Some(i) = l.last_mut() {
                i.1.get_or_insert(t);
            }
        }
        let (since, live) = (cl.join_api.saturating_sub(slack()), cl.live);
        let cl = &x.devs[d].cls[c];
        use CallEndReason::*;
        let ok = match why {
            DeviceExplicitlyDisconnected => cl.disc_api.is_some(),
            // It was removed, joined again before it ended, and ends.
            RemovedFromCall | DeniedRequestToJoinCall if cl.joins_seen > 1 => true,
            RemovedFromCall => cl.removed_by_sfu(x) && matches!(live, JoinState::Joined(_)),
            DeniedRequestToJoinCall => cl.removed_by_sfu(x) && (!matches!(live, JoinState::Joined(_)) || cl.left_api.is_some()),
            CallManagerIsBusy => x.devs[d].held(id as u64, since),
            SfuClientFailedToJoin => cl.http_failed,
            HasMaxDevices => cl.full,
            FailedToNegotiatedSrtpKeys => x.mems.iter().any(|m| m.dev == d && m.room == cl.room && m.keys.is_none()),
            FailedToStartPeerConnection | FailedToUpdatePeerConnection => x.net.api,
            IceFailedWhileConnecting | IceFailedAfterConnected => cl.ice_failed,
            _ => false,
        };
        check!(ok, "G14:reason", "device {d}: client {id} ended as {why:?}, which did not happen");
        probe(match why {
            DeviceExplicitlyDisconnected => "end-left",
            RemovedFromCall => "end-removed",
            DeniedRequestToJoinCall => "end-denied",
            CallManagerIsBusy => "end-busy",
            SfuClientFailedToJoin => "end-http",
            HasMaxDevices => "end-full",
            FailedToNegotiatedSrtpKeys => "end-srtp",
            IceFailedWhileConnecting | IceFailedAfterConnected => "end-ice",
            _ => "end-internal",
        });
        x.devs[d].unhold(id as u64);
        post(w, d, t + draw_below("delete", 2 * S), Ev::Delete(id));
    }
    fn peeked(&self, req: u32, r: std::result::Result<PeekInfo, http::ResponseStatus>) {
        let (w, d) = (&self.w, self.d);
        let x = w.g();
        let Some((room, at)) = x.devs[d].peeks.remove(&req) else {
            violate!("G02:peek-twice", "device {d}: peek {req} was answered twice or never asked");
            return;
        };
        match r {
            Ok(p) => {
                check!(p.devices.is_empty() && p.pending_devices.is_empty() && p.era_id.is_none() || peek_true(x, room, &p, at), "G02:peek", "device {d}: a peek found {:?} and {:?}, which the SFU did not have", p.devices, p.pending_devices);
                probe("peek-ok");
            }
            Err(s) => {
                ev!("dev{d} peek: {s}");
                probe("peek-error");
            }
        }
    }
    fn ring(&self, gid: &[u8], id: i64, from: &[u8], u: RingUpdate) {
        let (w, d) = (&self.w, self.d);
        let t = now();
        let x = w.g();
        ev!("dev{d} ring {id}: {u:?}");
        let (Some(room), Some(from)) = (self.room_of(gid), user_of(from)) else {
            violate!("G13:group", "device {d}: a ring of an unknown group or user");
            return;
        };
        let me = x.devs[d].user;
        let got = |k: u8| x.devs[d].got_rings.iter().any(|g| g.0 == room && g.1 == id && g.2 == from && g.3 == k);
        match u {
            RingUpdate::Requested => {
                check!(got(0), "G13:phantom", "device {d} rings for {id}, which nobody sent");
                let fresh = x.devs[d].got_rings.iter().any(|g| g.0 == room && g.1 == id && g.3 == 0 && g.4 <= 60 * S);
                check!(fresh, "G13:stale", "device {d} rings for an expired request");
                let held = x.devs[d].holds.iter().any(|h| h.0 != ONE && h.2.is_none() && h.1 + slack() < t && x.devs[d].cls.iter().any(|c| c.id as u64 == h.0 && c.joined_at > 0 && c.joined_at + slack() < t && c.disc_api.is_none() && c.left_api.is_none() && !c.removed_by_sfu(x) && !c.ice_failed));
                check!(!held || x.net.api, "G13:busy", "device {d} rings although it is in a call");
                x.devs[d].requested.insert((room, id));
                probe("ring-requested");
            }
            RingUpdate::ExpiredRequest => {
                check!(got(0), "G13:phantom", "device {d}: {id} expired, which nobody sent");
                probe("ring-expired");
            }
            RingUpdate::CancelledByRinger => check!(got(1), "G13:phantom", "device {d}: {id} was cancelled, which nobody said"),
            RingUpdate::BusyLocally => {
                check!(got(0), "G13:phantom", "device {d} is busy for {id}, which nobody sent");
                check!(x.devs[d].held(0, t), "G13:not-busy", "device {d} says it is busy, but it is not");
                probe("ring-busy");
            }
            RingUpdate::AcceptedOnAnotherDevice | RingUpdate::DeclinedOnAnotherDevice | RingUpdate::BusyOnAnotherDevice => {
                let k = match u {
                    RingUpdate::AcceptedOnAnotherDevice => 2,
                    RingUpdate::DeclinedOnAnotherDevice => 3,
                    _ => 4,
                };
                check!(from == me && got(k), "G13:elsewhere", "device {d}: {id} was answered elsewhere, which did not happen");
                probe("ring-elsewhere");
            }
        }
    }
}

fn app_thread(w: W, d: usize, mut cm: Cm, app: App) {
    let node = w.g().devs[d].node;
    set_node(node);
    loop {
        let next = w.g().devs[d].inbox.first_key_value().map(|(k, _)| *k);
        let e = match next {
            Some(k) if k.0 <= now() => w.g().devs[d].inbox.remove(&k).unwrap(),
            Some(k) => {
                wait_key(key(d), Some(k.0));
                continue;
            }
            None => {
                wait_key(key(d), None);
                continue;
            }
        };
        if matches!(e, Ev::Quit) {
            return;
        }
        if w.g().devs[d].dead || w.g().devs[d].closed {
            continue;
        }
        handle(&w, d, &mut cm, e, &app);
    }
}
struct App {
    pcf: PeerConnectionFactory,
    audio: AudioTrack,
    video: VideoTrack,
}
fn members(w: &W, room: usize) -> Vec<GroupMember> {
    (0..w.g().users).map(|u| GroupMember { user_id: uuid(u), member_id: member_id(room, u) }).collect()
}
fn handle(w: &W, d: usize, cm: &mut Cm, e: Ev, app: &App) {
    let t = now();
    let user = w.g().devs[d].user;
    match e {
        Ev::Http(id, r) => {
            cm.received_http_response(id, r);
        }
        Ev::Msg { from, dev, bytes, at } => {
            let x = w.g();
            if let Ok(m) = CallMessage::decode(bytes.as_slice()) {
                let age = t - at;
                if let Some(r) = m.ring_intention {
                    if let Some(room) = x.rooms.iter().position(|q| q.gid == r.group_id()) {
                        let k = (r.r#type() != call_message::ring_intention::Type::Ring) as u8;
                        x.devs[d].got_rings.push((room, r.ring_id(), from, k, age));
                    }
                }
                if let Some(r) = m.ring_response {
                    use call_message::ring_response::Type;
                    if let Some(room) = x.rooms.iter().position(|q| q.gid == r.group_id()) {
                        let k = match r.r#type() {
                            Type::Accepted => 2,
                            Type::Declined => 3,
                            _ => 4,
                        };
                        x.devs[d].got_rings.push((room, r.ring_id(), from, k, age));
                    }
                }
            }
            let me = x.devs[d].id;
            cm.received_call_message(uuid(from), dev, me, bytes, Duration::from_nanos(t - at));
        }
        Ev::Proof(id) => {
            if let Some(c) = w.g().cl(d, id) {
                let cl = &mut w.g().devs[d].cls[c];
                let (room, n) = (cl.room, cl.proof.len() as u64 + 1);
                cl.proof.push(t);
                cm.set_membership_proof(id, proof(user, room, n));
            }
        }
        Ev::Members(id) => {
            if let Some(c) = w.g().cl(d, id) {
                let room = w.g().devs[d].cls[c].room;
                cm.set_group_members(id, members(w, room));
            }
        }
        Ev::MutedBy(id, by) => {
            if let Some(c) = w.g().cl(d, id) {
                let cl = &mut w.g().devs[d].cls[c];
                if cl.said[0].last() != Some(&true) {
                    cl.muted_by = Some(by);
                }
                cl.accepted.insert(by);
                cl.said[0].push(true);
                cl.muted(t, true);
                cm.set_outgoing_audio_muted_remotely(id, by);
            }
        }
        Ev::DisconnectCl(id) => disconnect(w, d, cm, id),
        Ev::JoinCl(id) => join(w, d, cm, id),
        Ev::Delete(id) => {
            cm.delete_group_call_client(id);
        }
        Ev::CheckBusy(v) => {
            let still: Vec<u64> = busy_now(w.g(), d).into_iter().filter(|b| v.contains(b)).collect();
            check!(still.len() < 2, "G11:two", "device {d}: {} calls use the microphone at the same time: {still:?}", still.len());
            probe("busy-check");
        }
        Ev::Close => {}
        Ev::Quit => {}
        Ev::Op(o) => op(w, d, cm, o, app),
    }
}
fn join(w: &W, d: usize, cm: &mut Cm, id: u32) {
    if let Some(c) = w.g().cl(d, id) {
        let cl = &mut w.g().devs[d].cls[c];
        if cl.left_api.is_some() {
            return;
        }
        cl.joins += 1;
        cl.join_api = now();
        cm.join(id);
    }
}
fn disconnect(w: &W, d: usize, cm: &mut Cm, id: u32) {
    if let Some(c) = w.g().cl(d, id) {
        let cl = &mut w.g().devs[d].cls[c];
        cl.disc_api.get_or_insert(now());
        cm.disconnect(id);
    }
}
fn create(w: &W, d: usize, cm: &mut Cm, room: usize, app: &App) -> Option<u32> {
    let x = w.g();
    if x.devs[d].cls.iter().filter(|c| c.ended.is_none()).count() >= 3 || x.devs[d].cls.iter().any(|c| c.room == room && c.ended.is_none()) {
        return None;
    }
    let user = x.devs[d].user;
    let admin = x.rooms[room].link.is_some() && user == 0;
    let levels = (draw_below("levels", 4) == 0).then(|| Duration::from_millis([200, 450, 800][draw_below("levels-ms", 3) as usize]));
    let x = w.g();
    let n = x.rng.below(3) * 16;
    let extra = x.rng.bytes(n as usize);
    let id = match x.rooms[room].link.clone() {
        None => cm.create_group_call_client(x.rooms[room].gid.clone(), url(room), levels, Some(app.pcf.clone()), app.audio.clone(), app.video.clone(), Some(Box::new(Sink)), extra.clone()),
        Some(root) => {
            let r = &x.rooms[room];
            let epk = zkgroup::serialize(&zkgroup::EndorsementPublicKey(r.epk));
            let pass = admin.then(|| r.passkey.clone());
            cm.create_call_link_call_client(url(room), &epk, &link_auth(user, room), root, pass, levels, Some(app.pcf.clone()), app.audio.clone(), app.video.clone(), Some(Box::new(Sink)), extra.clone())
        }
    };
    let Some(id) = id else {
        let x = w.g();
        // A client that has just ended may still be there.
        let fading = x.devs[d].cls.iter().any(|c| c.room == room);
        check!(fading || x.net.api, "G01:create", "device {d} could not create a client");
        return None;
    };
    ev!("dev{d} client {id} in room {room}");
    let x = w.g();
    let ended = x.devs[d].early.get(&id).cloned().map(|why| (now(), why));
    check!(!x.devs[d].cls.iter().any(|c| c.id == id), "G01:id", "device {d}: two clients have id {id}");
    x.devs[d].cls.push(Cl {
        id, room, pc: usize::MAX, conn: ConnectionState::NotConnected, join: JoinState::NotJoined(None), ended, demux: None, joins: 0, joining_at: 0, joined_at: 0, left_at: None, left_api: None, disc_api: None, admin,
        devs: vec![], view: BTreeMap::new(), said: Default::default(), seen: BTreeMap::new(), muted_by: None, joins_seen: 0, join_api: 0, live: JoinState::NotJoined(None), must: vec![], accepted: BTreeSet::new(), asked: BTreeSet::new(),
        actions: vec![], reactions: vec![], raise: None, raised: vec![], request: None, mode: None, got_reactions: BTreeMap::new(), gone: BTreeSet::new(), back: BTreeSet::new(), ring: false, ring_sent: None, ring_cancelled: false, ring_alone: false, ring_met: false, proof: vec![], extra, levels: levels.map(|l| l.as_millis() as u64), told: vec![], speech: vec![], muted_t: 0, unmuted_t: None, http_failed: false, failed: false, full: false,
        ice_failed: false,
    });
    if draw_below("stats", 6) == 0 {
        cm.set_rtc_stats_interval(id, Duration::from_secs(1));
    }
    cm.connect(id);
    Some(id)
}
fn data_mode(w: &W) -> DataMode {
    let _ = w;
    match draw_below("mode", 4) {
        0 => DataMode::Low,
        1 => DataMode::Normal,
        k => DataMode::Custom { max_bitrate: DataRate::from_kbps(800), max_group_call_receive_rate: DataRate::from_kbps(300 * k) },
    }
}
fn op(w: &W, d: usize, cm: &mut Cm, o: Op, app: &App) {
    let t = now();
    let x = w.g();
    ev!("dev{d} op {o:?}");
    let cur = x.cur(d);
    match o {
        Op::Create { room, join_ms } => {
            if let Some(id) = create(w, d, cm, room, app) {
                if draw_below("hb", 2) == 0 {
                    let cl = w.g().devs[d].cls.last_mut().unwrap();
                    let v = draw_below("mic", 2) == 0;
                    cl.said[0].push(v);
                    cl.muted(t, v);
                    cl.said[1].push(false);
                    cm.set_outgoing_audio_muted(id, v);
                    cm.set_outgoing_video_muted(id, false);
                }
                match join_ms {
                    Some(0) => join(w, d, cm, id),
                    Some(ms) => post(w, d, now() + ms * MS, Ev::JoinCl(id)),
                    None => {}
                }
            }
            return;
        }
        Op::Call => {
            x.devs[d].calls_made += 1;
            x.devs[d].hold(ONE);
            let me = x.devs[d].id;
            cm.call("nobody".into(), CallMediaType::Audio, me);
            return;
        }
        Op::HangupCall => {
            cm.hangup();
            return;
        }
        Op::Peek(room) => {
            if x.rooms[room].link.is_some() {
                return;
            }
            let dv = &mut x.devs[d];
            dv.npeek += 1;
            let n = dv.npeek;
            dv.peeks.insert(n, (room, t));
            let user = dv.user;
            cm.peek_group_call(n, url(room), proof(user, room, 0), members(w, room));
            return;
        }
        Op::Crash => return crash(w, d),
        Op::Cut(ms) => {
            let node = x.devs[d].node;
            probe("cut");
            return webrtc::cut(node, ms * MS);
        }
        Op::ForgeKey | Op::ForgeLeave => {
            // The user of this device writes to another one about a client that is not theirs.
            let me = x.devs[d].user;
            let v: Vec<(u32, usize)> = x.mems.iter().filter(|m| m.user != me && m.gone.is_none()).map(|m| (m.demux, m.room)).collect();
            if v.is_empty() {
                return;
            }
            let (demux, room) = v[draw_below("victim", v.len() as u64) as usize];
            let to: Vec<usize> = (0..x.devs.len()).filter(|&i| i != d && !x.devs[i].dead && x.devs[i].cls.iter().any(|c| c.room == room && c.ended.is_none())).collect();
            if to.is_empty() {
                return;
            }
            let i = to[draw_below("whom", to.len() as u64) as usize];
            let mut m = DeviceToDevice { group_id: Some(w.g().rooms[room].gid.clone()), ..Default::default() };
            if matches!(o, Op::ForgeKey) {
                let mut secret = [0u8; 32];
                secret[..8].copy_from_slice(&draw("forged").to_le_bytes());
                m.media_key = Some(d2d::MediaKey { ratchet_counter: Some(draw_below("rc", 3) as u32), secret: Some(secret.to_vec()), demux_id: Some(demux) });
                w.g().forged.push((i, demux, secret));
                probe("forged-key");
            } else {
                m.leaving = Some(d2d::Leaving { demux_id: Some(demux) });
                probe("forged-leave");
            }
            let bytes = CallMessage { group_call_message: Some(m), ..Default::default() }.encode_to_vec();
            let dev = w.g().devs[d].id;
            post(w, i, t + MS + draw_below("latency", 300 * MS), Ev::Msg { from: me, dev, bytes, at: t });
            return;
        }
        _ => {}
    }
    let Some(c) = cur else { return };
    let v = draw_below("again", 3) == 0;
    if v && matches!(o, Op::Raise(_)) {
        post(w, d, t + draw_below("again-ms", 900 * MS), Ev::Op(Op::Raise(false)));
    }
    let x = w.g();
    let node = x.devs[d].node;
    let cl = &mut x.devs[d].cls[c];
    let (id, room) = (cl.id, cl.room);
    let active = matches!(cl.join, JoinState::Joined(_)) && cl.conn == ConnectionState::Connected && cl.left_api.is_none() && cl.disc_api.is_none();
    let say = |cl: &mut Cl, i: usize, v: bool| {
        cl.said[i].push(v);
        if i == 0 {
            cl.muted(t, v);
        }
    };
    match o {
        Op::Join => join(w, d, cm, id),
        Op::Leave(ms) => {
            cl.left_api.get_or_insert(t);
            cm.leave(id);
            post(w, d, now() + ms * MS, Ev::DisconnectCl(id));
        }
        Op::Disconnect => disconnect(w, d, cm, id),
        Op::React => {
            let n = x.devs[d].reacted;
            x.devs[d].reacted += 1;
            let v = format!("r{d}-{n}");
            x.devs[d].cls[c].reactions.push(v.clone());
            cm.react(id, v);
        }
        Op::Raise(v) => {
            // A hand that is up is taken down rather than put up again.
            let v = if cl.raise == Some(true) { draw_below("lower", 4) == 0 } else { v };
            cl.raise = Some(v);
            cm.raise_hand(id, v);
        }
        Op::Audio(v) => {
            say(cl, 0, v);
            if !v || cl.said[0].iter().rev().nth(1) != Some(&true) {
                cl.muted_by = None;
            }
            cm.set_outgoing_audio_muted(id, v);
        }
        Op::Video(v) => {
            say(cl, 1, v);
            cm.set_outgoing_video_muted(id, v);
        }
        Op::Present(v) => {
            say(cl, 2, v);
            cm.set_presenting(id, v);
        }
        Op::Share(v) => {
            say(cl, 3, v);
            cm.set_sharing_screen(id, v);
        }
        Op::Request => {
            let mut l: Vec<(u32, u16, u16)> = cl.devs.iter().map(|r| (r.demux_id, 640, 480)).collect();
            l.truncate(draw_below("n", 4) as usize);
            for q in &mut l {
                q.1 = [0, 120, 640, 1280][draw_below("w", 4) as usize];
                q.2 = [0, 90, 480, 720][draw_below("h", 4) as usize];
            }
            if draw_below("unknown", 3) == 0 {
                l.push((7, 320, 240));
            }
            let h = [0, 240, 720][draw_below("a", 3) as usize];
            w.g().devs[d].cls[c].request = Some((l.clone(), h));
            cm.request_video(id, l.into_iter().map(|q| VideoRequest { demux_id: q.0, width: q.1, height: q.2, framerate: None }).collect(), h);
        }
        Op::Mode(_) => {
            let m = data_mode(w);
            w.g().devs[d].cls[c].mode = Some(m);
            cm.set_data_mode(id, m);
        }
        Op::MuteOther => {
            let l: Vec<u32> = cl.devs.iter().map(|r| r.demux_id).collect();
            let me = cl.demux;
            if let (false, Some(me)) = (l.is_empty(), me) {
                let q = l[draw_below("whom", l.len() as u64) as usize];
                w.g().mute_asks.insert((me, q));
                // The network may duplicate it.
                *w.g().mutes_in.entry((me, q)).or_default() += 2;
                probe("mute-asked");
                cm.send_remote_mute_request(id, q);
            }
        }
        Op::Approve(v) => {
            let p: Vec<usize> = x.mems.iter().filter(|m| m.room == room && m.gone.is_none() && !m.active).map(|m| m.user).collect();
            if !p.is_empty() {
                let u = p[draw_below("whom", p.len() as u64) as usize];
                let all: Vec<u32> = w.g().mems.iter().filter(|m| m.user == u).map(|m| m.demux).collect();
                for q in all {
                    w.g().devs[d].cls[c].actions.push((!v as u8, q));
                }
                if v {
                    cm.approve_user(id, uuid(u));
                } else {
                    cm.deny_user(id, uuid(u));
                }
            }
        }
        Op::Remove(block) => {
            let l: Vec<u32> = cl.devs.iter().map(|r| r.demux_id).collect();
            if !l.is_empty() {
                let q = l[draw_below("whom", l.len() as u64) as usize];
                let cl = &mut w.g().devs[d].cls[c];
                let a = (2 + block as u8, q);
                cl.actions.push(a);
                if active {
                    cl.must.push(a);
                }
                if block {
                    cm.block_client(id, q);
                } else {
                    cm.remove_client(id, q);
                }
            }
        }
        Op::Ring => {
            if x.rooms[room].link.is_none() {
                x.devs[d].cls[c].ring = true;
                cm.group_ring(id, None);
            }
        }
        Op::CancelRing => {
            let l: Vec<(usize, i64)> = x.devs[d].requested.iter().copied().collect();
            if let Some((r, i)) = l.last() {
                let why = [None, Some(group_call::RingCancelReason::DeclinedByUser), Some(group_call::RingCancelReason::Busy)][draw_below("why", 3) as usize];
                let gid = w.g().rooms[*r].gid.clone();
                cm.cancel_group_ring(gid, (*i).into(), why);
            }
        }
        Op::Resend => {
            cm.resend_media_keys(id);
        }
        Op::Proof if w.g().rooms[w.g().devs[d].cls[c].room].link.is_none() => post(w, d, t, Ev::Proof(id)),
        _ => {}
    }
    let _ = node;
}
fn crash(w: &W, d: usize) {
    let t = now();
    let x = w.g();
    let (user, id) = (x.devs[d].user, x.devs[d].id);
    x.devs[d].dead = true;
    webrtc::crash(x.devs[d].node);
    probe("crash");
    let n = spawn_dev(w, user, id);
    let held: Vec<_> = x.devs[d].inbox.iter().filter(|(_, e)| matches!(e, Ev::Msg { .. })).map(|(k, _)| *k).collect();
    for k in held {
        if let Some(e) = w.g().devs[d].inbox.remove(&k) {
            post(w, n, k.0.max(t + 500 * MS), e);
        }
    }
}
fn spawn_dev(w: &W, user: usize, id: DeviceId) -> usize {
    let x = w.g();
    let d = x.devs.len();
    let node = d as u32 + 1;
    x.devs.push(Dv {
        user, id, node, dead: false, closed: false, inbox: BTreeMap::new(), cm: None, cls: vec![], one: None, one_at: 0, calls_made: 0, calls_over: 0, holds: vec![], peeks: BTreeMap::new(), npeek: 0, got_rings: vec![], requested: BTreeSet::new(), reacted: 0, early: BTreeMap::new(),
    });
    let old = simrt::node();
    set_node(node);
    let h = H { w: w.clone(), d };
    let pcf = unsafe { PeerConnectionFactory::from_native_factory(ringrtc::webrtc::Arc::from_owned(ringrtc::webrtc::ptr::OwnedRc::from_ptr(webrtc::native_factory(node) as *const _))) };
    let audio = pcf.create_outgoing_audio_track().expect("audio");
    let vs = pcf.create_outgoing_video_source().expect("source");
    let video = pcf.create_outgoing_video_track(&vs).expect("video");
    let platform = NativePlatform::new(pcf.clone(), Box::new(h.clone()), true, Box::new(h.clone()), Box::new(h.clone()));
    let mut cm = Cm::new(platform, http::DelegatingClient::new(h)).expect("call manager");
    cm.set_self_uuid(uuid(user));
    let c2 = cm.clone();
    w.g().devs[d].cm = Some(cm);
    let w2 = w.clone();
    std::thread::Builder::new().name(format!("app{d}")).spawn(move || app_thread(w2, d, c2, App { pcf, audio, video })).expect("thread");
    set_node(old);
    d
}
fn live(w: &W) -> Vec<usize> {
    (0..w.g().devs.len()).filter(|&i| !w.g().devs[i].dead).collect()
}
/// A peer connection has something for the SFU.
fn uplink(w: &W, pc: usize, e: SfuEvent) {
    let x = w.g();
    let node = ether().pcs[pc].node;
    if x.devs[node as usize - 1].dead {
        return;
    }
    match e {
        SfuEvent::Connect { ufrag, server_ufrag, srtp, .. } => to_sfu(w, now() + 5 * MS, Se::Connect { pc, ufrag, server_ufrag, srtp }),
        SfuEvent::Rtp { pt, ssrc, seq, ts, data } => {
            let Some((d, c)) = x.by_pc(pc) else { return };
            check!(pt == PT, "G03:rtp", "device {d} sent RTP data of type {pt}");
            if ssrc != 1 {
                let Some(demux) = x.devs[d].cls[c].demux_id() else {
                    violate!("G03:early", "device {d} sent data to others before it joined");
                    return;
                };
                check!(ssrc == demux + 0xD, "G03:ssrc", "device {d} sent data as {ssrc}, but it is {demux}");
                let n = x.nframes.entry((d, c)).or_insert(0);
                *n += 1;
                if *n <= 300 || *n % 16 == 0 {
                    x.frames.push(Frame { d, c, demux, at: now(), data: data.clone() });
                }
            }
            if webrtc::is_cut(node) {
                return;
            }
            let net = x.net.clone();
            if fault("rtp-loss", "uplink", net.up_loss).is_some() {
                return;
            }
            let at = now() + MS + draw_below("uplink", net.up_ms.max(1) * MS);
            to_sfu(w, at, Se::Rtp { pc, ssrc, seq, ts, data });
        }
        SfuEvent::Closed => {}
    }
}
fn monitor(w: &W, i: usize, m: Mon) {
    let x = w.g();
    if let (Mon::Created, true) = (&m, ether().pcs[i].group) {
        x.pc_by_thread.insert(ether().pcs[i].creator, i);
    }
    if let Mon::Ice(s) = m {
        if let Some((d, c)) = x.by_pc(i) {
            let cl = &mut x.devs[d].cls[c];
            let early = cl.conn == ConnectionState::Connecting && s == Ice::Disconnected;
            cl.ice_failed |= early || matches!(s, Ice::Failed | Ice::Closed);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// What must be true once nothing disturbs the calls any more
// ------------------------------------------------------------------------------------------------
fn wait(ms: u64) {
    sleep_ms(ms)
}
/// Clients that are in a call, on both sides: (device, client, SFU member).
fn settled(w: &W) -> Vec<(usize, usize, usize)> {
    let x = w.g();
    let mut out = vec![];
    for d in 0..x.devs.len() {
        if x.devs[d].dead {
            continue;
        }
        for c in 0..x.devs[d].cls.len() {
            let cl = &x.devs[d].cls[c];
            if cl.ended.is_some() {
                continue;
            }
            let id = cl.id;
            if let Some(t) = cl.disc_api {
                violate!("G01:never-ended", "device {d}: client {id} was told to disconnect {} s ago and has not ended", (now() - t) / S);
                continue;
            }
            let m = cl.demux.and_then(|q| x.owner(q));
            if let Some(m) = m {
                if let Some((_, why)) = x.mems[m].gone {
                    if why == "timeout" {
                        probe("settled-timeout");
                        continue;
                    }
                    check!(x.mems[m].removed_acked.is_none(), "G06:removed", "device {d}: client {id} acknowledged that it was removed but is still {:?}", cl.join);
                    check!(why != "removed", "G06:removed", "device {d}: client {id} was removed {} s ago and is still {:?}", (now() - x.mems[m].gone.unwrap().0) / S, cl.join);
                    check!(why != "left" || cl.left_api.is_some(), "G10:half", "device {d}: client {id} told the SFU that it leaves but is still {:?}", cl.join);
                    continue;
                }
            }
            match cl.join {
                JoinState::Joining => violate!("G01:stuck", "device {d}: client {id} has been joining for {} s", (now() - cl.joining_at) / S),
                JoinState::NotJoined(_) => {}
                JoinState::Pending(_) => {
                    let m = &x.mems[m.unwrap()];
                    check!(!m.active, "G02:pending", "device {d}: client {id} still waits although it was approved");
                    probe("settled-pending");
                }
                JoinState::Joined(_) => {
                    check!(cl.conn == ConnectionState::Connected, "G01:unconnected", "device {d}: client {id} has joined but is {:?}", cl.conn);
                    if cl.conn == ConnectionState::Connected && x.mems[m.unwrap()].pc.is_some() {
                        out.push((d, c, m.unwrap()));
                    }
                }
            }
        }
    }
    out
}
/// Video comes, stops coming and comes back as it was.
fn videos(w: &W, all: &[(usize, usize, usize)]) -> BTreeMap<(usize, u32), u32> {
    let (a, p) = ([2, 6, 10, 240][draw_below("height", 4) as usize], draw("picture") as u32);
    let others = |m: usize| -> Vec<u32> { w.g().snapshot(w.g().mems[m].room).0.into_keys().filter(|q| *q != w.g().mems[m].demux).collect() };
    w.g().steady = true;
    sleep_ms(2500);
    for _ in 0..60 {
        if w.g().garbage == 0 {
            break;
        }
        sleep_ms(1000);
    }
    let failed = ether().undecryptable.clone();
    let said = w.g().errors.clone();
    for &(_, _, m) in all {
        garbage(w, m, 1 + draw_below("garbage", 2));
    }
    // It takes a while to find out that no key fits.
    for _ in 0..60 {
        sleep_ms(1000);
        if w.g().garbage == 0 {
            break;
        }
    }
    sleep_ms(10_000);
    for &(d, c, _) in all {
        let cl = &w.g().devs[d].cls[c];
        if cl.ended.is_none() && matches!(cl.join, JoinState::Joined(_)) {
            cl.speech_settled(d);
        }
    }
    for (round, on) in [false, true, false, true].into_iter().enumerate() {
        for &(_, _, m) in all {
            forward(w, m, if on { others(m) } else { vec![] }, a);
        }
        sleep_ms(500);
        for &(_, _, m) in all {
            for q in others(m).into_iter().filter(|_| on) {
                show(w, m, q, p);
            }
        }
        sleep_ms(500);
        for &(d, c, m) in all {
            let x = w.g();
            let cl = &x.devs[d].cls[c];
            if cl.ended.is_some() || !matches!(cl.join, JoinState::Joined(_)) {
                continue;
            }
            for q in others(m) {
                let Some(r) = cl.devs.iter().find(|r| r.demux_id == q) else { continue };
                // (Who joined last is not known not to be forwarded until anything changes.)
                let unknown = round == 0 && r.forwarding_video.is_none();
                check!(unknown || r.forwarding_video == Some(on), "G15:forwarding", "device {d}: client {} believes the forwarding of {q} is {:?}, but it is {on}", cl.id, r.forwarding_video);
                check!(on || round == 0 || r.client_decoded_height.is_none(), "G15:stale", "device {d}: client {} still believes it decodes video of {q}, which is not forwarded", cl.id);
                if on && r.heartbeat_state.video_muted != Some(true) && ether().pcs[cl.pc].incoming_media {
                    let Some(h) = x.last_shown.get(&(cl.pc, q)) else { continue };
                    check!(r.is_higher_resolution_pending == (a > *h), "G15:behind", "device {d}: client {} has shown video of {q} {h} high, which is forwarded at up to {a}, and says that higher resolution is pending: {}", cl.id, r.is_higher_resolution_pending);
                    probe("video-shown");
                }
            }
        }
    }
    // How many failures the SFU must have been told of once everybody has left.
    let mut due = said;
    for (k, n) in &ether().undecryptable {
        if all.iter().any(|a| w.g().devs[a.0].cls[a.1].pc == k.0) {
            *due.entry(*k).or_insert(0) += n - failed.get(k).copied().unwrap_or(0);
        }
    }
    due
}
fn judge(w: &W, all: &[(usize, usize, usize)]) {
    let x = w.g();
    for &(d, c, m) in all {
        let cl = &x.devs[d].cls[c];
        let (id, me, room) = (cl.id, x.mems[m].demux, cl.room);
        let mut want = x.snapshot(room).0;
        want.remove(&me);
        let have: BTreeMap<u32, usize> = cl.devs.iter().filter_map(|r| Some((r.demux_id, user_of(&r.user_id)?))).collect();
        check!(have == want, "G02:converge", "device {d}: client {id} sees {have:?} but the others are {want:?}");
        probe("settled");
        if have != want {
            continue;
        }
        if want.len() > 1 {
            probe("settled-3");
        }
        let pc = &ether().pcs[cl.pc];
        if let Some((local, ids)) = pc.local.as_ref().and_then(|l| l.group.clone()) {
            let ids: BTreeSet<u32> = ids.into_iter().filter(|q| *q != 0).collect();
            check!(local == me && want.keys().all(|q| ids.contains(q)) && ids.len() == want.len(), "G02:description", "device {d}: the connection of client {id} carries {ids:?} but the others are {want:?}");
        } else {
            violate!("G02:description", "device {d}: the connection of client {id} has no description");
        }
        // Rates
        let share = cl.said[3].last() == Some(&true);
        let (alone, on) = (want.is_empty(), pc.outgoing_media && pc.recording && pc.playout);
        let rates = (pc.min_bitrate, pc.start_bitrate, pc.max_bitrate);
        if alone {
            check!(!pc.outgoing_media && !pc.recording, "G12:alone", "device {d}: client {id} is alone and sends media");
            check!(pc.max_bitrate == 1000, "G12:alone", "device {d}: client {id} is alone and may send {rates:?}");
            probe("rates-alone");
        } else {
            check!(on, "G12:media", "device {d}: client {id} is not alone and its media is off (outgoing {}, recording {}, playout {})", pc.outgoing_media, pc.recording, pc.playout);
            let ok = if share { rates == (500_000, 1_000_000, 2_000_000) } else { pc.max_bitrate == 1_000_000 };
            check!(ok, "G12:rate", "device {d}: client {id} with {} others{} may send {rates:?}", want.len(), if share { ", sharing," } else { "" });
            probe(if share { "rates-sharing" } else { "rates" });
        }
        if let Some((l, h)) = &cl.request {
            let kbps = cl.mode.map(|m| match m {
                DataMode::Low => 500,
                DataMode::Normal => 20_000,
                DataMode::Custom { max_group_call_receive_rate: r, .. } => r.as_kbps() as u32,
            });
            let mut want: Vec<(u32, u32)> = l.iter().filter(|q| want.contains_key(&q.0)).map(|q| (q.0, q.1.min(q.2) as u32)).collect();
            want.sort();
            match &x.mems[m].request {
                None => violate!("G12:request", "device {d}: the SFU never learned what video client {id} wants"),
                Some(r) => {
                    let mut got: Vec<(u32, u32)> = r.requests.iter().map(|q| (q.demux_id(), q.height())).collect();
                    got.sort();
                    check!(got == want && r.active_speaker_height == Some(*h as u32), "G12:request", "device {d}: client {id} requested {got:?} of the SFU but the application asked for {want:?}");
                    check!(r.max_kbps == kbps || (kbps.is_none() && r.max_kbps.is_some()), "G12:receive-rate", "device {d}: client {id} may receive {:?} kbps but the limit is {kbps:?}", r.max_kbps);
                    probe("video-request");
                }
            }
        }
        // Raised hands
        let hands: BTreeSet<u32> = cl.raised.iter().copied().collect();
        let real: BTreeSet<u32> = x.rooms[room].raised.iter().copied().collect();
        check!(hands == real, "G09:converge", "device {d}: client {id} sees raised hands {hands:?} but {real:?} are up");
        if let Some(r) = cl.raise {
            check!(x.mems[m].raise == r, "G09:lost", "device {d}: the hand of client {id} should be {r} but the SFU has {}", x.mems[m].raise);
            probe("hand-settled");
        }
        // Actions
        if pc.send_failures == 0 {
            let got: Vec<(u8, u32)> = x.mems[m].acts.iter().copied().filter(|a| a.0 >= 2).collect();
            let mut i = 0;
            for a in &cl.must {
                let p = got[i.min(got.len())..].iter().position(|g| g == a);
                check!(p.is_some(), "G06:lost", "device {d}: the SFU was never told of action {a:?} of client {id} (it was told {got:?}, the application asked for {:?})", cl.must);
                i += p.unwrap_or(0) + 1;
                probe("action-arrived");
            }
        }
        for r in &cl.devs {
            let q = r.demux_id;
            let o = x.owner(q).unwrap();
            let Some((e, k)) = x.mems[o].cl.map(|k| (x.mems[o].dev, k)) else { continue };
            if !all.iter().any(|a| a.0 == e && a.1 == k) {
                continue;
            }
            let said = &x.devs[e].cls[k];
            let h = &r.heartbeat_state;
            let got = [h.audio_muted, h.video_muted, h.presenting, h.sharing_screen];
            for i in 0..4 {
                check!(got[i] == said.said[i].last().copied(), "G07:stale", "device {d}: client {id} believes the {} state of {q} is {:?}, but it is {:?}", ["audio", "video", "presenting", "sharing"][i], got[i], said.said[i].last());
            }
            check!(h.muted_by_demux_id == said.muted_by, "G07:stale", "device {d}: client {id} believes {q} was muted by {:?}, but it was {:?}", h.muted_by_demux_id, said.muted_by);
            check!(r.media_keys_received || cl.back.contains(&q), "G05:no-keys", "device {d}: client {id} has no keys of {q}");
            check!(!r.leaving_received, "G10:leaving", "device {d}: client {id} believes that {q} leaves, which it does not");
        }
    }
}
/// Everyone can understand everyone else; forged keys open nothing.
fn listen(w: &W, all: &[(usize, usize, usize)]) {
    let x = w.g();
    let mut jobs: Vec<(usize, usize, u32, Vec<u8>)> = vec![];
    let out: Shr<BTreeMap<usize, Option<Vec<u8>>>> = Shr::new(BTreeMap::new());
    for (n, &(d, c, _)) in all.iter().enumerate() {
        let (pc, o2) = (x.devs[d].cls[c].pc, out.clone());
        let plain = vec![n as u8 + 1; 40];
        webrtc::on_net(pc, move || {
            let v = webrtc::encrypt(pc, n % 2 == 0, &plain);
            o2.g().insert(n, v);
        });
    }
    for _ in 0..60 {
        wait(500);
        if out.g().len() == all.len() {
            break;
        }
    }
    let sent = std::mem::take(out.g());
    for (n, &(d, c, m)) in all.iter().enumerate() {
        let Some(Some(ct)) = sent.get(&n) else {
            violate!("G05:encrypt", "device {d}: client {} cannot encrypt", x.devs[d].cls[c].id);
            continue;
        };
        check!(ct.windows(20).all(|v| v != [n as u8 + 1; 20]), "G05:plain", "device {d}: client {} sends media in the clear", x.devs[d].cls[c].id);
        for (k, &(e, f, _)) in all.iter().enumerate() {
            if k != n && x.devs[e].cls[f].room == x.devs[d].cls[c].room {
                jobs.push((k, n, x.mems[m].demux, ct.clone()));
            }
        }
    }
    let res: Shr<BTreeMap<usize, bool>> = Shr::new(BTreeMap::new());
    for (i, (k, n, demux, ct)) in jobs.iter().cloned().enumerate() {
        let (pc, r2) = (x.devs[all[k].0].cls[all[k].1].pc, res.clone());
        webrtc::on_net(pc, move || {
            let p = webrtc::decrypt(pc, demux, n % 2 == 0, &ct);
            r2.g().insert(i, p == Some(vec![n as u8 + 1; 40]));
        });
    }
    // Forged keys
    let mut forged = vec![];
    for (i, demux, secret) in x.forged.clone() {
        for &(d, c, _) in all {
            if d == i && x.devs[d].cls[c].devs.iter().any(|r| r.demux_id == demux) {
                forged.push((d, x.devs[d].cls[c].pc, demux, secret));
            }
        }
    }
    let bad: Shr<BTreeMap<usize, bool>> = Shr::new(BTreeMap::new());
    for (i, (_, pc, demux, secret)) in forged.iter().cloned().enumerate() {
        let b2 = bad.clone();
        webrtc::on_net(pc, move || {
            let mut any = false;
            for turns in 0..3u8 {
                let mut ct = vec![9u8; 30];
                let mut f = vec![];
                atomic(|| {
                    let mut cx = crypto::Context::new(secret);
                    for _ in 0..turns {
                        cx.advance_send_ratchet();
                    }
                    let mut mac = crypto::Mac::default();
                    let (rc, n) = cx.encrypt(&mut ct, &mut mac).expect("encrypt");
                    f.extend_from_slice(&ct);
                    f.push(rc);
                    f.extend_from_slice(&(n as u32).to_be_bytes());
                    f.extend_from_slice(&mac);
                });
                any |= webrtc::decrypt(pc, demux, true, &f).is_some();
            }
            b2.g().insert(i, any);
        });
    }
    for _ in 0..60 {
        wait(500);
        if res.g().len() == jobs.len() && bad.g().len() == forged.len() {
            break;
        }
    }
    for (i, (k, n, demux, _)) in jobs.iter().enumerate() {
        let (d, e) = (all[*k].0, all[*n].0);
        check!(res.g().get(&i) == Some(&true), "G05:decrypt", "device {d} cannot understand device {e} (client {demux})");
        probe("understood");
    }
    for (i, (d, _, demux, _)) in forged.iter().enumerate() {
        let r = bad.g().get(&i).copied();
        check!(r == Some(false), "G04:key", "device {d} accepted a key for {demux} which someone else sent ({r:?})");
        probe("forgery-tested");
    }
}
/// Keys open what their receivers may hear, and nothing else.
fn secrecy(w: &W) {
    let x = w.g();
    // A new key is used five seconds after it was sent, and waits for the one before it.
    let grace = 10 * S + slack();
    let mut done: BTreeSet<(usize, [u8; 32], u8, u32)> = BTreeSet::new();
    let mut tested = 0u64;
    for k in &x.keys {
        if !done.insert((k.to, k.secret, k.rc, k.demux)) {
            continue;
        }
        let view = x.devs[k.d].cls[k.c].view.get(&k.to).cloned().unwrap_or_default();
        let until = |b: u64| b + grace;
        if k.to == x.devs[k.d].user {
            // Another device of one's own user; the user is in the call all the time.
            continue;
        }
        let allowed = |t: u64| view.iter().any(|i| i.0 <= t + MS && i.1.is_none_or(|b| t <= until(b)));
        for f in x.frames.iter().filter(|f| f.d == k.d && f.c == k.c && !allowed(f.at)) {
            tested += 1;
            if tested > 3000 {
                return;
            }
            let n = f.data.len();
            if n < 21 {
                continue;
            }
            let opened = atomic(|| {
                let mut cx = crypto::Context::new([0; 32]);
                cx.add_receive_secret(1, k.rc, k.secret);
                let (mut body, foot) = (f.data[..n - 21].to_vec(), &f.data[n - 21..]);
                let mac: crypto::Mac = foot[5..].try_into().unwrap();
                cx.decrypt(1, foot[0], u32::from_be_bytes(foot[1..5].try_into().unwrap()) as u64, &mut body, &mac).is_ok()
            });
            let span: Vec<_> = view.iter().map(|i| (i.0 / MS, i.1.map(|b| b / MS))).collect();
            check!(!opened, "G03:secrecy", "user {} can decrypt what device {} sent at {} ms but was in the call at {span:?}", k.to, k.d, f.at / MS);
            probe("secrecy-tested");
        }
    }
}
pub struct Mix {
    links: bool,
    ops: u64,
    users: u64,
}
fn scenario(seed: u64, mx: Mix) {
    crate::driver::watch_log();
    crate::driver::log_level(if seed % 4 == 0 { log::LevelFilter::Off } else { log::LevelFilter::Info });
    let mut r = Rng::derive(seed, "group");
    let pick = |r: &mut Rng, v: &[u64]| *r.pick(v);
    let bad = pick(&mut r, &[0, 1, 1, 2, 2, 3]);
    let f = |r: &mut Rng, v: &[u64]| if bad == 0 { 0 } else { *r.pick(v) };
    let api = bad == 3 && r.chance(1, 3);
    let rates = Rates {
        ice_delay_ms: pick(&mut r, &[5, 300, 3000]),
        ice_fail: f(&mut r, &[0, 0, 0, 8]),
        ice_drop: f(&mut r, &[0, 0, 4]),
        rtp_loss: f(&mut r, &[0, 0, 3, 12]),
        rtp_dup: 0,
        rtp_delay: f(&mut r, &[0, 3]),
        rtp_delay_ms: pick(&mut r, &[50, 1000]),
        candidates: 1,
        api_fail: if api { pick(&mut r, &[60, 15]) } else { 0 },
        ..Default::default()
    };
    webrtc::init(rates);
    let net = Net {
        http_loss: f(&mut r, &[0, 0, 10]),
        http_err: f(&mut r, &[0, 0, 10]),
        http_ms: pick(&mut r, &[5, 300, 3000]),
        sig_loss: f(&mut r, &[0, 0, 6]),
        sig_dup: f(&mut r, &[0, 0, 5]),
        sig_delay: f(&mut r, &[0, 0, 8]),
        sig_ms: pick(&mut r, &[5, 300, 2000]),
        up_loss: f(&mut r, &[0, 0, 3, 10]),
        up_ms: pick(&mut r, &[5, 60, 400]),
        weak_dhe: if bad >= 2 { f(&mut r, &[0, 0, 6]) } else { 0 },
        relabel: f(&mut r, &[0, 0, 4]),
        api,
    };
    let users = r.range(2, mx.users) as usize;
    let nrooms = r.range(1, 2) as usize;
    let mut rooms = vec![];
    for i in 0..nrooms {
        let link = mx.links && (i == 0 || r.chance(1, 2));
        let root = link.then(|| {
            use rand::SeedableRng;
            let k = CallLinkRootKey::generate(rand::rngs::StdRng::seed_from_u64(r.next()));
            // What the server makes of it: a key of the current version with an epoch, or one of the old version.
            let mut b = k.as_slice().to_vec();
            b[16] = 1;
            b[17..21].copy_from_slice(&(r.next() as u32).to_be_bytes());
            if r.chance(1, 4) {
                b.truncate(16);
            }
            CallLinkRootKey::try_from(b.as_slice()).expect("a valid root key")
        });
        let gid = match &root {
            Some(k) => k.derive_room_id(),
            None => {
                let mut g = r.bytes(32);
                g[0] = i as u8;
                g
            }
        };
        let mut epk = [0u8; 32];
        epk.copy_from_slice(&r.bytes(32));
        let passkey = r.bytes(16);
        if let Some(k) = &root {
            crate::driver::secret_bytes("a call link's root key", k.as_slice());
            crate::driver::secret("a call link's root key", vec![k.to_formatted_string()]);
            crate::driver::secret_bytes("a call link's passkey", &passkey);
        }
        rooms.push(Room {
            link: root, gid, epk, passkey, approval: link && r.chance(1, 2), max: if r.chance(1, 6) { 2 } else { 16 }, era: None, eras: vec![], creator: None, approved: BTreeSet::new(), blocked: BTreeSet::new(),
            hist: vec![(0, BTreeMap::new(), BTreeMap::new())], mode: r.below(4) as u8, exp: 0, raised: vec![], speakers: BTreeSet::new(), forwarded: BTreeSet::new(),
        });
    }
    let w: W = Shr::new(World {
        devs: vec![], users, rooms, mems: vec![], net: net.clone(), sfu: BTreeMap::new(), seq: 0, rng: Rng::derive(seed, "sfu"), keys: vec![], secrets: BTreeMap::new(), frames: vec![], nframes: BTreeMap::new(), tags: BTreeMap::new(),
        mute_asks: BTreeSet::new(), mutes_in: BTreeMap::new(), forged: vec![], pc_by_thread: BTreeMap::new(), heights: BTreeSet::new(), shown: BTreeSet::new(), last_shown: BTreeMap::new(), errors: BTreeMap::new(), error_packets: BTreeSet::new(), relayed: BTreeMap::new(), steady: false, garbage: 0, stopped: false,
    });
    let w2 = w.clone();
    ether().monitor = Some(Box::new(move |i, m| monitor(&w2, i, m)));
    let w2 = w.clone();
    ether().sfu = Some(Box::new(move |i, e| uplink(&w2, i, e)));
    let w2 = w.clone();
    std::thread::Builder::new().name("sfu".into()).spawn(move || sfu_thread(w2)).expect("thread");
    to_sfu(&w, now() + 250 * MS, Se::Tick);
    for u in 0..users {
        for k in 0..if r.chance(1, 3) { 2 } else { 1 } {
            spawn_dev(&w, u, k as u32 + 1);
        }
    }
    let secs = wall_now(1) as u64 / S;
    for q in &mut w.g().rooms {
        q.exp = secs + 86_400;
    }
    // Most users join the first call.
    for d in live(&w) {
        let mut r = Rng::new(h3(seed, 78, d as u64));
        if r.chance(3, 4) {
            let at = now() + { let m = *r.pick(&[1, 300, 8000]); r.below(m) } * MS;
            post(&w, d, at, Ev::Op(Op::Create { room: 0, join_ms: Some(*r.pick(&[0, 0, 5, 1000])) }));
        }
    }
    sleep_ms(*r.pick(&[0, 500, 9000]));
    let n = r.range(2, mx.ops);
    for i in 0..n {
        if !op_kept(i) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 77, i));
        let l = live(&w);
        let d = *r.pick(&l);
        let room = r.below(nrooms as u64) as usize;
        let o = match r.below(if bad == 0 { 50 } else { 60 }) {
            0..=6 => Op::Create { room, join_ms: *r.pick(&[Some(0), Some(0), Some(30), Some(2000), None]) },
            7 => Op::Join,
            8..=9 => Op::Leave(*r.pick(&[0, 5, 500])),
            10..=12 => Op::Disconnect,
            13..=16 => Op::React,
            17..=19 => Op::Raise(r.chance(2, 3)),
            20..=22 => Op::Audio(r.chance(1, 3)),
            23 => Op::Video(r.chance(1, 2)),
            24 => Op::Present(r.chance(1, 2)),
            25..=26 => Op::Share(r.chance(2, 3)),
            27..=28 => Op::Request,
            29 => Op::Mode(0),
            30..=32 => Op::MuteOther,
            33..=35 => Op::Approve(r.chance(3, 4)),
            36..=38 => Op::Remove(r.chance(1, 4)),
            39..=41 => Op::Ring,
            42 => Op::CancelRing,
            43 => match r.below(3) {
                0 => Op::Proof,
                _ => Op::Resend,
            },
            44..=45 => Op::Call,
            46 => match r.below(3) {
                0 => Op::Proof,
                _ => Op::HangupCall,
            },
            47..=48 => Op::Peek(room),
            49 => Op::ForgeKey,
            50..=52 => Op::ForgeKey,
            53 => Op::ForgeLeave,
            54..=56 => Op::Crash,
            _ => Op::Cut(*r.pick(&[3000, 9000, 25_000])),
        };
        let at = now() + { let m = *r.pick(&[1, 50, 2000]); r.below(m) } * MS;
        post(&w, d, at, Ev::Op(o));
        sleep_ms(*r.pick(&[0, 1, 30, 500, 500, 3000, 7000]));
    }
    sleep_ms(3000);
    // Faults stop.
    faults_off();
    schedule_calm();
    webrtc::heal();
    {
        let x = w.g();
        x.net = Net { http_ms: 50, sig_ms: 50, up_ms: 30, api, ..Default::default() };
        for d in live(&w) {
            post(&w, d, now(), Ev::Op(Op::HangupCall));
        }
    }
    sleep_ms(45_000);
    for d in live(&w) {
        let x = w.g();
        let mut cm = x.devs[d].cm.clone().unwrap();
        for id in x.devs[d].cls.iter().filter(|c| c.ended.is_none()).map(|c| c.id).collect::<Vec<_>>() {
            cm.resend_media_keys(id);
        }
        atomic(|| drop(cm));
    }
    sleep_ms(6000);
    let all = settled(&w);
    judge(&w, &all);
    listen(&w, &all);
    let due = videos(&w, &all);
    atomic(|| secrecy(&w));
    // Everybody leaves.
    let quiet_at = now();
    for d in live(&w) {
        for id in w.g().devs[d].cls.iter().filter(|c| c.ended.is_none()).map(|c| c.id).collect::<Vec<_>>() {
            post(&w, d, now(), Ev::DisconnectCl(id));
        }
    }
    sleep_ms(8000);
    for d in live(&w) {
        for c in &w.g().devs[d].cls {
            check!(c.ended.is_some(), "G01:never-ended", "device {d}: client {} never ended", c.id);
        }
    }
    for m in &w.g().mems {
        if all.iter().any(|a| w.g().mems[a.2].demux == m.demux) {
            check!(m.gone.is_some_and(|g| g.0 >= quiet_at && g.1 == "left"), "G10:lost", "client {} of device {} left but the SFU was not told ({:?})", m.demux, m.dev, m.gone);
            probe("leave-told");
        }
    }
    for (k, n) in due {
        let told = w.g().errors.get(&k).copied().unwrap_or(0);
        check!(told >= n, "G16:fewer", "{n} decryption failures for {} were due, and {told} were reported", k.1);
        check!(told <= n, "G16:twice", "{n} decryption failures for {} were due, and {told} were reported", k.1);
    }
    for d in live(&w) {
        check!(w.g().devs[d].peeks.is_empty(), "G02:peek-lost", "device {d}: peeks {:?} were never answered", w.g().devs[d].peeks);
    }
    // And comes back.
    sleep_ms(35_000);
    let rooms = w.g().rooms.len();
    for q in &mut w.g().rooms {
        q.max = 64;
        q.approval = false;
        q.blocked.clear();
    }
    for d in live(&w) {
        post(&w, d, now(), Ev::Op(Op::Create { room: d % rooms, join_ms: Some(0) }));
    }
    sleep_ms(20_000);
    for d in live(&w) {
        let c = w.g().devs[d].cls.last();
        let ok = c.is_some_and(|c| matches!(c.join, JoinState::Joined(_)) && c.conn == ConnectionState::Connected);
        check!(ok || api, "G11:locked-out", "device {d} cannot join a call although it is in none: {:?}", c.map(|c| (c.conn, c.join, &c.ended)));
        probe("back");
    }
    let back: Vec<_> = settled(&w);
    judge(&w, &back);
    listen(&w, &back);
    for d in live(&w) {
        for id in w.g().devs[d].cls.iter().filter(|c| c.ended.is_none()).map(|c| c.id).collect::<Vec<_>>() {
            post(&w, d, now(), Ev::DisconnectCl(id));
        }
    }
    sleep_ms(6000);
    for d in live(&w) {
        for c in &w.g().devs[d].cls {
            check!(c.ended.is_some(), "G01:never-ended", "device {d}: client {} never ended", c.id);
        }
        let node = w.g().devs[d].node;
        let open = ether().pcs.iter().filter(|p| p.node == node && !p.closed).count();
        check!(open == 0, "G01:open", "device {d}: {open} peer connections are open after every call ended");
        let mut cm = w.g().devs[d].cm.clone().unwrap();
        let t0 = now();
        cm.close();
        w.g().devs[d].closed = true;
        check!(now() - t0 < 10 * S, "G01:slow", "close() took {} ms", (now() - t0) / MS);
        let left: Vec<String> = live_threads(node).into_iter().filter(|n| !n.starts_with("app") && !n.starts_with("sig") && !n.starts_with("net")).collect();
        check!(left.is_empty(), "G01:threads", "device {d}: threads {left:?} are left after close()");
    }
    w.g().stopped = true;
    notify_key(SFU_KEY);
    let all = live(&w);
    for &d in &all {
        w.g().devs[d].cm = None;
        post(&w, d, now(), Ev::Quit);
    }
    sleep_ms(1000);
    for d in all {
        let left = webrtc::leftovers(w.g().devs[d].node);
        check!(left.is_empty(), "W01:leak", "device {d}: nobody uses the library any more, but it still holds {left:?}");
        probe("all-released");
    }
}
fn run_group(seed: u64) {
    scenario(seed, Mix { links: false, ops: 24, users: 3 })
}
fn run_link(seed: u64) {
    scenario(seed, Mix { links: true, ops: 24, users: 3 })
}
fn group_cfg(seed: u64) -> SchedCfg {
    let mut c = SchedCfg::swarm(seed);
    c.max_steps = 1_000_000_000;
    c.gap = if c.gap > 0 { c.gap.max(500) } else { 0 };
    c
}

pub fn props() -> Vec<Prop> {
    // The logs of 1:1 calls are watched too.
    const CALLS: Scenario = Scenario { quick: 1500, thorough: 20000, ..super::call::ANY };
    const GLARE: Scenario = Scenario { quick: 1000, thorough: 10000, ..super::call::GLARE };
    const GROUP: Scenario = Scenario { name: "groups", quick: 1500, thorough: 40000, cfg: group_cfg, run: run_group };
    const LINK: Scenario = Scenario { name: "links", quick: 1500, thorough: 40000, cfg: group_cfg, run: run_link };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[GROUP, LINK],
        rule: "one execution = one seed's users, devices, rooms, actions, network and SFU faults, and thread schedule",
        must_probe,
        real: &["core::{group_call, call_manager, crypto, endorsements}", "lite::{sfu, http, call_links}", "mrp", "native", "webrtc wrappers (peer_connection, observers, factory)", "common::actor", "std::thread, std::sync"],
        stubs: &["WebRTC C++ library (media, ICE, SDP)", "SFU, signaling service and application", "zkgroup (toy keyed constructions)", "kernel scheduler, futexes, clock, randomness (simulated)"],
        assumptions: &["the application follows leave() with disconnect()", "the SFU keeps its reliable streams in order"],
    };
    let mut p = mk("P01", &["log-line", "redacted"]);
    p.scenarios = &[CALLS, GLARE, GROUP, LINK];
    p.real = &["core::{util, call, connection, call_manager, group_call, crypto}", "webrtc wrappers (peer_connection, observers, factory)", "lite::{sfu, http, call_links}", "native", "mrp", "std::thread, std::sync"];
    let mut lib = mk("W01", &["library-callback", "all-released"]);
    lib.scenarios = &[CALLS, GLARE, GROUP, LINK];
    lib.real = &["webrtc wrappers (arc, ptr, peer_connection, sdp_observer, stats_observer, rtp_observer, factory, media)", "core::{call, connection, call_manager, group_call}", "native", "common::actor", "std::thread, std::sync"];
    let mut audio = mk("X02", &["levels", "speech-lower", "speech-stopped", "speech-settled", "silence-settled"]);
    audio.scenarios = &[CALLS, GROUP, LINK];
    let mut video = mk("X01", &["frame-taken", "frame-shown"]);
    video.scenarios = &[CALLS, GLARE, GROUP, LINK];
    video.real = &["webrtc wrappers (media, peer_connection_observer, factory)", "core::{connection, group_call}", "native", "common::actor", "std::thread, std::sync"];
    vec![
        p,
        video,
        audio,
        mk("G16", &["failures-reported"]),
        mk("G15", &["video-shown", "frame-shown"]),
        mk("G01", &["joined", "connected", "reconnected", "end-left", "back"]),
        mk("G02", &["settled", "settled-3", "peek-changed", "pending", "peek-ok"]),
        mk("G03", &["key-sent", "secrecy-tested"]),
        mk("G04", &["forgery-tested"]),
        mk("G05", &["sfu-connected", "understood"]),
        mk("G06", &["sfu-removed", "admin-action", "action-arrived", "sfu-fragmented"]),
        mk("G07", &["heartbeat", "remote-mute", "observed-mute"]),
        mk("G08", &["reaction"]),
        mk("G09", &["raised-hands", "hand-settled"]),
        mk("G10", &["sfu-leave", "leave-told"]),
        mk("G11", &["call-while-group", "back"]),
        mk("G12", &["rates", "rates-alone", "rates-sharing", "video-request"]),
        mk("G13", &["ring-sent", "ring-cancelled", "ring-requested", "ring-busy", "ring-elsewhere"]),
        mk("G14", &["end-left", "end-removed", "end-denied", "end-busy", "end-http", "end-full", "end-srtp", "end-ice"]),
        mk("E01", &["endorsements", "endorsed-send"]),
        lib,
    ]
}
