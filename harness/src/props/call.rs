//! One-to-one calls: users with several devices each, a signaling server, and a media network.
use crate::driver::{Prop, Scenario};
use crate::webrtc::{self, ether, Ice, Mon, Rates};
use anyhow::Result;
use ringrtc::common::units::DataRate;
use ringrtc::common::{CallConfig, CallEndReason, CallId, CallMediaType, DataMode, DeviceId};
use glue::cm::Cm;
use ringrtc::core::group_call;
use ringrtc::core::signaling;
use ringrtc::lite::http;
use ringrtc::lite::sfu::UserId;
use ringrtc::native::{CallState, CallStateHandler, GroupUpdate, GroupUpdateHandler, NativeCallContext, NativePlatform, SignalingSender};
use ringrtc::webrtc::media::{AudioTrack, VideoFrame, VideoSink, VideoSource, VideoTrack};
use ringrtc::webrtc::peer_connection_factory::{IceServer, PeerConnectionFactory};
use ringrtc::webrtc::peer_connection_observer::NetworkRoute;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::Duration;

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

#[derive(Clone)]
struct Sig {
    from: usize,
    to: usize,
    call: u64,
    msg: signaling::Message,
    at: u64,
    key: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
enum Act {
    Call(usize),
    Hangup,
    Drop,
    Reset,
    Crash,
    Offline(u64),
    Partition(usize, u64),
}
enum Ev {
    Sig(Sig),
    Proceed(u64),
    Accept(u64),
    HangupCall(u64),
    Status(u64, signaling::SenderStatus),
    Mode(u64, DataMode),
    Ack(u64),
    Nack(u64),
    Act(Act),
    Camera,
    Quit,
}
/// One incarnation of a call on one device.
#[derive(Clone, Debug, Default)]
struct Rec {
    peer: usize,
    outgoing: bool,
    start: u64,
    ringing: bool,
    accepted: bool,
    accepted_at: u64,
    connected: Option<u64>,
    connecting: bool,
    ended: Option<(u64, String)>,
    concluded: bool,
    reset: bool,
    offer_sent: bool,
    answer_sent: bool,
    hangup_sent: bool,
    hangup_api: bool,
    api_race: bool,
    sent: u32,
    status: Vec<(Option<bool>, Option<bool>, Option<bool>)>,
    seen: [Vec<bool>; 3],
    mode: Option<DataMode>,
    conf: Option<Conf>,
}
/// What the application chose when it let a call proceed.
#[derive(Clone, Debug)]
struct Conf {
    hide: bool,
    servers: Vec<(String, String, String, Vec<String>)>,
    c: CallConfig,
}
struct Dv {
    user: usize,
    id: DeviceId,
    node: u32,
    dead: bool,
    inbox: BTreeMap<(u64, u64), Ev>,
    cm: Option<Cm>,
    recs: BTreeMap<u64, Rec>,
    done: Vec<(u64, Rec)>,
    rejected: BTreeMap<u64, String>,
    concluded_only: BTreeSet<u64>,
    ended_only: BTreeSet<u64>,
    /// A call which was still active when the next one started, and when that was.
    late_end: Option<(u64, u64)>,
    cur: Option<u64>,
    sends: u64,
    acks: u64,
    credits: u64,
    hangups: u64,
    local_hangups: u64,
    nacks: u64,
    failed_creates: u64,
    /// With whom audio levels were asked for.
    levels: BTreeMap<String, u64>,
    calls_made: u64,
    got_offers: BTreeMap<u64, (usize, u64, u64)>,
    offline_until: u64,
    resets: u64,
    reset_at: u64,
    closed: bool,
    assume: bool,
    /// An old version, which knows nothing of codecs for one direction only.
    old: bool,
    ice_failed: bool,
}
struct World {
    devs: Vec<Dv>,
    rates: SigRates,
    policy: Policy1,
    /// per call: devices whose offer or answer was tampered with
    tampered: BTreeSet<(u64, usize)>,
    busy_sent: BTreeMap<u64, BTreeSet<usize>>,
    hangups_from: BTreeMap<u64, BTreeSet<usize>>,
    keys: BTreeMap<Vec<u8>, (usize, usize)>,
    seq: u64,
    offers: BTreeMap<u64, usize>,
    api: bool,
    last: BTreeMap<(usize, usize), u64>,
}
#[derive(Clone, Default, Debug)]
struct SigRates {
    loss: u64,
    dup: u64,
    delay: u64,
    delay_ms: u64,
    err: u64,
    nack: u64,
    tamper: u64,
    lat_ms: u64,
    ack_ms: u64,
    ordered: bool,
}
#[derive(Clone, Default, Debug)]
struct Policy1 {
    accept: u64,
    decline: u64,
    accept_ms: u64,
    hangup: u64,
    proceed_never: u64,
    hasty: u64,
    proceed_ms: u64,
    status: u64,
    talk_ms: u64,
}
type W = Shr<World>;

fn key(d: usize) -> u64 {
    0xca11_0000 + d as u64
}
fn post(w: &W, d: usize, at: u64, e: Ev) {
    let x = w.g();
    x.seq += 1;
    let s = x.seq;
    x.devs[d].inbox.insert((at.max(now()), s), e);
    notify_key(key(d));
}
fn user_name(u: usize) -> String {
    format!("user-{u}")
}
fn user_of(s: &str) -> usize {
    s.strip_prefix("user-").and_then(|x| x.parse().ok()).unwrap_or(99)
}
fn identity(u: usize) -> Vec<u8> {
    vec![u as u8 + 65; 33]
}

#[derive(Clone)]
struct Handler {
    w: W,
    d: usize,
}
impl SignalingSender for Handler {
    fn send_signaling(&self, recipient: &str, call_id: CallId, device: Option<DeviceId>, m: signaling::Message) -> Result<()> {
        let (w, d, call) = (&self.w, self.d, call_id.as_u64());
        let x = w.g();
        if x.devs[d].dead {
            return Ok(());
        }
        let t = now();
        ev!("dev{d} sends {m} for {call:x} to {recipient}/{device:?}");
        check!(!x.devs[d].closed, "C11:after-close", "device {d} was given a message after close()");
        let kind = m.typ();
        let dv = &mut x.devs[d];
        if let Some(r) = dv.recs.get_mut(&call) {
            use signaling::MessageType::*;
            r.sent += 1;
            match kind {
                Offer => {
                    check!(r.outgoing && !r.offer_sent, "C05:offer", "device {d} sent a second offer, or an offer for an incoming call {call:x}");
                    r.offer_sent = true;
                }
                Answer => {
                    check!(!r.outgoing && !r.answer_sent, "C05:answer", "device {d} answered call {call:x} twice, or an outgoing one");
                    r.answer_sent = true;
                }
                Ice => check!(if r.outgoing { r.offer_sent } else { r.answer_sent }, "C05:order", "device {d} sent ICE candidates before its offer or answer"),
                Hangup => r.hangup_sent = true,
                Busy => {}
            }
            if matches!(kind, Offer | Answer) {
                check!(!r.hangup_sent, "C05:after-hangup", "device {d} sent {m} for call {call:x} after its hangup");
            }
        }
        if matches!(m, signaling::Message::Busy) {
            x.busy_sent.entry(call).or_default().insert(d);
        }
        if matches!(m, signaling::Message::Hangup(_)) {
            x.hangups_from.entry(call).or_default().insert(d);
        }
        let rates = x.rates.clone();
        if fault("send-error", "signaling", rates.err).is_some() {
            x.devs[d].nacks += 1;
            return Err(anyhow::anyhow!("signaling unavailable"));
        }
        let dv = &mut x.devs[d];
        if !dv.assume {
            check!(dv.sends < dv.acks + 1 + dv.credits, "C05:in-flight", "device {d} was given a message while another was in flight ({} given, {} finished)", dv.sends, dv.acks);
        }
        dv.sends += 1;
        if let signaling::Message::Offer(_) = m {
            x.offers.insert(call, d);
        }
        let off = x.devs[d].offline_until.max(t);
        if !x.devs[d].assume {
            let ack = off + MS + draw_below("ack", rates.ack_ms.max(1) * MS);
            if fault("send-failure", "signaling", rates.nack).is_some() {
                x.devs[d].nacks += 1;
                post(w, d, ack, Ev::Nack(call));
                return Ok(());
            }
            post(w, d, ack, Ev::Ack(call));
        }
        let to = user_of(recipient);
        let targets: Vec<usize> = (0..w.g().devs.len()).filter(|&i| !w.g().devs[i].dead && w.g().devs[i].user == to && device.is_none_or(|v| w.g().devs[i].id == v)).collect();
        for i in targets {
            if fault("signaling-loss", "signaling", rates.loss).is_some() {
                continue;
            }
            let mut s = Sig { from: d, to: i, call, msg: m.clone(), at: t, key: None };
            // A man in the middle changes a public key or claims another identity.
            if let Some(v) = fault("tampering", "signaling", if matches!(kind, signaling::MessageType::Offer | signaling::MessageType::Answer) { rates.tamper } else { 0 }) {
                tamper(&mut s, v);
                let pair = if matches!(kind, signaling::MessageType::Offer) { i } else { d };
                w.g().tampered.insert((call, pair));
            }
            let mut at = off + MS + draw_below("latency", rates.lat_ms.max(1) * MS);
            if let Some(v) = fault("signaling-delay", "signaling", rates.delay) {
                at += v % (rates.delay_ms.max(1) * MS);
            }
            let offer = matches!(s.msg, signaling::Message::Offer(_));
            if rates.ordered {
                let last = w.g().last.entry((d, i)).or_default();
                at = at.max(*last + 1);
                *last = at;
            }
            post(w, i, at, Ev::Sig(s.clone()));
            if !offer {
                if let Some(v) = fault("signaling-duplicate", "signaling", rates.dup) {
                    post(w, i, at + v % (1 + rates.delay_ms.max(500) * MS), Ev::Sig(s));
                }
            }
        }
        Ok(())
    }
    fn send_call_message(&self, _r: UserId, _m: Vec<u8>, _u: group_call::SignalingMessageUrgency) -> Result<()> {
        Ok(())
    }
    fn send_call_message_to_group(&self, _g: group_call::GroupId, _m: Vec<u8>, _u: group_call::SignalingMessageUrgency, _r: HashSet<UserId>) -> Result<()> {
        Ok(())
    }
    fn send_call_message_to_adhoc_group(&self, _m: Vec<u8>, _u: group_call::SignalingMessageUrgency, _e: u64, _r: HashMap<UserId, Vec<u8>>) -> Result<()> {
        Ok(())
    }
}
fn tamper(s: &mut Sig, v: u64) {
    if v % 3 == 0 {
        s.key = Some(vec![0xEE; 33]);
        return;
    }
    let flip = |k: Option<Vec<u8>>| {
        k.map(|mut k| {
            let i = (v as usize >> 8) % k.len();
            // The top bit of the last byte is not part of a point.
            k[i] ^= if i == 31 { 1 << ((v >> 16) % 7) } else { 1 << ((v >> 16) % 8) };
            k
        })
    };
    match &mut s.msg {
        signaling::Message::Offer(o) => {
            let mut p = o.to_v4().unwrap();
            p.public_key = flip(p.public_key);
            *o = signaling::Offer::from_v4(o.call_media_type, p).unwrap();
        }
        signaling::Message::Answer(a) => {
            let mut p = a.to_v4().unwrap();
            p.public_key = flip(p.public_key);
            *a = signaling::Answer::from_v4(p).unwrap();
        }
        _ => {}
    }
}
impl GroupUpdateHandler for Handler {
    fn handle_group_update(&self, _u: GroupUpdate) -> Result<()> {
        Ok(())
    }
}
impl http::Delegate for Handler {
    fn send_request(&self, _id: u32, _r: http::Request) {}
}
#[derive(Clone)]
struct Sink;
impl VideoSink for Sink {
    fn on_video_frame(&self, d: u32, f: VideoFrame) {
        webrtc::look(d, f);
    }
    fn box_clone(&self) -> Box<dyn VideoSink> {
        Box::new(Sink)
    }
}
impl Dv {
    /// A reset ends the active call silently, some time after it is asked for.
    fn forget_reset(&mut self) {
        if let Some(c) = self.cur {
            let r = self.recs.get_mut(&c).unwrap();
            if self.reset_at > r.start {
                r.reset = true;
                self.cur = None;
            }
        }
    }
}
impl Handler {
    fn start(&self, call: u64, peer: usize, outgoing: bool) {
        let (w, d) = (&self.w, self.d);
        let x = w.g();
        let t = now();
        let dv = &mut x.devs[d];
        dv.forget_reset();
        // Another thread may have taken the old call out of the way without having said so yet.
        check!(dv.cur.is_none() || dv.late_end.is_none(), "C01:two-active", "device {d} started call {call:x} while call {:x} was active", dv.cur.unwrap_or(0));
        dv.late_end = dv.cur.map(|c| (c, t)).or(dv.late_end);
        check!(!dv.ended_only.contains(&call), "C01:start-after-end", "device {d}: call {call:x} started after it had ended");
        check!(!dv.recs.contains_key(&call) && !dv.done.iter().any(|q| q.0 == call), "C01:restarted", "device {d} started call {call:x} twice");
        dv.cur = Some(call);
        dv.credits += 1;
        dv.ice_failed = false;
        dv.recs.insert(call, Rec { peer, outgoing, start: t, ..Default::default() });
        if !outgoing {
            match dv.got_offers.get(&call) {
                None => violate!("C08:phantom", "device {d} announced call {call:x} without an offer"),
                Some((from, age, _)) => {
                    check!(*from == peer, "C08:peer", "device {d} announced call {call:x} from user {peer}");
                    check!(*age <= 60 * S + S, "C08:expired", "device {d} rang for an offer that was {} s old", age / S);
                }
            }
        }
        let p = x.policy.clone();
        probe("call-started");
        if outgoing && draw_below("hasty", 100) < p.hasty {
            post(w, d, t + draw_below("hasty-ms", (p.proceed_ms + 20) * MS), Ev::HangupCall(call));
        }
        if fault("app-never-proceeds", "app", p.proceed_never).is_none() {
            post(w, d, t + draw_below("proceed", p.proceed_ms.max(1) * MS), Ev::Proceed(call));
        }
    }
}
/// How late a notification may be because threads were stalled.
fn slack() -> u64 {
    S + 10 * cfg().stall_max_ns
}
fn reason_ok(w: &W, d: usize, call: u64, r: &Rec, why: &CallEndReason) -> std::result::Result<(), String> {
    use CallEndReason::*;
    let x = w.g();
    let peers: Vec<usize> = (0..x.devs.len()).filter(|&i| x.devs[i].user == r.peer).collect();
    let gone = |i: usize| -> bool {
        let f = |q: &Rec| q.ended.is_some() || q.reset || q.hangup_api;
        x.devs[i].recs.get(&call).is_some_and(f) || x.devs[i].done.iter().any(|(c, q)| *c == call && f(q)) || x.devs[i].resets > 0 || x.devs[i].dead || x.devs[i].ended_only.contains(&call)
    };
    let others: Vec<usize> = (0..x.devs.len()).filter(|&i| x.devs[i].user == x.devs[d].user && i != d).collect();
    let rec_of = |i: usize| x.devs[i].recs.get(&call).cloned().or_else(|| x.devs[i].done.iter().find(|(c, _)| *c == call).map(|q| q.1.clone()));
    let dv = &x.devs[d];
    let t = now();
    let ok = match why {
        LocalHangup => dv.hangups > dv.local_hangups,
        AppDroppedCall => true,
        RemoteHangup => peers.iter().any(|&i| gone(i)),
        RemoteHangupAccepted => !r.outgoing && others.iter().any(|&i| rec_of(i).is_some_and(|q| q.accepted)),
        RemoteHangupDeclined => !r.outgoing && others.iter().any(|&i| gone(i)),
        RemoteHangupBusy => !r.outgoing && others.iter().any(|i| x.busy_sent.get(&call).is_some_and(|s| s.contains(i))),
        RemoteBusy => r.outgoing && peers.iter().any(|i| x.busy_sent.get(&call).is_some_and(|s| s.contains(i))),
        RemoteGlare | RemoteReCall => dv.got_offers.iter().any(|(c, (u, _, at))| *c != call && *u == r.peer && *at + slack() >= r.start),
        Timeout => t + slack() >= r.start + 60 * S && r.connected.is_none(),
        SignalingFailure => dv.nacks > 0,
        ConnectionFailure => dv.ice_failed,
        InternalFailure => x.api || dv.nacks > 0 || r.api_race,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("device {d} ended call {call:x} as {why:?}, which did not happen ({r:?})")) }
}
impl CallStateHandler for Handler {
    fn handle_call_state(&self, peer: &str, call_id: CallId, state: CallState) -> Result<()> {
        let (w, d, call) = (&self.w, self.d, call_id.as_u64());
        if w.g().devs[d].dead {
            return Ok(());
        }
        let t = now();
        ev!("dev{d} call {call:x} with {peer}: {state}");
        check!(!w.g().devs[d].closed, "C11:after-close", "device {d} was notified ({state}) after close()");
        let pu = user_of(peer);
        if let Some((old, at)) = w.g().devs[d].late_end {
            check!(t <= at + slack(), "C01:two-active", "device {d}: call {old:x} is still active with another one since {at}");
        }
        match state {
            CallState::Outgoing(_) => {
                check!(w.g().devs[d].calls_made > 0, "C01:uninvited", "device {d} called by itself");
                self.start(call, pu, true)
            }
            CallState::Incoming(_) => self.start(call, pu, false),
            CallState::Ringing | CallState::Connected | CallState::Connecting => {
                let x = w.g();
                let p = x.policy.clone();
                let Some(r) = x.devs[d].recs.get_mut(&call) else {
                    violate!("C01:unknown", "device {d}: {state} for a call that never started");
                    return Ok(());
                };
                check!(r.ended.is_none(), "C01:after-end", "device {d}: {state} for call {call:x} after it ended");
                check!(r.peer == pu, "C01:peer", "device {d}: {state} names the wrong peer");
                let r2 = r.clone();
                match state {
                    CallState::Ringing => {
                        check!(!r.ringing && r.connected.is_none(), "C01:order", "device {d}: call {call:x} rings again");
                        r.ringing = true;
                        probe("ringing");
                        let k = draw_below("policy", 100);
                        if !r.outgoing {
                            let at = t + draw_below("accept", p.accept_ms.max(1) * MS);
                            if k < p.accept {
                                post(w, d, at, Ev::Accept(call));
                            } else if k < p.accept + p.decline {
                                post(w, d, at, Ev::HangupCall(call));
                            }
                        } else if k < p.hangup {
                            post(w, d, t + draw_below("ring-hangup", 20 * S), Ev::HangupCall(call));
                        }
                    }
                    CallState::Connected => {
                        check!(r.ringing, "C01:order", "device {d}: call {call:x} connected before it rang");
                        check!(r.connected.is_none() || r.connecting, "C01:order", "device {d}: call {call:x} connected twice");
                        r.connecting = false;
                        if r.connected.is_none() {
                            r.connected = Some(t);
                            probe("connected");
                            let (out, peer) = (r.outgoing, r.peer);
                            let acc = r.accepted;
                            if out {
                                let any = w.g().devs.iter().any(|v| v.user == peer && (v.recs.get(&call).is_some_and(|q| q.accepted) || v.done.iter().any(|(c, q)| *c == call && q.accepted)));
                                check!(any, "C04:not-accepted", "device {d}: call {call:x} connected although nobody accepted it");
                            } else {
                                check!(acc, "C04:not-accepted", "device {d}: call {call:x} connected although the user did not accept it");
                            }
                            for k in 0..draw_below("pictures", 5) as usize {
                                post(w, d, t + draw_below("picture-at", [5000, p.talk_ms.max(1)][k & 1] * MS), Ev::Camera);
                            }
                            for k in 0..draw_below("statuses", p.status.max(1)) {
                                let at = t + draw_below("status-at", p.talk_ms.max(1) * MS);
                                let b = draw("status");
                                let f = |i: u64| if b >> (4 * i) & 3 < 2 { Some(b >> (4 * i + 2) & 1 == 1) } else { None };
                                if k % 3 == 2 {
                                    post(w, d, at, Ev::Mode(call, data_mode()));
                                } else {
                                    post(w, d, at, Ev::Status(call, signaling::SenderStatus { video_enabled: f(0), sharing_screen: f(1), audio_enabled: f(2) }));
                                }
                            }
                            if draw_below("talk", 100) < p.hangup {
                                post(w, d, t + draw_below("talk-ms", p.talk_ms.max(1) * MS), Ev::HangupCall(call));
                            }
                        } else {
                            probe("reconnected");
                        }
                    }
                    _ => {
                        check!(r2.connected.is_some() && !r2.connecting, "C01:order", "device {d}: call {call:x} reconnecting before it was connected");
                        r.connecting = true;
                    }
                }
            }
            CallState::Rejected(why) => {
                let x = w.g();
                let dv = &mut x.devs[d];
                check!(dv.got_offers.contains_key(&call), "C08:phantom", "device {d} rejected call {call:x} without an offer");
                check!(!dv.recs.contains_key(&call), "C01:rejected-active", "device {d} rejected call {call:x} after starting it");
                check!(!dv.rejected.contains_key(&call), "C02:rejected-twice", "device {d} rejected call {call:x} twice");
                let (from, age, _) = dv.got_offers.get(&call).copied().unwrap_or_default();
                let s = format!("{why:?}");
                if s.contains("Expired") {
                    check!(age + 2 * S >= 60 * S, "C08:not-expired", "device {d} treated an offer {} s old as expired", age / S);
                    probe("expired");
                } else {
                    // Some call must be in the way.
                    let pending = dv.calls_made > dv.failed_creates + dv.recs.values().chain(dv.done.iter().map(|q| &q.1)).filter(|q| q.outgoing).count() as u64
                        || dv.got_offers.keys().any(|c| *c != call && !dv.recs.contains_key(c) && !dv.done.iter().any(|q| q.0 == *c) && !dv.rejected.contains_key(c));
                    let in_way = pending || dv.cur.is_some() || dv.recs.values().chain(dv.done.iter().map(|q| &q.1)).any(|q| q.ended.as_ref().is_some_and(|e| e.0 + 5 * S + cfg().stall_max_ns * 10 > t));
                    check!(in_way, "C08:not-busy", "device {d} rejected call {call:x} ({s}) while idle");
                    if s.contains("Glare") {
                        probe("glare");
                        let same = dv.recs.values().chain(dv.done.iter().map(|q| &q.1)).any(|q| q.peer == from);
                        check!(same || pending, "C08:not-glare", "device {d} saw glare with a user it has no call with");
                    } else {
                        probe("busy");
                    }
                }
                dv.rejected.insert(call, s);
            }
            CallState::Ended(why, _summary) => {
                let x = w.g();
                let dv = &mut x.devs[d];
                let Some(r) = dv.recs.get(&call).cloned() else {
                    // A call that could not even be created.
                    dv.failed_creates += u64::from(!dv.got_offers.contains_key(&call));
                    check!(dv.got_offers.contains_key(&call) || dv.failed_creates <= dv.calls_made, "C02:ended-unknown", "device {d}: call {call:x} ended ({why:?}) but never started");
                    check!(dv.ended_only.insert(call), "C02:ended-twice", "device {d}: call {call:x} ended twice ({why:?})");
                    return Ok(());
                };
                check!(r.ended.is_none(), "C02:ended-twice", "device {d}: call {call:x} ended twice ({:?}, {why:?})", r.ended);
                check!(!r.concluded, "C02:order", "device {d}: call {call:x} ended after it was concluded");
                let late = dv.late_end.is_some_and(|q| q.0 == call);
                if late {
                    dv.late_end = None;
                }
                check!(dv.cur == Some(call) || r.reset || late, "C01:not-active", "device {d}: call {call:x} ended but was not the active one");
                if let Err(m) = reason_ok(w, d, call, &r, &why) {
                    violate!("C07:reason", "{m}");
                }
                let dv = &mut w.g().devs[d];
                if matches!(why, CallEndReason::LocalHangup) {
                    dv.local_hangups += 1;
                }
                probe(match why {
                    CallEndReason::LocalHangup => "end-local",
                    CallEndReason::RemoteHangup => "end-remote",
                    CallEndReason::RemoteHangupAccepted => "end-elsewhere",
                    CallEndReason::RemoteHangupDeclined => "end-declined",
                    CallEndReason::RemoteHangupBusy => "end-busy-elsewhere",
                    CallEndReason::RemoteBusy => "end-busy",
                    CallEndReason::RemoteGlare => "end-glare",
                    CallEndReason::RemoteReCall => "end-recall",
                    CallEndReason::Timeout => "end-timeout",
                    CallEndReason::SignalingFailure => "end-signaling",
                    CallEndReason::ConnectionFailure => "end-connection",
                    CallEndReason::InternalFailure => "end-internal",
                    _ => "end-other",
                });
                if dv.cur == Some(call) {
                    dv.cur = None;
                }
                dv.recs.get_mut(&call).unwrap().ended = Some((t, format!("{why:?}")));
            }
            CallState::Concluded => {
                let x = w.g();
                let dv = &mut x.devs[d];
                dv.forget_reset();
                if dv.late_end.is_some_and(|q| q.0 == call) {
                    dv.late_end = None;
                }
                match dv.recs.remove(&call) {
                    Some(mut r) => {
                        check!(r.ended.is_some() || r.reset || (dv.resets > 0 && dv.reset_at + slack() >= r.start), "C02:order", "device {d}: call {call:x} concluded before it ended");
                        r.concluded = true;
                        if dv.cur == Some(call) {
                            dv.cur = None;
                        }
                        dv.done.push((call, r));
                    }
                    None => {
                        check!(!dv.done.iter().any(|q| q.0 == call) && dv.concluded_only.insert(call), "C02:concluded-twice", "device {d}: call {call:x} was concluded twice");
                    }
                }
                let dv = &x.devs[d];
                if dv.cur.is_none() && dv.recs.is_empty() {
                    let open = ether().pcs.iter().filter(|p| p.node == dv.node && !p.closed).count();
                    check!(open == 0, "C06:open", "device {d}: all calls are concluded but {open} peer connections are open");
                }
            }
        }
        Ok(())
    }
    fn handle_remote_audio_state(&self, p: &str, on: bool) -> Result<()> {
        self.remote(p, 2, on)
    }
    fn handle_remote_video_state(&self, p: &str, on: bool) -> Result<()> {
        self.remote(p, 0, on)
    }
    fn handle_remote_sharing_screen(&self, p: &str, on: bool) -> Result<()> {
        self.remote(p, 1, on)
    }
    fn handle_network_route(&self, _p: &str, _r: NetworkRoute) -> Result<()> {
        Ok(())
    }
    fn handle_audio_levels(&self, p: &str, c: u16, r: u16) -> Result<()> {
        let (w, d) = (&self.w, self.d);
        let Some(ms) = w.g().devs[d].levels.get(p) else {
            violate!("X02:unasked", "device {d} is told audio levels it did not ask for");
            return Ok(());
        };
        webrtc::level_told(w.g().devs[d].node, c, r, *ms);
        Ok(())
    }
    fn handle_low_bandwidth_for_video(&self, _p: &str, _r: bool) -> Result<()> {
        Ok(())
    }
}
impl Handler {
    fn remote(&self, p: &str, what: usize, on: bool) -> Result<()> {
        let (w, d) = (&self.w, self.d);
        let x = w.g();
        if x.devs[d].dead {
            return Ok(());
        }
        ev!("dev{d} remote {p} {what} {on}");
        let Some(cur) = x.devs[d].cur else { return Ok(()) };
        let r = &x.devs[d].recs[&cur];
        check!(user_of(p) == r.peer, "C09:peer", "device {d}: a status of {p} in a call with user {}", r.peer);
        let peer = r.peer;
        let accepted = if r.outgoing { x.devs.iter().any(|v| v.user == peer && (v.recs.get(&cur).is_some_and(|q| q.accepted) || v.done.iter().any(|(c, q)| *c == cur && q.accepted))) } else { r.accepted };
        check!(accepted, "C09:early", "device {d}: a remote status was reported before the call was accepted");
        x.devs[d].recs.get_mut(&cur).unwrap().seen[what].push(on);
        // Every reported change must follow what the peer said, in the order the peer said it.
        let peer = x.devs[d].recs[&cur].peer;
        let seen = x.devs[d].recs[&cur].seen[what].clone();
        let mut said: Vec<Vec<bool>> = vec![];
        for v in x.devs.iter().filter(|v| v.user == peer) {
            let q = v.recs.get(&cur).or_else(|| v.done.iter().find(|q| q.0 == cur).map(|q| &q.1));
            if let Some(q) = q {
                if q.accepted || q.outgoing {
                    said.push(q.status.iter().filter_map(|s| [s.0, s.1, s.2][what]).collect());
                }
            }
        }
        let follows = said.iter().any(|h| {
            let mut i = 0;
            seen.iter().all(|v| {
                while i < h.len() && h[i] != *v {
                    i += 1;
                }
                i < h.len()
            })
        });
        check!(follows, "C09:order", "device {d}: reported remote states {seen:?} ({}) but the peer said {said:?}", ["video", "sharing", "audio"][what]);
        probe("remote-status");
        Ok(())
    }
}

fn app_thread(w: W, d: usize, mut cm: Cm, pcf: PeerConnectionFactory, audio: AudioTrack, (camera, video): (VideoSource, VideoTrack)) {
    let node = w.g().devs[d].node;
    set_node(node);
    let _pcf = pcf;
    loop {
        let next = w.g().devs[d].inbox.first_key_value().map(|(k, _)| *k);
        let e = match next {
            Some(k) if k.0 <= now() => w.g().devs[d].inbox.remove(&k).unwrap(),
            Some(k) => {
                wait_key(key(d), Some(k.0));
                continue;
            }
            None => {
                wait_key(key(d), None);
                continue;
            }
        };
        if matches!(e, Ev::Quit) {
            return;
        }
        if w.g().devs[d].dead || w.g().devs[d].closed {
            continue;
        }
        if matches!(e, Ev::Camera) {
            webrtc::take(&camera, draw("picture") as u32, draw("format"));
            continue;
        }
        handle(&w, d, &mut cm, e, &audio, &video);
    }
}
fn handle(w: &W, d: usize, cm: &mut Cm, e: Ev, audio: &AudioTrack, video: &VideoTrack) {
    let t = now();
    match e {
        Ev::Quit | Ev::Camera => {}
        Ev::Sig(s) => {
            let me = w.g().devs[d].user;
            let (from_user, from_dev) = (w.g().devs[s.from].user, w.g().devs[s.from].id);
            let peer = user_name(from_user);
            let id = CallId::new(s.call);
            let key = s.key.clone().unwrap_or_else(|| identity(from_user));
            if s.to != d {
                return;
            }
            match s.msg {
                signaling::Message::Offer(mut offer) => {
                    if w.g().devs[s.from].old || w.g().devs[d].old {
                        let mut p = offer.to_v4().unwrap();
                        p.encode_only_video_codecs.clear();
                        p.decode_only_video_codecs.clear();
                        offer = signaling::Offer::from_v4(offer.call_media_type, p).unwrap();
                    }
                    let age = t - s.at;
                    w.g().devs[d].got_offers.insert(s.call, (from_user, age, t));
                    let r = signaling::ReceivedOffer { offer, age: Duration::from_nanos(age), sender_device_id: from_dev, receiver_device_id: w.g().devs[d].id, sender_identity_key: key, receiver_identity_key: identity(me) };
                    let _ = cm.received_offer(peer, id, r);
                }
                signaling::Message::Answer(answer) => {
                    let r = signaling::ReceivedAnswer { answer, sender_device_id: from_dev, sender_identity_key: key, receiver_identity_key: identity(me) };
                    let _ = cm.received_answer(peer, id, r);
                }
                signaling::Message::Ice(ice) => {
                    let _ = cm.received_ice(peer, id, signaling::ReceivedIce { ice, sender_device_id: from_dev });
                }
                signaling::Message::Hangup(hangup) => {
                    let _ = cm.received_hangup(peer, id, signaling::ReceivedHangup { hangup, sender_device_id: from_dev });
                }
                signaling::Message::Busy => {
                    let _ = cm.received_busy(peer, id, signaling::ReceivedBusy { sender_device_id: from_dev });
                }
            }
        }
        Ev::Proceed(c) => {
            let hide = draw_below("hide-ip", 2) == 0;
            let mode = data_mode();
            let conf = conf(c, hide, mode);
            let servers = conf.servers.iter().cloned().map(|(u, p, h, l)| IceServer::new(u, p, h, l)).collect();
            let ctx = NativeCallContext::new(hide, servers, audio.clone(), video.clone(), Box::new(Sink));
            let config = conf.c.clone();
            if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                r.mode = Some(mode);
                r.conf = Some(conf);
            }
            let lv = if draw_below("levels", 4) == 0 { Some(Duration::from_millis([200, 400, 1000][draw_below("levels-ms", 3) as usize])) } else { None };
            if let Some(lv) = lv {
                let x = w.g();
                if let Some(r) = x.devs[d].recs.get(&c) {
                    let p = user_name(r.peer);
                    let ms = x.devs[d].levels.entry(p).or_insert(u64::MAX);
                    *ms = (*ms).min(lv.as_millis() as u64);
                }
            }
            let _ = cm.proceed(CallId::new(c), ctx, config, lv);
        }
        Ev::Accept(c) => {
            if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                r.accepted = true;
                r.accepted_at = t;
            }
            let _ = cm.accept_call(CallId::new(c));
        }
        Ev::HangupCall(c) => {
            if w.g().devs[d].cur == Some(c) {
                hangup(w, d, cm)
            }
        }
        Ev::Status(c, s) => {
            if w.g().devs[d].cur == Some(c) {
                if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                    r.status.push((s.video_enabled, s.sharing_screen, s.audio_enabled));
                }
                if !cm.sender_status(CallId::new(c), s) {
                    if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                        r.status.pop();
                    }
                }
            }
        }
        Ev::Mode(c, m) => {
            if w.g().devs[d].cur == Some(c) {
                let node = w.g().devs[d].node;
                let flap = draw_below("flap", 4);
                if flap & 1 == 1 {
                    webrtc::flap(node);
                }
                let old = w.g().devs[d].recs.get(&c).and_then(|r| r.mode);
                if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                    r.mode = Some(m);
                }
                if !cm.data_mode(CallId::new(c), m) {
                    if let Some(r) = w.g().devs[d].recs.get_mut(&c) {
                        r.mode = old;
                    }
                }
                if flap & 2 == 2 {
                    webrtc::flap(node);
                }
            }
        }
        Ev::Ack(c) => {
            w.g().devs[d].acks += 1;
            let _ = cm.message_sent(CallId::new(c));
        }
        Ev::Nack(c) => {
            w.g().devs[d].acks += 1;
            let _ = cm.message_send_failure(CallId::new(c));
        }
        Ev::Act(a) => act(w, d, cm, a),
    }
}
fn data_mode() -> DataMode {
    match draw_below("mode", 6) {
        0 | 1 => DataMode::Low,
        2 | 3 => DataMode::Normal,
        k => {
            let kbps = [12, 29, 31, 250, 800, 1500, 5000][draw_below("kbps", 7) as usize];
            DataMode::Custom { max_bitrate: DataRate::from_kbps(kbps), max_group_call_receive_rate: DataRate::from_kbps(100 * k) }
        }
    }
}
/// The most a side may send: what both sides ask for, and not more than 1 Mbps through a relay, but 30 kbps in any case.
fn send_limit(local: DataMode, remote: DataMode, relayed: bool) -> u64 {
    let f = |m| match m {
        DataMode::Low => 300_000,
        DataMode::Normal => 2_000_000,
        DataMode::Custom { max_bitrate, .. } => max_bitrate.as_bps(),
    };
    f(local).min(f(remote)).min(if relayed { 1_000_000 } else { u64::MAX }).max(30_000)
}
fn hangup(w: &W, d: usize, cm: &mut Cm) {
    let x = w.g();
    x.devs[d].hangups += 1;
    if let Some(c) = x.devs[d].cur {
        x.devs[d].recs.get_mut(&c).unwrap().hangup_api = true;
    }
    let _ = cm.hangup();
}
fn act(w: &W, d: usize, cm: &mut Cm, a: Act) {
    let t = now();
    ev!("dev{d} op {a:?}");
    match a {
        Act::Call(u) => {
            w.g().devs[d].calls_made += 1;
            let id = w.g().devs[d].id;
            let _ = cm.call(user_name(u), if draw_below("media", 2) == 0 { CallMediaType::Audio } else { CallMediaType::Video }, id);
        }
        Act::Hangup => hangup(w, d, cm),
        Act::Drop => {
            if let Some(c) = w.g().devs[d].cur {
                let _ = cm.drop_call(CallId::new(c));
            }
        }
        Act::Reset => {
            let x = w.g();
            x.devs[d].resets += 1;
            x.devs[d].credits += 1;
            x.devs[d].reset_at = t;
            let _ = cm.reset();
        }
        Act::Crash => {
            let x = w.g();
            let (user, id) = (x.devs[d].user, x.devs[d].id);
            x.devs[d].dead = true;
            webrtc::crash(x.devs[d].node);
            probe("crash");
            let n = spawn_dev(w, user, id, x.devs[d].assume);
            let marks: Vec<u64> = w.g().tampered.iter().filter(|q| q.1 == d).map(|q| q.0).collect();
            w.g().tampered.extend(marks.into_iter().map(|c| (c, n)));
            let held: Vec<_> = x.devs[d].inbox.iter().filter(|(_, e)| matches!(e, Ev::Sig(_))).map(|(k, _)| *k).collect();
            for k in held {
                if let Some(Ev::Sig(mut s)) = w.g().devs[d].inbox.remove(&k) {
                    s.to = n;
                    // It takes a while to start again.
                    post(w, n, k.0.max(t + 500 * MS), Ev::Sig(s));
                }
            }
        }
        Act::Offline(ms) => {
            let until = now() + ms * MS;
            w.g().devs[d].offline_until = until;
            // what was on its way waits
            let held: Vec<_> = w.g().devs[d].inbox.iter().filter(|(k, e)| k.0 < until && matches!(e, Ev::Sig(_) | Ev::Ack(_) | Ev::Nack(_))).map(|(k, _)| *k).collect();
            for k in held {
                let e = w.g().devs[d].inbox.remove(&k).unwrap();
                w.g().devs[d].inbox.insert((until, k.1), e);
            }
        }
        Act::Partition(u, ms) => {
            let peers: Vec<u32> = w.g().devs.iter().filter(|v| v.user == u).map(|v| v.node).collect();
            webrtc::partition(w.g().devs[d].node, &peers, ms * MS);
        }
    }
}

fn spawn_dev(w: &W, user: usize, id: DeviceId, assume: bool) -> usize {
    let x = w.g();
    let d = x.devs.len();
    let node = d as u32 + 1;
    x.devs.push(Dv {
        user, id, node, dead: false, inbox: BTreeMap::new(), cm: None, recs: BTreeMap::new(), done: vec![], rejected: BTreeMap::new(), concluded_only: BTreeSet::new(), ended_only: BTreeSet::new(), late_end: None,
        cur: None, sends: 0, acks: 0, credits: 0, hangups: 0, local_hangups: 0, nacks: 0, failed_creates: 0, calls_made: 0, levels: BTreeMap::new(), got_offers: BTreeMap::new(),
        offline_until: 0, resets: 0, reset_at: 0, closed: false, assume, old: draw_below("old-version", 6) == 0, ice_failed: false,
    });
    let old = simrt::node();
    set_node(node);
    let h = Handler { w: w.clone(), d };
    let pcf = unsafe { PeerConnectionFactory::from_native_factory(ringrtc::webrtc::Arc::from_owned(ringrtc::webrtc::ptr::OwnedRc::from_ptr(webrtc::native_factory(node) as *const _))) };
    let audio = pcf.create_outgoing_audio_track().expect("audio");
    let vs = pcf.create_outgoing_video_source().expect("source");
    let video = pcf.create_outgoing_video_track(&vs).expect("video");
    let platform = NativePlatform::new(pcf.clone(), Box::new(h.clone()), assume, Box::new(h.clone()), Box::new(h.clone()));
    let cm = Cm::new(platform, http::DelegatingClient::new(h)).expect("call manager");
    let c2 = cm.clone();
    w.g().devs[d].cm = Some(cm);
    let w2 = w.clone();
    std::thread::Builder::new().name(format!("app{d}")).spawn(move || app_thread(w2, d, c2, pcf, audio, (vs, video))).expect("thread");
    set_node(old);
    d
}
fn live(w: &W) -> Vec<usize> {
    (0..w.g().devs.len()).filter(|&i| !w.g().devs[i].dead).collect()
}
fn monitor(w: &W, i: usize, m: Mon) {
    let x = w.g();
    let p = &ether().pcs[i];
    let Some(d) = (0..x.devs.len()).find(|&d| x.devs[d].node == p.node) else { return };
    if x.devs[d].dead {
        return;
    }
    match m {
        Mon::Ice(Ice::Failed) => x.devs[d].ice_failed = true,
        Mon::Created => settings(w, i, false),
        Mon::Ice(Ice::Connected) => {
            keys(w, i);
            settings(w, i, true);
            codecs(w, i);
        }
        _ => {}
    }
    if p.sends_media() || p.plays_media() {
        let what = if p.sends_media() { "sends" } else { "plays" };
        let dv = &x.devs[d];
        let all: Vec<(u64, &Rec)> = dv.recs.iter().map(|(c, r)| (*c, r)).collect();
        // Which call is this? The one whose answer or offer this connection uses: any un-concluded accepted one.
        let ok = all.iter().any(|(c, r)| {
            if r.outgoing {
                let j = p.peer.map(|j| ether().pcs[j].node);
                x.devs.iter().any(|v| Some(v.node) == j && (v.recs.get(c).is_some_and(|q| q.accepted) || v.done.iter().any(|q| q.0 == *c && q.1.accepted)))
            } else {
                r.accepted
            }
        });
        check!(ok, "C06:unaccepted", "device {d} {what} media on connection {i} before the call was accepted");
        let n = ether().pcs.iter().filter(|q| q.node == p.node && q.sends_media()).count();
        check!(n <= 1, "C06:two", "device {d} sends media on {n} connections");
        probe("media");
    }
}
/// What the application may choose. The relay's user name tells which call a connection belongs to.
fn conf(call: u64, hide: bool, mode: DataMode) -> Conf {
    let n = |s: &'static str, n: u64| draw_below(s, n) as i32;
    let mut c = CallConfig::default().with_data_mode(mode);
    if draw_below("vp9", 2) == 0 {
        c = c.with_enable_vp9_encode(draw_below("vp9-encode", 2) == 0).with_enable_vp9_decode(draw_below("vp9-decode", 2) == 0);
    }
    c.enable_tcc_audio = draw_below("tcc", 2) == 0;
    let j = &mut c.audio_jitter_buffer_config;
    (j.max_packets, j.min_delay_ms, j.max_target_delay_ms, j.fast_accelerate) = (n("jitter", 200), n("jitter", 200), n("jitter", 900), n("jitter", 2) == 0);
    c.audio_rtcp_report_interval_ms = 1000 + n("rtcp", 9000);
    let e = &mut c.audio_encoder_config;
    (e.initial_packet_size_ms, e.min_packet_size_ms, e.max_packet_size_ms) = (n("encoder", 120), n("encoder", 120), n("encoder", 120));
    (e.initial_bitrate_bps, e.min_bitrate_bps, e.max_bitrate_bps) = (n("encoder", 99_000), n("encoder", 99_000), n("encoder", 99_000));
    (e.complexity, e.adaptation, e.min_packet_loss_percent) = (n("encoder", 11) as u8, n("encoder", 5), n("encoder", 100) as u8);
    (e.enable_cbr, e.enable_dtx, e.enable_fec) = (n("encoder", 2) == 0, n("encoder", 2) == 0, n("encoder", 2) == 0);
    // There are no assets, so DRED stays off.
    e.dred_duration = n("encoder", 2) as u8 * 20;
    c.audio_decoder_config.complexity = if n("decoder", 2) == 0 { None } else { Some(n("decoder", 11) as u8) };
    let servers = (0..1 + draw_below("relays", 3)).map(|k| (format!("call-{call}"), format!("secret-{k}-{:x}", draw("relay") % 0xffff), format!("turn{k}.example"), (0..draw_below("relays", 3)).map(|q| format!("turn:10.9.{k}.{q}:{}", 3478 + q)).collect())).collect();
    Conf { hide, servers, c }
}
fn conf_of(w: &W, i: usize) -> Option<(usize, u64, Conf)> {
    let x = w.g();
    let p = &ether().pcs[i];
    let d = x.devs.iter().position(|d| d.node == p.node)?;
    let c: u64 = p.settings.servers.first()?.0.strip_prefix("call-")?.parse().ok()?;
    let dv = &x.devs[d];
    let r = dv.recs.get(&c).or_else(|| dv.done.iter().rev().find(|q| q.0 == c).map(|q| &q.1))?;
    Some((d, c, r.conf.clone()?))
}
/// A connection is made the way the application wanted it for that call.
fn settings(w: &W, i: usize, connected: bool) {
    let p = &ether().pcs[i];
    let Some((d, c, k)) = conf_of(w, i) else {
        if w.g().devs.iter().any(|d| d.node == p.node && !d.dead && d.resets == 0) {
            violate!("C13:settings", "connection {i} uses relays of no call that may proceed: {:?}", p.settings.servers);
        }
        return;
    };
    let s = &p.settings;
    let j = &k.c.audio_jitter_buffer_config;
    check!(p.relayed == k.hide, "C13:hidden", "device {d}: call {c:x} is to {}hide the address of this device, the connection does not agree", if k.hide { "" } else { "not " });
    check!(s.servers == k.servers, "C13:relays", "device {d}: call {c:x} uses relays {:?} instead of {:?}", s.servers, k.servers);
    check!(s.jitter == (j.max_packets, j.min_delay_ms, j.max_target_delay_ms, j.fast_accelerate) && s.rtcp == k.c.audio_rtcp_report_interval_ms, "C13:settings", "device {d}: call {c:x} has jitter buffer {:?} and reports {}, not {j:?} and {}", s.jitter, s.rtcp, k.c.audio_rtcp_report_interval_ms);
    if connected {
        let e = &k.c.audio_encoder_config;
        let want = ([e.initial_packet_size_ms, e.min_packet_size_ms, e.max_packet_size_ms, e.initial_bitrate_bps, e.min_bitrate_bps, e.max_bitrate_bps, e.bandwidth as i32, e.complexity as i32, e.adaptation], [e.enable_cbr, e.enable_dtx, e.enable_fec], [0, e.min_packet_loss_percent as i32]);
        check!(s.encoder.is_none_or(|s| s == want), "C13:encoder", "device {d}: the encoders of call {c:x} are set to {:?}, not {want:?}", s.encoder);
        let want = k.c.audio_decoder_config.complexity.map_or(-1, |c| c as i32);
        check!(s.decoder.is_none_or(|s| s == want), "C13:decoder", "device {d}: the decoders of call {c:x} are set to {:?}, not {want}", s.decoder);
        for l in [&p.local, &p.remote].into_iter().flatten() {
            check!(l.tcc.is_none_or(|t| t == k.c.enable_tcc_audio), "C13:tcc", "device {d}: transport feedback for audio in call {c:x} is {:?}", l.tcc);
        }
    }
}
/// Each end sends only what it may and the other can decode, and nothing better was possible.
fn codecs(w: &W, i: usize) {
    let Some(j) = ether().pcs[i].peer else { return };
    let (a, b) = (&ether().pcs[i], &ether().pcs[j]);
    let (Some((da, ca, ka)), Some((db, cb, kb))) = (conf_of(w, i), conf_of(w, j)) else { return };
    let (Some(al), Some(ar), Some(bl), Some(br)) = (&a.local, &a.remote, &b.local, &b.remote) else { return };
    check!(ca == cb, "C13:call", "connections of different calls ({ca:x} and {cb:x}) found each other");
    let old = w.g().devs[da].old || w.g().devs[db].old;
    let kinds = [al.old, ar.old, bl.old, br.old];
    check!(kinds == [old; 4], "C13:codec", "call {ca:x}: one of the ends {} one-direction codec lists, but descriptions (own and remote of device {da}, of device {db}) without them are {kinds:?}", if old { "does not know" } else { "knows" });
    let vp9 = |k: &Conf, q: &Conf| {
        let (x, y) = (&k.c, &q.c);
        if old { x.enable_vp9_encode && x.enable_vp9_decode && y.enable_vp9_encode && y.enable_vp9_decode } else { x.enable_vp9_encode && y.enable_vp9_decode }
    };
    for (d, q, l, r, ol, or, want) in [(da, db, al, ar, bl, br, vp9(&ka, &kb)), (db, da, bl, br, al, ar, vp9(&kb, &ka))] {
        let (sends, decodes) = (l.send & r.recv, ol.recv & or.send);
        check!(sends & !decodes == 0, "C13:codec", "device {d} may send codecs {sends} which device {q} does not decode ({decodes})");
        let want = if want { 3 } else { 1 };
        check!(sends == want, "C13:codec", "device {d} may send codecs {sends} to device {q}, not {want}{}", if old { " (one of them is old)" } else { "" });
        probe(if old { "codecs-old" } else if sends == 3 { "codecs-vp9" } else { "codecs-vp8" });
    }
}
/// Both ends of a connection must use the same keys, unless someone interfered; and no key is ever used again.
fn keys(w: &W, i: usize) {
    let Some(j) = ether().pcs[i].peer else { return };
    let x = w.g();
    let (a, b) = (&ether().pcs[i], &ether().pcs[j]);
    let dev = |n: u32| x.devs.iter().position(|d| d.node == n);
    let (Some(da), Some(db)) = (dev(a.node), dev(b.node)) else { return };
    let (Some(al), Some(ar), Some(bl), Some(br)) = (&a.local, &a.remote, &b.local, &b.remote) else { return };
    let (Some(al), Some(ar), Some(bl), Some(br)) = (&al.srtp, &ar.srtp, &bl.srtp, &br.srtp) else {
        violate!("C10:no-keys", "connection between devices {da} and {db} has no SRTP keys");
        return;
    };
    let same = al == br && ar == bl;
    let callee = if a.local.as_ref().unwrap().offer { db } else { da };
    let t = x.tampered.iter().filter(|q| q.1 == callee).count();
    if t == 0 {
        check!(same, "C10:keys-differ", "devices {da} and {db} derived different SRTP keys");
        probe("keys-agree");
    } else {
        let ids: BTreeSet<u64> = x.devs[callee].recs.keys().copied().collect();
        if ids.len() == 1 && x.tampered.contains(&(*ids.first().unwrap(), callee)) {
            check!(!(al == br) && !(ar == bl), "C10:tampering", "devices {da} and {db} agree on SRTP keys although the exchange was tampered with");
            probe("keys-tampered");
        }
    }
    check!(al.key != ar.key && al.salt != ar.salt, "C10:direction", "both directions of a call use the same key");
    check!(al.key.len() == 32 && al.salt.len() == 12, "C10:length", "SRTP key of {} bytes with a salt of {}", al.key.len(), al.salt.len());
    for (k, who) in [(al, i), (ar, i), (bl, j), (br, j)] {
        let pair = (i.min(j), i.max(j));
        let _ = who;
        let old = *x.keys.entry(k.key.clone()).or_insert(pair);
        check!(old == pair, "C10:reuse", "an SRTP key is used by connections {old:?} and {pair:?}");
    }
}

pub struct Mix {
    devices: (usize, usize),
    users: usize,
    ops: u64,
    glare: bool,
}
fn scenario(seed: u64, mx: Mix) {
    crate::driver::watch_log();
    crate::driver::log_level(if seed % 4 == 0 { log::LevelFilter::Off } else { log::LevelFilter::Info });
    let mut r = Rng::derive(seed, "call");
    let pick = |r: &mut Rng, v: &[u64]| *r.pick(v);
    let bad = pick(&mut r, &[0, 1, 1, 2, 3]);
    let f = |r: &mut Rng, v: &[u64]| if bad == 0 { 0 } else { *r.pick(v) };
    let rates = Rates {
        ice_delay_ms: pick(&mut r, &[5, 300, 3000, 12000]),
        ice_fail: f(&mut r, &[0, 0, 5]),
        ice_drop: f(&mut r, &[0, 0, 3]),
        rtp_loss: f(&mut r, &[0, 0, 3, 20]),
        rtp_dup: f(&mut r, &[0, 3]),
        rtp_delay: f(&mut r, &[0, 3]),
        rtp_delay_ms: pick(&mut r, &[50, 1000, 4000]),
        candidates: pick(&mut r, &[1, 3, 6]),
        api_fail: if bad == 3 { f(&mut r, &[0, 30, 8]) } else { 0 },
        more_candidates: f(&mut r, &[0, 2]),
        ..Default::default()
    };
    let api = rates.api_fail > 0;
    webrtc::init(rates);
    let lat = pick(&mut r, &[2, 100, 1500]);
    let sr = SigRates {
        loss: f(&mut r, &[0, 0, 12]),
        dup: f(&mut r, &[0, 0, 6]),
        delay: f(&mut r, &[0, 0, 6]),
        delay_ms: pick(&mut r, &[500, 5000, 90_000]),
        err: if bad >= 2 { f(&mut r, &[0, 0, 30]) } else { 0 },
        nack: if bad >= 2 { f(&mut r, &[0, 0, 20]) } else { 0 },
        tamper: f(&mut r, &[0, 0, 3]),
        lat_ms: lat,
        ack_ms: pick(&mut r, &[1, 60, 1200]),
        ordered: bad < 3 || r.chance(1, 2),
    };
    let policy = Policy1 {
        accept: pick(&mut r, &[90, 60, 40]),
        decline: pick(&mut r, &[0, 20, 40]),
        accept_ms: pick(&mut r, &[2, 300, 8000]),
        hangup: pick(&mut r, &[0, 30, 80]),
        hasty: pick(&mut r, &[0, 0, 0, 30]),
        proceed_never: f(&mut r, &[0, 0, 10]),
        proceed_ms: pick(&mut r, &[2, 100, 2000]),
        status: pick(&mut r, &[1, 6, 12]),
        talk_ms: pick(&mut r, &[500, 5000, 20_000]),
    };
    let users = mx.users.min(2 + r.below(2) as usize);
    let w: W = Shr::new(World { devs: vec![], policy, rates: sr, tampered: BTreeSet::new(), busy_sent: BTreeMap::new(), hangups_from: BTreeMap::new(), keys: BTreeMap::new(), seq: 0, offers: BTreeMap::new(), api, last: BTreeMap::new() });
    let w2 = w.clone();
    ether().monitor = Some(Box::new(move |i, m| monitor(&w2, i, m)));
    for u in 0..users {
        for k in 0..r.range(mx.devices.0 as u64, mx.devices.1 as u64) {
            let assume = r.chance(1, 6);
            spawn_dev(&w, u, k as u32 + 1, assume);
        }
    }
    // What the users do.
    let n = r.range(1, mx.ops);
    for i in 0..n {
        if !op_kept(i) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 77, i));
        let l = live(&w);
        let d = *r.pick(&l);
        let me = w.g().devs[d].user;
        let other = (me + 1 + r.below(users as u64 - 1) as usize) % users;
        let a = match r.below(if bad == 0 { 10 } else { 16 }) {
            0..=5 => Act::Call(other),
            6 | 7 => Act::Hangup,
            8 => Act::Drop,
            9 => Act::Reset,
            10 | 11 => Act::Crash,
            12 | 13 => Act::Offline(*r.pick(&[300, 5000, 70_000])),
            _ => Act::Partition(other, *r.pick(&[1000, 8000, 30_000])),
        };
        if mx.glare && r.chance(1, 2) {
            // The other side has the same idea.
            let theirs: Vec<usize> = l.iter().copied().filter(|&i| w.g().devs[i].user == other).collect();
            let e = *r.pick(&theirs);
            let t = now() + { let m = *r.pick(&[1, 20, 400, 4000]); r.below(m) } * MS;
            post(&w, e, t, Ev::Act(Act::Call(me)));
            post(&w, d, now(), Ev::Act(Act::Call(other)));
        } else {
            let at = now() + { let m = *r.pick(&[1, 50, 3000]); r.below(m) } * MS;
            post(&w, d, at, Ev::Act(a));
        }
        sleep_ms(*r.pick(&[0, 1, 30, 700, 8000, 20_000]));
    }
    sleep_ms(10_000);
    // Faults stop. Calls being set up come to an end by themselves.
    faults_off();
    schedule_calm();
    webrtc::heal();
    {
        let x = w.g();
        x.rates = SigRates { lat_ms: lat.min(100), ack_ms: 50, ordered: true, ..Default::default() };
        for d in &mut x.devs {
            d.offline_until = 0;
            let held: Vec<_> = d.inbox.iter().filter(|(k, e)| k.0 > now() && matches!(e, Ev::Sig(_) | Ev::Ack(_) | Ev::Nack(_))).map(|(k, _)| *k).collect();
            for k in held {
                let e = d.inbox.remove(&k).unwrap();
                d.inbox.insert((now(), k.1), e);
            }
            notify_key(key((d.node - 1) as usize));
        }
    }
    sleep_ms(100_000);
    settled(&w);
    for d in live(&w) {
        post(&w, d, now(), Ev::Act(Act::Hangup));
    }
    sleep_ms(30_000);
    for d in live(&w) {
        let dv = &w.g().devs[d];
        for (c, r) in &dv.recs {
            check!(r.ended.is_some() || r.reset || dv.reset_at > r.start, "C02:never-ended", "device {d}: call {c:x} never ended ({r:?})");
            check!(false, "C02:never-concluded", "device {d}: call {c:x} was never concluded ({r:?})");
        }
        for (c, r) in &dv.done {
            obligations(&w, d, *c, r);
        }
        for c in dv.rejected.keys() {
            check!(dv.concluded_only.contains(c), "C02:rejected-not-concluded", "device {d}: rejected call {c:x} was never concluded");
        }
        for c in &dv.ended_only {
            check!(dv.concluded_only.contains(c), "C02:never-concluded", "device {d}: call {c:x} ended and was never concluded");
        }
        for (c, (_, _, at)) in &dv.got_offers {
            let known = dv.rejected.contains_key(c) || dv.ended_only.contains(c) || dv.done.iter().any(|q| q.0 == *c) || dv.recs.contains_key(c);
            check!(known || dv.reset_at >= *at || api, "C08:ignored", "device {d}: the offer of call {c:x} was neither announced nor rejected");
        }
        let pcs = ether().pcs.iter().filter(|p| p.node == dv.node && !p.closed).count();
        check!(pcs == 0, "C06:open", "device {d}: {pcs} peer connections are open after every call ended");
    }
    // And it can call again, then close.
    for d in live(&w) {
        let node = w.g().devs[d].node;
        let mut cm = w.g().devs[d].cm.clone().unwrap();
        let t0 = now();
        let _ = cm.close();
        w.g().devs[d].closed = true;
        check!(now() - t0 < 10 * S, "C11:slow", "close() took {} ms", (now() - t0) / MS);
        let left: Vec<String> = live_threads(node).into_iter().filter(|n| !n.starts_with("app") && !n.starts_with("sig") && !n.starts_with("net")).collect();
        check!(left.is_empty(), "C11:threads", "device {d}: threads {left:?} are left after close()");
    }
    let all = live(&w);
    for &d in &all {
        w.g().devs[d].cm = None;
        post(&w, d, now(), Ev::Quit);
    }
    sleep_ms(2000);
    for d in all {
        let left = webrtc::leftovers(w.g().devs[d].node);
        check!(left.is_empty(), "W01:leak", "device {d}: nobody uses the library any more, but it still holds {left:?}");
        probe("all-released");
    }
}
/// What must be true of calls once nothing disturbs them any more.
fn settled(w: &W) {
    let x = w.g();
    let on: Vec<(usize, u64)> = x.devs.iter().enumerate().filter(|(_, v)| !v.dead).filter_map(|(i, v)| v.cur.map(|c| (i, c))).collect();
    for &(d, c) in &on {
        let r = &x.devs[d].recs[&c];
        if x.devs[d].reset_at > r.start {
            continue;
        }
        check!(r.connected.is_some(), "C02:stuck", "device {d}: call {c:x} started {} s ago and is neither connected nor ended", (now() - r.start) / S);
        let peers: Vec<usize> = on.iter().filter(|(e, c2)| *c2 == c && x.devs[*e].user == r.peer).map(|q| q.0).collect();
        check!(peers.len() == 1, "C04:agreement", "device {d} is in call {c:x}; on the other side devices {peers:?} are");
        let same: Vec<usize> = on.iter().filter(|(e, c2)| *c2 == c && x.devs[*e].user == x.devs[d].user).map(|q| q.0).collect();
        check!(same.len() == 1, "C04:several", "devices {same:?} of one user are in call {c:x}");
        probe("settled-call");
        if peers.len() == 1 {
            let q = &x.devs[peers[0]].recs[&c];
            for what in 0..3 {
                let last = |r: &Rec| r.status.iter().filter_map(|s| [s.0, s.1, s.2][what]).next_back().unwrap_or(false);
                let seen = r.seen[what].last().copied().unwrap_or(false);
                check!(seen == last(q), "C09:stale", "device {d}: the remote {} state is {seen} but the peer's is {}", ["video", "sharing", "audio"][what], last(q));
            }
        }
        let open: Vec<&Box<webrtc::Pc>> = ether().pcs.iter().filter(|p| p.node == x.devs[d].node && !p.closed && p.connected_once).collect();
        check!(open.len() == 1, "C06:connections", "device {d} is in one call but has {} connected peer connections", open.len());
        if let Some(p) = open.first() {
            check!(p.sends_media() && p.plays_media(), "C06:no-media", "device {d} is in call {c:x} but media is off");
            if let (1, Some(mine)) = (peers.len(), r.mode) {
                if let Some(theirs) = x.devs[peers[0]].recs[&c].mode {
                    let limit = send_limit(mine, theirs, p.route.0 || p.route.1);
                    probe("send-limit");
                    check!(p.max_bitrate as u64 == limit, "C12:rate", "device {d} may send {} bps but the limit is {limit} (own mode {mine:?}, peer's {theirs:?}, route {:?})", p.max_bitrate, p.route);
                }
            }
        }
    }
    // Each user is in at most one call with another one.
    for &(d, c) in &on {
        for &(e, c2) in &on {
            if x.devs[d].user == x.devs[e].user && x.devs[d].recs[&c].peer == x.devs[e].recs[&c2].peer && d != e && c == c2 {
                violate!("C04:several", "two devices of one user are in call {c:x}");
            }
        }
    }
}
fn obligations(w: &W, d: usize, c: u64, r: &Rec) {
    let x = w.g();
    // A caller that gave up tells the callees, if they may know of the call.
    if let Some((_, why)) = &r.ended {
        if r.outgoing && r.offer_sent && x.offers.contains_key(&c) && why == "LocalHangup" && x.devs[d].nacks == 0 && x.devs[d].resets == 0 {
            check!(r.hangup_sent, "C05:no-hangup", "device {d} hung up call {c:x} but never sent a hangup after its offer");
        }
        if !r.outgoing && why == "LocalHangup" && x.devs[d].nacks == 0 && x.devs[d].resets == 0 {
            check!(r.hangup_sent, "C05:no-hangup", "device {d} declined call {c:x} but never sent a hangup");
        }
    }
}
fn run_any(seed: u64) {
    scenario(seed, Mix { devices: (1, 2), users: 3, ops: 8, glare: false })
}
fn run_glare(seed: u64) {
    scenario(seed, Mix { devices: (1, 2), users: 2, ops: 4, glare: true })
}
fn call_cfg(seed: u64) -> SchedCfg {
    let _ = seed;
    let mut c = SchedCfg::swarm(seed);
    c.max_steps = 20_000_000;
    c.gap = if c.gap > 0 { c.gap.max(500) } else { 0 };
    c
}

pub const ANY: Scenario = Scenario { name: "calls", quick: 2500, thorough: 60000, cfg: call_cfg, run: run_any };
pub const GLARE: Scenario = Scenario { name: "glare", quick: 2500, thorough: 60000, cfg: call_cfg, run: run_glare };
pub fn props() -> Vec<Prop> {
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[ANY, GLARE],
        rule: "one execution = one seed's users, devices, actions, network faults and thread schedule",
        must_probe,
        real: &["core::call_manager, call, call_fsm, connection, connection_fsm, crypto, signaling", "native", "webrtc wrappers (peer_connection, observers, factory)", "common::actor", "std::thread, std::sync"],
        stubs: &["WebRTC C++ library (media, ICE, SDP)", "signaling server and application", "kernel scheduler, futexes, clock, randomness (simulated)"],
        assumptions: &["the application calls proceed() from its own thread", "the signaling service does not duplicate offers"],
    };
    vec![
        mk("C01", &["connected", "reconnected"]),
        mk("C02", &["connected", "end-timeout", "end-local", "end-remote"]),
        mk("C04", &["settled-call", "end-elsewhere"]),
        mk("C05", &["connected", "end-local", "end-signaling"]),
        mk("C06", &["media", "settled-call"]),
        mk("C07", &["end-remote", "end-timeout", "end-busy", "end-declined", "end-elsewhere", "end-busy-elsewhere", "end-glare", "end-connection", "end-internal", "end-signaling"]),
        mk("C08", &["busy", "glare", "expired"]),
        mk("C09", &["remote-status", "settled-call"]),
        mk("C10", &["keys-agree", "keys-tampered"]),
        mk("C11", &["connected"]),
        mk("C12", &["send-limit"]),
        mk("C13", &["codecs-old", "codecs-vp9", "codecs-vp8", "removed-candidate"]),
    ]
}
