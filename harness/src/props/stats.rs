//! Call statistics: the observer that turns WebRTC's counters into rates, and the summary of a
//! call that the app gets when it ends.
use crate::driver::{Prop, Scenario};
use ringrtc::common::{CallEndReason, CallId, ConnectionState as Cs};
use ringrtc::core::call_fsm::CallEvent;
use ringrtc::core::call_summary::{CallSummary, DirectCallSummary, GroupCallSummary, MediaQualityStats};
use ringrtc::core::connection::ConnectionObserverEvent as Ce;
use ringrtc::core::group_call::ConnectionState as Gs;
use ringrtc::protobuf::call_summary as pb;
use ringrtc::webrtc::peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol};
use ringrtc::webrtc::ptr::Borrowed;
use ringrtc::webrtc::stats_observer::*;
use prost::Message;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ffi::CString;
use std::time::Duration;

type As = AudioSenderStatistics;
type Vs = VideoSenderStatistics;
type Ar = AudioReceiverStatistics;
type Vr = VideoReceiverStatistics;

/// What a snapshot must say: names and values, plus those that may be anything finite and not negative.
#[derive(Clone, Default, Debug)]
struct Exp {
    kind: &'static str,
    ssrc: u32,
    /// (rule, name, value)
    vals: Vec<(&'static str, &'static str, f64)>,
    text: Vec<(&'static str, String)>,
    /// After a reset nothing but sane numbers is expected.
    loose: bool,
}
struct Recv<T> {
    at: u64,
    s: T,
    jb: (f64, f64),
}
#[derive(Default)]
struct Model {
    a_send: BTreeMap<u32, As>,
    v_send: BTreeMap<u32, Vs>,
    a_recv: BTreeMap<u32, Recv<Ar>>,
    v_recv: BTreeMap<u32, Recv<Vr>>,
    last_ts: i64,
    reports: u64,
}
fn sub(a: u64, b: u64) -> f64 {
    a.saturating_sub(b) as f64
}
fn per(a: f64, b: f64) -> f64 {
    if b > 0.0 && a.is_finite() {
        a / b
    } else {
        0.0
    }
}
fn exp_as(c: &As, p: &As, dt: f64) -> Exp {
    let (n, by) = (sub(c.packets_sent as u64, p.packets_sent as u64), sub(c.bytes_sent, p.bytes_sent));
    let lost = (c.remote_packets_lost - p.remote_packets_lost).max(0) as f64;
    Exp {
        kind: "audio-send",
        ssrc: c.ssrc,
        vals: vec![
            ("V01:rates", "packets_per_second", per(n, dt)),
            ("V01:averages", "average_packet_size", per(by, n)),
            ("V01:rates", "bitrate", per(by * 8.0, dt)),
            ("V01:loss", "remote_packets_lost_pct", per(lost * 100.0, n)),
            ("V01:levels", "remote_jitter", c.remote_jitter * 1000.0),
            ("V01:levels", "remote_rtt", c.remote_round_trip_time * 1000.0),
            ("V01:counts", "audio_energy", (c.total_audio_energy - p.total_audio_energy).max(0.0)),
        ],
        loose: c.packets_sent < p.packets_sent || c.bytes_sent < p.bytes_sent || c.remote_packets_lost < p.remote_packets_lost || c.total_audio_energy < p.total_audio_energy,
        ..Default::default()
    }
}
fn exp_vs(c: &Vs, p: &Vs, dt: f64, name: &Option<String>) -> Exp {
    let zero = Vs::default();
    // Whatever falls although it cannot within one stream: the stream has started again, so all counts from nothing.
    let fell = c.packets_sent < p.packets_sent
        || c.bytes_sent < p.bytes_sent
        || c.frames_encoded < p.frames_encoded
        || c.key_frames_encoded < p.key_frames_encoded
        || c.nack_count < p.nack_count
        || c.pli_count < p.pli_count;
    if fell && c.packets_sent >= p.packets_sent {
        probe("video-reset-late");
    }
    let p = if fell { &zero } else { p };
    let (n, by) = (sub(c.packets_sent as u64, p.packets_sent as u64), sub(c.bytes_sent, p.bytes_sent));
    let lost = (c.remote_packets_lost - p.remote_packets_lost).max(0) as f64;
    let frames = sub(c.frames_encoded as u64, p.frames_encoded as u64);
    Exp {
        kind: "video-send",
        ssrc: c.ssrc,
        vals: vec![
            ("V01:rates", "packets_per_second", per(n, dt)),
            ("V01:averages", "average_packet_size", per(by, n)),
            ("V01:rates", "bitrate", per(by * 8.0, dt)),
            ("V01:rates", "framerate", per(frames, dt)),
            ("V01:counts", "key_frames_encoded", sub(c.key_frames_encoded as u64, p.key_frames_encoded as u64)),
            ("V01:averages", "encode_time_per_frame", 1000.0 * per((c.total_encode_time - p.total_encode_time).max(0.0), frames)),
            ("V01:levels", "width", c.frame_width as f64),
            ("V01:levels", "height", c.frame_height as f64),
            ("V01:counts", "retransmitted_packets_sent", sub(c.retransmitted_packets_sent, p.retransmitted_packets_sent)),
            ("V01:rates", "retransmitted_bitrate", per(8.0 * sub(c.retransmitted_bytes_sent, p.retransmitted_bytes_sent), dt)),
            ("V01:counts", "nack_count", sub(c.nack_count as u64, p.nack_count as u64)),
            ("V01:counts", "pli_count", sub(c.pli_count as u64, p.pli_count as u64)),
            ("V01:counts", "resolution_changes", sub(c.quality_limitation_resolution_changes as u64, p.quality_limitation_resolution_changes as u64)),
            ("V01:loss", "remote_packets_lost_pct", per(lost * 100.0, n)),
            ("V01:levels", "remote_jitter", c.remote_jitter * 1000.0),
            ("V01:levels", "remote_rtt", c.remote_round_trip_time * 1000.0),
        ],
        text: vec![
            ("implementation", format!("{name:?}")),
            ("codec", format!("{:?}", c.codec)),
            ("reason", ["none", "cpu", "bandwidth", "other"].get(c.quality_limitation_reason as usize).map_or(c.quality_limitation_reason.to_string(), |s| s.to_string())),
        ],
        loose: false,
    }
}
fn exp_ar(c: &Ar, p: &Ar, dt: f64, jb: (f64, f64)) -> (Exp, (f64, f64)) {
    let n = sub(c.packets_received as u64, p.packets_received as u64);
    let lost = (c.packets_lost - p.packets_lost) as f64;
    let of = n + lost;
    let emitted = sub(c.jitter_buffer_emitted_count, p.jitter_buffer_emitted_count);
    let jb = if emitted > 0.0 {
        (
            1000.0 * (c.jitter_buffer_delay - p.jitter_buffer_delay).max(0.0) / emitted,
            1000.0 * (c.jitter_buffer_target_delay - p.jitter_buffer_target_delay).max(0.0) / emitted,
        )
    } else {
        jb
    };
    let hidden = sub(c.concealed_samples, p.concealed_samples) - sub(c.silent_concealed_samples, p.silent_concealed_samples);
    let e = Exp {
        kind: "audio-recv",
        ssrc: c.ssrc,
        vals: vec![
            ("V01:rates", "packets_per_second", per(n, dt)),
            ("V01:loss", "packets_lost_pct", if of > 0.0 { (100.0 * (lost + sub(c.packets_discarded, p.packets_discarded)) / of).max(0.0) } else { 0.0 }),
            ("V01:rates", "bitrate", per(8.0 * sub(c.bytes_received, p.bytes_received), dt)),
            ("V01:levels", "jitter", c.jitter * 1000.0),
            ("V01:averages", "jitter_buffer_delay", jb.0),
            ("V01:averages", "jitter_buffer_target_delay", jb.1),
            ("V01:counts", "jitter_buffer_flushes", sub(c.jitter_buffer_flushes, p.jitter_buffer_flushes)),
            ("V01:counts", "audio_energy", (c.total_audio_energy - p.total_audio_energy).max(0.0)),
            ("V01:averages", "concealed_samples_pct", per(100.0 * hidden.max(0.0), sub(c.total_samples_received, p.total_samples_received))),
            ("V01:counts", "fec_packets_received", sub(c.fec_packets_received, p.fec_packets_received)),
            ("V01:averages", "relative_arrival_delay", 1000.0 * per((c.relative_packet_arrival_delay - p.relative_packet_arrival_delay).max(0.0), n)),
        ],
        loose: c.packets_received < p.packets_received
            || c.bytes_received < p.bytes_received
            || c.packets_lost + 100 < p.packets_lost
            || c.jitter_buffer_emitted_count < p.jitter_buffer_emitted_count
            || c.jitter_buffer_delay < p.jitter_buffer_delay
            || c.jitter_buffer_target_delay < p.jitter_buffer_target_delay
            || c.total_samples_received < p.total_samples_received
            || c.concealed_samples < p.concealed_samples
            || c.silent_concealed_samples < p.silent_concealed_samples
            || c.packets_discarded < p.packets_discarded,
        ..Default::default()
    };
    (e, jb)
}
fn exp_vr(c: &Vr, p: &Vr, dt: f64, name: &Option<String>) -> Exp {
    let n = sub(c.packets_received as u64, p.packets_received as u64);
    let lost = (c.packets_lost - p.packets_lost).max(0) as f64;
    let frames = sub(c.frames_decoded as u64, p.frames_decoded as u64);
    Exp {
        kind: "video-recv",
        ssrc: c.ssrc,
        vals: vec![
            ("V01:rates", "packets_per_second", per(n, dt)),
            ("V01:loss", "packets_lost_pct", per(100.0 * lost, n + lost)),
            ("V01:rates", "bitrate", per(8.0 * sub(c.bytes_received, p.bytes_received), dt)),
            ("V01:rates", "framerate", per(frames, dt)),
            ("V01:counts", "key_frames_decoded", sub(c.key_frames_decoded as u64, p.key_frames_decoded as u64)),
            ("V01:averages", "decode_time_per_frame", 1000.0 * per((c.total_decode_time - p.total_decode_time).max(0.0), frames)),
            ("V01:levels", "width", c.frame_width as f64),
            ("V01:levels", "height", c.frame_height as f64),
            ("V01:levels", "jitter", c.jitter * 1000.0),
            ("V01:counts", "freeze_count", sub(c.freeze_count as u64, p.freeze_count as u64)),
        ],
        text: vec![("implementation", format!("{name:?}")), ("codec", format!("{:?}", c.codec))],
        loose: c.packets_received < p.packets_received || c.packets_lost < p.packets_lost || c.frames_decoded < p.frames_decoded || c.bytes_received < p.bytes_received,
    }
}
/// The same from a snapshot.
fn seen(s: &StatsSnapshot) -> Exp {
    let v = |l: Vec<(&'static str, f64)>| l.into_iter().map(|(n, v)| ("", n, v)).collect::<Vec<_>>();
    match s {
        StatsSnapshot::Begin => Exp { kind: "begin", ..Default::default() },
        StatsSnapshot::End => Exp { kind: "end", ..Default::default() },
        StatsSnapshot::System(_) => Exp { kind: "system", ..Default::default() },
        StatsSnapshot::Connection(c) => Exp {
            kind: "connection",
            vals: v(vec![
                ("rtt", c.current_round_trip_time),
                ("bitrate", c.available_outgoing_bitrate),
                ("requests_sent", c.requests_sent as f64),
                ("responses_received", c.responses_received as f64),
                ("requests_received", c.requests_received as f64),
                ("responses_sent", c.responses_sent as f64),
            ]),
            ..Default::default()
        },
        StatsSnapshot::AudioSender(s) => Exp {
            kind: "audio-send",
            ssrc: s.ssrc,
            vals: v(vec![
                ("packets_per_second", s.packets_per_second as f64),
                ("average_packet_size", s.average_packet_size as f64),
                ("bitrate", s.bitrate as f64),
                ("remote_packets_lost_pct", s.remote_packets_lost_pct as f64),
                ("remote_jitter", s.remote_jitter),
                ("remote_rtt", s.remote_rtt),
                ("audio_energy", s.audio_energy),
            ]),
            ..Default::default()
        },
        StatsSnapshot::AudioReceiver(s) => Exp {
            kind: "audio-recv",
            ssrc: s.ssrc,
            vals: v(vec![
                ("packets_per_second", s.packets_per_second as f64),
                ("packets_lost_pct", s.packets_lost_pct as f64),
                ("bitrate", s.bitrate as f64),
                ("jitter", s.jitter),
                ("jitter_buffer_delay", s.jitter_buffer_delay),
                ("jitter_buffer_target_delay", s.jitter_buffer_target_delay),
                ("jitter_buffer_flushes", s.jitter_buffer_flushes as f64),
                ("audio_energy", s.audio_energy),
                ("concealed_samples_pct", s.concealed_samples_pct as f64),
                ("fec_packets_received", s.fec_packets_received as f64),
                ("relative_arrival_delay", s.relative_arrival_delay_per_packet),
            ]),
            ..Default::default()
        },
        StatsSnapshot::VideoSender(s) => Exp {
            kind: "video-send",
            ssrc: s.ssrc,
            vals: v(vec![
                ("packets_per_second", s.packets_per_second as f64),
                ("average_packet_size", s.average_packet_size as f64),
                ("bitrate", s.bitrate as f64),
                ("framerate", s.framerate as f64),
                ("key_frames_encoded", s.key_frames_encoded as f64),
                ("encode_time_per_frame", s.encode_time_per_frame),
                ("width", s.width as f64),
                ("height", s.height as f64),
                ("retransmitted_packets_sent", s.retransmitted_packets_sent as f64),
                ("retransmitted_bitrate", s.retransmitted_bitrate as f64),
                ("nack_count", s.nack_count as f64),
                ("pli_count", s.pli_count as f64),
                ("resolution_changes", s.quality_limitation_resolution_changes as f64),
                ("remote_packets_lost_pct", s.remote_packets_lost_pct as f64),
                ("remote_jitter", s.remote_jitter),
                ("remote_rtt", s.remote_round_trip_time),
                ("send_delay", s.send_delay_per_packet),
            ]),
            text: vec![("implementation", format!("{:?}", s.encoder_implementation)), ("codec", format!("{:?}", s.codec)), ("reason", s.quality_limitation_reason.to_string())],
            loose: false,
        },
        StatsSnapshot::VideoReceiver(s) => Exp {
            kind: "video-recv",
            ssrc: s.ssrc,
            vals: v(vec![
                ("packets_per_second", s.packets_per_second as f64),
                ("packets_lost_pct", s.packets_lost_pct as f64),
                ("bitrate", s.bitrate as f64),
                ("framerate", s.framerate as f64),
                ("key_frames_decoded", s.key_frames_decoded as f64),
                ("decode_time_per_frame", s.decode_time_per_frame),
                ("width", s.width as f64),
                ("height", s.height as f64),
                ("jitter", s.jitter),
                ("freeze_count", s.freeze_count as f64),
            ]),
            text: vec![("implementation", format!("{:?}", s.decoder_implementation)), ("codec", format!("{:?}", s.codec))],
            loose: false,
        },
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-3 * a.abs().max(b.abs()) + 1e-6
}
/// The first difference.
fn differs(e: &Exp, s: &Exp) -> Option<(&'static str, String)> {
    if e.kind != s.kind || e.ssrc != s.ssrc {
        return Some(("V01:framing", format!("{} of {} comes where {} of {} belongs", s.kind, s.ssrc, e.kind, e.ssrc)));
    }
    if e.loose {
        return None;
    }
    for (rule, n, v) in &e.vals {
        let Some((_, _, got)) = s.vals.iter().find(|x| x.1 == *n) else { continue };
        if !v.is_nan() && !close(*v, *got) {
            return Some((rule, format!("{} of {} {} is {got} for {v}", n, s.kind, s.ssrc)));
        }
    }
    for (n, v) in &e.text {
        let got = &s.text.iter().find(|x| x.0 == *n).unwrap().1;
        if got != v {
            return Some(("V01:levels", format!("{} of {} {} is {got} for {v}", n, s.kind, s.ssrc)));
        }
    }
    None
}

// ---- The summary -------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct Dist(Vec<f32>);
#[derive(Default, Clone)]
struct Stream {
    bitrate: Dist,
    loss: Dist,
    jitter: Dist,
    freeze: Dist,
    concealed: Dist,
    delay: Dist,
    fec: u64,
    flushes: u64,
    codec: Option<i32>,
    name: Option<String>,
}
/// What one call's summary must say.
struct Sum {
    group: bool,
    limit: usize,
    sets: VecDeque<pb::StatsSet>,
    need: bool,
    streams: [BTreeMap<u32, Stream>; 4],
    med: BTreeMap<&'static str, Vec<f64>>,
    wall: (i64, i64),
    connect: Option<(i64, i64)>,
    stamps: BTreeMap<&'static str, (i64, i64)>,
    cellular: bool,
    relay: (u64, u64),
    relay_on: Option<(u64, u64)>,
    born: (u64, u64),
    switches: u32,
    reconnects: u32,
    devices: usize,
    dropped: u64,
}
impl Sum {
    fn set(&mut self) -> &mut pb::StatsSet {
        if std::mem::take(&mut self.need) {
            self.sets.push_back(Default::default());
            while self.sets.len() > self.limit {
                self.sets.pop_front();
                self.dropped += 1;
            }
        }
        self.sets.back_mut().unwrap()
    }
    fn m(&mut self, n: &'static str, v: f64) {
        self.med.entry(n).or_default().push(v)
    }
    fn stream(&mut self, kind: usize, ssrc: u32) -> Option<&mut Stream> {
        let m = &mut self.streams[kind];
        if m.len() >= 500 && !m.contains_key(&ssrc) {
            probe("streams-full");
            return None;
        }
        Some(m.entry(ssrc).or_default())
    }
    fn snap(&mut self, s: &StatsSnapshot) {
        let st = |ssrc: u32, b: f32, l: f32, j: f32| pb::StreamStats { ssrc: Some(ssrc), bitrate: Some(b), packet_loss: Some(l), jitter: Some(j), ..Default::default() };
        self.set();
        let put = |x: &mut Sum, k, ssrc, b, l, j| {
            if let Some(t) = x.stream(k, ssrc) {
                t.bitrate.0.push(b);
                t.loss.0.push(l);
                t.jitter.0.push(j);
            }
        };
        match s {
            StatsSnapshot::Begin | StatsSnapshot::System(_) => {}
            StatsSnapshot::End => self.need = true,
            StatsSnapshot::Connection(c) => {
                self.m("rtt", c.current_round_trip_time);
                let set = self.set();
                set.rtt_stun.push(c.current_round_trip_time as f32);
                set.relayed = Some(c.network_route.is_some_and(|r| r.local_relayed || r.remote_relayed));
            }
            StatsSnapshot::AudioSender(a) => {
                self.m("a.js", a.remote_jitter);
                self.m("a.ls", a.remote_packets_lost_pct as f64);
                self.m("a.rtt", a.remote_rtt);
                put(self, 0, a.ssrc, a.bitrate, a.remote_packets_lost_pct, a.remote_jitter as f32);
                self.set().audio_send_stats.push(pb::StreamStats { rtt: Some(a.remote_rtt as f32), ..st(a.ssrc, a.bitrate, a.remote_packets_lost_pct, a.remote_jitter as f32) });
            }
            StatsSnapshot::AudioReceiver(a) => {
                self.m("a.jr", a.jitter);
                self.m("a.lr", a.packets_lost_pct as f64);
                put(self, 1, a.ssrc, a.bitrate, a.packets_lost_pct, a.jitter as f32);
                if let Some(t) = self.stream(1, a.ssrc) {
                    t.concealed.0.push(a.concealed_samples_pct);
                    t.delay.0.push(a.relative_arrival_delay_per_packet as f32);
                    t.fec += a.fec_packets_received;
                    t.flushes += a.jitter_buffer_flushes;
                }
                self.set().audio_recv_stats.push(pb::StreamStats { jitter_buffer_delay: Some(a.jitter_buffer_delay as f32), ..st(a.ssrc, a.bitrate, a.packets_lost_pct, a.jitter as f32) });
            }
            StatsSnapshot::VideoSender(a) => {
                self.m("v.js", a.remote_jitter);
                self.m("v.ls", a.remote_packets_lost_pct as f64);
                self.m("v.rtt", a.remote_round_trip_time);
                put(self, 2, a.ssrc, a.bitrate, a.remote_packets_lost_pct, a.remote_jitter as f32);
                if let Some(t) = self.stream(2, a.ssrc) {
                    t.codec = codec(a.codec);
                    t.name = a.encoder_implementation.clone();
                }
                self.set().video_send_stats.push(pb::StreamStats {
                    rtt: Some(a.remote_round_trip_time as f32),
                    framerate: Some(a.framerate),
                    ..st(a.ssrc, a.bitrate, a.remote_packets_lost_pct, a.remote_jitter as f32)
                });
            }
            StatsSnapshot::VideoReceiver(a) => {
                self.m("v.jr", a.jitter);
                self.m("v.lr", a.packets_lost_pct as f64);
                put(self, 3, a.ssrc, a.bitrate, a.packets_lost_pct, a.jitter as f32);
                if let Some(t) = self.stream(3, a.ssrc) {
                    t.freeze.0.push(a.freeze_count as f32);
                    t.codec = codec(a.codec);
                    t.name = a.decoder_implementation.clone();
                }
                self.set().video_recv_stats.push(pb::StreamStats { framerate: Some(a.framerate), ..st(a.ssrc, a.bitrate, a.packets_lost_pct, a.jitter as f32) });
            }
        }
    }
}
fn codec(c: StatsVideoCodecType) -> Option<i32> {
    match c {
        StatsVideoCodecType::Invalid => None,
        StatsVideoCodecType::Vp8 => Some(8),
        StatsVideoCodecType::Vp9 => Some(9),
    }
}
fn dist_ok(d: &Dist, p: &Option<pb::DistributionSummary>) -> Result<(), String> {
    let Some(p) = p else {
        return if d.0.is_empty() { Ok(()) } else { Err(format!("is absent after {} samples", d.0.len())) };
    };
    let n = d.0.len();
    let (lo, hi) = d.0.iter().fold((f32::MAX, f32::MIN), |(a, b), v| (a.min(*v), b.max(*v)));
    if p.sample_count != Some(n as u32) || n == 0 {
        return Err(format!("counts {:?} samples of {n}", p.sample_count));
    }
    if p.min_val != Some(lo) || p.max_val != Some(hi) {
        return Err(format!("ranges over {:?}..{:?} for {lo}..{hi}", p.min_val, p.max_val));
    }
    let mean = d.0.iter().map(|v| *v as f64).sum::<f64>() / n as f64;
    let dev = (d.0.iter().map(|v| (*v as f64 - mean).powi(2)).sum::<f64>() / n as f64).sqrt();
    let tol = 1e-3 * (hi as f64 - lo as f64).abs() + 1e-4 * hi.abs().max(lo.abs()) as f64 + 1e-6;
    if (p.mean.unwrap_or(f32::NAN) as f64 - mean).abs() > tol || p.mean.is_none() {
        return Err(format!("has mean {:?} for {mean}", p.mean));
    }
    if !((p.std_dev.unwrap_or(f32::NAN) as f64 - dev).abs() <= 10.0 * tol) {
        return Err(format!("has deviation {:?} for {dev}", p.std_dev));
    }
    Ok(())
}
fn median_ok(v: &[f64], got: Option<f32>, scale: f64) -> bool {
    let Some(g) = got else { return v.is_empty() };
    if v.is_empty() {
        return false;
    }
    let mut s: Vec<f64> = v.iter().map(|x| x * scale).collect();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (lo, hi) = (s[(s.len() - 1) / 2], s[s.len() / 2]);
    let g = g as f64;
    g >= lo - 0.02 * lo.abs() - 1e-6 && g <= hi + 0.02 * hi.abs() + 1e-6
}
fn ms(v: i64) -> i64 {
    v.div_euclid(1_000_000)
}
fn within(t: u64, w: (i64, i64)) -> bool {
    t as i64 >= ms(w.0) && t as i64 <= ms(w.1)
}

struct World {
    m: Model,
    want: VecDeque<Vec<Exp>>,
    direct: Option<Sum>,
    group: Option<Sum>,
    sinks: Vec<Box<dyn StatsSnapshotConsumer>>,
    routes: (Option<NetworkRoute>, Option<NetworkRoute>),
    conn: Vec<f64>,
    got: u32,
    taken: BTreeSet<u64>,
    /// (number, when delivered)
    last_json: Option<u64>,
    jumped: bool,
    exact: bool,
    /// Threads at work.
    busy: u32,
}
type W = Shr<World>;
struct Sink(W);
impl std::fmt::Debug for Sink {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sink")
    }
}
impl StatsSnapshotConsumer for Sink {
    fn on_stats_snapshot_ready(&self, s: &StatsSnapshot) {
        let w = self.0.g();
        let x = seen(s);
        for (_, n, v) in &x.vals {
            check!(v.is_finite() && *v >= 0.0, "V01:finite", "{n} of {} {} is {v}", x.kind, x.ssrc);
        }
        w.got += 1;
        match w.want.pop_front() {
            None => violate!("V01:framing", "{} of {} comes after the end of the report", x.kind, x.ssrc),
            Some(alts) => {
                let d: Vec<_> = alts.iter().map(|e| differs(e, &x)).collect();
                if d.iter().all(|d| d.is_some()) {
                    let (rule, msg) = d[0].clone().unwrap();
                    violate!(rule, "{msg}");
                }
                if alts.len() > 1 {
                    probe("history-old");
                }
            }
        }
        if let StatsSnapshot::Connection(c) = s {
            check!(c.network_route == w.routes.0 || c.network_route == w.routes.1, "V01:route", "route {:?} was not in use, but {:?} then {:?}", c.network_route, w.routes.0, w.routes.1);
            for (v, e) in x.vals.iter().zip(&w.conn) {
                check!(close(v.2, *e), "V01:levels", "{} of the connection is {} for {e}", v.1, v.2);
            }
        }
        // The line that is logged must be well formed, too.
        let line = match s {
            StatsSnapshot::AudioSender(x) => format!("{x}"),
            StatsSnapshot::AudioReceiver(x) => format!("{x}"),
            StatsSnapshot::VideoSender(x) => format!("{x}"),
            StatsSnapshot::VideoReceiver(x) => format!("{x}"),
            StatsSnapshot::Connection(x) => format!("{x}"),
            _ => "ringrtc_stats!".into(),
        };
        check!(line.starts_with("ringrtc_stats!") && (x.ssrc == 0 || line.contains(&format!(",{},", x.ssrc))) && !line.contains("inf") && !line.contains("NaN"), "V01:line", "{line}");
        if w.exact {
            let w = self.0.g();
            if let Some(d) = &mut w.direct {
                d.snap(s);
            }
            if let Some(d) = &mut w.group {
                d.snap(s);
            }
        }
        for k in self.0.g().sinks.iter() {
            k.on_stats_snapshot_ready(s);
        }
    }
}

// ---- WebRTC's counters -------------------------------------------------------------------------

#[derive(Default)]
struct Gen {
    a_send: BTreeMap<u32, As>,
    v_send: BTreeMap<u32, (Vs, Option<String>)>,
    a_recv: BTreeMap<u32, Ar>,
    v_recv: BTreeMap<u32, (Vr, Option<String>)>,
    next: u32,
}
fn unit(r: &mut Rng) -> f64 {
    r.below(1_000_000) as f64 / 1e6
}
/// Seconds of something, at most `max`.
fn secs(r: &mut Rng, max: f64) -> f64 {
    if r.chance(1, 6) {
        0.0
    } else {
        unit(r) * max
    }
}
fn grow_as(s: &mut As, r: &mut Rng) {
    let n = if r.chance(1, 5) { 0 } else { r.below(600) as u32 };
    s.packets_sent += n;
    s.bytes_sent += n as u64 * r.range(20, 200);
    s.remote_packets_lost += r.below(n as u64 / 4 + 1) as i32;
    s.remote_jitter = secs(r, 0.3);
    s.remote_round_trip_time = secs(r, 1.5);
    s.total_audio_energy += secs(r, 2.0);
}
fn impl_name(r: &mut Rng) -> Option<String> {
    r.pick(&[None, Some("libvpx"), Some("SimulcastEncoderAdapter"), Some("")]).map(|s| s.to_string())
}
fn pick_codec(r: &mut Rng) -> StatsVideoCodecType {
    *r.pick(&[StatsVideoCodecType::Vp8, StatsVideoCodecType::Vp9, StatsVideoCodecType::Invalid])
}
fn grow_vs(s: &mut Vs, r: &mut Rng) {
    let n = if r.chance(1, 5) { 0 } else { r.below(3000) as u32 };
    s.packets_sent += n;
    s.bytes_sent += n as u64 * r.range(200, 1200);
    let f = r.below(n as u64 / 3 + 1) as u32;
    s.frames_encoded += f;
    s.key_frames_encoded += r.below(f as u64 / 20 + 1) as u32;
    s.total_encode_time += f as f64 * unit(r) * 0.03;
    (s.frame_width, s.frame_height) = *r.pick(&[(640, 480), (1280, 720), (320, 180), (0, 0)]);
    let re = r.below(n as u64 / 8 + 1);
    s.retransmitted_packets_sent += re;
    s.retransmitted_bytes_sent += re * r.range(100, 1200);
    s.total_packet_send_delay += n as f64 * unit(r) * 0.1;
    s.nack_count += r.below(5) as u32;
    s.pli_count += r.below(3) as u32;
    s.quality_limitation_reason = r.below(5) as u32;
    s.quality_limitation_resolution_changes += r.below(3) as u32;
    s.remote_packets_lost += r.below(n as u64 / 4 + 1) as i32;
    s.remote_jitter = secs(r, 0.3);
    s.remote_round_trip_time = secs(r, 1.5);
    s.codec = pick_codec(r);
}
fn grow_ar(s: &mut Ar, r: &mut Rng) {
    let n = if r.chance(1, 5) { 0 } else { r.below(600) as u32 };
    s.packets_received += n;
    // Late packets are no longer lost ones.
    s.packets_lost += r.below(n as u64 / 4 + 2) as i32 - r.below(3) as i32;
    s.bytes_received += n as u64 * r.range(20, 200);
    s.jitter = secs(r, 0.3);
    s.total_audio_energy += secs(r, 2.0);
    let e = if r.chance(1, 4) { 0 } else { r.below(480_000) };
    s.jitter_buffer_emitted_count += e;
    s.jitter_buffer_delay += e as f64 * unit(r) * *r.pick(&[0.4, 3.0]);
    s.jitter_buffer_target_delay += e as f64 * unit(r) * *r.pick(&[0.4, 3.0]);
    s.jitter_buffer_flushes += r.below(8) / 6;
    s.total_samples_received += e;
    let c = r.below(e / 5 + 1);
    s.concealed_samples += c;
    s.silent_concealed_samples += r.below(c + 1);
    s.fec_packets_received += r.below(n as u64 / 10 + 1);
    s.packets_discarded += r.below(n as u64 / 10 + 1);
    s.relative_packet_arrival_delay += n as f64 * unit(r) * 0.2;
}
fn grow_vr(s: &mut Vr, r: &mut Rng) {
    let n = if r.chance(1, 5) { 0 } else { r.below(3000) as u32 };
    s.packets_received += n;
    s.packets_lost += r.below(n as u64 / 4 + 1) as i32;
    s.bytes_received += n as u64 * r.range(200, 1200);
    let f = r.below(n as u64 / 3 + 1) as u32;
    s.frames_received += f;
    s.frames_decoded += f;
    s.key_frames_decoded += r.below(f as u64 / 20 + 1) as u32;
    s.total_decode_time += f as f64 * unit(r) * 0.03;
    (s.frame_width, s.frame_height) = *r.pick(&[(640, 480), (1280, 720), (320, 180), (0, 0)]);
    s.freeze_count += r.below(3) as u32;
    s.jitter = secs(r, 0.3);
    s.codec = pick_codec(r);
}

struct Rates {
    /// Chance of a change of the streams before a report.
    churn: u64,
    crowd: u64,
    pause: u64,
    dup: u64,
    back: u64,
    ahead: u64,
    reset: u64,
    /// Only streams of this kind come.
    only: Option<u64>,
}
fn stamp(w: &W) -> (i64, u64) {
    let _ = w;
    (wall_now(1), now())
}
/// One report of WebRTC.
#[allow(clippy::too_many_arguments)]
fn report(w: &W, g: &mut Gen, obs: *const StatsObserver, rt: &Rates, r: &mut Rng, offset: u64, num: u64) {
    // Streams come, go and start again.
    for _ in 0..1 + rt.crowd {
        if r.below(100) < rt.churn || g.next == 0 {
            g.next += 1;
            let ssrc = g.next * 7;
            match rt.only.unwrap_or(r.below(4)) {
                0 => drop(g.a_send.insert(ssrc, As { ssrc, ..Default::default() })),
                1 => drop(g.v_send.insert(ssrc, (Vs { ssrc, ..Default::default() }, impl_name(r)))),
                2 => drop(g.a_recv.insert(ssrc, Ar { ssrc, ..Default::default() })),
                _ => drop(g.v_recv.insert(ssrc, (Vr { ssrc, ..Default::default() }, impl_name(r)))),
            }
        }
    }
    let away = |r: &mut Rng| r.below(100) < rt.churn / 2;
    let (mut a_send, mut v_send, mut a_recv, mut v_recv) = (vec![], vec![], vec![], vec![]);
    // Names only live while the report is given.
    let mut names: Vec<CString> = vec![];
    for s in g.a_send.values_mut() {
        if away(r) {
            continue;
        }
        if fault("stream-reset", "stats", rt.reset).is_some() && s.packets_sent > 600 {
            *s = As { ssrc: s.ssrc, ..Default::default() };
            // Some reports may have been missed since.
            for _ in 0..r.below(4) {
                grow_as(s, r);
            }
        }
        grow_as(s, r);
        a_send.push(s.clone());
    }
    for (s, n) in g.v_send.values_mut() {
        if away(r) {
            continue;
        }
        if fault("stream-reset", "stats", rt.reset).is_some() && s.packets_sent > 600 {
            *s = Vs { ssrc: s.ssrc, ..Default::default() };
            // Some reports may have been missed since.
            for _ in 0..r.below(4) {
                grow_vs(s, r);
            }
            probe("video-reset");
        }
        grow_vs(s, r);
        let mut s = s.clone();
        if let Some(n) = n {
            names.push(CString::new(n.as_str()).unwrap());
            s.raw_encoder_implementation = Borrowed::from_ptr(names.last().unwrap().as_ptr());
        }
        v_send.push((s, n.clone()));
    }
    for s in g.a_recv.values_mut() {
        if away(r) {
            continue;
        }
        if fault("stream-reset", "stats", rt.reset).is_some() && s.packets_received > 600 {
            *s = Ar { ssrc: s.ssrc, ..Default::default() };
            // Some reports may have been missed since.
            for _ in 0..r.below(4) {
                grow_ar(s, r);
            }
        }
        grow_ar(s, r);
        a_recv.push(s.clone());
    }
    for (s, n) in g.v_recv.values_mut() {
        if away(r) {
            continue;
        }
        if fault("stream-reset", "stats", rt.reset).is_some() && s.packets_received > 600 {
            *s = Vr { ssrc: s.ssrc, ..Default::default() };
            // Some reports may have been missed since.
            for _ in 0..r.below(4) {
                grow_vr(s, r);
            }
        }
        grow_vr(s, r);
        let mut s = s.clone();
        if let Some(n) = n {
            names.push(CString::new(n.as_str()).unwrap());
            s.raw_decoder_implementation = Borrowed::from_ptr(names.last().unwrap().as_ptr());
        }
        v_recv.push((s, n.clone()));
    }
    // The wall clock may be set.
    if let Some(v) = fault("wall-clock-back", "stats", rt.back) {
        w.g().jumped = true;
        wall_jump(1, -((v % 30_000) as i64 * 1_000_000));
    }
    if let Some(v) = fault("wall-clock-ahead", "stats", rt.ahead) {
        w.g().jumped = true;
        wall_jump(1, (v % 900_000) as i64 * 1_000_000);
    }
    let mut ts = wall_now(1) / 1000;
    if w.g().m.last_ts > 0 && fault("same-timestamp", "stats", rt.dup).is_some() {
        ts = w.g().m.last_ts;
    }
    // What must come of it.
    let x = w.g();
    let m = &mut x.m;
    let dt = if m.last_ts > 0 { (ts - m.last_ts) as f64 / 1e6 } else { offset as f64 };
    if dt <= 0.0 {
        probe("no-time-passed");
    }
    m.last_ts = ts;
    m.reports += 1;
    let mut want: VecDeque<Vec<Exp>> = VecDeque::new();
    for k in ["begin", "system", "connection"] {
        want.push_back(vec![Exp { kind: k, ..Default::default() }]);
    }
    for s in &a_send {
        let p = m.a_send.entry(s.ssrc).or_default();
        want.push_back(vec![exp_as(s, p, dt)]);
        *p = s.clone();
    }
    for (s, n) in &v_send {
        let p = m.v_send.entry(s.ssrc).or_default();
        want.push_back(vec![exp_vs(s, p, dt, n)]);
        *p = s.clone();
    }
    let t = now();
    for s in &a_recv {
        let p = m.a_recv.entry(s.ssrc).or_insert_with(|| Recv { at: t, s: Default::default(), jb: (0.0, 0.0) });
        let mut alts = vec![];
        let (e, mut jb) = exp_ar(s, &p.s, dt, p.jb);
        if t - p.at > 2_000_000_000 && p.s.packets_received > 0 {
            probe("history-kept");
        }
        alts.push(e);
        if t - p.at > 590_000_000_000 {
            // It may have been forgotten.  Then so is what it carries over.
            let (e, _) = exp_ar(s, &Default::default(), dt, (0.0, 0.0));
            jb = (f64::NAN, f64::NAN);
            alts.push(e);
        }
        want.push_back(alts);
        *p = Recv { at: t, s: s.clone(), jb };
    }
    for (s, n) in &v_recv {
        let p = m.v_recv.entry(s.ssrc).or_insert_with(|| Recv { at: t, s: Default::default(), jb: (0.0, 0.0) });
        let mut alts = vec![exp_vr(s, &p.s, dt, n)];
        if t - p.at > 590_000_000_000 {
            alts.push(exp_vr(s, &Default::default(), dt, n));
        }
        want.push_back(alts);
        *p = Recv { at: t, s: s.clone(), jb: (0.0, 0.0) };
    }
    want.push_back(vec![Exp { kind: "end", ..Default::default() }]);
    // The order of the kinds is not promised, only that all lie between begin and end: the model follows the shipped order.
    x.want = want;
    let mut nominated = ConnectionStatistics::default();
    nominated.current_round_trip_time = secs(r, 1.0);
    nominated.available_outgoing_bitrate = r.below(5_000_000) as f64;
    nominated.requests_sent = r.below(1000);
    nominated.responses_received = r.below(1000);
    nominated.requests_received = r.below(1000);
    nominated.responses_sent = r.below(1000);
    x.conn = vec![
        nominated.current_round_trip_time * 1000.0,
        nominated.available_outgoing_bitrate,
        nominated.requests_sent as f64,
        nominated.responses_received as f64,
        nominated.requests_received as f64,
        nominated.responses_sent as f64,
    ];
    let v_send: Vec<Vs> = v_send.into_iter().map(|x| x.0).collect();
    let v_recv: Vec<Vr> = v_recv.into_iter().map(|x| x.0).collect();
    let report = MediaStatistics {
        timestamp_us: ts,
        audio_sender_statistics_size: a_send.len() as u32,
        audio_sender_statistics: if a_send.is_empty() { std::ptr::null() } else { a_send.as_ptr() },
        video_sender_statistics_size: v_send.len() as u32,
        video_sender_statistics: v_send.as_ptr(),
        audio_receiver_statistics_size: a_recv.len() as u32,
        audio_receiver_statistics: if a_recv.is_empty() { std::ptr::null() } else { a_recv.as_ptr() },
        video_receiver_statistics_size: v_recv.len() as u32,
        video_receiver_statistics: v_recv.as_ptr(),
        nominated_connection_statistics: nominated,
        connection_statistics: std::ptr::null(),
        connection_statistics_size: 0,
    };
    let json = CString::new(if num % 5 == 4 { String::new() } else { format!("{{\"n\":{num}}}") }).unwrap();
    x.last_json = if num % 5 == 4 { None } else { Some(num) };
    let now_route = x.routes.1;
    crate::webrtc::deliver_stats(obs, &report, json.as_ptr());
    let x = w.g();
    check!(x.want.is_empty(), "V01:framing", "{} parts of the report are missing", x.want.len());
    x.routes.0 = now_route;
    // The memory of the names is used for something else now.
    for n in names {
        n.into_bytes().fill(b'#');
    }
}
fn take(w: &W, obs: *const StatsObserver) {
    let before = w.g().last_json;
    let got = unsafe { &*obs }.take_stats_report();
    let x = w.g();
    if let Some(j) = got {
        let n = serde_json::from_str::<serde_json::Value>(&j).ok().and_then(|v| v["n"].as_u64());
        match n {
            None => violate!("V01:report", "the report is {j:?}"),
            Some(n) => {
                check!(x.taken.insert(n), "V01:report", "report {n} was taken twice");
                check!(Some(n) == before || Some(n) == x.last_json, "V01:report", "report {n} was taken, {before:?} is the latest");
                probe("report-taken");
            }
        }
    } else if x.exact {
        check!(before.is_none_or(|n| x.taken.contains(&n)), "V01:report", "report {before:?} cannot be taken");
    }
}

// ---- Events of the call ------------------------------------------------------------------------

fn route(r: &mut Rng) -> NetworkRoute {
    let relay = r.below(3);
    NetworkRoute {
        local_adapter_type: *r.pick(&[NetworkAdapterType::Wifi, NetworkAdapterType::Ethernet, NetworkAdapterType::Wifi, NetworkAdapterType::Cellular4G, NetworkAdapterType::Cellular]),
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: relay == 1,
        local_relay_protocol: *r.pick(&[TransportProtocol::Udp, TransportProtocol::Tcp, TransportProtocol::Tls]),
        remote_relayed: relay == 2,
    }
}
fn event(w: &W, d: &DirectCallSummary, g: &GroupCallSummary, r: &mut Rng, obs: *mut StatsObserver) {
    let (w0, t0) = stamp(w);
    let exact = w.g().exact;
    let k = r.below(10);
    let rt = route(r);
    let st = *r.pick(&[Cs::ConnectedBeforeAccepted, Cs::ConnectedAndAccepted, Cs::ReconnectingAfterAccepted, Cs::IceGathering, Cs::ConnectedAndAccepted]);
    let gs = r.below(4);
    match k {
        0 => d.on_call_event(&CallEvent::ConnectionObserverEvent(Ce::IceConnected, 1)),
        1 => d.on_call_event(&CallEvent::ConnectionObserverEvent(Ce::IceDisconnected, 1)),
        2 | 3 => {
            d.on_call_event(&CallEvent::ConnectionObserverEvent(Ce::IceNetworkRouteChanged(rt), 1));
            g.on_ice_network_route_changed(rt);
        }
        4 | 5 => d.on_call_event(&CallEvent::ConnectionObserverEvent(Ce::StateChanged(st), 1)),
        6 => d.on_call_event(&CallEvent::SendingOffer),
        7 => d.on_call_event(&CallEvent::SendingAnswer),
        8 => g.on_connection_state_changed([Gs::NotConnected, Gs::Connecting, Gs::Connected, Gs::Reconnecting][gs as usize]),
        _ => {
            // The route that the reports name.
            unsafe { &mut *obs }.set_network_route(rt);
            w.g().routes.1 = Some(rt);
            if w.g().routes.0.is_none() {
                w.g().routes.0 = Some(rt);
            }
        }
    }
    if !exact {
        return;
    }
    let (w1, t1) = stamp(w);
    let x = w.g();
    let (dm, gm) = (x.direct.as_mut().unwrap(), x.group.as_mut().unwrap());
    match k {
        0 => dm.set().events.push(1),
        1 => dm.set().events.push(2),
        2 | 3 => {
            dm.set().events.push(4);
            dm.switches += 1;
            let on = rt.local_relayed || rt.remote_relayed;
            match (on, dm.relay_on) {
                (true, None) => dm.relay_on = Some((t0, t1)),
                (false, Some((a, b))) => {
                    dm.relay = (dm.relay.0 + t0.saturating_sub(b), dm.relay.1 + (t1 - a));
                    dm.relay_on = None;
                }
                _ => {}
            }
            for m in [dm, gm] {
                m.cellular |= rt.local_adapter_type.is_cellular();
            }
        }
        4 | 5 => {
            if matches!(st, Cs::ConnectedBeforeAccepted | Cs::ConnectedAndAccepted) {
                dm.stamps.entry("ice").or_insert((w0, w1));
            }
            if st == Cs::ConnectedAndAccepted {
                dm.connect.get_or_insert((w0, w1));
            }
            dm.reconnects += (st == Cs::ReconnectingAfterAccepted) as u32;
        }
        6 => drop(dm.stamps.entry("offer").or_insert((w0, w1))),
        7 => drop(dm.stamps.entry("answer").or_insert((w0, w1))),
        8 => {
            gm.set().events.push([5, 6, 7, 8][gs as usize]);
            if gs == 2 {
                gm.connect.get_or_insert((w0, w1));
            }
        }
        _ => {}
    }
}

/// Judges a summary by what the call went through.
fn judge(w: &W, s: &CallSummary, m: &Sum, reason: CallEndReason, built: ((i64, u64), (i64, u64)), hash: &Option<Vec<u8>>) {
    let x = w.g();
    let ((w0, t0), (w1, t1)) = built;
    let (start, end) = (u64::from(s.start_time), u64::from(s.end_time));
    check!(start <= end, "V02:times", "the call ends at {end}, before its start at {start}");
    check!(within(start, m.connect.unwrap_or(m.wall)), "V02:times", "the call starts at {start}, it was {:?}", m.connect.unwrap_or(m.wall));
    let first = [Some(m.wall), m.connect].into_iter().flatten().map(|x| ms(x.0)).max().unwrap();
    let end_ok = |e: u64| within(e, (w0, w1)) || (ms(w0) < first + 1 && (e as i64) <= first.max(ms(m.connect.unwrap_or(m.wall).1)) && e as i64 >= ms(w0));
    match m.connect {
        None => check!(start == end, "V02:times", "a call that never connected lasts from {start} to {end}"),
        Some(_) => {
            probe("connected");
            check!(end_ok(end), "V02:times", "the call ends at {end}, now it is {w0}");
        }
    }
    if end > start && w.g().jumped {
        probe("clock-set");
    }
    check!(s.call_end_reason_text == reason.to_string(), "V02:reason", "the reason is {} for {reason}", s.call_end_reason_text);
    check!(&s.call_id_hash == hash, "V02:reason", "the call's hash is {:?} for {hash:?}", s.call_id_hash);
    let wish = if m.group { s.raw_stats.is_some() && m.connect.is_some() && m.devices > 0 } else { m.connect.is_some() && !matches!(reason, CallEndReason::AppDroppedCall | CallEndReason::RemoteReCall) };
    check!(s.is_survey_candidate == wish, "V02:survey", "the user is {}to be asked about this call: connected {:?}, {reason}, {} others", if wish { "" } else { "not " }, m.connect, m.devices);
    // Quality.
    let md = |n| m.med.get(n).map_or(&[][..], |v: &Vec<f64>| &v[..]);
    let q = |a: &MediaQualityStats| [(a.rtt_median, 1.0), (a.jitter_median_send, 1.0), (a.jitter_median_recv, 1.0), (a.packet_loss_fraction_send, 0.01), (a.packet_loss_fraction_recv, 0.01)];
    for (i, (got, scale)) in q(&s.quality_stats.audio_stats).into_iter().chain(q(&s.quality_stats.video_stats)).enumerate() {
        let n = ["a.rtt", "a.js", "a.jr", "a.ls", "a.lr", "v.rtt", "v.js", "v.jr", "v.ls", "v.lr"][i];
        check!(median_ok(md(n), got, scale), "V02:quality", "{n} is {got:?} for the median of {:?}", &md(n)[..md(n).len().min(12)]);
    }
    let got = s.quality_stats.rtt_median_connection;
    check!(median_ok(md("rtt"), got, 1.0), "V02:quality", "the connection's round trip is {got:?} for the median of {:?}", &md("rtt")[..md("rtt").len().min(12)]);
    check!(format!("{s}").contains("call_end_reason_text"), "V02:text", "the summary cannot be shown");
    // Telemetry: as much of it as fits, the newest part of it.
    let stamp_len = pb::StatsSet { timestamp: Some(ms(m.wall.0) as u64), ..Default::default() };
    let mut full = pb::CallTelemetry { version: 1, ..Default::default() };
    let mut parts = pb::StreamSummaries::default();
    let _ = &mut parts;
    let Some(raw) = &s.raw_stats else {
        violate!("V02:telemetry", "there is no telemetry");
        return;
    };
    check!(raw.len() <= 65536, "V02:size", "the telemetry takes {} bytes", raw.len());
    let Ok(t) = pb::CallTelemetry::decode(&raw[..]) else {
        violate!("V02:telemetry", "the telemetry cannot be read");
        return;
    };
    let text = s.raw_stats_text.as_deref().and_then(|t| serde_json::from_str::<serde_json::Value>(t).ok());
    check!(text.is_some() && text == serde_json::to_string(&t).ok().and_then(|v| serde_json::from_str(&v).ok()), "V02:text", "the text shown is not the telemetry sent");
    check!(t.version == 1 && within(t.start_time, m.wall) && end_ok(t.end_time) && t.end_time >= t.start_time, "V02:times", "telemetry runs from {} to {}, made at {:?}, now {w0}", t.start_time, t.end_time, m.wall);
    check!(t.connect_time.is_some() == m.connect.is_some() && t.connect_time.is_none_or(|t| within(t, m.connect.unwrap())), "V02:times", "telemetry connects at {:?}, the call at {:?}", t.connect_time, m.connect);
    check!(t.cellular == Some(m.cellular), "V02:telemetry", "cellular is {:?} for {}", t.cellular, m.cellular);
    // Sets of reports: the newest ones, in order.
    let k = t.stats_sets.len();
    check!(k <= m.limit, "V02:limit", "{k} sets are kept, at most {} may be", m.limit);
    check!(k <= m.sets.len(), "V02:sets", "{k} sets are told of {}", m.sets.len());
    let off = m.sets.len().saturating_sub(k);
    let mut prev = 0;
    for (a, b) in t.stats_sets.iter().zip(m.sets.iter().skip(off)) {
        check!(a.timestamp.is_some(), "V02:sets", "a set has no time");
        if !x.jumped {
            check!(a.timestamp.unwrap_or(0) >= prev, "V02:sets", "sets are out of order");
            prev = a.timestamp.unwrap_or(0);
        }
        let mut a = a.clone();
        a.timestamp = None;
        check!(&a == b, "V02:sets", "a set is {a:?} for {b:?}");
    }
    let streams = if m.group { t.group_call_summary.as_ref().and_then(|g| g.stream_summaries.as_ref()) } else { t.direct_call_summary.as_ref().and_then(|g| g.stream_summaries.as_ref()) };
    // One more set must not have fitted.
    if off > 0 {
        let mut a = m.sets[off - 1].clone();
        a.timestamp = stamp_len.timestamp;
        full.stats_sets.push(a);
        let more = full.encoded_len() - pb::CallTelemetry { version: 1, ..Default::default() }.encoded_len();
        probe("sets-dropped-for-size");
        if streams.is_some() {
            check!(raw.len() + more > 65536, "V02:pruned", "a set of {more} bytes is missing in {} bytes", raw.len());
        }
    }
    let Some(streams) = streams else {
        // The part about the streams may only go when it does not fit on its own.
        probe("streams-dropped-for-size");
        let n: usize = m.streams.iter().map(|s| s.len()).sum();
        check!(k == 0 && n * 200 > 60_000, "V02:pruned", "what is known about the {n} streams is missing, {k} sets are there");
        return;
    };
    for (i, l) in [&streams.audio_send_stream_summaries, &streams.audio_recv_stream_summaries, &streams.video_send_stream_summaries, &streams.video_recv_stream_summaries].into_iter().enumerate() {
        check!(l.len() == m.streams[i].len(), "V02:streams", "{} streams of kind {i} are told, there were {}", l.len(), m.streams[i].len());
        for p in l {
            let Some(st) = p.ssrc.and_then(|s| m.streams[i].get(&s)) else {
                violate!("V02:streams", "stream {:?} of kind {i} was never there", p.ssrc);
                continue;
            };
            let no = Dist::default();
            for (n, d, g) in [
                ("bitrate", &st.bitrate, &p.bitrate),
                ("loss", &st.loss, &p.packet_loss_pct),
                ("jitter", &st.jitter, &p.jitter),
                ("freezes", if i == 3 { &st.freeze } else { &no }, &p.freeze_count),
                ("concealment", &st.concealed, &p.audio_concealment_pct),
                ("delay", &st.delay, &p.audio_relative_arrival_delay),
            ] {
                if let Err(e) = dist_ok(d, g) {
                    violate!("V02:streams", "{n} of stream {:?} of kind {i} {e}", p.ssrc);
                }
            }
            check!(p.video_codec == st.codec && p.codec_implementation == st.name, "V02:streams", "stream {:?} uses {:?} {:?} for {:?} {:?}", p.ssrc, p.video_codec, p.codec_implementation, st.codec, st.name);
            if i == 1 {
                check!(p.audio_redundant_packets == Some(st.fec) && p.audio_jitter_buffer_flushes == Some(st.flushes), "V02:streams", "stream {:?} counts {:?} {:?} for {} {}", p.ssrc, p.audio_redundant_packets, p.audio_jitter_buffer_flushes, st.fec, st.flushes);
            }
        }
    }
    if let Some(d) = &t.direct_call_summary {
        check!(!m.group, "V02:telemetry", "a group call's telemetry is that of another call");
        check!(d.ice_candidate_switch_count == Some(m.switches) && d.ice_reconnect_count == Some(m.reconnects), "V02:counts", "{:?} routes and {:?} reconnects are told of {} and {}", d.ice_candidate_switch_count, d.ice_reconnect_count, m.switches, m.reconnects);
        for (n, v) in [("offer", d.offer_sent_time), ("answer", d.answer_sent_time), ("ice", d.ice_connected_time)] {
            let e = m.stamps.get(n);
            check!(v.is_some() == e.is_some() && v.is_none_or(|v| within(v, *e.unwrap())), "V02:times", "{n} happened at {v:?} for {e:?}");
        }
        check!(d.answer_received_time.is_none(), "V02:times", "an answer was never received");
        if !x.jumped {
            let (mut lo, mut hi) = m.relay;
            if let Some((a, b)) = m.relay_on {
                (lo, hi) = (lo + t0.saturating_sub(b), hi + (t1 - a));
                probe("relayed-at-end");
            }
            let is = |relay: u64, len: u64| relay / 1_000_000 > len / 1_000_000 / 8 || (relay >= 1_000_000 && len <= 30_000_000_000);
            let (len_lo, len_hi) = (t0 - m.born.1, t1 - m.born.0);
            let mut all = vec![];
            for relay in [lo.saturating_sub(2_000_000), hi + 2_000_000] {
                for len in [len_lo.saturating_sub(2_000_000), len_hi + 2_000_000] {
                    all.push(is(relay, len));
                }
            }
            if all.iter().all(|a| *a == all[0]) {
                probe(if all[0] { "relayed" } else { "direct" });
                check!(d.relayed == Some(all[0]), "V02:relayed", "relayed is {:?}, {} of {} ms went through a relay", d.relayed, lo / 1_000_000, len_lo / 1_000_000);
            }
        }
    }
}
fn build(w: &W, d: &DirectCallSummary, g: &GroupCallSummary, r: &mut Rng) {
    let reason = *r.pick(&[CallEndReason::LocalHangup, CallEndReason::RemoteHangup, CallEndReason::AppDroppedCall, CallEndReason::RemoteReCall, CallEndReason::Timeout, CallEndReason::DeviceExplicitlyDisconnected]);
    let hash = r.pick(&[None, Some(vec![1u8, 2, 255])]).clone();
    let a = stamp(w);
    let s = d.build_call_summary(hash.clone(), reason);
    let b = stamp(w);
    let gs = g.build_call_summary(reason);
    let c = stamp(w);
    if w.g().exact {
        let x = w.g();
        judge(w, &s, x.direct.as_ref().unwrap(), reason, (a, b), &hash);
        judge(w, &gs, x.group.as_ref().unwrap(), reason, (b, c), &None);
    } else {
        for s in [&s, &gs] {
            let raw = s.raw_stats.as_deref().unwrap_or(&[]);
            let t = pb::CallTelemetry::decode(raw);
            check!(raw.len() <= 65536 && t.is_ok() && u64::from(s.start_time) <= u64::from(s.end_time), "V02:telemetry", "the telemetry of {} bytes cannot be read", raw.len());
            // A set belongs to one report.
            for set in t.map(|t| t.stats_sets).unwrap_or_default() {
                check!(set.rtt_stun.len() <= 1, "V02:sets", "{} reports are in one set", set.rtt_stun.len());
                for l in [&set.audio_send_stats, &set.audio_recv_stats, &set.video_send_stats, &set.video_recv_stats] {
                    let n: BTreeSet<_> = l.iter().map(|s| s.ssrc).collect();
                    check!(n.len() == l.len(), "V02:sets", "a stream is twice in one set");
                }
            }
        }
    }
}

fn run(seed: u64) {
    let mut r = Rng::derive(seed, "stats");
    let bad = |r: &mut Rng, v: &[u64]| *r.pick(v);
    let rt = Rates {
        churn: bad(&mut r, &[5, 20, 60, 2]),
        crowd: *r.pick(&[0, 0, 3, 3, 10, 40]),
        pause: bad(&mut r, &[0, 6, 20]),
        dup: bad(&mut r, &[0, 0, 6]),
        back: bad(&mut r, &[0, 0, 0, 8]),
        ahead: bad(&mut r, &[0, 0, 0, 8]),
        reset: bad(&mut r, &[0, 10, 40]),
        only: if r.chance(1, 6) { Some(r.below(4)) } else { None },
    };
    let exact = r.chance(4, 5);
    let rt = Rates { crowd: if exact { rt.crowd } else { rt.crowd.min(3) }, ..rt };
    let rt = if exact && rt.only.is_some() && rt.crowd > 0 { Rates { crowd: 40, churn: 60, ..rt } } else { rt };
    if rt.crowd == 40 {
        probe("crowd");
    }
    crate::webrtc::init(Default::default());
    set_node(1);
    let (period, total) = (*r.pick(&[1u64, 10, 10, 2]), *r.pick(&[20u64, 60, 300, 300, 2400]));
    let sum = |group, a: (i64, u64), b: (i64, u64), limit| Sum {
        group,
        limit,
        sets: Default::default(),
        need: true,
        streams: Default::default(),
        med: Default::default(),
        wall: (a.0, b.0),
        connect: None,
        stamps: Default::default(),
        cellular: false,
        relay: (0, 0),
        relay_on: None,
        born: (a.1, b.1),
        switches: 0,
        reconnects: 0,
        devices: 0,
        dropped: 0,
    };
    let w: W = Shr::new(World {
        m: Default::default(),
        want: Default::default(),
        direct: None,
        group: None,
        sinks: vec![],
        routes: (None, None),
        conn: vec![],
        got: 0,
        taken: Default::default(),
        last_json: None,
        jumped: false,
        exact,
        busy: 0,
    });
    for (a, b) in [(0u64, 1u64), (5, 0), (3, 3), (2, 5)] {
        check!(DirectCallSummary::new(Duration::from_secs(a), Duration::from_secs(b)).is_err() && GroupCallSummary::new(Duration::from_secs(a), Duration::from_secs(b)).is_err(), "V02:limit", "a summary of {a} s with a report every {b} s can be made");
    }
    let plain = r.chance(1, 4);
    let a = stamp(&w);
    let direct = if plain { DirectCallSummary::default() } else { DirectCallSummary::new(Duration::from_secs(total), Duration::from_secs(period)).expect("summary") };
    let b = stamp(&w);
    let group = GroupCallSummary::new(Duration::from_secs(total), Duration::from_secs(period)).expect("summary");
    let c = stamp(&w);
    w.g().direct = Some(sum(false, a, b, if plain { 30 } else { (total / period) as usize }));
    w.g().group = Some(sum(true, b, c, (total / period) as usize));
    let offset = *r.pick(&[2u64, 10, 1]);
    let mut obs = create_stats_observer(CallId::new(seed), Duration::from_secs(offset));
    w.g().sinks = vec![direct.as_stats_consumer(), group.as_stats_consumer()];
    obs.set_stats_snapshot_consumer(Box::new(Sink(w.clone())));
    let obs: *mut StatsObserver = Box::into_raw(obs);
    let n = *r.pick(&[0u64, 3, 12, 40, 130]);
    let n = if rt.crowd == 40 { n.min(40) } else { n };
    let mut g = Gen::default();
    struct Ptr(*mut StatsObserver);
    unsafe impl Send for Ptr {}
    let mut ts = vec![];
    if !exact {
        w.g().busy = 2;
        // Reports, events and the app's questions come from their own threads.
        let (w1, d1, g1, p1) = (w.clone(), direct.clone(), group.clone(), Ptr(obs));
        let mut r1 = Rng::new(r.next());
        ts.push(std::thread::Builder::new().name("fsm".into()).spawn(move || {
            let p = p1;
            for _ in 0..n {
                sleep_ms(r1.below(20_000));
                event_only(&w1, &d1, &g1, &mut r1, p.0);
            }
            w1.g().busy -= 1;
        }).unwrap());
        let (w2, d2, g2, p2) = (w.clone(), direct.clone(), group.clone(), Ptr(obs));
        let mut r2 = Rng::new(r.next());
        ts.push(std::thread::Builder::new().name("app".into()).spawn(move || {
            let p = p2;
            for _ in 0..(n / 2).min(20) {
                sleep_ms(r2.below(30_000));
                take(&w2, p.0);
                build(&w2, &d2, &g2, &mut r2);
            }
            w2.g().busy -= 1;
        }).unwrap());
    }
    for i in 0..n {
        let mut r = Rng::new(h3(seed, 0x7374_6174, i));
        let wait = if i == 0 { offset * 1000 } else { period * 1000 };
        sleep_ms(wait + r.below(100));
        if let Some(v) = fault("report-delayed", "stats", rt.pause) {
            sleep_ms(v % 900_000);
        }
        if exact {
            for _ in 0..r.below(3) {
                event(&w, &direct, &group, &mut r, obs);
                sleep_ms(r.below(3000));
            }
            if r.chance(1, 6) {
                let (t, p) = (*r.pick(&[20u64, 60, 5, 300]), *r.pick(&[1u64, 10, 2]));
                let ok = direct.update_limits(Duration::from_secs(t), Duration::from_secs(p)).is_ok();
                check!(ok == (t > p), "V02:limit", "limiting to {t} s of {p} s: {ok}");
                if ok {
                    let m = w.g().direct.as_mut().unwrap();
                    m.limit = (t / p) as usize;
                    while m.sets.len() > m.limit {
                        m.sets.pop_front();
                        probe("limit-lowered");
                    }
                }
            }
        }
        if !op_kept(i) {
            continue;
        }
        report(&w, &mut g, obs, &rt, &mut r, offset, i);
        if exact && r.chance(1, 2) {
            take(&w, obs);
        }
        if exact && r.chance(1, 12) {
            build(&w, &direct, &group, &mut r);
        }
    }
    while w.g().busy > 0 {
        sleep_ms(1000);
    }
    for t in ts {
        t.join().unwrap();
    }
    sleep_ms(r.below(40_000));
    if exact {
        for _ in 0..r.below(6) {
            event(&w, &direct, &group, &mut r, obs);
            sleep_ms(r.below(20_000));
        }
    }
    take(&w, obs);
    take(&w, obs);
    check!(unsafe { &*obs }.take_stats_report().is_none(), "V01:report", "a report is there twice");
    build(&w, &direct, &group, &mut r);
    if n > 0 {
        probe("reports");
    }
    if n == 0 && exact {
        probe("no-reports");
    }
    w.g().sinks.clear();
    drop(unsafe { Box::from_raw(obs) });
}
/// An event that leaves the observer alone: the route of the reports is set by the thread that gives them.
fn event_only(w: &W, d: &DirectCallSummary, g: &GroupCallSummary, r: &mut Rng, obs: *mut StatsObserver) {
    let mut q = Rng::new(r.next());
    for _ in 0..20 {
        let mut peek = q.clone();
        if peek.below(10) != 9 {
            break;
        }
        q = Rng::new(r.next());
    }
    if q.clone().below(10) != 9 {
        event(w, d, g, &mut q, obs);
    }
}

pub fn props() -> Vec<Prop> {
    const S: Scenario = Scenario { name: "stats", quick: 2400, thorough: 60000, cfg: SchedCfg::swarm, run };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[S],
        rule: "one execution = one seed's streams, counters, reports, clock changes, events and thread schedule",
        must_probe,
        real: &["webrtc::stats_observer", "core::call_summary", "core::call_mutex", "protobuf (call telemetry)", "sketches-ddsketch"],
        stubs: &["WebRTC's counters and report thread", "the call that sends events", "kernel scheduler, futexes, clocks"],
        assumptions: &["counters of a stream never decrease unless the stream starts again", "the route of the reports is set by one thread at a time"],
    };
    vec![
        mk("V01", &["reports", "report-taken", "video-reset", "no-time-passed", "history-kept"]),
        mk("V02", &["reports", "no-reports", "connected", "relayed", "direct", "relayed-at-end", "limit-lowered", "sets-dropped-for-size", "streams-full", "crowd"]),
    ]
}
