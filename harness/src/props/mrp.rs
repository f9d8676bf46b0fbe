//! The reliable message stream (crate mrp): two endpoints over a hostile datagram network.
use crate::driver::{Prop, Scenario};
use glue::m::{Pkt, Stream};
use mrp::{MrpHeader, MrpReceiveError, MrpSendError};
use simrt::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Cfg {
    cap: [usize; 2],
    merge: bool,
    ops: u64,
    loss: u64,
    dup: u64,
    delay_ms: u64,
    sendfail: u64,
    hostile: u64,
    rto_ms: u64,
    frag: u64,
    old: u64,
    partition: u64,
    /// Timeouts differ from packet to packet.
    uneven: bool,
    /// So many packets were exchanged before.
    before: u64,
}

fn gen(seed: u64, hostile: bool) -> Cfg {
    let mut r = Rng::derive(seed, "mrpcfg");
    let caps = [1usize, 2, 3, 4, 5, 8, 16, 64];
    let c0 = *r.pick(&caps);
    let c1 = if r.chance(3, 4) { c0 } else { *r.pick(&caps) };
    let unbounded = !hostile && r.chance(1, 10);
    Cfg {
        cap: if unbounded { [usize::MAX; 2] } else { [c0, c1] },
        merge: r.chance(2, 3),
        ops: r.range(20, 400),
        loss: *r.pick(&[0, 0, 20, 5, 2]),
        dup: *r.pick(&[0, 20, 4, 2]),
        delay_ms: *r.pick(&[0, 5, 60, 400]),
        sendfail: *r.pick(&[0, 0, 12, 4]),
        hostile: if hostile { *r.pick(&[2, 4, 10]) } else { 0 },
        rto_ms: *r.pick(&[1, 20, 100, 1000]),
        frag: *r.pick(&[0, 2, 3, 6]),
        old: *r.pick(&[0, 30, 8]),
        partition: *r.pick(&[0, 0, 60]),
        uneven: r.chance(1, 2),
        before: if !hostile && r.chance(1, 100) { *r.pick(&[256, 4096, 65536]) - r.below(150) } else { 0 },
    }
}

/// What we know one endpoint must do.
struct Model {
    /// accepted messages, in order
    accepted: Vec<Vec<u32>>,
    /// packets sent: seqnum -> (data, num_packets, next retransmission)
    unacked: BTreeMap<u64, (Vec<u32>, Option<u32>, Instant)>,
    all: BTreeMap<u64, (Vec<u32>, Option<u32>)>,
    next_seq: u64,
    /// messages known complete in order, and the packet after them
    complete: (usize, u64),
    /// highest in-order packet taken (next expected)
    next_expected: u64,
    /// packets (seqnums) that reached this endpoint within its window and are not yet in order
    held: BTreeMap<u64, ()>,
    delivered: Vec<Vec<u32>>,
    ack_due: bool,
    last_ack: u64,
    tainted: bool,
    /// With a hostile peer: what was said to be in each packet, where each content belongs, and how merging should go.
    said: BTreeMap<u64, Vec<(Vec<u32>, Option<u32>)>>,
    place: BTreeMap<u32, u64>,
    last_out: u64,
    exact: bool,
    merging: Option<(u64, u64, Vec<u32>)>,
    skip: u64,
}
impl Model {
    fn new() -> Self {
        Model {
            accepted: vec![],
            unacked: BTreeMap::new(),
            all: BTreeMap::new(),
            next_seq: 1,
            complete: (0, 1),
            next_expected: 1,
            held: BTreeMap::new(),
            delivered: vec![],
            ack_due: false,
            last_ack: 0,
            tainted: false,
            said: BTreeMap::new(),
            place: BTreeMap::new(),
            last_out: 0,
            exact: true,
            merging: None,
            skip: 0,
        }
    }
}

struct World {
    c: Cfg,
    s: [Stream; 2],
    m: [Model; 2],
    /// (deliver at ns, order, to, packet)
    net: Vec<(u64, u64, usize, Pkt)>,
    archive: [Vec<Pkt>; 2],
    ord: u64,
    msg_ctr: u32,
    cut_until: u64,
}

impl World {
    fn transmit(&mut self, to: usize, p: Pkt) {
        self.archive[to].push(p.clone());
        let n = now();
        if n < self.cut_until {
            probe("partitioned-packet");
            return;
        }
        if fault("net-loss", "mrp", self.c.loss).is_some() {
            return;
        }
        let mut at = n;
        if let Some(v) = fault("net-delay", "mrp", if self.c.delay_ms > 0 { 2 } else { 0 }) {
            at += v % (self.c.delay_ms * 1_000_000);
        }
        self.ord += 1;
        self.net.push((at, self.ord, to, p.clone()));
        if let Some(v) = fault("net-duplicate", "mrp", self.c.dup) {
            self.ord += 1;
            self.net.push((n + v % ((self.c.delay_ms + 1) * 3_000_000), self.ord, to, p));
        }
    }

    /// When a packet sent now is due again.
    fn due(&self, r: &mut Rng) -> Instant {
        let k = if self.c.uneven { r.range(1, 400) } else { 100 };
        Instant::now() + Duration::from_micros(self.c.rto_ms * 10 * k)
    }

    /// A long history without faults, in which every packet is acknowledged.
    fn history(&mut self, e: usize, n: u64) {
        let at = Instant::now() + Duration::from_secs(1);
        for k in 0..n {
            self.msg_ctr += 1;
            let data = vec![self.msg_ctr];
            let mut sent = None;
            let ok = self.s[e].try_send(&mut |h| {
                let p = Pkt { header: h, data: data.clone() };
                sent = Some(p.clone());
                Ok((p, at))
            });
            check!(ok.is_ok(), "M04:refused", "send {k} is refused with an empty window");
            let p = sent.unwrap();
            let m = &mut self.m[e];
            check!(p.header.seqnum == Some(m.next_seq), "M02:seqnum", "sent sequence number {:?}, expected {}", p.header.seqnum, m.next_seq);
            m.next_seq += 1;
            m.accepted.push(data.clone());
            let h = p.header.clone();
            let res = if self.c.merge { self.s[1 - e].receive_and_merge(&h, p) } else { self.s[1 - e].receive(&h, p) };
            check!(matches!(&res, Ok(v) if v.len() == 1 && v[0].data == data), "M01:order", "message {data:?} is delivered as {res:?}");
            let o = &mut self.m[1 - e];
            o.delivered.push(data);
            o.next_expected += 1;
            o.complete = (o.complete.0 + 1, o.next_expected);
            let mut ack = None;
            let _ = self.s[1 - e].try_send_ack(&mut |h| {
                ack = Some(h);
                Ok(())
            });
            let o = &mut self.m[1 - e];
            check!(ack.as_ref().is_some_and(|h| h.ack_num == Some(o.next_expected)), "M04:no-ack", "after packet {} the ack is {ack:?}", o.next_expected - 1);
            o.last_ack = o.next_expected;
            let Some(h) = ack else { return };
            let _ = self.s[e].receive(&h, Pkt { header: h.clone(), data: vec![] });
            check!(self.s[e].lens().0 == 0, "M03:discard", "an acknowledged packet is kept");
        }
        probe("long-history");
    }

    fn app_send(&mut self, e: usize, r: &mut Rng) {
        let frags = if self.c.merge && self.c.frag > 0 && r.chance(1, self.c.frag) {
            let most = if self.c.cap[0] == usize::MAX && r.chance(1, 20) { 700 } else if r.chance(1, 4) { 70 } else { 12 };
            let lim = self.c.cap[0].min(self.c.cap[1]).min(most) as u64;
            Some(r.range(0, lim + (self.c.cap[0] == self.c.cap[1]) as u64) as usize)
        } else {
            None
        };
        let full_before = self.m[e].unacked.len();
        match frags {
            Some(n) => {
                let mut pk = vec![];
                for _ in 0..n {
                    self.msg_ctr += 1;
                    pk.push(Pkt { header: MrpHeader::default(), data: vec![self.msg_ctr] });
                }
                let want: Vec<Vec<u32>> = pk.iter().map(|p| p.data.clone()).collect();
                let mut sent = vec![];
                let dues: Vec<Instant> = (0..n + 1).map(|_| self.due(r)).collect();
                let res = self.s[e].try_send_fragmented(pk, &mut |_, h, mut p| {
                    p.header = h;
                    sent.push(p.clone());
                    (p, dues[(sent.len() - 1).min(n)])
                });
                match res {
                    Ok(()) => {
                        check!(sent.len() == n, "M02:fragments", "fragmented send accepted but {} of {} fragments were sent", sent.len(), n);
                        if n > 0 {
                            probe("fragmented-send");
                            self.m[e].accepted.push(want.concat());
                        }
                        for (i, p) in sent.into_iter().enumerate() {
                            check!(p.data == want[i], "M01:fragment-order", "fragment {i} carries {:?}, not {:?}", p.data, want[i]);
                            let np = if i == 0 { Some(n as u32) } else { None };
                            self.account_send(e, &p, np, dues[i]);
                            self.transmit(1 - e, p);
                        }
                    }
                    Err(_) => {
                        probe("send-window-full");
                        check!(sent.is_empty(), "M02:partial-fragments", "a refused fragmented send transmitted {} fragments", sent.len());
                        check!(full_before + n >= self.c.cap[e], "M04:refused", "fragmented send of {n} refused with {full_before} of {} slots used", self.c.cap[e]);
                    }
                }
            }
            None => {
                self.msg_ctr += 1;
                let mut data = vec![self.msg_ctr, 0x4000_0000 + self.msg_ctr * 2 + e as u32];
                match r.below(16) {
                    0 if self.c.hostile == 0 => data.clear(),
                    1 => data.resize(40, self.msg_ctr),
                    _ => {}
                }
                let due = self.due(r);
                let fail = fault("send-error", "try_send", self.c.sendfail).is_some();
                let mut calls = vec![];
                let d2 = data.clone();
                let res = self.s[e].try_send(&mut |h| {
                    calls.push(h.clone());
                    if fail {
                        anyhow::bail!("injected send failure");
                    }
                    Ok((Pkt { header: h, data: d2.clone() }, due))
                });
                check!(calls.len() <= 1, "M01:double-send", "one send called the transport {} times", calls.len());
                match res {
                    Ok(()) => {
                        check!(calls.len() == 1 && !fail, "M02:accepted-unsent", "a send was accepted without a successful transmission");
                        self.m[e].accepted.push(data.clone());
                        let p = Pkt { header: calls[0].clone(), data };
                        self.account_send(e, &p, None, due);
                        self.transmit(1 - e, p);
                    }
                    Err(MrpSendError::SendWindowFull) => {
                        probe("send-window-full");
                        check!(calls.is_empty(), "M02:refused-but-sent", "a refused send reached the transport");
                        check!(full_before >= self.c.cap[e], "M04:refused", "send refused with {full_before} of {} slots used", self.c.cap[e]);
                    }
                    Err(MrpSendError::InnerSendFailed(_)) => {
                        probe("inner-send-failed");
                        check!(fail, "M02:spurious-failure", "send failed though the transport did not");
                        check!(self.s[e].lens().0 == full_before, "M02:failed-send-kept", "a failed send still occupies the window ({} then {})", full_before, self.s[e].lens().0);
                    }
                }
            }
        }
        self.invariants(e);
    }

    fn account_send(&mut self, e: usize, p: &Pkt, np: Option<u32>, due: Instant) {
        let m = &mut self.m[e];
        let want = m.next_seq;
        check!(p.header.seqnum == Some(want), "M02:seqnum", "sent sequence number {:?}, expected {want}", p.header.seqnum);
        check!(p.header.ack_num.is_none(), "M02:seqnum", "data packet carries an ack");
        check!(p.header.num_packets.unwrap_or(0) == np.unwrap_or(0) || np == Some(1), "M01:fragment-count", "fragment count {:?}, expected {np:?}", p.header.num_packets);
        m.next_seq += 1;
        m.unacked.insert(want, (p.data.clone(), np, due));
        m.all.insert(want, (p.data.clone(), np));
    }

    fn invariants(&mut self, e: usize) {
        let (sl, rl, _) = self.s[e].lens();
        let cap = self.c.cap[e];
        check!(sl <= cap, "M02:send-window", "{sl} packets unacknowledged in a window of {cap}");
        check!(rl <= cap, "M02:receive-window", "{rl} packets buffered in a window of {cap}");
        if !self.m[e].tainted {
            let want = self.m[e].unacked.len();
            check!(sl == want, "M03:discard", "sender holds {sl} packets but {want} are unacknowledged");
        }
        // What was handed over is a prefix of what the peer accepted.
        let peer = 1 - e;
        let d = &self.m[e].delivered;
        let a = &self.m[peer].accepted;
        if let Some(last) = d.len().checked_sub(1) {
            check!(last < a.len(), "M01:invented", "delivered message {last} {:?} that was never accepted", d[last]);
            if last < a.len() {
                check!(d[last] == a[last], "M01:order", "message {last} delivered as {:?}, sent as {:?}", d[last], a[last]);
            }
        }
    }

    fn resend(&mut self, e: usize, r: &mut Rng) {
        let now_i = Instant::now();
        let dues: Vec<Instant> = (0..8).map(|_| self.due(r)).collect();
        let failing = fault("send-error", "try_resend", self.c.sendfail).is_some();
        let fail_at = if failing { draw_below("resend-fail-at", 4) } else { u64::MAX };
        let mut sent: Vec<Pkt> = vec![];
        let mut calls = 0u64;
        let res = self.s[e].try_resend(now_i, &mut |p| {
            calls += 1;
            if calls > fail_at {
                anyhow::bail!("injected resend failure");
            }
            sent.push(p.clone());
            Ok(dues[sent.len() % 8])
        });
        let due: Vec<u64> = self.m[e].unacked.iter().filter(|(_, v)| now_i >= v.2).map(|(k, _)| *k).collect();
        let failed = calls > fail_at;
        check!(res.is_err() == failed, "M04:resend-result", "resend returned {:?} with transport failure={failed}", res.is_err());
        let mut seen = std::collections::BTreeSet::new();
        for (i, p) in sent.iter().enumerate() {
            let q = p.header.seqnum.unwrap_or(0);
            probe("retransmission");
            check!(seen.insert(q), "M04:resend-twice", "packet {q} retransmitted twice in one poll");
            match self.m[e].unacked.get_mut(&q) {
                None => violate!("M03:resend-acked", "packet {q} retransmitted though it was acknowledged or never sent"),
                Some(v) => {
                    check!(now_i >= v.2, "M04:early", "packet {q} retransmitted before its timeout");
                    check!(v.0 == p.data && v.1.unwrap_or(0) == p.header.num_packets.unwrap_or(0), "M01:altered", "packet {q} retransmitted with different contents");
                    v.2 = dues[(i + 1) % 8];
                }
            }
        }
        if !failed {
            for q in due {
                check!(seen.contains(&q), "M04:not-resent", "packet {q} is overdue and unacknowledged but was not retransmitted");
            }
        }
        for p in sent {
            self.transmit(1 - e, p);
        }
        self.invariants(e);
    }

    fn send_ack(&mut self, e: usize) {
        let fail = fault("send-error", "try_send_ack", self.c.sendfail).is_some();
        let mut got = vec![];
        let res = self.s[e].try_send_ack(&mut |h| {
            got.push(h);
            if fail {
                anyhow::bail!("injected ack failure");
            }
            Ok(())
        });
        check!(got.len() <= 1, "M03:ack-twice", "one poll sent {} acks", got.len());
        let m = &mut self.m[e];
        if let Some(h) = got.first() {
            let n = h.ack_num.unwrap_or(0);
            check!(h.seqnum.is_none(), "M03:ack-header", "an ack carries a sequence number");
            check!(n <= m.next_expected, "M03:ack-uncovered", "ack {n} covers packets that never arrived in order (next expected {})", m.next_expected);
            check!(n >= m.last_ack, "M03:ack-regressed", "ack went back from {} to {n}", m.last_ack);
            check!(n == m.next_expected, "M04:stale-ack", "ack {n} is behind the in-order point {}", m.next_expected);
            if !fail {
                probe("ack-sent");
                m.last_ack = n;
                m.ack_due = false;
                check!(matches!(res, Ok(Some(x)) if x == n), "M04:ack-result", "ack sent but result says otherwise");
                let p = Pkt { header: h.clone(), data: vec![] };
                self.transmit(1 - e, p);
            } else {
                check!(res.is_err(), "M04:ack-result", "a failed ack is reported as success");
                // it must stay pending
                m.ack_due = true;
            }
        } else {
            check!(!m.ack_due, "M04:no-ack", "data was taken in order (or repeated) but the ack poll sent nothing");
        }
        self.invariants(e);
    }

    /// What a stream hands over when its peer makes up packets; called before the model takes note of the packet.
    fn judge_hostile(&mut self, e: usize, p: &Pkt, res: &Result<Vec<Pkt>, MrpReceiveError>) {
        let (cap, merge) = (self.c.cap[e] as u64, self.c.merge);
        let m = &mut self.m[e];
        let Some(q) = p.header.seqnum.filter(|_| p.header.ack_num.is_none()) else {
            if p.header.ack_num.is_none() {
                check!(matches!(res, Ok(v) if v.len() == 1 && v[0] == *p), "M05:passthrough", "a packet without stream header gave {res:?}");
            } else if let Ok(v) = res {
                check!(v.is_empty(), "M05:ack-delivers", "an ack delivered {v:?}");
            }
            return;
        };
        let mut taken = vec![];
        if q >= m.next_expected && q - m.next_expected < cap {
            let said = m.said.entry(q).or_default();
            let what = (p.data.clone(), p.header.num_packets);
            if !said.contains(&what) {
                said.push(what);
            }
            // Either of two packets with one number may count.
            m.exact &= said.len() == 1;
            for t in &p.data {
                m.place.insert(*t, q);
            }
            if q == m.next_expected {
                taken.push(q);
                while m.held.contains_key(&(taken[0] + taken.len() as u64)) {
                    taken.push(taken[0] + taken.len() as u64);
                }
            }
        }
        let end = taken.last().copied().unwrap_or(m.next_expected - 1);
        if let Ok(v) = res {
            for x in v {
                let mut at: Vec<u64> = x.data.iter().filter_map(|t| m.place.get(t).copied()).collect();
                check!(at.len() == x.data.len(), "M05:invented", "{x:?} was delivered but never sent");
                at.dedup();
                let n = at.len() as u64;
                if at.is_empty() {
                    continue;
                }
                check!(at.windows(2).all(|w| w[1] == w[0] + 1), "M05:mixed", "packets {at:?} were delivered as one message");
                check!(at[0] > m.last_out && at[at.len() - 1] <= end, "M05:order", "packets {at:?} were delivered after {} with everything up to {end} taken", m.last_out);
                check!(n <= cap && (n == 1 || m.said[&at[0]].iter().any(|s| s.1 == Some(n as u32))), "M05:merged", "{n} packets were delivered as one message with a window of {cap}");
                m.last_out = at[at.len() - 1];
            }
        }
        if !merge {
            check!(!m.exact || matches!(res, Ok(v) if v.len() == taken.len()) || (q >= m.next_expected && q - m.next_expected >= cap), "M05:in-order", "{} packets are in order but {res:?} was delivered", taken.len());
            return;
        }
        if !m.exact {
            return;
        }
        let (mut want, mut failed) = (vec![], false);
        let n_taken = taken.len();
        for (k, s) in taken.into_iter().enumerate() {
            let (data, num) = m.said[&s][0].clone();
            let n = num.unwrap_or(0) as u64;
            if s <= m.skip {
                continue;
            }
            if let Some((head, len, mut parts)) = m.merging.take() {
                if n > 0 {
                    // A message within a message: both are given up.
                    (m.skip, failed) = (head + len - 1, true);
                    probe("conflict");
                } else {
                    parts.extend(data);
                    if s + 1 == head + len {
                        want.push(parts);
                    } else {
                        m.merging = Some((head, len, parts));
                    }
                }
            } else if n > cap {
                failed = true;
                probe("oversized");
            } else if n > 1 {
                m.merging = Some((s, n, data));
            } else {
                want.push(data);
            }
            if failed {
                // What becomes of the packets behind it in the same call is left open.
                m.exact &= k + 1 == n_taken;
                break;
            }
        }
        if failed {
            check!(res.is_err(), "M05:conflict", "an impossible message was taken: {res:?}");
        } else if q < m.next_expected || q - m.next_expected < cap {
            let got: Option<Vec<Vec<u32>>> = res.as_ref().ok().map(|v| v.iter().map(|x| x.data.clone()).collect());
            check!(got.as_ref() == Some(&want), "M05:delivers", "packet {q}: {res:?}, though {want:?} is complete and in order");
        }
    }

    fn deliver(&mut self, e: usize, p: Pkt, hostile: bool) {
        let (.., ack_before) = self.s[e].lens();
        let held_before = self.m[e].held.len();
        let cap = self.c.cap[e];
        let h = p.header.clone();
        let res = if self.c.merge { self.s[e].receive_and_merge(&h, p.clone()) } else { self.s[e].receive(&h, p.clone()) };
        let (_, _, ack_after) = self.s[e].lens();
        check!(ack_after >= ack_before, "M05:ack-regressed", "the in-order point went back from {ack_before} to {ack_after}");
        if self.c.hostile > 0 {
            self.judge_hostile(e, &p, &res);
        }
        if hostile {
            probe("hostile-packet");
        }
        if let Some(a) = h.ack_num {
            let m = &mut self.m[e];
            if a <= m.next_seq {
                let stale = m.unacked.keys().next().is_none_or(|k| a <= *k);
                if stale {
                    probe("stale-ack");
                }
                m.unacked.retain(|k, _| *k >= a);
            } else {
                probe("impossible-ack");
            }
            check!(matches!(&res, Ok(v) if v.is_empty()), "M05:ack-delivers", "an ack delivered {:?}", res);
        } else if let Some(q) = h.seqnum {
            if q < self.m[e].next_expected {
                probe("repeat-of-taken");
                self.m[e].ack_due = true;
                check!(matches!(&res, Ok(v) if v.is_empty()), "M01:duplicate", "a repeated packet {q} delivered {:?}", res);
            } else if q - self.m[e].next_expected >= cap as u64 {
                probe("beyond-window");
                check!(matches!(&res, Err(MrpReceiveError::ReceiveWindowFull(_))), "M02:beyond-window", "packet {q} beyond the window ({} + {cap}) gave {:?}", self.m[e].next_expected, res);
            } else {
                if self.m[e].held.contains_key(&q) {
                    probe("repeat-of-held");
                }
                self.m[e].held.insert(q, ());
                if q != self.m[e].next_expected {
                    probe("out-of-order");
                }
                while self.m[e].held.contains_key(&self.m[e].next_expected) {
                    let n = self.m[e].next_expected;
                    self.m[e].held.remove(&n);
                    self.m[e].next_expected += 1;
                    self.m[e].ack_due = true;
                }
                let want = self.m[e].next_expected;
                check!(ack_after == want, "M03:in-order-point", "in-order point is {ack_after}, expected {want}");
                if !hostile && !self.m[e].tainted {
                    match res {
                        Ok(v) => {
                            for x in v {
                                probe("delivered");
                                self.m[e].delivered.push(x.data);
                                self.invariants(e);
                            }
                            // everything complete in the in-order prefix has been handed over
                            let peer = &self.m[1 - e];
                            let (mut complete, mut s) = self.m[e].complete;
                            while s < want {
                                let n = if self.c.merge { peer.all[&s].1.unwrap_or(1).max(1) as u64 } else { 1 };
                                if s + n <= want {
                                    complete += 1;
                                }
                                if s + n > want {
                                    break;
                                }
                                s += n;
                            }
                            self.m[e].complete = (complete, s);
                            let got = self.m[e].delivered.len();
                            check!(got >= complete, "M04:withheld", "{complete} messages arrived completely in order but only {got} were delivered");
                            check!(got <= complete, "M01:premature", "{got} messages delivered but only {complete} are complete in order");
                        }
                        Err(x) => violate!("M01:error", "packet {q} of a correct peer was refused with {x:?}"),
                    }
                    let _ = held_before;
                }
            }
        } else {
            check!(matches!(&res, Ok(v) if v.len() == 1 && v[0] == p), "M05:passthrough", "a packet without stream header gave {:?}", res);
        }
        self.invariants(e);
    }

    fn pump(&mut self, all: bool) {
        loop {
            let n = now();
            let i = self.net.iter().enumerate().filter(|(_, x)| all || x.0 <= n).min_by_key(|(_, x)| (x.0, x.1)).map(|(i, _)| i);
            let Some(i) = i else { break };
            let (at, _, to, p) = self.net.swap_remove(i);
            if at > n {
                sleep_until(at);
            }
            self.deliver(to, p, false);
        }
    }
}

fn run(seed: u64, hostile: bool) {
    let c = gen(seed, hostile);
    ev!("config caps {:?} merge {} rto {} ms", c.cap, c.merge, c.rto_ms);
    let mk = |cap: usize| if cap == usize::MAX { Stream::unbounded() } else { Stream::bounded(cap) };
    let mut w = World {
        c,
        s: [mk(c.cap[0]), mk(c.cap[1])],
        m: [Model::new(), Model::new()],
        net: vec![],
        archive: [vec![], vec![]],
        ord: 0,
        msg_ctr: 0,
        cut_until: 0,
    };
    if c.before > 0 {
        w.history((seed & 1) as usize, c.before);
        if seed & 6 == 0 {
            w.history(1 - (seed & 1) as usize, c.before);
        }
    }
    for i in 0..c.ops {
        if !op_kept(i) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 0x6d7270, i));
        sleep_ns(r.below(c.rto_ms * 700_000 + 1));
        let e = r.below(2) as usize;
        match r.below(20) {
            0..=8 => {
                for _ in 0..r.range(1, 4) {
                    w.app_send(e, &mut r);
                }
            }
            9..=11 => {
                // Some polls come just when a packet is due.
                if r.chance(1, 3) {
                    let i = Instant::now();
                    if let Some(d) = w.m[e].unacked.values().map(|v| v.2).filter(|d| *d > i).min() {
                        sleep_ns((d - i).as_nanos() as u64);
                        probe("poll-when-due");
                    }
                }
                w.resend(e, &mut r)
            }
            12..=14 => w.send_ack(e),
            15 => {
                if fault("net-partition", "mrp", c.partition / 20).is_some() {
                    w.cut_until = now() + r.below(c.rto_ms * 20_000_000);
                }
            }
            16 => {
                // a very late copy of something sent long ago
                if let (Some(v), false) = (fault("net-ancient-replay", "mrp", c.old / 8), w.archive[e].is_empty()) {
                    let p = w.archive[e][(v % w.archive[e].len() as u64) as usize].clone();
                    w.deliver(e, p, false);
                }
            }
            _ => {}
        }
        if c.hostile > 0 {
            if let Some(v) = fault("hostile-packet", "mrp", c.hostile) {
                let mut hr = Rng::new(v);
                let base = w.m[e].next_expected;
                let nums = [0, 1, base, base.wrapping_add(1), base + c.cap[e] as u64 - 1, base + c.cap[e] as u64, w.m[e].next_seq, w.m[e].next_seq + 1, u64::MAX, u64::MAX - 1, 1 << 32, hr.next()];
                let opt = |hr: &mut Rng| if hr.chance(1, 2) { Some(*hr.pick(&nums)) } else { None };
                let (seqnum, ack_num) = (opt(&mut hr), opt(&mut hr));
                let num_packets = if hr.chance(1, 2) { Some(*hr.pick(&[0u32, 1, 2, 2, 3, 4, c.cap[e] as u32, c.cap[e] as u32 + 1, 0x100, 0x102, 0x1_0000, 0x1_0003, 0x100_0002, 0x8000_0002, u32::MAX])) } else { None };
                let p = Pkt { header: MrpHeader { seqnum, ack_num, num_packets }, data: vec![0x8000_0000 + i as u32] };
                // From here on the stream content is the attacker's; only safety is judged.
                w.m[e].tainted = true;
                w.m[1 - e].tainted = true;
                ev!("hostile packet to {e}: {:?}", p.header);
                w.deliver_hostile(e, p);
            }
        }
        w.pump(false);
    }
    if hostile {
        return;
    }
    // Faults stop: everything accepted must arrive and the windows must empty.
    faults_off();
    w.cut_until = 0;
    let outstanding = w.m[0].unacked.len() + w.m[1].unacked.len();
    let bound = outstanding + 6;
    let mut rounds = 0;
    while w.m.iter().any(|m| !m.unacked.is_empty()) || w.s.iter().any(|s| s.lens().0 > 0) {
        rounds += 1;
        if rounds > bound {
            violate!("M04:no-progress", "{} packets still unacknowledged {} rounds after faults stopped", w.m[0].unacked.len() + w.m[1].unacked.len(), bound);
            break;
        }
        sleep_ms(if c.uneven { 4 * c.rto_ms } else { c.rto_ms });
        for e in 0..2 {
            w.resend(e, &mut Rng::new(h3(seed, 0x73657474, rounds as u64)));
        }
        w.pump(true);
        for e in 0..2 {
            w.send_ack(e);
        }
        w.pump(true);
    }
    probe_n("settle-rounds", rounds as u64);
    for e in 0..2 {
        let (d, a) = (w.m[e].delivered.len(), w.m[1 - e].accepted.len());
        check!(d == a, "M04:undelivered", "{a} messages accepted but {d} delivered after faults stopped");
        check!(w.m[e].delivered == w.m[1 - e].accepted, "M01:history", "delivered history differs from accepted history");
    }
}

impl World {
    fn deliver_hostile(&mut self, e: usize, p: Pkt) {
        // The bounded-state invariants are checked; contents are not.
        let (_, _, a0) = self.s[e].lens();
        let h = p.header.clone();
        let res = if self.c.merge { self.s[e].receive_and_merge(&h, p.clone()) } else { self.s[e].receive(&h, p.clone()) };
        let (sl, rl, a1) = self.s[e].lens();
        check!(a1 >= a0, "M05:ack-regressed", "the in-order point went back from {a0} to {a1} on {h:?}");
        check!(a1 - a0 <= self.c.cap[e] as u64, "M05:ack-jump", "one packet moved the in-order point by {} with a window of {}", a1 - a0, self.c.cap[e]);
        check!(rl <= self.c.cap[e] && sl <= self.c.cap[e], "M05:buffer", "a hostile packet grew a window past {}: {sl} {rl}", self.c.cap[e]);
        self.judge_hostile(e, &p, &res);
        probe("hostile-packet");
        // keep the model of the send side usable: ack handling is exact even for hostile acks
        let m = &mut self.m[e];
        if let Some(a) = h.ack_num {
            if a <= m.next_seq {
                m.unacked.retain(|k, _| *k >= a);
            }
            check!(sl == m.unacked.len(), "M05:ack", "after ack {a} the sender holds {sl} packets, expected {} (next is {})", m.unacked.len(), m.next_seq);
        } else if let Some(q) = h.seqnum {
            let cap = self.c.cap[e] as u64;
            if q >= m.next_expected && q - m.next_expected < cap {
                m.held.insert(q, ());
                while m.held.contains_key(&m.next_expected) {
                    let n = m.next_expected;
                    m.held.remove(&n);
                    m.next_expected += 1;
                    m.ack_due = true;
                }
            } else if q < m.next_expected {
                m.ack_due = true;
            }
            check!(a1 == m.next_expected, "M05:in-order-point", "in-order point {a1}, expected {} after {h:?}", m.next_expected);
        }
    }
}

fn plain(seed: u64) {
    run(seed, false)
}
fn hostile(seed: u64) {
    run(seed, true)
}
fn cfg(_: u64) -> SchedCfg {
    SchedCfg::default()
}

const REAL: &[&str] = &["mrp::MrpStream", "mrp::BufferWindow", "mrp::MergeBuffer"];
const STUBS: &[&str] = &["datagram network between the two endpoints", "clock"];
const RULE: &str = "one execution = one seed's workload and fault sequence on two connected streams; distinct by hash of its event log and schedule";

pub fn props() -> Vec<Prop> {
    const PLAIN: Scenario = Scenario { name: "pair", quick: 12000, thorough: 600000, cfg, run: plain };
    const HOST: Scenario = Scenario { name: "hostile-peer", quick: 8000, thorough: 400000, cfg, run: hostile };
    let mk = |id, scenarios, must_probe| Prop { id, scenarios, rule: RULE, must_probe, real: REAL, stubs: STUBS, assumptions: &["sequence numbers stay below 2^63 (no wraparound, as the protocol documents)"] };
    vec![
        mk("M01", &[PLAIN], &["delivered", "retransmission", "repeat-of-taken", "repeat-of-held", "out-of-order", "fragmented-send"]),
        mk("M02", &[PLAIN, HOST], &["send-window-full", "beyond-window", "inner-send-failed", "fragmented-send"]),
        mk("M03", &[PLAIN, HOST], &["ack-sent", "stale-ack", "retransmission"]),
        mk("M04", &[PLAIN], &["retransmission", "ack-sent", "delivered", "partitioned-packet"]),
        mk("M05", &[HOST], &["hostile-packet", "conflict", "oversized"]),
    ]
}
