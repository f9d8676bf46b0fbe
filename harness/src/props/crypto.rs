//! End-to-end frame encryption (core/crypto.rs): several participants, each the sender of an
//! encrypted frame stream and a receiver of all others', over a hostile network for both frames and
//! key messages.
use crate::driver::{Prop, Scenario};
use ringrtc::core::crypto::{Context, Mac, Secret};
use simrt::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone)]
struct Frame {
    from: usize,
    sender_id: u32,
    epoch: u32,
    /// Ratchet steps since the start of the epoch (not wrapped).
    ratchet: u64,
    wire_ratchet: u8,
    counter: u64,
    data: Vec<u8>,
    mac: Mac,
    plain: Vec<u8>,
}
#[derive(Clone)]
enum Net {
    Frame(Frame),
    Key { from: usize, epoch: u32, ratchet: u64, wire_ratchet: u8, secret: Secret },
}
struct Sender {
    ctx: Context,
    /// A twin that is given the same keys and genuine frames but never a forged one.
    shadow: Option<Context>,
    sender_id: u32,
    epoch: u32,
    next_epoch: u32,
    ratchet: u64,
    last_counter: u64,
    /// A new secret that has been distributed but is not in use yet.
    pending: Option<(u32, Secret)>,
    keystream: HashSet<[u8; 16]>,
    sent: Vec<Frame>,
    /// receivers that were given a key of the current epoch
    errors: HashMap<u32, u64>,
    reported: HashMap<u32, u64>,
}
/// What receiver `r` knows about sender `s`.
#[derive(Default, Clone)]
struct Known {
    /// newest first, at most five
    adds: Vec<(u32, u64)>,
    /// number of times a key of the epoch was ever added
    added: HashMap<u32, u32>,
    rmax: HashMap<u32, u64>,
    fmax: HashMap<u32, u64>,
    /// highest ratchet that was reached by stepping a key forward
    stepped: HashMap<u32, u64>,
}

fn run(seed: u64) {
    let mut r = Rng::derive(seed, "crypto");
    let n = r.range(2, 4) as usize;
    let ops = r.range(30, 300);
    let loss = *r.pick(&[0u64, 0, 20, 5]);
    let dup = *r.pick(&[0u64, 20, 5]);
    let delay = *r.pick(&[0u64, 30, 300, 2000]);
    let tamper = *r.pick(&[0u64, 10, 4]);
    let burst = *r.pick(&[1u64, 1, 3, 30, 400]);
    let mut budget = 250u64;
    // Rarely a key lives so long that frame counters outgrow two bytes, or ratchet steps one.
    let mut long = if r.chance(1, 150) { r.range(66_000, 70_000) } else if r.chance(1, 25) { r.range(1500, 5000) } else { 0 };
    let storm = *r.pick(&[1u64, 1, 1, 12, 40]);
    let ratchety = *r.pick(&[1u64, 2, 6, 12]);
    let resets = *r.pick(&[0u64, 1, 3]);
    let clock = *r.pick(&[0u64, 0, 10]);
    let mut p: Vec<Sender> = vec![];
    for i in 0..n {
        let mut s = Secret::default();
        s.copy_from_slice(&r.bytes(32));
        p.push(Sender { ctx: Context::new(s), shadow: (tamper > 0).then(|| Context::new([0; 32])), sender_id: 100 + 7 * i as u32, epoch: 0, next_epoch: 1, ratchet: 0, last_counter: 0, pending: None, keystream: HashSet::new(), sent: vec![], errors: HashMap::new(), reported: HashMap::new() });
    }
    let mut known = vec![vec![Known::default(); n]; n];
    let mut net: Vec<(u64, u64, usize, Net)> = vec![];
    let mut ord = 0u64;
    let mut send = |net: &mut Vec<(u64, u64, usize, Net)>, to: usize, m: Net| {
        let kind = matches!(m, Net::Frame(_));
        if fault(if kind { "frame-loss" } else { "key-loss" }, "crypto", loss).is_some() {
            return;
        }
        let mut at = now();
        if let Some(v) = fault(if kind { "frame-delay" } else { "key-delay" }, "crypto", if delay > 0 { 2 } else { 0 }) {
            at += v % (delay * 1_000_000);
        }
        ord += 1;
        net.push((at, ord, to, m.clone()));
        if let Some(v) = fault(if kind { "frame-duplicate" } else { "key-duplicate" }, "crypto", dup) {
            ord += 1;
            net.push((now() + v % ((delay + 1) * 4_000_000), ord, to, m));
        }
    };
    // Everybody may start knowing everybody's first key.
    for s in 0..n {
        let (w, secret) = p[s].ctx.send_state();
        for q in 0..n {
            if q != s && r.chance(4, 5) {
                send(&mut net, q, Net::Key { from: s, epoch: 0, ratchet: 0, wire_ratchet: w, secret });
            }
        }
    }
    for i in 0..ops + 1 {
        let last = i == ops;
        if i < ops {
            if !op_kept(i) {
                continue;
            }
            let mut r = Rng::new(h3(seed, 0x63727970, i));
            sleep_ns(r.below(40_000_000));
            let s = r.below(n as u64) as usize;
            match r.below(20 + ratchety + resets) {
                0..=15 => {
                    let count = if long > 0 { std::mem::take(&mut long) } else { r.range(1, burst) };
                    for k in 0..count {
                        let len = if count > 60_000 { 16 } else { 160 };
                        let len = if k % 1000 == 7 || count < 60_000 { *r.pick(&[0usize, 1, 15, 16, 17, 40, 160]) } else { len };
                        let plain = r.bytes(len);
                        let mut data = plain.clone();
                        let mut mac = Mac::default();
                        let (w, c) = p[s].ctx.encrypt(&mut data, &mut mac).expect("encrypt");
                        check!(c > p[s].last_counter, "K01:counter", "frame counter {c} follows {}", p[s].last_counter);
                        p[s].last_counter = c;
                        check!(data.len() == plain.len(), "K02:length", "ciphertext length changed");
                        check!(w as u64 == p[s].ratchet % 256, "K01:ratchet", "frame says ratchet {w}, {} steps were made", p[s].ratchet);
                        for k in 0..len / 16 {
                            let mut b = [0u8; 16];
                            for (j, x) in b.iter_mut().enumerate() {
                                *x = plain[k * 16 + j] ^ data[k * 16 + j];
                            }
                            check!(b != [0; 16], "K01:plaintext", "a block was sent in the clear");
                            check!(p[s].keystream.insert(b), "K01:keystream-reuse", "frame {c} (epoch {} ratchet {}) reuses key stream of an earlier frame", p[s].epoch, p[s].ratchet);
                        }
                        let f = Frame { from: s, sender_id: p[s].sender_id, epoch: p[s].epoch, ratchet: p[s].ratchet, wire_ratchet: w, counter: c, data, mac, plain };
                        if count < 60_000 || k % 1000 == 7 {
                            p[s].sent.push(f.clone());
                        }
                        if r.chance(if burst > 20 { 6 } else { 60 }, burst.max(80)) && budget > 0 {
                            budget -= 1;
                            for q in 0..n {
                                if q != s {
                                    send(&mut net, q, Net::Frame(f.clone()));
                                }
                            }
                        }
                    }
                }
                16 if tamper > 0 => {
                    // forged traffic towards s
                    let from = (s + 1 + r.below(n as u64 - 1) as usize) % n;
                    if let (Some(v), false) = (fault("forged-frame", "crypto", tamper.min(2)), p[from].sent.is_empty()) {
                        let mut t = Rng::new(v);
                        let mut f = p[from].sent[t.below(p[from].sent.len() as u64) as usize].clone();
                        match t.below(7) {
                            6 => {
                                f.counter = f.counter.wrapping_add(t.range(1, 6000));
                                f.wire_ratchet = f.wire_ratchet.wrapping_add(t.range(1, 8) as u8);
                            }
                            0 => f.mac[t.below(16) as usize] ^= 1 << t.below(8),
                            1 if !f.data.is_empty() => {
                                let k = t.below(f.data.len() as u64) as usize;
                                f.data[k] ^= 1 << t.below(8)
                            }
                            2 => f.counter = f.counter.wrapping_add(*t.pick(&[1, u64::MAX, 1 << 33, 256, 301])),
                            3 => f.wire_ratchet = f.wire_ratchet.wrapping_add(*t.pick(&[1u8, 2, 100, 255])),
                            4 => f.data.push(0),
                            _ => f.sender_id = *t.pick(&[9999u32, p[s].sender_id]),
                        }
                        let mut d = f.data.clone();
                        let before = d.clone();
                        let ok = p[s].ctx.decrypt(f.sender_id, f.wire_ratchet, f.counter, &mut d, &f.mac).is_ok();
                        probe("forged-frame");
                        check!(!ok, "K03:forged", "a forged frame was accepted");
                        check!(d == before, "K03:touched", "a rejected frame was modified");
                        *p[s].errors.entry(f.sender_id).or_insert(0) += 1;
                    }
                }
                17 if clock > 0 => {
                    if let Some(v) = fault("clock-jump", "wall", 2) {
                        wall_jump(0, (v % 20_000_000_000) as i64 - 10_000_000_000);
                    }
                }
                18 => {
                    let rep = p[s].ctx.get_error_report();
                    for (id, st) in rep.unwrap_or_default() {
                        probe("error-report");
                        *p[s].reported.entry(id).or_insert(0) += st.count as u64;
                    }
                }
                // A frame that is passed by frames of newer ratchet steps, just not (or just) too many of them.
                19 if r.chance(1, 3) => {
                    let q = (s + 1 + r.below(n as u64 - 1) as usize) % n;
                    let mut one = |p: &mut Vec<Sender>, advance: bool| {
                        if advance {
                            p[s].ctx.advance_send_ratchet();
                            p[s].ratchet += 1;
                        }
                        let plain = vec![7u8; 3];
                        let (mut data, mut mac) = (plain.clone(), Mac::default());
                        let (w, c) = p[s].ctx.encrypt(&mut data, &mut mac).expect("encrypt");
                        check!(c > p[s].last_counter, "K01:counter", "frame counter {c} follows {}", p[s].last_counter);
                        check!(w as u64 == p[s].ratchet % 256, "K01:ratchet", "frame says ratchet {w}, {} steps were made", p[s].ratchet);
                        p[s].last_counter = c;
                        Frame { from: s, sender_id: p[s].sender_id, epoch: p[s].epoch, ratchet: p[s].ratchet, wire_ratchet: w, counter: c, data, mac, plain }
                    };
                    let late = one(&mut p, r.chance(1, 2));
                    let c = one(&mut p, true);
                    receive(&mut p, &mut known, q, c);
                    let d = *r.pick(&[1u64, 150, 280, 296, 297, 298, 299, 300, 301, 302]);
                    let mut f = late.clone();
                    for k in 0..d {
                        f = one(&mut p, k + 1 == d || (d < 10 && r.chance(1, 2)));
                    }
                    for _ in 0..r.below(4) {
                        f = one(&mut p, r.chance(1, 2));
                    }
                    receive(&mut p, &mut known, q, f);
                    receive(&mut p, &mut known, q, late);
                    probe("passed-by");
                }
                16..=19 => {}
                x if x < 20 + ratchety => {
                    let (mut w, mut secret) = p[s].ctx.advance_send_ratchet();
                    p[s].ratchet += 1;
                    for _ in 1..r.range(1, storm) {
                        (w, secret) = p[s].ctx.advance_send_ratchet();
                        p[s].ratchet += 1;
                    }
                    if p[s].ratchet > 255 {
                        probe("ratchet-wrapped");
                    }
                    probe("ratchet");
                    // The point of a ratchet is a newcomer, who gets the new key only.
                    let q = (s + 1 + r.below(n as u64 - 1) as usize) % n;
                    if r.chance(1, 3) {
                        let (epoch, ratchet) = (p[s].epoch, p[s].ratchet);
                        send(&mut net, q, Net::Key { from: s, epoch, ratchet, wire_ratchet: w, secret });
                    }
                }
                _ => {
                    if let Some((e, secret)) = p[s].pending.take() {
                        p[s].ctx.reset_send_ratchet(secret);
                        p[s].epoch = e;
                        p[s].ratchet = 0;
                        probe("rotation");
                    } else {
                        let mut secret = Secret::default();
                        secret.copy_from_slice(&r.bytes(32));
                        let e = p[s].next_epoch;
                        p[s].next_epoch += 1;
                        for q in 0..n {
                            if q != s && r.chance(9, 10) {
                                send(&mut net, q, Net::Key { from: s, epoch: e, ratchet: 0, wire_ratchet: 0, secret });
                            }
                        }
                        p[s].pending = Some((e, secret));
                    }
                }
            }
        }
        // deliver what is due
        loop {
            let t = now();
            let Some(k) = net.iter().enumerate().filter(|(_, x)| last || x.0 <= t).min_by_key(|(_, x)| (x.0, x.1)).map(|(k, _)| k) else { break };
            let (_, _, to, m) = net.swap_remove(k);
            match m {
                Net::Key { from, epoch, ratchet, wire_ratchet, secret } => {
                    let id = p[from].sender_id;
                    p[to].ctx.add_receive_secret(id, wire_ratchet, secret);
                    if let Some(x) = &mut p[to].shadow {
                        x.add_receive_secret(id, wire_ratchet, secret);
                    }
                    let kn = &mut known[to][from];
                    kn.adds.insert(0, (epoch, ratchet));
                    kn.adds.truncate(5);
                    *kn.added.entry(epoch).or_insert(0) += 1;
                }
                Net::Frame(f) => receive(&mut p, &mut known, to, f),
            }
        }
    }
    for s in &mut p {
        let mut total = s.reported.clone();
        for (id, st) in s.ctx.get_error_stats() {
            *total.entry(*id).or_insert(0) += st.count as u64;
        }
        check!(total == s.errors, "K03:error-count", "decryption errors were {:?} but reported as {:?}", s.errors, total);
    }
}

fn receive(p: &mut [Sender], known: &mut [Vec<Known>], to: usize, f: Frame) {
    let kn = &mut known[to][f.from];
    let (rmax, fmax) = (kn.rmax.get(&f.epoch).copied(), kn.fmax.get(&f.epoch).copied());
    let mine: Vec<u64> = kn.adds.iter().filter(|a| a.0 == f.epoch).map(|a| a.1).collect();
    // Must it decrypt?
    let must = mine.iter().any(|r0| {
        *r0 <= f.ratchet
            && match (rmax, fmax) {
                (Some(rm), Some(fm)) => (f.ratchet >= rm && f.ratchet - rm < 100) || (f.ratchet < rm && f.ratchet + 5 >= rm && f.counter + 300 >= fm),
                _ => f.ratchet - r0 < 100,
            }
    }) && ((mine.len() == 1 && kn.added[&f.epoch] == 1) || f.ratchet < 100);
    // Must it fail?
    let gone = mine.is_empty() || mine.iter().all(|r0| *r0 > f.ratchet);
    let retired = mine.len() == 1 && kn.added[&f.epoch] == 1 && kn.stepped.get(&f.epoch).is_some_and(|s| f.ratchet + 5 < *s);
    let mut d = f.data.clone();
    let res = p[to].ctx.decrypt(f.sender_id, f.wire_ratchet, f.counter, &mut d, &f.mac);
    if let Some(x) = &mut p[to].shadow {
        let mut sd = f.data.clone();
        let sres = x.decrypt(f.sender_id, f.wire_ratchet, f.counter, &mut sd, &f.mac);
        check!(sres.is_ok() == res.is_ok() && sd == d, "K03:state", "frame {} (epoch {} ratchet {}): ok={} after forged frames, ok={} without them", f.counter, f.epoch, f.ratchet, res.is_ok(), sres.is_ok());
    }
    if rmax.is_some_and(|rm| f.ratchet < rm) && must {
        probe("late-frame-older-key");
    }
    if must {
        check!(res.is_ok(), "K02:undecryptable", "frame {} (epoch {} ratchet {}) was not decrypted; keys held {:?}, newest ratchet {:?}, newest frame {:?}", f.counter, f.epoch, f.ratchet, kn.adds, rmax, fmax);
    }
    if gone {
        probe("no-key");
        check!(res.is_err(), "K04:no-key", "frame {} (epoch {} ratchet {}) decrypted with keys {:?}", f.counter, f.epoch, f.ratchet, kn.adds);
    } else if retired {
        probe("retired-key");
        check!(res.is_err(), "K04:retired", "frame {} of ratchet {} decrypted after ratchet {:?}", f.counter, f.ratchet, kn.stepped.get(&f.epoch));
    }
    match res {
        Ok(()) => {
            probe("decrypted");
            check!(d == f.plain, "K02:altered", "frame {} decrypted to something else", f.counter);
            // Having been that far behind, the receiver cannot tell the ratchet steps apart by their 8 bits.
            let prev = rmax.unwrap_or(0).max(mine.iter().copied().min().unwrap_or(0));
            if f.ratchet >= prev + 100 {
                *kn.added.entry(f.epoch).or_insert(0) += 1;
            }
            let e = kn.rmax.entry(f.epoch).or_insert(f.ratchet);
            *e = (*e).max(f.ratchet);
            let e = kn.fmax.entry(f.epoch).or_insert(f.counter);
            *e = (*e).max(f.counter);
            if mine.len() == 1 && f.ratchet > mine[0] {
                let e = kn.stepped.entry(f.epoch).or_insert(f.ratchet);
                *e = (*e).max(f.ratchet);
            }
        }
        Err(_) => {
            check!(d == f.data, "K03:touched", "a rejected frame was modified");
            *p[to].errors.entry(f.sender_id).or_insert(0) += 1;
        }
    }
}

fn cfg(_: u64) -> SchedCfg {
    SchedCfg { max_steps: 4_000_000_000, ..Default::default() }
}

pub fn props() -> Vec<Prop> {
    const S: Scenario = Scenario { name: "frames", quick: 3000, thorough: 300000, cfg, run };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[S],
        rule: "one execution = one seed's sequence of frames, key changes and network faults among 2 to 4 participants; distinct by hash of its event log, faults and schedule",
        must_probe,
        real: &["core::crypto::Context"],
        stubs: &["network for frames and key messages", "clock"],
        assumptions: &["AES, HMAC and HKDF are sound (real implementations run)", "a receiver is never 100 or more ratchet steps behind (the wire carries 8 bits)"],
    };
    vec![
        mk("K01", &["ratchet", "rotation", "ratchet-wrapped"]),
        mk("K02", &["decrypted", "late-frame-older-key", "rotation", "passed-by"]),
        mk("K03", &["forged-frame", "decrypted", "error-report"]),
        mk("K04", &["no-key", "retired-key"]),
    ]
}
