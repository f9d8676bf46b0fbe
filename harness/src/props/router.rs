//! The network simulator (simnet/router.rs), as used to exercise calls over bad networks.
use crate::driver::{Prop, Scenario};
use ringrtc::common::actor::Stopper;
use ringrtc::common::units::{DataRate, DataSize};
use ringrtc::simnet::router::{LinkConfig, Packet, Router};
use simrt::*;
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
struct Lc {
    dmin: u64,
    dmax: u64,
    loss: u32,
    bps: u64,
    queue: u64,
}
struct Sent {
    from: usize,
    to: Option<usize>,
    at: u64,
    len: usize,
    got: u32,
}
struct World {
    sent: BTreeMap<u64, Sent>,
    arrivals: Vec<Vec<(u64, usize, u64)>>,
    last_tx: Vec<u64>,
}
fn cfg_of(c: &Lc) -> LinkConfig {
    LinkConfig {
        delay_min: Duration::from_millis(c.dmin),
        delay_max: Duration::from_millis(c.dmax),
        loss_probability: if c.loss == 2 { 1.0 } else if c.loss == 1 { 0.3 } else { 0.0 },
        repeated_loss_probability: if c.loss == 2 { 1.0 } else if c.loss == 1 { 0.6 } else { 0.0 },
        rate: DataRate::from_bps(c.bps),
        queue_size: DataSize::from_bytes(c.queue),
    }
}
fn addr(i: usize, v6: bool, port: u16) -> SocketAddr {
    let ip: IpAddr = if v6 { format!("fd00::{}", i + 1).parse().unwrap() } else { format!("10.0.0.{}", i + 1).parse().unwrap() };
    SocketAddr::new(ip, port)
}
/// Many packets over one pair of links: how often they are lost and how long they take.
fn run_many(seed: u64) {
    let mut r = Rng::derive(seed, "router-many");
    let stopper = Stopper::new();
    set_node(1);
    let router = Router::start(&stopper).expect("router");
    let (p, q) = (r.range(0, 100) as f64 / 100.0, r.range(0, 100) as f64 / 100.0);
    let dmin = *r.pick(&[0u64, 5, 40]);
    let span = *r.pick(&[1u64, 20, 60]);
    // The link under test is either the sender's or the receiver's; the other one adds nothing.
    let sending = r.chance(1, 2);
    let link = |lossy: bool| LinkConfig {
        delay_min: Duration::from_millis(if lossy { dmin } else { 0 }),
        delay_max: Duration::from_millis(if lossy { dmin + span } else { 1 }),
        loss_probability: if lossy { p } else { 0.0 },
        repeated_loss_probability: if lossy { q } else { 0.0 },
        rate: DataRate::from_bps(1_000_000_000),
        queue_size: DataSize::from_bytes(100_000_000),
    };
    let times: Shr<BTreeMap<u64, u64>> = Shr::new(BTreeMap::new());
    for i in 0..2 {
        let times = times.clone();
        router
            .add_interface(
                addr(i, false, 0).ip(),
                link(i == 0 && sending),
                link(i == 1 && !sending),
                Box::new(move |p: Packet| {
                    times.g().insert(u64::from_le_bytes(p.data[..8].try_into().unwrap()), now());
                }),
            )
            .expect("interface");
    }
    set_node(0);
    sleep_ms(50);
    let quiet = cfg().stall == 0 && cfg().jitter_ns <= 500_000;
    let n = r.range(200, 600);
    let mut at = vec![];
    for i in 0..n {
        at.push(now());
        router.send_packet(Packet { source: addr(0, false, 1), dest: addr(1, false, 5), data: payload(i, 40) });
        sleep_ns(2_000_000);
    }
    faults_off();
    schedule_calm();
    sleep_ms(2000 + cfg().stall_max_ns / 100_000);
    // Packets reach the link in the order they were sent.
    let got = times.g();
    let (mut trials, mut losses) = ([0f64; 2], [0f64; 2]);
    let mut dropped = 0usize;
    for i in 0..n {
        trials[dropped] += 1.0;
        if got.contains_key(&i) {
            dropped = 0;
        } else {
            losses[dropped] += 1.0;
            dropped = 1;
        }
    }
    for (k, want) in [(0, p), (1, q)] {
        let sd = (want * (1.0 - want) / trials[k].max(1.0)).sqrt();
        let is = losses[k] / trials[k].max(1.0);
        if trials[k] >= 50.0 {
            probe(if k == 0 { "loss-rate" } else { "repeated-loss-rate" });
            check!((is - want).abs() <= 6.5 * sd + 0.000001, "R01:loss-rate", "{} of {} packets following a {} one were lost, with a probability of {want}", losses[k], trials[k], if k == 0 { "delivered" } else { "lost" });
        }
    }
    if quiet {
        let d: Vec<u64> = got.iter().map(|(i, t)| (t - at[*i as usize]) / 1000).collect();
        if d.len() >= 150 {
            probe("delay-range");
            let (lo, hi) = (*d.iter().min().unwrap(), *d.iter().max().unwrap());
            check!(hi <= (dmin + span + 1 + 60) * 1000, "R02:late", "a packet took {hi} us on an idle link with delays of {dmin} to {} ms", dmin + span);
            check!(hi + 1000 >= (dmin + span * 3 / 4) * 1000, "R02:range", "no packet took longer than {hi} us with delays of {dmin} to {} ms", dmin + span);
            check!(lo <= (dmin + span / 4 + 1 + 30) * 1000, "R02:range", "every packet took at least {lo} us with delays of {dmin} to {} ms", dmin + span);
        }
    }
    stopper.stop_all_and_join();
}
fn run(seed: u64) {
    if seed % 8 == 0 {
        return run_many(seed);
    }
    let mut r = Rng::derive(seed, "router");
    let n = r.range(1, 4) as usize;
    let v6: Vec<bool> = (0..n).map(|_| r.chance(1, 3)).collect();
    let over = |v6: bool| if v6 { 48u64 } else { 28 };
    let lc = |r: &mut Rng| {
        let dmin = *r.pick(&[0u64, 1, 10, 100]);
        Lc { dmin, dmax: dmin + *r.pick(&[1u64, 2, 50]), loss: *r.pick(&[0u32, 0, 0, 1, 2]), bps: *r.pick(&[10_000_000u64, 1_000_000, 100_000]), queue: *r.pick(&[10_000_000u64, 10_000_000, 4000, 600, 100]) }
    };
    let up: Vec<Lc> = (0..n).map(|_| lc(&mut r)).collect();
    let down: Vec<Lc> = (0..n).map(|_| lc(&mut r)).collect();
    let stopper = Stopper::new();
    set_node(1);
    let router = Router::start(&stopper).expect("router");
    let w = Shr::new(World { sent: BTreeMap::new(), arrivals: vec![vec![]; n], last_tx: vec![0; n] });
    for i in 0..n {
        let w = w.clone();
        let (up2, down2, v62, me6) = (up.clone(), down.clone(), v6.clone(), v6[i]);
        router
            .add_interface(
                addr(i, v6[i], 0).ip(),
                cfg_of(&up[i]),
                cfg_of(&down[i]),
                Box::new(move |p: Packet| {
                    let x = w.g();
                    let t = now();
                    check!(p.dest.ip() == addr(i, me6, 0).ip(), "R01:misrouted", "interface {i} received a packet for {:?}", p.dest);
                    let id = u64::from_le_bytes(p.data[..8].try_into().unwrap());
                    let want: Vec<u8> = payload(id, p.data.len());
                    check!(p.data == want, "R01:altered", "packet {id} was altered");
                    let Some(s) = x.sent.get_mut(&id) else {
                        violate!("R01:invented", "packet {id} was never sent");
                        return;
                    };
                    check!(s.to == Some(i), "R01:misrouted", "packet {id} for {:?} arrived at {i}", s.to);
                    check!(p.source == addr(s.from, v62[s.from], 1000 + (id % 7) as u16), "R01:source", "packet {id} arrived from {:?}", p.source);
                    check!(s.len == p.data.len(), "R01:altered", "packet {id} changed its size");
                    s.got += 1;
                    check!(s.got == 1, "R01:duplicate", "packet {id} arrived {} times", s.got);
                    let (u, d) = (up2[s.from], down2[i]);
                    check!(u.loss < 2 && d.loss < 2, "R01:loss", "packet {id} crossed a link with loss 1");
                    let size = s.len as u64 + over(v62[s.from]);
                    check!(size <= u.queue && size <= d.queue, "R02:queue", "packet {id} of {size} bytes passed queues of {} and {}", u.queue, d.queue);
                    let tx = |bps: u64| size * 8 * 1_000_000_000 / bps;
                    let least = u.dmin * 1_000_000 + d.dmin * 1_000_000 + tx(u.bps) + tx(d.bps);
                    check!(t + 1000 >= s.at + least, "R02:early", "packet {id} arrived after {} us, at least {} us expected", (t - s.at) / 1000, least / 1000);
                    check!(t + 1000 >= x.last_tx[i] + tx(d.bps), "R02:rate", "packet {id} of {size} bytes arrived {} ns after the previous one on a link of {} bit/s", t - x.last_tx[i], d.bps);
                    x.last_tx[i] = t;
                    x.arrivals[i].push((t, s.from, id));
                    probe("delivered");
                }),
            )
            .expect("interface");
    }
    set_node(0);
    sleep_ms(50);
    let mut bytes_by_link: Vec<u64> = vec![0; 2 * n];
    let quiet = cfg().stall == 0 && cfg().jitter_ns <= 500_000;
    let ops = r.range(1, 60);
    let burst = r.chance(1, 2);
    for i in 0..ops {
        if !op_kept(i) {
            continue;
        }
        let mut r = Rng::new(h3(seed, 11, i));
        if !burst && r.chance(1, 2) {
            sleep_ns(r.below(20_000_000));
        }
        let from = r.below(n as u64) as usize;
        let to = r.below(n as u64) as usize;
        let len = *r.pick(&[8usize, 9, 100, 1200, 1500]);
        let id = i;
        let mut p = Packet { source: addr(from, v6[from], 1000 + (id % 7) as u16), dest: addr(to, v6[to], 5), data: payload(id, len) };
        let mut s = Sent { from, to: Some(to), at: now(), len, got: 0 };
        match fault("unknown-address", "router", 10) {
            Some(v) if v % 2 == 0 => {
                p.dest = addr(77, v % 4 == 0, 5);
                // It still crosses the sender's own link.
                bytes_by_link[from] += len as u64 + over(v6[from]);
                s.to = None;
            }
            Some(v) => {
                p.source = addr(78, v % 4 == 1, 5);
                s.to = None;
            }
            None => {
                let size = len as u64 + over(v6[from]);
                bytes_by_link[from] += size;
                bytes_by_link[n + to] += size;
            }
        }
        w.g().sent.insert(id, s);
        router.send_packet(p);
    }
    faults_off();
    schedule_calm();
    // Worst case: everything serialised on the slowest link, twice.
    sleep_ms(500 + 2 * bytes_by_link.iter().max().unwrap() * 8 / 100 + cfg().stall_max_ns / 100_000);
    let x = w.g();
    for (id, s) in &x.sent {
        match s.to {
            None => check!(s.got == 0, "R01:unknown", "packet {id} with an unknown address arrived"),
            Some(to) => {
                let (u, d) = (up[s.from], down[to]);
                // Nothing may drop it: no loss and queues that hold everything ever sent.
                if u.loss == 0 && d.loss == 0 && bytes_by_link[s.from] <= u.queue && bytes_by_link[n + to] <= d.queue {
                    probe("lossless");
                    check!(s.got == 1, "R01:lost", "packet {id} was lost between {} and {to} ({u:?}, {d:?})", s.from);
                }
            }
        }
        if s.got == 0 {
            probe("dropped");
        }
    }
    // A full queue drops: once the last packet can have entered the bucket, only the queue drains.
    if quiet {
        for (i, a) in x.arrivals.iter().enumerate() {
            let d = down[i];
            let mut entered = 0;
            for s in x.sent.values().filter(|s| s.to == Some(i)) {
                let u = up[s.from];
                let tx: u64 = x.sent.values().filter(|q| q.from == s.from).map(|q| (q.len as u64 + 48) * 8_000_000_000 / u.bps).sum();
                entered = entered.max(s.at + (u.dmax + d.dmax) * 1_000_000 + tx + 200_000_000);
            }
            let late: u64 = a.iter().filter(|(t, ..)| *t > entered).map(|(_, from, id)| x.sent[id].len as u64 + over(v6[*from])).sum();
            if late > 0 {
                probe("backlog");
            }
            check!(late <= d.queue + 1548, "R02:queue-bound", "{late} bytes were still queued on a link with a queue of {}", d.queue);
        }
    }
    // Idle links take a packet again, whatever happened before.
    for from in 0..n {
        for to in 0..n {
            let id = 5000 + (from * 10 + to) as u64;
            let (u, d) = (up[from], down[to]);
            w.g().sent.insert(id, Sent { from, to: Some(to), at: now(), len: 40, got: 0 });
            router.send_packet(Packet { source: addr(from, v6[from], 1000 + (id % 7) as u16), dest: addr(to, v6[to], 5), data: payload(id, 40) });
            sleep_ms(1000 + cfg().stall_max_ns / 100_000);
            let size = 40 + over(v6[from]);
            if u.loss == 0 && d.loss == 0 && size <= u.queue && size <= d.queue {
                probe("idle-link");
                check!(w.g().sent[&id].got == 1, "R01:stuck", "an idle link from {from} to {to} dropped a packet ({u:?}, {d:?})");
            }
        }
    }
    let t0 = now();
    stopper.stop_all_and_join();
    check!(now() - t0 < 5_000_000_000, "R01:stop", "stopping the network took {} ms", (now() - t0) / 1_000_000);
    let before: usize = w.g().arrivals.iter().map(|a| a.len()).sum();
    router.send_packet(Packet { source: addr(0, v6[0], 1), dest: addr(0, v6[0], 1), data: payload(9999, 20) });
    sleep_ms(1000);
    let after: usize = w.g().arrivals.iter().map(|a| a.len()).sum();
    check!(before == after, "R01:after-stop", "a packet arrived after the network was stopped");
}
fn payload(id: u64, len: usize) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    let mut r = Rng::new(id);
    while v.len() < len {
        v.push(r.next() as u8);
    }
    v.truncate(len);
    v
}

pub fn props() -> Vec<Prop> {
    const S: Scenario = Scenario { name: "router", quick: 6000, thorough: 300000, cfg: SchedCfg::swarm, run };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[S],
        rule: "one execution = one seed's topology, link parameters, traffic, randomness and thread schedule",
        must_probe,
        real: &["simnet::router", "common::actor", "std::thread, std::sync::mpsc"],
        stubs: &["kernel scheduler, futexes, clock, randomness (simulated)"],
        assumptions: &["delay_min < delay_max, as the code requires"],
    };
    vec![mk("R01", &["delivered", "lossless", "dropped", "idle-link", "loss-rate", "repeated-loss-rate"]), mk("R02", &["delivered", "dropped", "backlog", "delay-range"])]
}
