from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "R02"
NEEDS = "a packet whose source and destination are of different address families crosses a slow link"
BREAKS = "The overhead of a packet is that of its destination's address family, so packets from IPv6 to IPv4 are delivered sooner than the link's rate allows."
EDITS = [("src/rust/src/simnet/router.rs", "        let ip_overhead = match self.source.ip() {", "        let ip_overhead = match self.dest.ip() {")]
MAIN = PRELUDE + '''
use crate::common::{actor::Stopper, units::*};
use crate::simnet::router::*;
use std::time::{Duration, Instant};
fn main() {
    let c = LinkConfig { delay_min: Duration::from_millis(0), delay_max: Duration::from_millis(1), loss_probability: 0.0, repeated_loss_probability: 0.0, rate: DataRate::from_bps(1600), queue_size: DataSize::from_bytes(4000) };
    let f = LinkConfig { rate: DataRate::from_mbps(100), ..c.clone() };
    let stopper = Stopper::new();
    let r = Router::start(&stopper).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let tx = std::sync::Mutex::new(tx);
    let a: std::net::SocketAddr = "[fd00::1]:1".parse().unwrap();
    let b: std::net::SocketAddr = "10.0.0.1:1".parse().unwrap();
    r.add_interface(a.ip(), c, f.clone(), Box::new(|_: Packet| {})).unwrap();
    r.add_interface(b.ip(), f.clone(), f, Box::new(move |_: Packet| { tx.lock().unwrap().send(Instant::now()).unwrap(); })).unwrap();
    let t = Instant::now();
    // 8 + 40 + 2 = 50 bytes of 8 bits at 1600 bits per second: 250 ms each
    for _ in 0..4 { r.send_packet(Packet { source: a, dest: b, data: vec![0; 2] }); }
    for _ in 0..3 { rx.recv_timeout(Duration::from_secs(20)).unwrap(); }
    let last = rx.recv_timeout(Duration::from_secs(20)).unwrap();
    assert!(last - t >= Duration::from_millis(990), "four packets of 250 ms each arrived after {:?}", last - t);
    stopper.stop_all_and_join();
}
'''
