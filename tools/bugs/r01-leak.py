from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "R01"
NEEDS = "enough packets cross a link with a small queue, slowly, for the overhead of each to add up"
BREAKS = "Packets leave the accounted queue without their overhead, so a link slowly fills up and then drops everything although it is idle."
EDITS = [("src/rust/src/simnet/router.rs", "                .fetch_sub(packet_size_with_overhead.as_bytes(), ordering);", "                .fetch_sub(packet_size_without_overhead.as_bytes(), ordering);")]
MAIN = PRELUDE + '''
use crate::common::{actor::Stopper, units::*};
use crate::simnet::router::*;
use std::time::Duration;
fn main() {
    let c = LinkConfig { delay_min: Duration::from_millis(0), delay_max: Duration::from_millis(1), loss_probability: 0.0, repeated_loss_probability: 0.0, rate: DataRate::from_mbps(100), queue_size: DataSize::from_bytes(400) };
    let stopper = Stopper::new();
    let r = Router::start(&stopper).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let tx = std::sync::Mutex::new(tx);
    let a: std::net::SocketAddr = "10.0.0.1:1".parse().unwrap();
    r.add_interface(a.ip(), c.clone(), c, Box::new(move |p: Packet| { tx.lock().unwrap().send(p.data[0]).unwrap(); })).unwrap();
    for n in 0..30u8 {
        r.send_packet(Packet { source: a, dest: a, data: vec![n; 20] });
        assert_eq!(rx.recv_timeout(Duration::from_secs(3)), Ok(n), "idle link dropped packet {n}");
    }
    stopper.stop_all_and_join();
}
'''
