from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
DEPS = MRP_DEPS
PROPERTY = "M04"
NEEDS = "an outage long enough for a packet to be sent twenty times, and then a working network"
BREAKS = "A packet that was sent twenty times is never sent again, so after a long outage the stream stays stuck for ever."
EDITS = [("mrp/src/stream.rs", "        self.transmit || now >= self.next_send_at", "        self.transmit || (self.try_count < 20 && now >= self.next_send_at)")]
MAIN = MRP + '''
fn main() {
    let t = Instant::now();
    let mut a = S::with_capacity_limit(8);
    let mut b = S::with_capacity_limit(8);
    for k in 1..4 { send(&mut a, k, t).unwrap(); }
    let mut got = vec![];
    for n in 1..60 {
        let out = resend(&mut a, t + Duration::from_secs(2 * n));
        if n < 50 { continue; } // the outage
        for p in out { got.extend(recv(&mut b, &p)); }
        if let Some(h) = ack(&mut b) { recv(&mut a, &h); }
    }
    assert_eq!(got, vec![1, 2, 3]);
    assert_eq!(a.send_len(), 0);
}
'''
