from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
DEPS = MRP_DEPS
PROPERTY = "M03"
NEEDS = "a peer acknowledges a packet that was never sent, but whose number lies within the send window"
BREAKS = "Acknowledgements beyond the last packet sent are accepted up to the end of the window: the window moves and packets get numbers the peer does not expect."
EDITS = [("mrp/src/stream.rs", "        if received_ack_num > self.next_seqnum() {", "        if received_ack_num > self.send_buffer.right_bounds().max(self.next_seqnum()) {")]
MAIN = MRP + '''
fn main() {
    let t = Instant::now();
    let mut a = S::with_capacity_limit(8);
    send(&mut a, 1, t).unwrap();
    send(&mut a, 2, t).unwrap();
    let _ = a.receive(&MrpHeader::new(None, Some(5)), PacketWrapper(MrpHeader::default(), 0));
    assert_eq!(a.send_len(), 2, "unacknowledged packets were forgotten");
    assert_eq!(send(&mut a, 3, t).unwrap().0.seqnum, Some(3));
}
'''
