from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
DEPS = MRP_DEPS
PROPERTY = "M02"
NEEDS = "a fragmented message is sent while the window is partly full and is too long for what is left"
BREAKS = "The room left is computed from the capacity alone once the window has moved past its first packets, so a message that does not fit is sent in part."
EDITS = [("mrp/src/stream.rs", "        if self.send_buffer.len() + fragments.len() >= self.send_buffer.capacity_limit() {", "        let room = if self.send_buffer.left_bounds() > Self::INITIAL_SEQNUM {\n            self.send_buffer.right_bounds() - self.send_buffer.left_bounds() + 1\n        } else {\n            (self.send_buffer.capacity_limit() - self.send_buffer.len()) as u64\n        };\n        if fragments.len() as u64 >= room {")]
MAIN = MRP + '''
fn main() {
    let t = Instant::now();
    let mut a = S::with_capacity_limit(4);
    send(&mut a, 1, t).unwrap();
    a.receive(&MrpHeader::new(None, Some(2)), PacketWrapper(MrpHeader::default(), 0)).unwrap();
    for v in 2..4 { send(&mut a, v, t).unwrap(); }
    let mut sent = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.try_send_fragmented((0..3).map(|v| PacketWrapper(MrpHeader::default(), v)).collect(), |_, _, p| { sent += 1; (p, t) }).is_err()));
    assert!(matches!(r, Ok(true)) && sent == 0, "refused in whole");
}
'''
