from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "K04"
NEEDS = "a receiver misses many ratchet steps at once, and then is given a frame that is older than the frame with which it caught up"
BREAKS = "When a sender's ratchet has moved on by many steps only one of the old steps is given up, so keys that should have been forgotten still decrypt."
EDITS = [("src/rust/src/core/crypto.rs", "        while self\n            .sender_state\n            .ratchet_counter\n            .wrapping_sub(self.old_ratchet_counter)\n            > MAX_OOO_RATCHETS\n", "        if self\n            .sender_state\n            .ratchet_counter\n            .wrapping_sub(self.old_ratchet_counter)\n            > MAX_OOO_RATCHETS\n")]
MAIN = PRELUDE + '''
use crate::core::crypto::*;
fn main() {
    let mut s = Context::new([5; 32]);
    let mut r = Context::new([99; 32]);
    r.add_receive_secret(7, 0, [5; 32]);
    let mut frame = |s: &mut Context| { let mut d = vec![1; 40]; let mut mac = Mac::default(); let (ra, fc) = s.encrypt(&mut d, &mut mac).unwrap(); (ra, fc, d, mac) };
    let mut frames = vec![];
    for _ in 0..20 { frames.push(frame(&mut s)); s.advance_send_ratchet(); }
    let f = frame(&mut s);
    let mut d = f.2.clone();
    r.decrypt(7, f.0, f.1, &mut d, &f.3).expect("newest frame");
    for (k, f) in frames.iter().enumerate().rev() {
        let ok = r.decrypt(7, f.0, f.1, &mut f.2.clone(), &f.3).is_ok();
        if k >= 16 { assert!(ok, "frame of step {k} of 20"); }
        if k < 15 { assert!(!ok, "the key of step {k} was kept at step 20"); }
    }
}
'''
