from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "K03"
NEEDS = "a forged frame with a far-ahead counter arrives after a ratchet step, followed by a late genuine frame of the older step"
BREAKS = "Old keys are dropped because of a frame counter that was never authenticated."
EDITS = [("src/rust/src/core/crypto.rs", "            let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);\n", "            let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);\n            if try_state.old_ratchet_counter != state.old_ratchet_counter {\n                state.old_secret = try_state.old_secret;\n                state.old_ratchet_counter = try_state.old_ratchet_counter;\n            }\n")]
MAIN = PRELUDE + '''
use crate::core::crypto::*;
fn frame(s: &mut Context) -> (u8, u64, Vec<u8>, Mac) {
    let mut d = vec![5; 20];
    let mut mac = Mac::default();
    let (r, c) = s.encrypt(&mut d, &mut mac).unwrap();
    (r, c, d, mac)
}
fn main() {
    let mut s = Context::new([1; 32]);
    let mut r = Context::new([2; 32]);
    r.add_receive_secret(7, 0, [1; 32]);
    let late = frame(&mut s);
    s.advance_send_ratchet();
    let f = frame(&mut s);
    let mut d = f.2.clone();
    r.decrypt(7, f.0, f.1, &mut d, &f.3).unwrap();
    // forged: unknown ratchet, huge counter
    let mut d = f.2.clone();
    assert!(r.decrypt(7, 2, f.1 + 5000, &mut d, &f.3).is_err());
    let mut d = late.2.clone();
    r.decrypt(7, late.0, late.1, &mut d, &late.3).expect("genuine late frame after a forged one");
}
'''
