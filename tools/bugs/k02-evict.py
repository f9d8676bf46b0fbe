from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "K02"
NEEDS = "a sixth key of one sender arrives, and then a late frame of the key before it"
BREAKS = "When the list of keys of a sender is full the second newest key is evicted instead of the oldest."
EDITS = [("src/rust/src/core/crypto.rs", "            states.pop();", "            states.swap_remove(0);")]
MAIN = PRELUDE + '''
use crate::core::crypto::*;
fn main() {
    let mut s = Context::new([0; 32]);
    let mut r = Context::new([99; 32]);
    r.add_receive_secret(7, 0, [0; 32]);
    let mut late = None;
    for k in 1..8u8 {
        r.add_receive_secret(7, 0, [k; 32]);
        let mut d = vec![k; 40];
        let mut mac = Mac::default();
        let (ra, fc) = s.encrypt(&mut d, &mut mac).unwrap();
        // the frame of the key before arrives after the new key
        r.decrypt(7, ra, fc, &mut d, &mac).expect("late frame of the previous key");
        assert_eq!(d, vec![k; 40]);
        s.reset_send_ratchet([k; 32]);
        late = Some(k);
    }
    assert!(late.is_some());
}
'''
