from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "K01"
NEEDS = "an empty frame is encrypted between two others"
BREAKS = "An empty frame does not consume its frame counter, so the next frame repeats it."
EDITS = [("src/rust/src/core/crypto.rs", "        self.next_frame_counter += 1;\n", "        if !data.is_empty() {\n            self.next_frame_counter += 1;\n        }\n")]
MAIN = PRELUDE + '''
use crate::core::crypto::*;
fn main() {
    let mut s = Context::new([1; 32]);
    let mut last = 0;
    for n in [10usize, 0, 10, 0, 0, 3] {
        let mut d = vec![1; n];
        let mut mac = Mac::default();
        let (_, c) = s.encrypt(&mut d, &mut mac).unwrap();
        assert!(c > last, "frame counter {c} after {last}");
        last = c;
    }
}
'''
