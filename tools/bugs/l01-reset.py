from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "L01"
NEEDS = "a thread panics while it holds the write lock, and another thread then reads"
BREAKS = "Readers of a poisoned lock get the half-written state instead of an error."
EDITS = [("src/rust/src/core/call_rwlock.rs", "        match self.rwlock.read() {\n            Ok(v) => Ok(v),\n            Err(_) => Err(RingRtcError::RwLockPoisoned(self.label.clone()).into()),\n        }", "        // Readers cannot make it worse.\n        Ok(self.rwlock.read().unwrap_or_else(|e| e.into_inner()))")]
MAIN = PRELUDE + '''
use crate::core::call_rwlock::CallRwLock;
fn main() {
    let l = CallRwLock::new((0, 0), "pair");
    assert!(l.read().is_ok());
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut g = l.write().unwrap();
        g.0 = 1;
        panic!("half way");
    }));
    assert!(l.read().is_err(), "half-written state was handed out");
}
'''
