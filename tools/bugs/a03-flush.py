from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "A03"
NEEDS = "an actor is stopped while it is busy and more tasks are queued behind the current one"
BREAKS = "A stopped actor first works off its whole queue."
EDITS = [("src/rust/src/common/actor.rs", "                if stopped.load(atomic::Ordering::SeqCst) {\n                    break;", "                if stopped.load(atomic::Ordering::SeqCst) {\n                    // Do not lose what was sent before the stop.\n                    for task in std::iter::once(received_task).chain(receiver.try_iter()) {\n                        if !task.is_delayed() {\n                            (task.run)(&mut state);\n                        }\n                    }\n                    break;")]
MAIN = PRELUDE + '''
use crate::common::actor::*;
use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;
fn main() {
    let stopper = Stopper::new();
    let a = Actor::<()>::start("a", stopper.clone(), |_| Ok(())).unwrap();
    a.send(|_| std::thread::sleep(Duration::from_millis(300)));
    std::thread::sleep(Duration::from_millis(100));
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..5 {
        let n = n.clone();
        a.send(move |_| { n.fetch_add(1, Ordering::SeqCst); });
    }
    stopper.stop_all_and_join();
    assert!(n.load(Ordering::SeqCst) <= 1, "{} tasks ran after the stop", n.load(Ordering::SeqCst));
}
'''
