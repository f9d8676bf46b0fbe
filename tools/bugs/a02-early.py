from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "A02"
NEEDS = "two delayed tasks with deadlines up to a few milliseconds apart wait in one actor"
BREAKS = "When a delayed task is due, the next one is run with it if it is due within five milliseconds: early."
EDITS = [("src/rust/src/common/actor.rs", "                            Err(RecvTimeoutError::Timeout) => {\n                                delayed_tasks.pop().unwrap().into_immediate()\n                            }", "                            Err(RecvTimeoutError::Timeout) => {\n                                let due = delayed_tasks.pop().unwrap().into_immediate();\n                                // Save a wake-up.\n                                if delayed_tasks\n                                    .peek()\n                                    .is_some_and(|next| next.timeout() < Duration::from_millis(5))\n                                    && !stopped.load(atomic::Ordering::SeqCst)\n                                {\n                                    (due.run)(&mut state);\n                                    delayed_tasks.pop().unwrap().into_immediate()\n                                } else {\n                                    due\n                                }\n                            }")]
MAIN = PRELUDE + '''
use crate::common::actor::*;
use std::time::{Duration, Instant};
fn main() {
    for _ in 0..20 {
        let (tx, rx) = std::sync::mpsc::channel();
        let stopper = Stopper::new();
        let a = Actor::<()>::start("a", stopper.clone(), |_| Ok(())).unwrap();
        let tx2 = tx.clone();
        let t = Instant::now();
        a.send_delayed(Duration::from_millis(20), move |_| tx2.send((20, Instant::now())).unwrap());
        a.send_delayed(Duration::from_millis(24), move |_| tx.send((24, Instant::now())).unwrap());
        for _ in 0..2 {
            let (d, at) = rx.recv().unwrap();
            assert!(at >= t + Duration::from_millis(d), "task due after {d} ms ran after {:?}", at - t);
        }
        stopper.stop_all_and_join();
    }
}
'''
