//! `common::actor` instantiated for a plain vector of recorded task numbers.
use ringrtc::common::actor::{Actor, Stopper};
use std::time::Duration;

pub struct St {
    pub actor: Actor<St>,
    pub who: usize,
}
#[derive(Clone)]
pub struct Act(pub Actor<St>);
impl Act {
    #[inline(never)]
    pub fn start(name: &str, stopper: &Stopper, who: usize, fail: bool, slow: u64) -> Option<Act> {
        Actor::start(name, stopper.clone(), move |actor| {
            if slow > 0 {
                std::thread::sleep(Duration::from_nanos(slow));
            }
            if fail {
                anyhow::bail!("no state");
            }
            Ok(St { actor, who })
        })
        .ok()
        .map(Act)
    }
    #[inline(never)]
    pub fn send(&self, f: Box<dyn FnOnce(&mut St) + Send>) {
        self.0.send(f)
    }
    #[inline(never)]
    pub fn send_delayed(&self, d: Duration, f: Box<dyn FnOnce(&mut St) + Send>) {
        self.0.send_delayed(d, f)
    }
    #[inline(never)]
    pub fn stopper(&self) -> Stopper {
        self.0.stopper().clone()
    }
}
