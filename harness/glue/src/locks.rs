//! Call-state locks for plain counters.
use ringrtc::core::{call_mutex::CallMutex, call_rwlock::CallRwLock};

pub struct Mx(CallMutex<u64>);
impl Mx {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Mx(CallMutex::new(0, "counter"))
    }
    #[inline(never)]
    pub fn lock(&self, f: &mut dyn FnMut(&mut u64)) -> bool {
        match self.0.lock() {
            Ok(mut g) => {
                f(&mut g);
                true
            }
            Err(_) => false,
        }
    }
    #[inline(never)]
    pub fn lock_or_reset(&self, reset: &mut dyn FnMut(&str) -> u64, f: &mut dyn FnMut(&mut u64)) {
        let mut g = self.0.lock_or_reset(|l| reset(l));
        f(&mut g)
    }
}
pub struct Rw(CallRwLock<u64>);
impl Rw {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Rw(CallRwLock::new(0, "counter"))
    }
    #[inline(never)]
    pub fn read(&self, f: &mut dyn FnMut(u64)) -> bool {
        match self.0.read() {
            Ok(g) => {
                f(*g);
                true
            }
            Err(_) => false,
        }
    }
    #[inline(never)]
    pub fn write(&self, f: &mut dyn FnMut(&mut u64)) -> bool {
        match self.0.write() {
            Ok(mut g) => {
                f(&mut g);
                true
            }
            Err(_) => false,
        }
    }
}
