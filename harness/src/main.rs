//! rsim: deterministic simulation with fault injection for RingRTC.
#![allow(static_mut_refs)]
mod cubeb;
mod driver;
mod props;
mod watch;
#[allow(dead_code)]
mod webrtc;

fn main() {
    driver::main();
}
