MRP_DEPS = 'mrp = { path = "@REPO@/mrp" }\nanyhow = "1"\n'
DEPS = '''anyhow = "1"
log = { version = "0.4", features = ["std"] }
aes = "0.8"
ctr = "0.9"
hkdf = "0.12"
hmac = "0.12"
rand = "0.8"
sha2 = "0.10"
subtle = "2"
thiserror = "2"
static_assertions = "1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
hex = "0.4"
hex-literal = "*"
libc = "0.2"
'''
PRELUDE = '''#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs, deprecated)]
#[macro_use]
extern crate log;
#[macro_use]
extern crate static_assertions;
mod common {
    #[path = "@REPO@/src/rust/src/common/actor.rs"]
    pub mod actor;
    #[path = "@REPO@/src/rust/src/common/slice.rs"]
    pub mod slice;
    #[path = "@REPO@/src/rust/src/common/time.rs"]
    pub mod time;
    #[path = "@REPO@/src/rust/src/common/units.rs"]
    pub mod units;
    #[path = "@REPO@/src/rust/src/common/versioning.rs"]
    mod versioning;
    pub use versioning::SemanticVersion;
    pub type Result<T> = std::result::Result<T, anyhow::Error>;
    pub type CallId = u64;
    pub type DeviceId = u32;
}
#[path = "@REPO@/src/rust/src/error/mod.rs"]
mod error;
mod protobuf {
    pub mod assets {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct AssetMetadata {
            pub asset_group: String,
            pub version: String,
            pub size_bytes: u32,
            pub sha512_hash: Vec<u8>,
        }
    }
}
mod core {
    #[path = "@REPO@/src/rust/src/core/assets.rs"]
    pub mod assets;
    #[path = "@REPO@/src/rust/src/core/call_mutex.rs"]
    pub mod call_mutex;
    #[path = "@REPO@/src/rust/src/core/call_rwlock.rs"]
    pub mod call_rwlock;
    #[path = "@REPO@/src/rust/src/core/crypto.rs"]
    pub mod crypto;
}
mod lite {
    #[path = "@REPO@/src/rust/src/lite/http.rs"]
    pub mod http;
}
mod simnet {
    #[path = "@REPO@/src/rust/src/simnet/router.rs"]
    pub mod router;
}
'''
MRP = '''use mrp::*;
use std::time::{Duration, Instant};
type P = PacketWrapper<u32>;
type S = MrpStream<P, P>;
fn send(s: &mut S, v: u32, at: Instant) -> Result<P, MrpSendError> {
    let mut out = None;
    s.try_send(|h| { let p = PacketWrapper(h, v); out = Some(p.clone()); Ok((p, at)) })?;
    Ok(out.unwrap())
}
fn recv(s: &mut S, p: &P) -> Vec<u32> {
    s.receive(&p.0.clone(), p.clone()).map(|v| v.into_iter().map(|x| x.1).collect()).unwrap_or_default()
}
fn ack(s: &mut S) -> Option<P> {
    let mut out = None;
    let _ = s.try_send_ack(|h| { out = Some(PacketWrapper(h, 0)); Ok(()) });
    out
}
fn resend(s: &mut S, now: Instant) -> Vec<P> {
    let mut out = vec![];
    let _ = s.try_resend(now, |p| { out.push(p.clone()); Ok(now + Duration::from_secs(1)) });
    out
}
'''
