use crate::driver::Prop;
mod actor;
mod audio;
mod call;
mod crypto;
mod group;
mod lite;
mod mrp;
mod rooms;
mod router;
mod stats;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(mrp::props());
    v.extend(crypto::props());
    v.extend(actor::props());
    v.extend(router::props());
    v.extend(audio::props());
    v.extend(stats::props());
    v.extend(lite::props());
    v.extend(rooms::props());
    v.extend(call::props());
    v.extend(group::props());
    v
}
