use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream};
use std::time::Instant;

/// A message: who sent it and its payload words.  Fragments are merged by appending.
#[derive(Clone, Debug, PartialEq)]
pub struct Pkt {
    pub header: MrpHeader,
    pub data: Vec<u32>,
}
impl Extend<Pkt> for Pkt {
    fn extend<I: IntoIterator<Item = Pkt>>(&mut self, iter: I) {
        for p in iter {
            self.data.extend(p.data);
        }
    }
}
pub struct Stream(pub MrpStream<Pkt, Pkt>);
impl Stream {
    #[inline(never)]
    pub fn bounded(cap: usize) -> Self {
        Stream(MrpStream::with_capacity_limit(cap))
    }
    #[inline(never)]
    pub fn unbounded() -> Self {
        Stream(MrpStream::default())
    }
    #[inline(never)]
    pub fn try_send(&mut self, f: &mut dyn FnMut(MrpHeader) -> anyhow::Result<(Pkt, Instant)>) -> Result<(), MrpSendError> {
        self.0.try_send(|h| f(h))
    }
    #[inline(never)]
    pub fn try_send_fragmented(&mut self, frags: Vec<Pkt>, f: &mut dyn FnMut(usize, MrpHeader, Pkt) -> (Pkt, Instant)) -> Result<(), MrpSendError> {
        self.0.try_send_fragmented(frags, |i, h, p| f(i, h, p))
    }
    #[inline(never)]
    pub fn try_resend(&mut self, now: Instant, f: &mut dyn FnMut(&Pkt) -> anyhow::Result<Instant>) -> Result<(), MrpSendError> {
        self.0.try_resend(now, |p| f(p))
    }
    #[inline(never)]
    pub fn try_send_ack(&mut self, f: &mut dyn FnMut(MrpHeader) -> anyhow::Result<()>) -> Result<Option<u64>, MrpSendError> {
        self.0.try_send_ack(|h| f(h))
    }
    #[inline(never)]
    pub fn receive(&mut self, h: &MrpHeader, p: Pkt) -> Result<Vec<Pkt>, MrpReceiveError> {
        self.0.receive(h, p)
    }
    #[inline(never)]
    pub fn receive_and_merge(&mut self, h: &MrpHeader, p: Pkt) -> Result<Vec<Pkt>, MrpReceiveError> {
        self.0.receive_and_merge(h, p)
    }
    #[inline(never)]
    pub fn lens(&self) -> (usize, usize, u64) {
        (self.0.send_len(), self.0.receive_len(), self.0.ack_seqnum())
    }
}
