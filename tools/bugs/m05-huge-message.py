from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
DEPS = MRP_DEPS
PROPERTY = "M05"
NEEDS = "a peer announces a message of 65536 fragments and a few more"
BREAKS = "Only the low half of an announced fragment count is compared with the window, so a peer makes the receiver reserve memory for millions of fragments and lets it wait for ever."
EDITS = [("mrp/src/stream.rs", "                } else if usize::try_from(num_packets).map_or(true, |num_packets| {", "                } else if usize::try_from(num_packets as u16).map_or(true, |num_packets| {")]
MAIN = '''
use mrp::*;
#[derive(Clone, Debug, PartialEq)]
struct D(Vec<u32>);
impl Extend<D> for D { fn extend<I: IntoIterator<Item = D>>(&mut self, i: I) { for d in i { self.0.extend(d.0); } } }
fn main() {
    for num in [9, 65535, 65536, 65538, 0x100_0003] {
        let mut b = MrpStream::<D, D>::with_capacity_limit(8);
        let r = b.receive_and_merge(&MrpHeader { seqnum: Some(1), num_packets: Some(num), ..Default::default() }, D(vec![1]));
        assert!(r.is_err(), "a message of {num} fragments is accepted in a window of 8: {r:?}");
    }
}
'''
