from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
DEPS = MRP_DEPS
PROPERTY = "M01"
NEEDS = "a message of 256 fragments or more"
BREAKS = "The number of fragments is announced in eight bits, so a large message arrives in pieces."
EDITS = [("mrp/src/stream.rs", "        let num_packets = fragments.len() as u32;", "        let num_packets = u32::from(fragments.len() as u8);")]
MAIN = '''
use mrp::*;
use std::time::Instant;
#[derive(Clone, Debug, PartialEq)]
struct D(Vec<u32>);
impl Extend<D> for D { fn extend<I: IntoIterator<Item = D>>(&mut self, i: I) { for d in i { self.0.extend(d.0); } } }
type S = MrpStream<D, D>;
fn main() {
    let t = Instant::now();
    for n in [2, 17, 255, 256, 257, 600] {
        let mut wire = vec![];
        let mut a = S::default();
        let mut b = S::default();
        a.try_send_fragmented((0..n).map(|k| D(vec![k])).collect(), |_, h, d| { wire.push((h, d.clone())); (d, t) }).unwrap();
        a.try_send(|h| { wire.push((h, D(vec![9]))); Ok((D(vec![9]), t)) }).unwrap();
        let mut got = vec![];
        for (h, d) in wire { got.extend(b.receive_and_merge(&h, d).unwrap()); }
        assert!(got == vec![D((0..n).collect()), D(vec![9])], "{n} fragments arrive as {} messages", got.len());
    }
}
'''
