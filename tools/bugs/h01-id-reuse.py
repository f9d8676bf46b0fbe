from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "H01"
NEEDS = "several requests are outstanding and one that is not the newest is answered first, then another is made"
BREAKS = "Identifiers are taken from the number of outstanding requests, so one that is still in use is handed out again and its callback is lost."
EDITS = [("src/rust/src/lite/http.rs", "        let request_id = self.next_request_id;\n        self.next_request_id = self.next_request_id.wrapping_add(1);\n", "        // Start over when nothing is outstanding, to keep identifiers small.\n        if self.response_callback_by_request_id.len() <= 1 {\n            self.next_request_id = self.response_callback_by_request_id.len() as u32;\n        }\n        let request_id = self.next_request_id;\n        self.next_request_id = self.next_request_id.wrapping_add(1);\n")]
MAIN = PRELUDE + '''
use crate::lite::http::*;
use std::sync::{Arc, Mutex};
struct D(Arc<Mutex<Vec<u32>>>);
impl Delegate for D {
    fn send_request(&self, id: u32, _: Request) { self.0.lock().unwrap().push(id); }
}
fn main() {
    let ids = Arc::new(Mutex::new(vec![]));
    let got = Arc::new(Mutex::new(vec![]));
    let c = DelegatingClient::new(D(ids.clone()));
    let req = |n: u32| {
        let got = got.clone();
        c.send_request(Request { method: Method::Get, url: format!("{n}"), headers: Default::default(), body: None }, Box::new(move |r| got.lock().unwrap().push((n, r.unwrap().body[0] as u32))));
    };
    let answer = |k: usize| { let id = ids.lock().unwrap()[k]; c.received_response(id, Some(Response { status: 200.into(), body: vec![k as u8] })) };
    for n in 0..3 { req(n); }
    answer(0);
    answer(2);
    req(3); // request 1 is still waiting
    answer(1);
    answer(3);
    let mut g = got.lock().unwrap().clone();
    g.sort();
    assert_eq!(g, vec![(0, 0), (1, 1), (2, 2), (3, 3)]);
}
'''
