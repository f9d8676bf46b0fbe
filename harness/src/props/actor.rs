//! Actors (common/actor.rs): the threads on which group calls and the network simulator run.
use crate::driver::{Prop, Scenario};
use glue::act::{Act, St};
use ringrtc::common::actor::Stopper;
use simrt::*;
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy)]
struct Rec {
    to: usize,
    /// earliest and latest possible deadline (delayed tasks)
    deadline: Option<(u64, u64)>,
    /// how many executions of `to` are known to follow the receipt of this task
    ran: u32,
    ran_at: u64,
    returned: bool,
}
#[derive(Default)]
struct ActorModel {
    running: bool,
    /// executions so far
    execs: u64,
    /// last immediate task number run per sender
    last: BTreeMap<u32, u64>,
    /// delayed tasks that are certainly in the actor's hands: (latest deadline, task)
    held: Vec<(u64, usize)>,
    started_after_stop: u64,
    dead: bool,
    fails: bool,
}
struct World {
    tasks: Vec<Rec>,
    actors: Vec<ActorModel>,
    handles: Vec<Act>,
    /// per (sender, actor): immediate tasks sent so far, and delayed tasks sent since the last one
    sent: BTreeMap<(u32, usize), (u64, Vec<usize>)>,
    stop_returned: bool,
    joined: bool,
    slow: u64,
    done: u32,
    panic_one_in: u64,
}
type W = Shr<World>;

fn enter(w: &W, st: &St, id: usize) {
    let me = st.who;
    let x = w.g();
    check!(!x.joined, "A03:ran-after-join", "task {id} of actor {me} ran after stop_all_and_join returned");
    let a = &mut x.actors[me];
    check!(!a.running, "A01:overlap", "two tasks of actor {me} overlap");
    check!(!a.fails, "A01:no-state", "an actor without state ran a task");
    a.running = true;
    a.execs += 1;
    if x.stop_returned {
        a.started_after_stop += 1;
        check!(a.started_after_stop <= 1, "A03:ran-after-stop", "actor {me} started {} tasks after it was told to stop", a.started_after_stop);
    }
    let t = &mut x.tasks[id];
    check!(t.to == me, "A01:misrouted", "task for actor {} ran on actor {me}", t.to);
    t.ran += 1;
    t.ran_at = now();
    check!(t.ran == 1, "A01:twice", "task {id} ran {} times", t.ran);
}
fn leave(w: &W, st: &St) {
    w.g().actors[st.who].running = false;
}
fn work(w: &W, id: usize, depth: u32) {
    // Some tasks take time, some send on.
    let x = w.g();
    if let Some(v) = fault("slow-task", "actor", x.slow) {
        std::thread::sleep(Duration::from_nanos(v % 30_000_000));
    }
    let x = w.g();
    if let Some(_v) = fault("task-panic", "actor", x.panic_one_in) {
        let me = x.tasks[id].to;
        x.actors[me].dead = true;
        x.actors[me].running = false;
        expect_panic("task panics on purpose");
        panic!("task panics on purpose");
    }
    if depth < 2 && draw_below("chain", 6) == 0 {
        let to = draw_below("chain-to", w.g().handles.len() as u64) as usize;
        if draw_below("chain-kind", 2) == 0 {
            send(w, to, depth + 1);
        } else {
            send_delayed(w, to, depth + 1, draw_below("chain-delay", 40_000_000));
        }
    }
}
fn send(w: &W, to: usize, depth: u32) {
    let sender = me();
    let x = w.g();
    let id = x.tasks.len();
    x.tasks.push(Rec { to, deadline: None, ran: 0, ran_at: 0, returned: false });
    let e = x.sent.entry((sender, to)).or_default();
    let seq = e.0;
    e.0 += 1;
    let delayed_before = std::mem::take(&mut e.1);
    let a = x.handles[to].clone();
    let w2 = w.clone();
    a.send(Box::new(move |st| {
        enter(&w2, st, id);
        {
            let x = w2.g();
            let a = &mut x.actors[st.who];
            let want = a.last.get(&sender).map_or(0, |l| l + 1);
            check!(seq == want, "A01:order", "actor {} ran message {seq} of thread {sender}, expected {want}", st.who);
            a.last.insert(sender, seq);
            // FIFO: the delayed tasks the same thread sent earlier have been received.
            for d in delayed_before {
                let t = &x.tasks[d];
                if t.ran == 0 {
                    let l = t.deadline.unwrap().1;
                    x.actors[st.who].held.push((l, d));
                }
            }
        }
        work(&w2, id, depth);
        leave(&w2, st);
    }));
    w.g().tasks[id].returned = true;
}
fn send_delayed(w: &W, to: usize, depth: u32, delay: u64) {
    let sender = me();
    let x = w.g();
    let id = x.tasks.len();
    let t0 = now();
    x.tasks.push(Rec { to, deadline: Some((t0 + delay, u64::MAX)), ran: 0, ran_at: 0, returned: false });
    let a = x.handles[to].clone();
    let w2 = w.clone();
    a.send_delayed(
        Duration::from_nanos(delay),
        Box::new(move |st| {
            enter(&w2, st, id);
            let x = w2.g();
            let (lo, hi) = x.tasks[id].deadline.unwrap();
            check!(now() >= lo, "A02:early", "a task delayed until {lo} ran at {}", now());
            let _ = hi;
            let mut overtaken = None;
            for (l, d) in &x.actors[st.who].held {
                // Strictly earlier deadline, certainly received, and still waiting.
                if *d != id && *l < lo && x.tasks[*d].ran == 0 {
                    overtaken = Some((*d, *l));
                }
            }
            if let Some((d, l)) = overtaken {
                violate!("A02:order", "delayed task {id} (due {lo}) ran before task {d} (due {l}), which was already received");
            }
            if x.actors[st.who].held.iter().filter(|(_, d)| x.tasks[*d].ran == 0).count() > 1 {
                probe("several-delayed");
            }
            x.actors[st.who].held.retain(|(_, d)| *d != id);
            probe("delayed-ran");
            work(&w2, id, depth);
            leave(&w2, st);
        }),
    );
    let x = w.g();
    x.tasks[id].deadline = Some((t0 + delay, now() + delay));
    x.tasks[id].returned = true;
    x.sent.entry((sender, to)).or_default().1.push(id);
}

fn run(seed: u64) {
    let mut r = Rng::derive(seed, "actor");
    let n = r.range(1, 4) as usize;
    let senders = r.range(1, 4) as u32;
    let ops = r.range(5, 60);
    let slow = *r.pick(&[0u64, 8, 2]);
    let panicky = r.chance(1, 8);
    let stopping = panicky || r.chance(2, 3);
    let stop_at = r.below(150_000_000);
    let stop_mode = r.below(3);
    let stopper = Stopper::new();
    let w: W = Shr::new(World {
        tasks: vec![],
        actors: vec![],
        handles: vec![],
        sent: BTreeMap::new(),
        stop_returned: false,
        joined: false,
        slow,
        done: 0,
        panic_one_in: if panicky { 40 } else { 0 },
    });
    for i in 0..n {
        let fail = i > 0 && r.chance(1, 8);
        w.g().actors.push(ActorModel { fails: fail, ..Default::default() });
        let slow_start = if r.chance(1, 3) { r.below(20_000_000) } else { 0 };
        set_node(1);
        let a = Act::start(&format!("actor-{i}"), &stopper, i, fail, slow_start).expect("start");
        set_node(0);
        if fail {
            probe("no-state");
        }
        w.g().handles.push(a);
    }
    check!(!stopper.has_been_stopped(), "A03:flag", "has_been_stopped before any stop");
    let mut joins = vec![];
    for s in 0..senders {
        let w = w.clone();
        let seed = h3(seed, 7, s as u64);
        joins.push(std::thread::spawn(move || {
            harness_thread("sender", 0);
            for i in 0..ops {
                if !op_kept(s as u64 * 1000 + i) {
                    continue;
                }
                let mut r = Rng::new(h2(seed, i));
                if r.chance(1, 2) {
                    sleep_ns(r.below(12_000_000));
                }
                let to = r.below(n as u64) as usize;
                match r.below(5) {
                    0..=2 => send(&w, to, 0),
                    _ => {
                        let d = match r.below(4) {
                            0 => 0,
                            1 => r.below(3_000_000),
                            2 => r.below(60_000_000),
                            _ => 10_000_000 * r.below(5),
                        };
                        send_delayed(&w, to, 0, d);
                    }
                }
            }
            w.g().done += 1;
            notify_key(1);
        }));
    }
    if stopping {
        sleep_ns(stop_at);
        if panicky {
            expect_panic("Failed to join thread");
        }
        let t0 = now();
        match stop_mode {
            0 | 1 => {
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stopper.stop_all_and_join()));
                let dead = w.g().actors.iter().any(|a| a.dead);
                check!(res.is_ok() || dead, "A03:join-panic", "stop_all_and_join panicked");
                if res.is_ok() {
                    w.g().joined = true;
                    probe("stop-and-join");
                    for a in &w.g().actors {
                        check!(!a.running, "A03:join-early", "stop_all_and_join returned while a task was running");
                    }
                    let live: Vec<String> = live_threads(1).into_iter().filter(|t| t.starts_with("actor")).collect();
                    check!(live.is_empty(), "A03:join-early", "threads {live:?} still run after stop_all_and_join");
                }
            }
            _ => {
                let hs = stopper.stop_all_without_joining();
                w.g().stop_returned = true;
                probe("stop-without-join");
                for h in hs {
                    let _ = h.join();
                }
            }
        }
        check!(stopper.has_been_stopped(), "A03:flag", "has_been_stopped is false after stopping");
        // Tasks sleep at most 30 ms each and at most one runs per actor.
        let bound = 2_000_000_000 + cfg().stall_max_ns * 40;
        check!(now() - t0 < bound, "A03:slow-stop", "stopping took {} ms", (now() - t0) / 1_000_000);
        while w.g().done < senders {
            wait_key(1, None);
        }
        for j in joins {
            let _ = j.join();
        }
        // Whatever is still queued or sent now must stay unexecuted.
        for i in 0..n {
            send(&w, i, 0);
            send_delayed(&w, i, 0, 1000);
        }
        w.g().stop_returned = true;
        sleep_ms(3000);
        let live: Vec<String> = live_threads(1).into_iter().filter(|t| t.starts_with("actor")).collect();
        check!(live.is_empty(), "A03:left-behind", "threads {live:?} still run after the stop");
    } else {
        while w.g().done < senders {
            wait_key(1, None);
        }
        for j in joins {
            let _ = j.join();
        }
        faults_off();
        schedule_calm();
        sleep_ms(5_000);
        // Fault-free from here on: timely and complete.
        for i in 0..n {
            if w.g().actors[i].fails {
                continue;
            }
            for d in [50_000_000, 1_300_000_000, 700_000 + seed % 1_000_000_000, 0, 2_000_999_999] {
                send_delayed(&w, i, 9, d);
            }
            send(&w, i, 9);
        }
        let t0 = now();
        sleep_ms(5_000);
        let x = w.g();
        for (id, t) in x.tasks.iter().enumerate() {
            if x.actors[t.to].fails {
                check!(t.ran == 0, "A01:no-state", "an actor that failed to start ran a task");
                continue;
            }
            check!(t.ran == 1, if t.deadline.is_some() { "A02:lost" } else { "A01:lost" }, "task {id} for actor {} never ran (delayed: {:?})", t.to, t.deadline);
            if let Some((_, hi)) = t.deadline {
                if hi >= t0 {
                    check!(t.ran_at < hi + 20_000_000, "A02:late", "task {id} due at {hi} ran at {}", t.ran_at);
                }
            }
        }
        probe("all-ran");
    }
}

pub fn props() -> Vec<Prop> {
    const S: Scenario = Scenario { name: "actors", quick: 16000, thorough: 600000, cfg: SchedCfg::swarm, run };
    let mk = |id, must_probe| Prop {
        id,
        scenarios: &[S],
        rule: "one execution = one seed's actors, sender threads, thread schedule and stop time; distinct by hash of its event log and schedule (thread switches)",
        must_probe,
        real: &["common::actor::{Actor, Stopper}", "std::sync::mpsc", "std::thread"],
        stubs: &["kernel scheduler, futexes and clock (simulated)"],
        assumptions: &["actors are started before their stopper is stopped"],
    };
    vec![mk("A01", &["all-ran", "no-state"]), mk("A02", &["delayed-ran", "several-delayed", "all-ran"]), mk("A03", &["stop-and-join", "stop-without-join"])]
}
