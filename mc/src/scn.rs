//! Registry of scenarios.
use crate::engine::Budget;

pub struct Scn {
    pub name: String,
    pub props: Vec<&'static str>,
    pub quick: Vec<Budget>,
    pub deep: Vec<Budget>,
    pub body: Box<dyn Fn() + Sync>,
}

/// preemptions, stale loads, spurious CAS failures, spurious wakeups, early timers
pub const fn b(preempt: u8, stale: u8, weak: u8, spurious: u8, timer: u8) -> Budget {
    Budget { preempt, stale, weak, spurious, timer }
}

#[path = "scn_queue.rs"]
mod queue;
#[path = "scn_chan.rs"]
mod chan;
#[path = "scn_seq.rs"]
mod seq;
#[path = "scn_seqchan.rs"]
mod seqchan;
#[path = "scn_misc.rs"]
mod misc;
#[path = "scn_shapes.rs"]
mod shapes;
#[path = "scn_graph.rs"]
mod graph;
#[path = "scn_leak.rs"]
mod leak;
#[path = "scn_reent.rs"]
mod reent;

pub fn add(v: &mut Vec<Scn>, name: impl Into<String>, props: &[&'static str], quick: &[Budget], deep: &[Budget], body: impl Fn() + Sync + 'static) {
    let name: String = name.into();
    let mut props = props.to_vec();
    // whatever waits must also sleep
    if props.iter().any(|p| *p == "P08" || *p == "P09") && !props.contains(&"P22") && !name.contains("_3s_") {
        props.push("P22");
    }
    v.push(Scn { name, props, quick: quick.to_vec(), deep: deep.to_vec(), body: Box::new(body) });
}

pub fn all() -> Vec<Scn> {
    let mut v = Vec::new();
    queue::register(&mut v);
    chan::register(&mut v);
    seq::register(&mut v);
    seqchan::register(&mut v);
    misc::register(&mut v);
    shapes::register(&mut v);
    graph::register(&mut v);
    leak::register(&mut v);
    reent::register(&mut v);
    v
}
