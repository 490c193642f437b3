//! Sequential histories: every sequence of operations up to a depth, from every starting position,
//! judged after each step against an exact model of the ring.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use crate::val::{hold, Held, Pol, Val};
use std::collections::VecDeque;
use thingbuf::{Ref, StaticThingBuf, ThingBuf};

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sl {
    Free,
    Pushing,
    Full(u32),
    Popping(u32),
}

/// The ring as the documentation describes it.
struct Model {
    slots: Vec<Sl>,
    head: usize,
    tail: usize,
    /// element instance known to be in the slot
    inst: Vec<Option<usize>>,
    used: Vec<bool>,
    by_value: i64,
    granted_recycled: i64,
}

impl Model {
    fn new(cap: usize) -> Model {
        Model { slots: vec![Sl::Free; cap], head: 0, tail: 0, inst: vec![None; cap], used: vec![false; cap], by_value: 0, granted_recycled: 0 }
    }
    fn cap(&self) -> usize {
        self.slots.len()
    }
    fn len(&self) -> usize {
        self.tail - self.head
    }
    fn can_push(&self) -> bool {
        self.slots[self.tail % self.cap()] == Sl::Free
    }
    fn can_pop(&self) -> Option<u32> {
        match self.slots[self.head % self.cap()] {
            Sl::Full(id) => Some(id),
            _ => None,
        }
    }
    fn begin_push(&mut self) -> usize {
        let i = self.tail % self.cap();
        self.tail += 1;
        self.slots[i] = Sl::Pushing;
        if self.used[i] {
            self.granted_recycled += 1;
        }
        self.used[i] = true;
        i
    }
    fn end_push(&mut self, i: usize, id: u32) {
        self.slots[i] = Sl::Full(id);
    }
    fn begin_pop(&mut self) -> (usize, u32) {
        let i = self.head % self.cap();
        self.head += 1;
        match self.slots[i] {
            Sl::Full(id) => {
                self.slots[i] = Sl::Popping(id);
                (i, id)
            }
            _ => unreachable!(),
        }
    }
    fn end_pop(&mut self, i: usize) {
        self.slots[i] = Sl::Free;
    }
}

macro_rules! queue_like {
    ($t:ty, $($g:tt)*) => {
        impl $($g)* SeqQ for $t {
            fn push(&self, v: Val) -> Result<(), Val> {
                <$t>::push(self, v).map_err(|e| e.into_inner())
            }
            fn push_ref(&self) -> Option<Ref<'_, Val>> {
                <$t>::push_ref(self).ok()
            }
            fn push_with(&self, f: &mut dyn FnMut(&mut Val)) -> bool {
                <$t>::push_with(self, |v| f(v)).is_ok()
            }
            fn pop(&self) -> Option<Val> {
                <$t>::pop(self)
            }
            fn pop_ref(&self) -> Option<Ref<'_, Val>> {
                <$t>::pop_ref(self)
            }
            fn pop_with(&self, f: &mut dyn FnMut(&mut Val)) -> bool {
                <$t>::pop_with(self, |v| f(v)).is_some()
            }
            fn sizes(&self) -> (usize, usize, bool, usize) {
                (self.len(), self.remaining(), self.is_empty(), self.capacity())
            }
        }
    };
}

pub trait SeqQ {
    fn push(&self, v: Val) -> Result<(), Val>;
    fn push_ref(&self) -> Option<Ref<'_, Val>>;
    fn push_with(&self, f: &mut dyn FnMut(&mut Val)) -> bool;
    fn pop(&self) -> Option<Val>;
    fn pop_ref(&self) -> Option<Ref<'_, Val>>;
    fn pop_with(&self, f: &mut dyn FnMut(&mut Val)) -> bool;
    fn sizes(&self) -> (usize, usize, bool, usize);
}
queue_like!(ThingBuf<Val>,);
queue_like!(ThingBuf<Val, Pol>,);
queue_like!(StaticThingBuf<Val, N>, <const N: usize>);
queue_like!(StaticThingBuf<Val, N, Pol>, <const N: usize>);

fn sizes(q: &dyn SeqQ, m: &Model) {
    let (l, r, e, c) = nonblocking(|| q.sizes());
    if c != m.cap() {
        violation(format!("capacity() = {} of a queue of capacity {}", c, m.cap()));
    }
    if l != m.len() || r != m.cap() - m.len() || e != (m.len() == 0) {
        violation(format!("{} elements inside a queue of capacity {}, but len() = {}, remaining() = {}, is_empty() = {}", m.len(), c, l, r, e));
    }
}

/// `counted`: the queue uses the counting policy
fn seq_queue(q: &dyn SeqQ, cap: usize, depth: usize, offsets: usize, counted: bool) {
    let mut m = Model::new(cap);
    let mut id = 0x10u32;
    let (c0, r0) = (shared_peek("created"), shared_peek("recycled"));
    let bad = |what: &str, op: &str| -> ! { violation(format!("{}: {}", op, what)) };
    // every starting position: `off` elements have already passed through
    let off = choose(offsets);
    for _ in 0..off {
        id += 1;
        let i = m.begin_push();
        let v = Val::new(id);
        m.inst[i] = Some(v.inst());
        if q.push(v).is_err() {
            bad("refused although a slot is free", "push");
        }
        m.end_push(i, id);
        let (j, want) = m.begin_pop();
        match q.pop_ref() {
            Some(v) if v.id() == want => {}
            _ => bad("wrong element or none", "pop_ref"),
        }
        m.end_pop(j);
    }
    let pre = choose(cap + 1);
    for _ in 0..pre {
        id += 1;
        let i = m.begin_push();
        let v = Val::new(id);
        m.inst[i] = Some(v.inst());
        if q.push(v).is_err() {
            bad("refused although a slot is free", "push");
        }
        m.end_push(i, id);
    }
    let mut push_held: VecDeque<(Ref<'_, Val>, Held, usize, u32)> = VecDeque::new();
    let mut pop_held: VecDeque<(Ref<'_, Val>, Held, usize, u32)> = VecDeque::new();
    for _ in 0..depth {
        let op = choose(12);
        match op {
            0 => {
                id += 1;
                let v = Val::new(id);
                let inst = v.inst();
                match nonblocking(|| q.push(v)) {
                    Ok(()) => {
                        if !m.can_push() {
                            bad("accepted although no slot is free", "push");
                        }
                        let i = m.begin_push();
                        m.inst[i] = Some(inst);
                        m.end_push(i, id);
                    }
                    Err(v) => {
                        if m.can_push() {
                            bad("refused although a slot is free", "push");
                        }
                        if v.id() != id || v.inst() != inst {
                            bad("the refused value came back altered", "push");
                        }
                    }
                }
            }
            1 | 2 => {
                if push_held.len() == 2 {
                    return;
                }
                id += 1;
                if op == 1 {
                    match nonblocking(|| q.push_ref()) {
                        Some(mut r) => {
                            if !m.can_push() {
                                bad("accepted although no slot is free", "push_ref");
                            }
                            r.check_granted();
                            let i = m.begin_push();
                            if m.inst[i].map_or(false, |x| x != r.inst()) {
                                bad("the slot's element was not reused", "push_ref");
                            }
                            m.inst[i] = Some(r.inst());
                            let h = hold(&r);
                            r.set(id);
                            push_held.push_back((r, h, i, id));
                        }
                        None => {
                            if m.can_push() {
                                bad("refused although a slot is free", "push_ref");
                            }
                        }
                    }
                } else {
                    let mut got = None;
                    let ok = nonblocking(|| {
                        q.push_with(&mut |v| {
                            v.check_granted();
                            v.set(id);
                            got = Some(v.inst());
                        })
                    });
                    if ok != m.can_push() || ok != got.is_some() {
                        bad("wrong answer", "push_with");
                    }
                    if ok {
                        let i = m.begin_push();
                        if m.inst[i].map_or(false, |x| Some(x) != got) {
                            bad("the slot's element was not reused", "push_with");
                        }
                        m.inst[i] = got;
                        m.end_push(i, id);
                    }
                }
            }
            3 | 4 => {
                if push_held.is_empty() || (op == 4 && push_held.len() < 2) {
                    return;
                }
                let (r, h, i, id) = if op == 3 { push_held.pop_front().unwrap() } else { push_held.pop_back().unwrap() };
                if r.id() != id {
                    bad("changed while held", "push reference");
                }
                drop(h);
                drop(r);
                m.end_push(i, id);
            }
            5 => match nonblocking(|| q.pop()) {
                Some(v) => {
                    if m.can_pop() != Some(v.id()) {
                        violation(format!("pop gave {:#x}, next in line is {:?}", v.id(), m.can_pop()));
                    }
                    let (i, _) = m.begin_pop();
                    if m.inst[i].map_or(false, |x| x != v.inst()) {
                        bad("not the element that was pushed", "pop");
                    }
                    m.inst[i] = None;
                    m.end_pop(i);
                    m.by_value += 1;
                }
                None => {
                    if m.can_pop().is_some() {
                        bad("nothing, although an element is next in line", "pop");
                    }
                }
            },
            6 | 7 => {
                if pop_held.len() == 2 {
                    return;
                }
                if op == 6 {
                    match nonblocking(|| q.pop_ref()) {
                        Some(r) => {
                            if m.can_pop() != Some(r.id()) {
                                violation(format!("pop_ref gave {:#x}, next in line is {:?}", r.id(), m.can_pop()));
                            }
                            let (i, id) = m.begin_pop();
                            let h = hold(&r);
                            pop_held.push_back((r, h, i, id));
                        }
                        None => {
                            if m.can_pop().is_some() {
                                bad("nothing, although an element is next in line", "pop_ref");
                            }
                        }
                    }
                } else {
                    let mut got = None;
                    let ok = nonblocking(|| q.pop_with(&mut |v| got = Some(v.id())));
                    if got != m.can_pop() || ok != got.is_some() {
                        bad("wrong answer", "pop_with");
                    }
                    if ok {
                        let (i, _) = m.begin_pop();
                        m.end_pop(i);
                    }
                }
            }
            8 | 9 => {
                if pop_held.is_empty() || (op == 9 && pop_held.len() < 2) {
                    return;
                }
                let (r, h, i, id) = if op == 8 { pop_held.pop_front().unwrap() } else { pop_held.pop_back().unwrap() };
                if r.id() != id {
                    bad("changed while held", "pop reference");
                }
                drop(h);
                drop(r);
                m.end_pop(i);
            }
            10 => {
                // a reader may modify the element in place; the next write must not see it
                match pop_held.back_mut() {
                    Some((r, _, _, id)) => {
                        *id = 0x77;
                        r.set(0x77);
                    }
                    None => return,
                }
            }
            _ => {
                // the history ends here, with whatever is outstanding
                break;
            }
        }
        sizes(q, &m);
    }
    if counted {
        let created = shared_peek("created") - c0;
        let recycled = shared_peek("recycled") - r0;
        let touched = m.used.iter().filter(|u| **u).count() as i64;
        if created > touched + m.by_value {
            violation(format!("{} elements created for {} slots and {} by-value takes", created, touched, m.by_value));
        }
        if recycled != m.granted_recycled {
            violation(format!("{} recycle steps for {} reuses", recycled, m.granted_recycled));
        }
    }
    let (l, p) = (m.len(), pop_held.len());
    outcome(|| format!("inside {} popping {} lap {}", l, p, m.tail / m.cap()));
    // release in an order of the environment's choice
    let pushes_first = choose(2) == 0;
    if pushes_first {
        drop(push_held);
        drop(pop_held);
    } else {
        drop(pop_held);
        drop(push_held);
    }
}

/// Fill and drain a heap queue of every capacity at every starting position.
fn every_capacity(max: usize, counted: bool) {
    let cap = 1 + choose(max);
    let off = choose(2 * cap + 2);
    let plain;
    let pol;
    let q: &dyn SeqQ = if counted {
        pol = ThingBuf::<Val, Pol>::with_recycle(cap, Pol);
        &pol
    } else {
        plain = ThingBuf::<Val>::new(cap);
        &plain
    };
    let mut m = Model::new(cap);
    let mut id = 0x100;
    for _ in 0..off {
        id += 1;
        if q.push(Val::new(id)).is_err() {
            violation("push refused by an empty queue");
        }
        let i = m.begin_push();
        m.end_push(i, id);
        match q.pop() {
            Some(v) if v.id() == id => {}
            _ => violation("wrong element"),
        }
        let (i, _) = m.begin_pop();
        m.end_pop(i);
        sizes(q, &m);
    }
    for k in 0..cap {
        id += 1;
        if q.push(Val::new(id)).is_err() {
            violation(format!("push number {} refused by an empty queue of capacity {} after {} laps' worth of elements", k + 1, cap, off));
        }
        let i = m.begin_push();
        m.end_push(i, id);
        sizes(q, &m);
    }
    for _ in 0..2 {
        if q.push(Val::new(0x99)).is_ok() {
            violation(format!("a queue of capacity {} accepted one more", cap));
        }
        if q.push_ref().is_some() {
            violation(format!("a queue of capacity {} accepted one more", cap));
        }
        sizes(q, &m);
    }
    let take = choose(cap + 1);
    for _ in 0..take {
        let want = m.can_pop();
        match q.pop_ref() {
            Some(v) if Some(v.id()) == want => {}
            _ => violation("wrong element"),
        }
        let (i, _) = m.begin_pop();
        m.end_pop(i);
        sizes(q, &m);
    }
    if take == cap && (q.pop().is_some() || q.pop_ref().is_some()) {
        violation("pop from an empty queue");
    }
    outcome(|| format!("cap {} take {}", cap, take));
    // whatever is left is dropped with the queue
}

/// Many laps around a small ring: positions and generations far beyond what the other scenarios
/// reach (the number of laps passes 2^16).
fn many_laps(q: &dyn SeqQ, cap: usize, laps: usize, counted: bool) {
    let mut m = Model::new(cap);
    let by_ref = choose(2) == 1;
    // the number of elements inside between two rounds, and the number added in each round
    let base = choose(cap);
    let add = 1 + choose(cap - base);
    let mut id = 0x100u32;
    let mut rounds = 0;
    let mut push = |m: &mut Model| {
        id += 1;
        if by_ref {
            match q.push_ref() {
                Some(mut r) => {
                    r.check_granted();
                    r.set(id)
                }
                None => violation(format!("push refused with {} of {} slots used after {} elements", m.len(), cap, m.tail)),
            }
        } else if q.push(Val::new(id)).is_err() {
            violation(format!("push refused with {} of {} slots used after {} elements", m.len(), cap, m.tail));
        }
        let i = m.begin_push();
        m.end_push(i, id);
    };
    let pop = |m: &mut Model| {
        let want = m.can_pop();
        let got = if by_ref { q.pop_ref().map(|v| v.id()) } else { q.pop().map(|v| v.id()) };
        if got != want {
            violation(format!("element {:?} instead of {:?} after {} elements", got, want, m.tail));
        }
        let (i, _) = m.begin_pop();
        m.end_pop(i);
    };
    for _ in 0..base {
        push(&mut m);
    }
    while m.tail < laps * cap {
        solo_progress();
        for _ in 0..add {
            push(&mut m);
        }
        sizes(q, &m);
        if base + add == cap && q.push(Val::new(0x99)).is_ok() {
            violation(format!("a full queue of capacity {} accepted one more after {} elements", cap, m.tail));
        }
        for _ in 0..add {
            pop(&mut m);
        }
        sizes(q, &m);
        if base == 0 && q.pop().is_some() {
            violation(format!("an element came out of an empty queue after {} elements", m.tail));
        }
        rounds += 1;
    }
    if counted {
        let (created, recycled) = (shared_peek("created"), shared_peek("recycled"));
        if recycled != m.granted_recycled || (by_ref && created != cap.min(m.tail) as i64) {
            violation(format!("{} elements created and {} recycled for {} pushes", created, recycled, m.tail));
        }
    }
    outcome(|| format!("{} rounds", rounds));
}

const BIG: [usize; 20] = [18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096];
const HUGE: [usize; 4] = [16384, 65535, 65536, 65537];

/// Fill and drain large rings from the positions around the ends of a lap.
fn large(q: &dyn SeqQ, cap: usize) {
    solo();
    let mut m = Model::new(cap);
    let mut id = 0x100u32;
    let offs = [0, 1, cap - 1, cap, cap + 1, 3 * cap - 1];
    let off = offs[choose(offs.len())];
    let by_ref = choose(2) == 1;
    let step = |q: &dyn SeqQ, m: &mut Model, push: bool, id: u32| {
        solo_progress();
        if push {
            let ok = if by_ref {
                match q.push_ref() {
                    Some(mut r) => {
                        r.check_granted();
                        r.set(id);
                        true
                    }
                    None => false,
                }
            } else {
                q.push(Val::new(id)).is_ok()
            };
            if ok != m.can_push() {
                violation(format!("push into a queue of capacity {} with {} elements: {}", cap, m.len(), ok));
            }
            if ok {
                let i = m.begin_push();
                m.end_push(i, id);
            }
        } else {
            let want = m.can_pop();
            let got = if by_ref { q.pop_ref().map(|v| v.id()) } else { q.pop().map(|v| v.id()) };
            if got != want {
                violation(format!("element {:?} instead of {:?} from a queue of capacity {}", got, want, cap));
            }
            if got.is_some() {
                let (i, _) = m.begin_pop();
                m.end_pop(i);
            }
        }
        sizes(q, m);
    };
    for _ in 0..off {
        id += 1;
        step(q, &mut m, true, id);
        step(q, &mut m, false, 0);
    }
    for _ in 0..cap + 2 {
        id += 1;
        step(q, &mut m, true, id);
    }
    let takes = [0, 1, cap / 2, cap + 1];
    let take = takes[choose(takes.len())];
    for _ in 0..take {
        step(q, &mut m, false, 0);
    }
    outcome(|| format!("cap {} off {} take {}", cap, off, take));
}

pub fn register(v: &mut Vec<Scn>) {
    const PS: &[&str] = &["P01", "P02", "P04", "P05", "P14", "P15", "P18", "P20"];
    macro_rules! st {
        ($cap:expr, $d:expr, $dd:expr) => {
            let offs = 2 * $cap;
            for (deep, depth) in [(false, $d), (true, $dd)] {
                let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                let tag = if deep { "_deep" } else { "" };
                add(v, format!("sq_heap_cap{}{}", $cap, tag), PS, q, d, move || seq_queue(&ThingBuf::<Val>::new($cap), $cap, depth, offs, false));
                add(v, format!("sq_static_cap{}{}", $cap, tag), PS, q, d, move || seq_queue(&StaticThingBuf::<Val, $cap>::new(), $cap, depth, offs, false));
                add(v, format!("sq_heap_pol_cap{}{}", $cap, tag), PS, q, d, move || {
                    seq_queue(&ThingBuf::<Val, Pol>::with_recycle($cap, Pol), $cap, depth, offs, true)
                });
                add(v, format!("sq_static_pol_cap{}{}", $cap, tag), PS, q, d, move || {
                    seq_queue(&StaticThingBuf::<Val, $cap, Pol>::with_recycle(Pol), $cap, depth, offs, true)
                });
            }
        };
    }
    st!(1, 5, 6);
    st!(2, 4, 6);
    st!(3, 4, 6);
    st!(4, 4, 5);
    add(v, "sq_every_capacity", PS, &ONE, &ONE, || every_capacity(17, false));
    add(v, "sq_every_capacity_pol", PS, &ONE, &ONE, || every_capacity(17, true));
    add(v, "sq_every_capacity_deep", PS, &[], &ONE, || every_capacity(66, false));
    const PB: &[&str] = &["P01", "P02", "P04", "P05", "P15", "P18", "P20"];
    for (deep, laps) in [(false, 70_000usize), (true, 1_100_000)] {
        let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
        let tag = if deep { "_deep" } else { "" };
        macro_rules! laps {
            ($cap:expr) => {
                add(v, format!("sl_heap_cap{}{}", $cap, tag), PB, q, d, move || {
                    solo();
                    if choose(2) == 0 {
                        many_laps(&ThingBuf::<Val>::new($cap), $cap, laps, false)
                    } else {
                        many_laps(&ThingBuf::<Val, Pol>::with_recycle($cap, Pol), $cap, laps, true)
                    }
                });
                add(v, format!("sl_static_cap{}{}", $cap, tag), PB, q, d, move || {
                    solo();
                    if choose(2) == 0 {
                        many_laps(&StaticThingBuf::<Val, $cap>::new(), $cap, laps, false)
                    } else {
                        many_laps(&StaticThingBuf::<Val, $cap, Pol>::with_recycle(Pol), $cap, laps, true)
                    }
                });
            };
        }
        laps!(1);
        laps!(2);
        laps!(3);
    }
    add(v, "sb_heap", PB, &ONE, &ONE, || {
        let cap = BIG[choose(BIG.len())];
        large(&ThingBuf::<Val>::new(cap), cap)
    });
    add(v, "sb_heap_huge", PB, &ONE, &ONE, || {
        let cap = HUGE[choose(HUGE.len())];
        large(&ThingBuf::<Val>::new(cap), cap)
    });
    macro_rules! big {
        ($($n:expr),*) => {$(
            add(v, format!("sb_static_cap{}", $n), PB, &ONE, &ONE, || {
                large(&StaticThingBuf::<Val, $n>::new(), $n)
            });
        )*};
    }
    big!(5, 7, 8, 16, 17, 64, 255, 256, 300);
    let _ = flavours;
}
