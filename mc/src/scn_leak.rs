//! References, futures and handles that are leaked (`mem::forget`) instead of dropped.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use crate::val::hold;
use std::future::Future;
use std::mem::forget;
use std::pin::Pin;
use std::task::{Poll, Waker};

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];

#[derive(Clone, Copy, PartialEq)]
enum S {
    Free,
    Full(u32),
    /// occupied for good
    Stuck,
}

struct Ring {
    slots: Vec<S>,
    head: usize,
    tail: usize,
    stuck: i32,
}

impl Ring {
    fn new(cap: usize) -> Ring {
        Ring { slots: vec![S::Free; cap], head: 0, tail: 0, stuck: 0 }
    }
    fn room(&self) -> bool {
        self.tail - self.head < self.slots.len() && self.slots[self.tail % self.slots.len()] == S::Free
    }
    fn front(&self) -> Option<u32> {
        match self.slots[self.head % self.slots.len()] {
            S::Full(id) if self.head < self.tail => Some(id),
            _ => None,
        }
    }
    fn push(&mut self, s: S, ok: bool, what: &str) {
        if ok != self.room() {
            violation(format!("{} {} although its slot is {}", what, if ok { "succeeded" } else { "was refused" }, if ok { "occupied" } else { "free" }));
        }
        if ok {
            let n = self.slots.len();
            self.slots[self.tail % n] = s;
            self.tail += 1;
            self.stuck += (s == S::Stuck) as i32;
        }
    }
    fn pop(&mut self, got: Option<u32>, then: S, what: &str) {
        if got != self.front() {
            violation(format!("{} returned {:x?} instead of {:x?}", what, got, self.front()));
        }
        if got.is_some() {
            let n = self.slots.len();
            self.slots[self.head % n] = then;
            self.head += 1;
            self.stuck += (then == S::Stuck) as i32;
        }
    }
    /// After everything is gone: at most the elements of leaked references are left.
    fn end(&self) {
        let left = live_vals();
        if left < 0 || left > self.stuck {
            violation(format!("{} elements were never dropped, {} references were leaked", left, self.stuck));
        }
        allow_leaks();
    }
}

fn leak_queue(stat: bool, cap: usize, laps: usize, depth: usize) {
    solo();
    let q = Q::new(stat, cap);
    let mut m = Ring::new(cap);
    let mut id = 0x10;
    for _ in 0..laps {
        for _ in 0..cap {
            id += 1;
            m.push(S::Full(id), q.push(id).is_ok(), "push");
        }
        for _ in 0..cap {
            m.pop(q.pop().map(|v| v.id()), S::Free, "pop");
        }
    }
    for _ in 0..depth {
        solo_progress();
        id += 1;
        match choose(6) {
            0 => m.push(S::Full(id), nonblocking(|| q.push(id)).is_ok(), "push"),
            1 => m.pop(nonblocking(|| q.pop()).map(|v| v.id()), S::Free, "pop"),
            o @ (2 | 3) => {
                let leak = o == 3;
                let r = nonblocking(|| q.push_ref());
                m.push(if leak { S::Stuck } else { S::Full(id) }, r.is_ok(), "push_ref");
                if let Ok(mut r) = r {
                    r.check_granted();
                    let h = hold(&r);
                    if !leak || id % 2 == 0 {
                        r.set(id);
                    }
                    if leak {
                        forget((h, r));
                    } else {
                        drop(h);
                        lib(move || drop(r));
                    }
                }
            }
            o => {
                let leak = o == 5;
                let r = nonblocking(|| q.pop_ref());
                m.pop(r.as_ref().map(|r| r.id()), if leak { S::Stuck } else { S::Free }, "pop_ref");
                if let Some(r) = r {
                    let h = hold(&r);
                    if leak {
                        forget((h, r));
                    } else {
                        drop(h);
                        lib(move || drop(r));
                    }
                }
            }
        }
        if q.len() != m.tail - m.head {
            violation(format!("length {} instead of {}", q.len(), m.tail - m.head));
        }
    }
    lib(move || drop(q));
    m.end();
}

struct Sleeper {
    f: Pin<Box<dyn Future<Output = Result<(), E>>>>,
    id: u32,
    #[allow(dead_code)]
    wid: WakerId,
    w: Waker,
}

/// Channels of all kinds: leaked references and (async) leaked pending sends, then the end of either side.
fn leak_channel(fl: Fl, cap: usize, laps: usize, depth: usize) {
    solo();
    fn life<T: ?Sized>(x: &T) -> &'static T {
        unsafe { &*(x as *const T) }
    }
    let (home, tx, rx) = channel(fl, cap);
    let (tx, rx) = (Box::new(tx), Box::new(rx));
    let mut m = Ring::new(cap);
    let mut id = 0x10;
    for _ in 0..laps {
        id += 1;
        m.push(S::Full(id), tx.try_send(id).is_ok(), "try_send");
        m.pop(rx.try_recv().ok(), S::Free, "try_recv");
    }
    let mut waiting: Option<Sleeper> = None;
    let mut leaked_sends = 0;
    for _ in 0..depth {
        solo_progress();
        id += 1;
        match choose(if fl.is_async() { 8 } else { 6 }) {
            0 => m.push(S::Full(id), nonblocking(|| tx.try_send(id)).is_ok(), "try_send"),
            1 => m.pop(nonblocking(|| rx.try_recv()).ok(), S::Free, "try_recv"),
            o @ (2 | 3) => {
                let r = nonblocking(|| life(&*tx).try_send_ref_guard());
                m.push(if o == 3 { S::Stuck } else { S::Full(id) }, r.is_ok(), "try_send_ref");
                if let Ok(g) = r {
                    if o == 3 {
                        forget(g);
                    } else {
                        g(id);
                    }
                }
            }
            o @ (4 | 5) => {
                let r = nonblocking(|| life(&*rx).try_recv_ref_guard());
                m.pop(r.as_ref().ok().map(|r| r.0), if o == 5 { S::Stuck } else { S::Free }, "try_recv_ref");
                if let Ok((_, g)) = r {
                    if o == 5 {
                        forget(g);
                    } else {
                        g();
                    }
                }
            }
            // a waiting send, polled again if there is one
            6 => {
                let s = waiting.get_or_insert_with(|| {
                    let (wid, w) = new_waker();
                    Sleeper { f: if id % 2 == 0 { life(&*tx).send_fut(id) } else { life(&*tx).send_ref_fut(id) }, id, wid, w }
                });
                match poll_once(s.f.as_mut(), &s.w) {
                    Poll::Ready(r) => {
                        m.push(S::Full(s.id), r.is_ok(), "send");
                        waiting = None;
                    }
                    Poll::Pending => {
                        // a wakeup may have gone to a send that was leaked
                        if m.room() && leaked_sends == 0 {
                            violation("a send waits although its slot is free");
                        }
                    }
                }
            }
            // leak it
            _ => {
                if let Some(s) = waiting.take() {
                    forget(s);
                    leaked_sends += 1;
                }
            }
        }
    }
    solo_progress();
    drop(waiting);
    let mut stays = 0;
    if choose(2) == 0 {
        // the senders leave: the receiver gets what can be had, and then the end
        drop(tx);
        loop {
            solo_progress();
            let want = m.front();
            let got = if want.is_none() || m.head % 2 == 0 { rx.recv() } else { rx.recv_ref() };
            m.pop(got, S::Free, "recv");
            if got.is_none() {
                break;
            }
        }
        drop(rx);
    } else {
        drop(rx);
        // whoever sends now learns that the receiver is gone
        id += 1;
        if nonblocking(|| tx.try_send(id)) != Err(E::Closed) || nonblocking(|| tx.send_ref(id)) != Err(E::Closed) {
            violation("a send after the receiver has gone did not report it");
        }
        drop(tx);
    }
    drop(home);
    // futures that carry a message keep it
    stays += leaked_sends;
    m.stuck += stays;
    m.end();
}

/// Two threads, one of which leaks, work on a queue.
fn leak_race(stat: bool, cap: usize, writer: bool) {
    let (q, home) = home(Q::new(stat, cap));
    let got = move |v: Option<u32>| {
        if let Some(id) = v {
            if id == 0x66 {
                violation("a message behind a leaked reference was delivered");
            }
            if shared_add(["", "got1", "got2", "got3", "got4"][id as usize], 1) != 1 {
                violation("a message was delivered twice");
            }
        }
    };
    let h = spawn("peer", move || {
        if nonblocking(|| q.push(1)).is_ok() {
            got(nonblocking(|| q.pop()).map(|v| v.id()));
        }
        let _ = nonblocking(|| q.push(2));
    });
    if writer {
        if let Ok(mut r) = nonblocking(|| q.push_ref()) {
            let hh = hold(&r);
            r.set(0x66);
            forget((hh, r));
        }
    } else {
        let _ = nonblocking(|| q.push(3));
        if let Some(r) = nonblocking(|| q.pop_ref()) {
            let hh = hold(&r);
            got(Some(r.id()));
            forget((hh, r));
        }
    }
    let _ = nonblocking(|| q.push(4));
    got(nonblocking(|| q.pop()).map(|v| v.id()));
    h.join();
    while let Some(r) = nonblocking(|| q.pop_ref()) {
        got(Some(r.id()));
        lib(move || drop(r));
    }
    drop(home);
    let left = live_vals();
    if left < 0 || left > 1 {
        violation(format!("{} elements were never dropped, one reference was leaked", left));
    }
    allow_leaks();
}

pub fn register(v: &mut Vec<Scn>) {
    for (deep, depth) in [(false, 7), (true, 9)] {
        let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
        let t = if deep { "_deep" } else { "" };
        for stat in [false, true] {
            for (cap, laps) in [(1usize, 0usize), (1, 1), (2, 0), (2, 1), (3, 0)] {
                let k = if stat { "static" } else { "heap" };
                add(v, format!("l_queue_{}_cap{}_lap{}{}", k, cap, laps, t), &["P24", "P04", "P14"], q, d, move || leak_queue(stat, cap, laps, depth));
            }
        }
        for fl in flavours() {
            let depth = if fl.is_async() { depth - 1 } else { depth };
            for (cap, laps) in [(1usize, 0usize), (1, 1), (2, 0), (2, 3)] {
                add(v, format!("l_channel_{}_cap{}_lap{}{}", fl.tag(), cap, laps, t), &["P24", "P10", "P11"], q, d, move || leak_channel(fl, cap, laps, depth));
            }
        }
    }
    let q = [b(2, 0, 0, 0, 0), b(1, 1, 1, 0, 0)];
    let d = [b(2, 1, 1, 0, 0), b(4, 0, 0, 0, 0)];
    for stat in [false, true] {
        for cap in [1usize, 2] {
            for w in [false, true] {
                let k = if stat { "static" } else { "heap" };
                add(v, format!("l_race_{}_cap{}_{}", k, cap, if w { "write" } else { "read" }), &["P24", "P14"], &q, &d, move || leak_race(stat, cap, w));
            }
        }
    }
}
