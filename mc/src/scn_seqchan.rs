//! Sequential histories of channels: one task or thread drives every handle and several pending
//! operations; after each step results, wakeups, closedness and errors are compared with a model.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Poll, Waker};
#[cfg(feature = "tb_std")]
use std::time::Duration;

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sl {
    Free,
    Pushing,
    Full(u32),
    Popping,
}

struct M {
    slots: Vec<Sl>,
    head: usize,
    tail: usize,
    senders: usize,
    rx: bool,
}
impl M {
    fn cap(&self) -> usize {
        self.slots.len()
    }
    fn free(&self) -> bool {
        self.slots[self.tail % self.cap()] == Sl::Free
    }
    fn front(&self) -> Option<u32> {
        match self.slots[self.head % self.cap()] {
            Sl::Full(id) => Some(id),
            _ => None,
        }
    }
    fn push(&mut self, id: u32) {
        let i = self.tail % self.cap();
        if self.slots[i] != Sl::Free {
            violation(format!("a message was accepted by a full channel of capacity {}", self.cap()));
        }
        self.slots[i] = Sl::Full(id);
        self.tail += 1;
    }
    fn begin_push(&mut self) -> usize {
        let i = self.tail % self.cap();
        if self.slots[i] != Sl::Free {
            violation(format!("a message was accepted by a full channel of capacity {}", self.cap()));
        }
        self.slots[i] = Sl::Pushing;
        self.tail += 1;
        i
    }
    fn begin_pop(&mut self, id: u32) -> usize {
        let i = self.head % self.cap();
        match self.slots[i] {
            Sl::Full(x) if x == id => {}
            o => violation(format!("received {:#x}, next in line is {:?}", id, o)),
        }
        self.slots[i] = Sl::Popping;
        self.head += 1;
        i
    }
    fn pop(&mut self, id: u32) {
        let i = self.begin_pop(id);
        self.slots[i] = Sl::Free;
    }
    /// everything that was sent has been received (or is held by the receiver)
    fn empty(&self) -> bool {
        self.head == self.tail
    }
    fn sent(&mut self, what: &str, id: u32, r: Result<(), E>) {
        match r {
            Ok(()) => {
                if !self.rx {
                    violation(format!("{} succeeded although the receiver is gone", what));
                }
                self.push(id);
            }
            Err(E::Closed) => {
                if self.rx {
                    violation(format!("{} failed as closed although the receiver is there", what));
                }
            }
            Err(e) => {
                if !self.rx {
                    violation(format!("{} failed as {:?} although the receiver is gone", what, e));
                }
                if self.free() {
                    violation(format!("{} failed as {:?} although a slot is free", what, e));
                }
            }
        }
    }
    fn got(&mut self, what: &str, r: Result<u32, E>) {
        match r {
            Ok(id) => self.pop(id),
            Err(e) => self.got_err(what, e),
        }
    }
    fn got_err(&mut self, what: &str, e: E) {
        if self.front().is_some() {
            violation(format!("{} reported {:?} although a message is waiting", what, e));
        }
        let end = self.senders == 0 && self.empty();
        if (e == E::Closed) != end {
            violation(format!("{} reported {:?} with {} senders and {} messages", what, e, self.senders, self.tail - self.head));
        }
    }
}

struct Fut {
    f: Pin<Box<dyn Future<Output = Result<(), E>>>>,
    id: u32,
    /// wakers used so far, the last one is the current one
    wakers: Vec<(WakerId, Waker)>,
    pending: bool,
    /// when it began to wait
    since: u32,
}

fn released(f: Fut) {
    let Fut { f, wakers, .. } = f;
    drop(f);
    for (id, w) in wakers {
        if id.refs() != 1 {
            violation(format!("a finished or dropped send keeps {} references to its waker", id.refs() - 1));
        }
        drop(w);
    }
}

fn life<T: ?Sized>(x: &T) -> &'static T {
    unsafe { &*(x as *const T) }
}

/// `pre`: messages inside at the start; `pend`: send futures already waiting (async, full channel)
fn seq_async(fl: Fl, cap: usize, laps: usize, pre: usize, pend: usize, depth: usize) {
    let (home, tx, rx) = channel(fl, cap);
    let mut tx = Some(Box::new(tx));
    let mut tx2 = Some(tx.as_ref().unwrap().clone());
    let mut rx = Some(Box::new(rx));
    let mut m = M { slots: vec![Sl::Free; cap], head: 0, tail: 0, senders: 2, rx: true };
    let mut id = 0x10;
    for _ in 0..laps {
        id += 1;
        m.sent("try_send", id, tx.as_ref().unwrap().try_send(id));
        m.got("try_recv", rx.as_ref().unwrap().try_recv());
    }
    for _ in 0..pre {
        id += 1;
        m.sent("try_send_ref", id, tx.as_ref().unwrap().try_send_ref(id));
    }
    let mut turn = 0;
    let nf = pend.max(3);
    let mut futs: Vec<Option<Fut>> = (0..nf).map(|_| None).collect();
    for k in 0..pend {
        id += 1;
        let mut f = life(&**tx.as_ref().unwrap()).send_fut(id);
        let (wid, w) = new_waker();
        match poll_once(f.as_mut(), &w) {
            Poll::Pending => {}
            Poll::Ready(r) => violation(format!("a send into a full channel completed: {:?}", r)),
        }
        turn += 1;
        futs[k] = Some(Fut { f, id, wakers: vec![(wid, w)], pending: true, since: turn });
    }
    let mut recv_wakers: Vec<(WakerId, Waker)> = Vec::new();
    let mut recv_pending = false;
    let mut held: VecDeque<(usize, Box<dyn FnOnce()>)> = VecDeque::new();
    let mut wheld: Option<(usize, u32, Box<dyn FnOnce(u32)>)> = None;
    for _ in 0..depth {
        const CORE: [usize; 10] = [0, 8, 9, 10, 11, 12, 13, 14, 15, 16];
        let c = choose(10 + 3 * nf);
        let (op, k) = if c < 10 { (CORE[c], 0) } else { (1 + (c - 10) % 3, (c - 10) / 3) };
        match op {
            // a new send future in a free place
            0 => {
                let Some(k) = futs.iter().position(|f| f.is_none()) else { break };
                id += 1;
                let f: Pin<Box<dyn Future<Output = Result<(), E>>>> = if k % 2 == 0 { life(&**tx.as_ref().unwrap()).send_ref_fut(id) } else { life(&**tx.as_ref().unwrap()).send_fut(id) };
                let (wid, w) = new_waker();
                futs[k] = Some(Fut { f, id, wakers: vec![(wid, w)], pending: false, since: 0 });
            }
            // poll a send, with the same or with a new waker
            1 | 2 => {
                let renew = op == 2;
                // others that hold a wakeup may be about to use the slot
                let other = futs.iter().enumerate().any(|(j, f)| j != k && f.as_ref().map_or(false, |f| f.pending && f.wakers.last().unwrap().0.is_woken()));
                let Some(f) = &mut futs[k] else { break };
                // a send that was woken in vain has used up its turn
                let again = f.pending && !f.wakers.last().unwrap().0.is_woken();
                if renew {
                    f.wakers.push(new_waker());
                }
                let (wid, w) = f.wakers.last().unwrap();
                wid.take_woken();
                match poll_once(f.f.as_mut(), w) {
                    Poll::Pending => {
                        if !m.rx {
                            violation("a send stays pending although the receiver is gone");
                        }
                        if m.free() && !other {
                            violation("a send stays pending although a slot is free and nobody else was woken for it");
                        }
                        f.pending = true;
                        if !again {
                            turn += 1;
                            f.since = turn;
                        }
                    }
                    Poll::Ready(r) => {
                        let f = futs[k].take().unwrap();
                        if r == Err(E::Full) {
                            violation("a waiting send reported full");
                        }
                        m.sent("send", f.id, r);
                        released(f);
                    }
                }
            }
            // drop a send
            3 => {
                let Some(f) = futs[k].take() else { break };
                released(f);
            }
            8 => {
                id += 1;
                m.sent("try_send", id, nonblocking(|| tx.as_ref().unwrap().try_send(id)));
            }
            9 => {
                if wheld.is_some() {
                    // publish the reserved slot
                    let (i, id, g) = wheld.take().unwrap();
                    g(id);
                    m.slots[i] = Sl::Full(id);
                } else {
                    id += 1;
                    match nonblocking(|| life(&**tx.as_ref().unwrap()).try_send_ref_guard()) {
                        Ok(g) => {
                            if !m.rx {
                                violation("try_send_ref succeeded although the receiver is gone");
                            }
                            wheld = Some((m.begin_push(), id, g));
                        }
                        Err(e) => m.sent("try_send_ref", id, Err(e)),
                    }
                }
            }
            10 => {
                let Some(r) = &rx else { break };
                m.got("try_recv", nonblocking(|| r.try_recv()));
            }
            11 => {
                let Some(r) = &rx else { break };
                if held.len() == 2 {
                    break;
                }
                match nonblocking(|| life(&**r).try_recv_ref_guard()) {
                    Ok((id, g)) => held.push_back((m.begin_pop(id), g)),
                    Err(e) => m.got_err("try_recv_ref", e),
                }
            }
            // release a read reference, first or last
            12 | 13 => {
                if held.is_empty() || (op == 13 && held.len() < 2) {
                    break;
                }
                let (i, g) = if op == 12 { held.pop_front().unwrap() } else { held.pop_back().unwrap() };
                g();
                m.slots[i] = Sl::Free;
            }
            14 => {
                let Some(r) = &rx else { break };
                if recv_wakers.len() < 2 {
                    recv_wakers.push(new_waker());
                } else {
                    recv_wakers.swap(0, 1);
                }
                let (wid, w) = recv_wakers.last().unwrap();
                wid.take_woken();
                match r.poll_recv_ref(w) {
                    Poll::Pending => {
                        if m.front().is_some() {
                            violation("a receive is pending although a message is waiting");
                        }
                        if m.senders == 0 && m.empty() {
                            violation("a receive is pending although all senders are gone");
                        }
                        recv_pending = true;
                    }
                    Poll::Ready(Some(id)) => {
                        m.pop(id);
                        recv_pending = false;
                    }
                    Poll::Ready(None) => {
                        m.got_err("poll_recv_ref", E::Closed);
                        recv_pending = false;
                    }
                }
            }
            15 => {
                if rx.is_none() || !held.is_empty() {
                    break;
                }
                rx = None;
                m.rx = false;
                recv_pending = false;
            }
            _ => {
                let Some(t) = tx2.take() else { break };
                drop(t);
                m.senders -= 1;
            }
        }
        // nobody who could go on is left asleep
        let pending = futs.iter().flatten().filter(|f| f.pending).count();
        let woken = futs.iter().flatten().filter(|f| f.pending && f.wakers.last().unwrap().0.is_woken()).count();
        if !m.rx && woken < pending {
            violation("the receiver is gone but a waiting send was not woken through its latest waker");
        }
        if m.rx && m.free() && pending > 0 && woken == 0 {
            violation("a slot is free and sends are waiting, but none was woken through its latest waker");
        }
        // first come, first served
        if m.rx {
            let last = futs.iter().flatten().filter(|f| f.pending && f.wakers.last().unwrap().0.is_woken()).map(|f| f.since).max().unwrap_or(0);
            if futs.iter().flatten().any(|f| f.pending && f.since < last && !f.wakers.last().unwrap().0.is_woken()) {
                out_of_turn("a waiting sender was woken before another one that has been waiting longer");
            }
        }
        if recv_pending && (m.front().is_some() || (m.senders == 0 && m.empty())) && !recv_wakers.last().unwrap().0.is_woken() {
            violation("a receive is waiting with something to receive, but was not woken through its latest waker");
        }
        if let Some(r) = &rx {
            if r.is_closed() != (m.senders == 0) {
                violation(format!("is_closed() = {} with {} senders", r.is_closed(), m.senders));
            }
        }
    }
    // finish: everybody is dropped; the senders first or the receiver first
    if let Some((i, id, g)) = wheld.take() {
        g(id);
        m.slots[i] = Sl::Full(id);
    }
    let futs_first = choose(2) == 0;
    if futs_first {
        for f in futs.iter_mut() {
            if let Some(f) = f.take() {
                released(f);
            }
        }
    }
    for (i, g) in held.drain(..) {
        g();
        m.slots[i] = Sl::Free;
    }
    // whatever was sent is still there, in order, then the end
    if futs_first {
        if let Some(r) = &rx {
            drop(tx2.take());
            drop(std::mem::replace(&mut tx, None));
            m.senders = 0;
            if !r.is_closed() {
                violation("is_closed() is false although all senders are gone");
            }
            while let Some(id) = m.front() {
                match r.try_recv() {
                    Ok(x) if x == id => m.pop(id),
                    o => violation(format!("after the senders went away {:?} was received instead of {:#x}", o, id)),
                }
            }
            for _ in 0..2 {
                m.got("try_recv", r.try_recv());
                let (_wid, w) = new_waker();
                if r.poll_recv(&w) != Poll::Ready(None) {
                    violation("a drained channel without senders does not report the end");
                }
            }
        }
        rx = None;
    } else {
        rx = None;
        for f in futs.iter_mut() {
            if let Some(f) = f.take() {
                if f.pending && !f.wakers.last().unwrap().0.is_woken() {
                    violation("the receiver is gone but a waiting send was not woken through its latest waker");
                }
                released(f);
            }
        }
    }
    drop(rx);
    drop(tx2);
    drop(tx);
    let n = m.tail - m.head;
    outcome(|| format!("left {} recv_pending {}", n, recv_pending));
    drop(home);
    for (id, w) in recv_wakers {
        if id.refs() != 1 {
            violation("the destroyed channel keeps a waker");
        }
        drop(w);
    }
}

/// Blocking flavours: timed operations time out exactly, everything else as in the model.
#[cfg(feature = "tb_std")]
fn seq_blocking(fl: Fl, cap: usize, laps: usize, pre: usize, depth: usize) {
    const MS: u64 = 1_000_000;
    let (home, tx, rx) = channel(fl, cap);
    let tx = Box::new(tx);
    let mut tx1 = Some(tx);
    let mut tx2 = Some(Box::new(tx1.as_ref().unwrap().as_ref().clone()));
    let mut rx = Some(Box::new(rx));
    let mut m = M { slots: vec![Sl::Free; cap], head: 0, tail: 0, senders: 2, rx: true };
    let mut id = 0x10;
    for _ in 0..laps {
        id += 1;
        m.sent("try_send", id, tx1.as_ref().unwrap().try_send(id));
        m.got("try_recv", rx.as_ref().unwrap().try_recv());
    }
    for _ in 0..pre {
        id += 1;
        m.sent("try_send_ref", id, tx1.as_ref().unwrap().try_send_ref(id));
    }
    let mut held: VecDeque<(usize, Box<dyn FnOnce()>)> = VecDeque::new();
    for _ in 0..depth {
        let op = choose(16);
        id += 1;
        let t0 = clock();
        let d = Duration::from_nanos(7 * MS);
        let time = |what: &str, timed_out: bool| {
            let dt = clock() - t0;
            if timed_out && dt != 7 * MS {
                violation(format!("{} timed out after {} ns instead of {}", what, dt, 7 * MS));
            }
            if !timed_out && dt != 0 {
                violation(format!("{} completed only after {} ns although it could at once", what, dt));
            }
        };
        match op {
            0 => {
                let Some(t) = &tx1 else { break };
                m.sent("try_send", id, nonblocking(|| t.try_send(id)));
            }
            1 => {
                let Some(t) = &tx1 else { break };
                m.sent("try_send_ref", id, nonblocking(|| t.try_send_ref(id)));
            }
            2 | 3 => {
                let Some(t) = &tx1 else { break };
                if m.rx && !m.free() {
                    break; // would wait
                }
                m.sent("send", id, if op == 2 { t.send(id) } else { t.send_ref(id) });
            }
            4 | 5 => {
                let Some(t) = &tx1 else { break };
                let r = if op == 4 { t.send_timeout(id, d) } else { t.send_ref_timeout(id, d) };
                time("send_timeout", r == Err(E::Timeout));
                m.sent("send_timeout", id, r);
            }
            6 => {
                let Some(r) = &rx else { break };
                m.got("try_recv", nonblocking(|| r.try_recv()));
            }
            7 => {
                let Some(r) = &rx else { break };
                m.got("try_recv_ref", nonblocking(|| r.try_recv_ref()));
            }
            8 => {
                let Some(r) = &rx else { break };
                if held.len() == 2 {
                    break;
                }
                match nonblocking(|| life(&**r).try_recv_ref_guard()) {
                    Ok((id, g)) => held.push_back((m.begin_pop(id), g)),
                    Err(e) => m.got_err("try_recv_ref", e),
                }
            }
            9 => {
                let Some((i, g)) = held.pop_front() else { break };
                g();
                m.slots[i] = Sl::Free;
            }
            10..=12 => {
                let Some(r) = &rx else { break };
                let end = m.senders == 0 && m.empty();
                if m.front().is_none() && !end {
                    break; // would wait
                }
                let o = match op {
                    10 => r.recv(),
                    11 => r.recv_ref(),
                    _ => r.next(),
                };
                m.got("recv", o.ok_or(E::Closed));
            }
            13 | 14 => {
                let Some(r) = &rx else { break };
                let o = if op == 13 { r.recv_timeout(d) } else { r.recv_ref_timeout(d) };
                time("recv_timeout", o == Err(E::Timeout));
                m.got("recv_timeout", o);
            }
            _ => match choose(3) {
                0 => {
                    if rx.is_none() || !held.is_empty() {
                        break;
                    }
                    rx = None;
                    m.rx = false;
                }
                1 => {
                    let Some(t) = tx2.take() else { break };
                    drop(t);
                    m.senders -= 1;
                }
                _ => {
                    let Some(t) = tx1.take() else { break };
                    drop(t);
                    m.senders -= 1;
                }
            },
        }
        if let Some(r) = &rx {
            if r.is_closed() != (m.senders == 0) {
                violation(format!("is_closed() = {} with {} senders", r.is_closed(), m.senders));
            }
        }
    }
    for (i, g) in held.drain(..) {
        g();
        m.slots[i] = Sl::Free;
    }
    drop(tx1);
    drop(tx2);
    m.senders = 0;
    if let Some(r) = &rx {
        while let Some(id) = m.front() {
            match r.recv() {
                Some(x) if x == id => m.pop(id),
                o => violation(format!("after the senders went away {:?} was received instead of {:#x}", o, id)),
            }
        }
        m.got("recv", r.recv().ok_or(E::Closed));
        m.got("recv_timeout", r.recv_timeout(Duration::from_nanos(1)));
    }
    let n = m.tail;
    outcome(|| format!("sent {}", n));
    drop(rx);
    drop(home);
}

/// Many rounds through a small channel, each with a waiting receiver and waiting senders.
fn chan_laps(fl: Fl, cap: usize, rounds: usize) {
    solo();
    let (home, tx, rx) = channel(fl, cap);
    let tx2 = tx.clone();
    let mode = choose(3);
    let waiting = if fl.is_async() { choose(3) } else { 0 };
    let mut id = 0x100u32;
    let mut want = VecDeque::new();
    let (rw, rwaker) = new_waker();
    let sw: Vec<_> = (0..2).map(|_| new_waker()).collect();
    for r in 0..rounds {
        solo_progress();
        if fl.is_async() && mode != 0 {
            // an empty channel: the receiver waits, a send wakes it
            if rx.poll_recv(&rwaker).is_ready() {
                violation(format!("a receive from an empty channel completed in round {}", r));
            }
            rw.take_woken();
        }
        for k in 0..cap {
            id += 1;
            let t = if k % 2 == 0 { &tx } else { &tx2 };
            let ok = match mode {
                0 => t.try_send(id),
                1 => t.try_send_ref(id),
                _ => t.send(id),
            };
            if ok.is_err() {
                violation(format!("message {} of {} refused in round {}: {:?}", k + 1, cap, r, ok));
            }
            want.push_back(id);
        }
        if fl.is_async() && mode != 0 && !rw.is_woken() {
            violation(format!("the waiting receiver was not woken in round {}", r));
        }
        if tx.try_send(0x99) != Err(E::Full) {
            violation(format!("a full channel of capacity {} does not say so in round {}", cap, r));
        }
        let mut futs = Vec::new();
        for (k, w) in sw.iter().enumerate().take(waiting) {
            id += 1;
            let mut f = if k == 0 { tx.send_fut(id) } else { tx2.send_ref_fut(id) };
            if poll_once(f.as_mut(), &w.1).is_ready() {
                violation(format!("a send into a full channel completed in round {}", r));
            }
            w.0.take_woken();
            futs.push((f, id, k));
        }
        let mut left = waiting;
        while let Some(x) = want.pop_front() {
            let got = match mode {
                0 => rx.try_recv().ok(),
                1 => rx.try_recv_ref().ok(),
                _ => rx.recv(),
            };
            if got != Some(x) {
                violation(format!("received {:?} instead of {} in round {}", got, x, r));
            }
            if left > 0 {
                let Some(i) = (0..futs.len()).find(|i| sw[futs[*i].2].0.is_woken()) else { violation(format!("no waiting sender was woken in round {}", r)) };
                if i != 0 {
                    out_of_turn(format!("a waiting sender was woken before another one that has been waiting longer, in round {}", r));
                }
                let (mut f, id, k) = futs.remove(i);
                left -= 1;
                sw[k].0.take_woken();
                if poll_once(f.as_mut(), &sw[k].1) != Poll::Ready(Ok(())) {
                    violation(format!("a woken sender could not send in round {}", r));
                }
                want.push_back(id);
            }
        }
        if rx.try_recv() != Err(E::Empty) {
            violation(format!("an empty channel does not say so in round {}", r));
        }
        if rx.is_closed() {
            violation(format!("closed with two senders in round {}", r));
        }
    }
    drop(tx);
    drop(tx2);
    if !rx.is_closed() || rx.recv().is_some() || rx.try_recv() != Err(E::Closed) {
        violation("not at its end without senders");
    }
    drop(rx);
    drop(rwaker);
    for (w, wk) in sw {
        drop(wk);
        if w.refs() != 0 {
            violation("a waker is kept");
        }
    }
    drop(home);
    outcome(|| format!("{} {}", mode, waiting));
}

pub fn register(v: &mut Vec<Scn>) {
    const PS: &[&str] = &["P02", "P04", "P07", "P08", "P09", "P10", "P11", "P12", "P14", "P16", "P18", "P19", "P20", "P21"];
    const PB: &[&str] = &["P02", "P04", "P07", "P10", "P11", "P13", "P14", "P18", "P19", "P20"];
    for fl in flavours() {
        if fl.is_async() {
            for (cap, laps, pre, pend) in [(1usize, 0usize, 0usize, 0usize), (1, 1, 1, 1), (1, 0, 1, 2), (2, 0, 0, 0), (2, 1, 2, 2), (2, 0, 2, 1), (1, 0, 1, 3), (3, 1, 3, 3), (1, 0, 1, 5), (4, 0, 4, 6)] {
                let quick = if pend == 6 { 3 } else if pend == 5 { 4 } else if pend == 3 { 4 } else { 5 };
                for (deep, depth) in [(false, if fl == Fl::A { quick } else { 4.min(quick) }), (true, if pend >= 5 { 4 } else { 6 })] {
                    let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                    let tag = if deep { "_deep" } else { "" };
                    add(v, format!("sc_{}_cap{}_pre{}_pend{}{}", fl.tag(), cap, pre, pend, tag), PS, q, d, move || seq_async(fl, cap, laps, pre, pend, depth));
                }
            }
        } else {
            #[cfg(feature = "tb_std")]
            for (cap, laps, pre) in [(1usize, 0usize, 0usize), (1, 1, 1), (2, 1, 1), (3, 2, 2)] {
                for (deep, depth) in [(false, if fl == Fl::B { 5 } else { 4 }), (true, 6)] {
                    let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                    let tag = if deep { "_deep" } else { "" };
                    add(v, format!("sc_{}_cap{}_pre{}{}", fl.tag(), cap, pre, tag), PB, q, d, move || seq_blocking(fl, cap, laps, pre, depth));
                }
            }
        }
    }
    const PL: &[&str] = &["P02", "P07", "P08", "P09", "P10", "P18", "P19", "P20", "P21"];
    for fl in flavours() {
        for cap in [1usize, 2, 3] {
            for (deep, n) in [(false, 70_000usize), (true, 300_000)] {
                let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                let tag = if deep { "_deep" } else { "" };
                add(v, format!("sl_{}_cap{}{}", fl.tag(), cap, tag), PL, q, d, move || chan_laps(fl, cap, n));
            }
        }
    }
    for fl in flavours() {
        for cap in [5usize, 8, 33] {
            add(v, format!("sb_{}_cap{}", fl.tag(), cap), PL, &ONE, &ONE, move || chan_laps(fl, cap, 200));
        }
        if !fl.is_static() {
            add(v, format!("sb_{}_many", fl.tag()), PL, &ONE, &ONE, move || {
                let caps = [6, 7, 15, 16, 17, 31, 32, 63, 64, 65, 100, 255, 256, 257, 1000, 1024];
                chan_laps(fl, caps[choose(caps.len())], 5)
            });
        }
    }
    let _ = PB;
}
