//! User code that the library calls (element constructors and destructors, recycling, cloning,
//! waking and dropping of wakers) and that uses the same queue or channel itself.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];

// ------------------------------------------------------------------ elements

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Free,
    Full(u32),
    /// claimed by the operation that called the user code (which may call it before or after it is
    /// done with the slot)
    Claimed,
}

enum Obj {
    Queue(Q),
    Chan(Tx, Rx),
}

impl Obj {
    fn push(&self, id: u32, by_ref: bool) -> bool {
        match self {
            Obj::Queue(q) if by_ref => match q.push_ref() {
                Ok(mut r) => {
                    fill(&mut r, id);
                    lib(move || drop(r));
                    true
                }
                Err(_) => false,
            },
            Obj::Queue(q) => q.push(id).is_ok(),
            Obj::Chan(t, _) => match if by_ref { t.try_send_ref(id) } else { t.try_send(id) } {
                Ok(()) => true,
                Err(E::Full) => false,
                Err(e) => violation(format!("a send failed with {:?}", e)),
            },
        }
    }
    fn pop(&self, by_ref: bool) -> Option<u32> {
        match self {
            Obj::Queue(q) if by_ref => q.pop_ref().map(|mut r| {
                let id = drain_ref(&mut r);
                lib(move || drop(r));
                id
            }),
            Obj::Queue(q) => q.pop().map(|v| v.id()),
            Obj::Chan(_, r) => match if by_ref { r.try_recv_ref() } else { r.try_recv() } {
                Ok(id) => Some(id),
                Err(E::Empty) => None,
                Err(e) => violation(format!("a receive failed with {:?}", e)),
            },
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Outer {
    None,
    Push,
    Pop,
}

struct Ctx {
    obj: Obj,
    slots: Vec<S>,
    head: usize,
    tail: usize,
    id: u32,
    outer: Outer,
    claimed: Option<(usize, S)>,
    /// the message of an outer push
    outer_id: u32,
    /// the outer operation was seen to be done with its slot
    released: bool,
    nested: bool,
    fires: usize,
    log: Vec<(u8, Option<u32>)>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();

impl Ctx {
    fn room(&self) -> bool {
        let n = self.slots.len();
        self.tail - self.head < n && self.slots[self.tail % n] == S::Free
    }
    fn front(&self) -> Option<u32> {
        match self.slots[self.head % self.slots.len()] {
            S::Full(id) if self.head < self.tail => Some(id),
            _ => None,
        }
    }
    fn pushed(&mut self, id: u32, ok: bool, what: &str) {
        if ok != self.room() {
            violation(format!("{} {} although its slot is {}", what, if ok { "succeeded" } else { "was refused" }, if ok { "occupied" } else { "free" }));
        }
        if ok {
            let n = self.slots.len();
            self.slots[self.tail % n] = S::Full(id);
            self.tail += 1;
        }
        self.log.push((1, ok.then_some(id)));
    }
    fn popped(&mut self, got: Option<u32>, what: &str) {
        if got != self.front() {
            violation(format!("{} returned {:x?} instead of {:x?}", what, got, self.front()));
        }
        if got.is_some() {
            let n = self.slots.len();
            self.slots[self.head % n] = S::Free;
            self.head += 1;
        }
        self.log.push((2, got));
    }
}

/// The user code inside an operation.
fn reenter(_k: Hk, _t: usize) {
    let c = unsafe { &mut *CTX };
    if c.nested || c.fires == 0 || c.outer == Outer::None {
        return;
    }
    let n = c.slots.len();
    if c.claimed.is_none() {
        // the operation has claimed its slot
        match c.outer {
            Outer::Push if c.room() => {
                c.claimed = Some((c.tail % n, S::Free));
                c.slots[c.tail % n] = S::Claimed;
                c.tail += 1;
            }
            Outer::Pop if c.front().is_some() => {
                let i = c.head % n;
                c.claimed = Some((i, c.slots[i]));
                c.slots[i] = S::Claimed;
                c.head += 1;
            }
            _ => return,
        }
    }
    let what = choose(5);
    if what == 0 {
        return;
    }
    c.fires -= 1;
    c.nested = true;
    c.id += 1;
    let id = c.id;
    match what {
        1 | 2 => {
            let ok = c.obj.push(id, what == 2);
            if ok && c.outer == Outer::Pop && !c.released && c.tail - c.head < n && c.slots[c.tail % n] == S::Claimed {
                c.slots[c.tail % n] = S::Free;
                c.released = true;
            }
            c.pushed(id, ok, "a push from within an operation");
        }
        3 | 4 => {
            let got = c.obj.pop(what == 4);
            if got == Some(c.outer_id) && c.outer == Outer::Push && !c.released && c.head < c.tail && c.slots[c.head % n] == S::Claimed {
                c.slots[c.head % n] = S::Full(c.outer_id);
                c.released = true;
            }
            c.popped(got, "a pop from within an operation");
        }
        _ => {}
    }
    c.nested = false;
}

/// Sequences of operations, any of which may be entered again from the element code it runs.
fn elements(obj: Obj, cap: usize, laps: usize, depth: usize) {
    solo();
    let c = Box::into_raw(Box::new(Ctx { obj, slots: vec![S::Free; cap], head: 0, tail: 0, id: 0x10, outer: Outer::None, claimed: None, outer_id: 0, released: false, nested: false, fires: 2, log: Vec::new() }));
    unsafe { CTX = c };
    let c = unsafe { &mut *c };
    for _ in 0..laps {
        for _ in 0..cap {
            c.id += 1;
            let ok = c.obj.push(c.id, false);
            c.pushed(c.id, ok, "push");
        }
        for _ in 0..cap {
            let g = c.obj.pop(true);
            c.popped(g, "pop");
        }
    }
    set_user_hook(Some(&reenter));
    for _ in 0..depth {
        solo_progress();
        let o = choose(4);
        c.id += 1;
        let id = c.id;
        c.claimed = None;
        c.released = false;
        c.outer_id = id;
        if o < 2 {
            c.outer = Outer::Push;
            let ok = c.obj.push(id, o == 1);
            c.outer = Outer::None;
            match c.claimed.take() {
                Some((i, _)) => {
                    if !ok {
                        violation("a push was refused after it had claimed its slot");
                    }
                    if !c.released {
                        c.slots[i] = S::Full(id);
                    }
                }
                None => c.pushed(id, ok, "push"),
            }
        } else {
            c.outer = Outer::Pop;
            let got = c.obj.pop(o == 3);
            c.outer = Outer::None;
            match c.claimed.take() {
                Some((i, was)) => {
                    if got.map(S::Full) != Some(was) {
                        violation(format!("a pop returned {:x?} instead of {:x?}", got, was));
                    }
                    if !c.released {
                        c.slots[i] = S::Free;
                    }
                }
                None => c.popped(got, "pop"),
            }
        }
    }
    set_user_hook(None);
    for _ in 0..=cap {
        let got = c.obj.pop(true);
        c.popped(got, "the final pop");
    }
    if c.head != c.tail {
        violation("messages are left behind");
    }
    outcome(|| format!("{:x?}", c.log));
    unsafe { CTX = std::ptr::null_mut() };
    drop(unsafe { Box::from_raw(c as *mut Ctx) });
}

// ------------------------------------------------------------------ wakers

struct Send {
    f: Option<Pin<Box<dyn Future<Output = Result<(), E>>>>>,
    w: Option<WakerId>,
    id: u32,
}

struct World {
    tx: Option<&'static Tx>,
    extra: Option<Tx>,
    rx: Option<&'static Rx>,
    sends: [Send; 2],
    rx_w: Option<WakerId>,
    id: u32,
    ids: Vec<WakerId>,
    accepted: Vec<u32>,
    got: Vec<u32>,
    nested: bool,
    fires: usize,
    cap: usize,
    rx_asleep: bool,
    rx_polled: bool,
    rx_used: u32,
    rx_box: Option<Box<Rx>>,
}
static mut WORLD: *mut World = std::ptr::null_mut();

impl World {
    /// Nobody sleeps who could go on.
    fn quiet(&self) {
        let waiting = || self.sends.iter().filter(|s| s.f.is_some()).filter_map(|s| s.w.as_ref());
        if self.rx.is_none() {
            if !waiting().all(|w| w.is_woken()) {
                violation("the receiver is gone but a waiting send was not woken");
            }
            return;
        }
        if self.accepted.len() < self.got.len() + self.cap && waiting().next().is_some() && !waiting().any(|w| w.is_woken()) {
            violation("there is room, but no waiting send was woken");
        }
        if self.accepted.len() > self.got.len() && self.rx_asleep && !self.rx_w.as_ref().unwrap().is_woken() {
            violation("there is a message, but the waiting receiver was not woken");
        }
    }
    fn act(&mut self, what: usize) {
        let rx = matches!(what, 1 | 2 | 7);
        self.rx_used += rx as u32;
        self.step(what);
        self.rx_used -= rx as u32;
    }
    fn step(&mut self, what: usize) {
        match what {
            0 => {
                if let Some(t) = self.tx {
                    self.id += 1;
                    let id = self.id;
                    if nonblocking(|| t.try_send(id)).is_ok() {
                        self.accepted.push(id);
                    }
                }
            }
            1 => {
                if let Some(r) = self.rx {
                    if let Ok(id) = nonblocking(|| r.try_recv()) {
                        self.got.push(id);
                    }
                }
            }
            2 => {
                if let Some(r) = self.rx {
                    if let Ok(id) = nonblocking(|| r.try_recv_ref()) {
                        self.got.push(id);
                    }
                }
            }
            // poll, with a new waker every time; the future is out of the slot meanwhile, as in an executor
            3 | 4 => {
                let k = what - 3;
                if let Some(mut f) = self.sends[k].f.take() {
                    let (wid, w) = new_waker();
                    let r = poll_once(f.as_mut(), &w);
                    drop(w);
                    match r {
                        Poll::Pending => {
                            self.sends[k].f = Some(f);
                            if let Some(o) = self.sends[k].w.replace(wid) {
                                self.ids.push(o);
                            }
                        }
                        Poll::Ready(r) => {
                            self.ids.push(wid);
                            if r.is_ok() {
                                self.accepted.push(self.sends[k].id);
                            } else if self.rx.is_some() {
                                violation("a send failed although the receiver is there");
                            }
                            lib(move || drop(f));
                        }
                    }
                }
            }
            5 | 6 => {
                let f = self.sends[what - 5].f.take();
                lib(move || drop(f));
            }
            // (a task is not polled from within its own poll)
            7 => {
                if let (Some(r), false) = (self.rx, self.rx_polled) {
                    self.rx_polled = true;
                    let (wid, w) = new_waker();
                    let p = nonblocking(|| if self.id % 2 == 0 { r.poll_recv(&w) } else { r.poll_recv_ref(&w) });
                    drop(w);
                    self.rx_polled = false;
                    self.rx_asleep = p.is_pending();
                    match p {
                        Poll::Ready(Some(id)) => {
                            self.got.push(id);
                            self.ids.push(wid);
                        }
                        Poll::Ready(None) => {
                            if self.tx.is_some() {
                                violation("the end of the stream was reported although a sender exists");
                            }
                            self.ids.push(wid);
                        }
                        Poll::Pending => {
                            if let Some(o) = self.rx_w.replace(wid) {
                                self.ids.push(o);
                            }
                        }
                    }
                }
            }
            8 => {
                let e = self.extra.take();
                lib(move || drop(e));
            }
            // the receiver goes, unless it is being used
            _ => {
                if self.rx_used == 0 {
                    self.rx = None;
                    self.rx_asleep = false;
                    let r = self.rx_box.take();
                    lib(move || drop(r));
                }
            }
        }
    }
}

fn waker_code(k: Hk, _t: usize) {
    let w = unsafe { &mut *WORLD };
    if k == Hk::Clone || w.nested || w.fires == 0 {
        return;
    }
    let what = choose(11);
    if what == 0 {
        return;
    }
    w.fires -= 1;
    w.nested = true;
    w.act(what - 1);
    w.nested = false;
}

/// An executor whose wakers run code of their own when they are cloned, woken and dropped: the
/// last reference to a task may go with its waker, and with the task everything it owns.
fn wakers(fl: Fl, cap: usize, depth: usize, fires: usize) {
    solo();
    let (home, tx, rx) = channel(fl, cap);
    let (tx, rx) = (Box::new(tx), Box::new(rx));
    let t: &'static Tx = unsafe { &*(&*tx as *const Tx) };
    let r: &'static Rx = unsafe { &*(&*rx as *const Rx) };
    let w = Box::into_raw(Box::new(World {
        tx: Some(t),
        extra: Some((*tx).clone()),
        rx: Some(r),
        sends: [Send { f: Some(t.send_fut(0x20)), w: None, id: 0x20 }, Send { f: Some(t.send_ref_fut(0x21)), w: None, id: 0x21 }],
        rx_w: None,
        id: 0x30,
        ids: Vec::new(),
        accepted: Vec::new(),
        got: Vec::new(),
        nested: false,
        fires: 0,
        cap,
        rx_asleep: false,
        rx_polled: false,
        rx_used: 0,
        rx_box: Some(rx),
    }));
    unsafe { WORLD = w };
    let w = unsafe { &mut *w };
    let full = choose(2) == 0;
    if full {
        for _ in 0..cap {
            w.act(0);
        }
        w.act(3);
        if choose(2) == 0 {
            w.act(4);
        }
    } else {
        w.act(7);
    }
    set_user_hook(Some(&waker_code));
    w.fires = fires;
    for _ in 0..depth {
        solo_progress();
        w.act(choose(10));
        w.quiet();
    }
    solo_progress();
    let ends = fires == 1;
    w.fires = if ends { w.fires } else { 0 };
    // everything that was sent arrives, and someone who waits for room is told about it
    if w.rx.is_some() && choose(3) != 0 {
        let mut n = 0;
        loop {
            solo_progress();
            let before = w.got.len();
            w.act(1 + n % 2);
            if w.got.len() == before {
                break;
            }
            n += 1;
        }
        w.fires = 0;
        for _ in 0..=cap + 2 {
            w.act(1);
        }
        w.quiet();
        let (mut a, mut g) = (w.accepted.clone(), w.got.clone());
        a.sort();
        g.sort();
        if a != g && w.rx.is_some() {
            violation(format!("sent {:x?}, received {:x?}", w.accepted, w.got));
        }
        w.fires = ends as usize;
    }
    solo_progress();
    match if w.rx.is_some() { choose(2) } else { 0 } {
        // the receiver goes
        0 => {
            w.act(9);
            w.fires = 0;
            for k in 0..2 {
                if w.sends[k].f.is_some() {
                    if !w.sends[k].w.as_ref().map_or(true, |w| w.is_woken()) {
                        violation("the receiver is gone but a waiting send was not woken");
                    }
                    let n = w.accepted.len();
                    w.act(3 + k);
                    if w.sends[k].f.is_some() || w.accepted.len() != n {
                        violation("a waiting send did not fail after the receiver had gone");
                    }
                }
            }
            w.extra = None;
            w.tx = None;
            drop(tx);
        }
        // the senders go
        _ => {
            w.act(5);
            w.act(6);
            w.act(8);
            w.tx = None;
            lib(move || drop(tx));
            w.fires = 0;
            if w.rx_asleep && !w.rx_w.as_ref().unwrap().is_woken() {
                violation("all senders are gone but the waiting receiver was not woken");
            }
            // the ends of the channel are seen
            if w.rx.is_some() {
                for _ in 0..cap {
                    w.act(1);
                }
                match nonblocking(|| r.try_recv()) {
                    Err(E::Closed) => {}
                    x => violation(format!("all senders are gone but a receive returned {:?}", x)),
                }
            }
            w.act(9);
        }
    }
    set_user_hook(None);
    outcome(|| format!("{:x?} {:x?}", w.accepted, w.got));
    unsafe { WORLD = std::ptr::null_mut() };
    let w = unsafe { Box::from_raw(w as *mut World) };
    drop(home);
    let World { ids, sends, rx_w, .. } = *w;
    let all = ids.iter().chain(sends.iter().filter_map(|s| s.w.as_ref())).chain(rx_w.iter());
    for id in all {
        if id.refs() != 0 {
            violation("a waker is still referenced after everything was dropped");
        }
    }
}

// ------------------------------------------------------------------ wakers against another thread

struct Side {
    thread: usize,
    armed: bool,
    act: usize,
    tx: *const Tx,
    rx: *const Rx,
    extra: Option<Tx>,
    got: Vec<u32>,
    sent: Vec<u32>,
    id: u32,
}
static mut SIDE: Option<Side> = None;

fn side_code(k: Hk, _t: usize) {
    let Some(s) = (unsafe { (*std::ptr::addr_of_mut!(SIDE)).as_mut() }) else { return };
    if !s.armed || s.thread != me() || !matches!(k, Hk::Wake | Hk::Drop) {
        return;
    }
    s.armed = false;
    match s.act {
        0 if !s.tx.is_null() => {
            s.id += 1;
            let id = s.id;
            if nonblocking(|| unsafe { &*s.tx }.try_send(id)).is_ok() {
                s.sent.push(id);
            }
        }
        0 => {
            if let Ok(id) = nonblocking(|| unsafe { &*s.rx }.try_recv_ref()) {
                s.got.push(id);
            }
        }
        1 => drop(s.extra.take()),
        _ => {
            // a waiting send that is given up again
            if let Some(t) = &s.extra {
                s.id += 1;
                let id = s.id;
                let (wid, w) = new_waker();
                let mut f = t.send_fut(id);
                let r = poll_once(f.as_mut(), &w);
                lib(move || drop(f));
                if r == Poll::Ready(Ok(())) {
                    s.sent.push(id);
                }
                drop((w, wid));
            }
        }
    }
}

/// One thread's wakers and dropped wakers run operations of their own while the other thread,
/// the one to be woken, goes on.
fn waker_race(fl: Fl, cap: usize, rx_side: bool, act: usize) {
    set_user_hook(None);
    // (left behind by an execution that was cut short)
    std::mem::forget(unsafe { (*std::ptr::addr_of_mut!(SIDE)).take() });
    let (home, tx, rx) = channel(fl, cap);
    let side = move |tx: *const Tx, rx: *const Rx, extra| {
        unsafe { SIDE = Some(Side { thread: me(), armed: false, act, tx, rx, extra, got: Vec::new(), sent: Vec::new(), id: 0x30 }) };
        set_user_hook(Some(&side_code));
        unsafe { (*std::ptr::addr_of_mut!(SIDE)).as_mut().unwrap() }
    };
    let (mut sent, mut got);
    if rx_side {
        let n = cap + 1;
        let extra = tx.clone();
        let h = spawn("sender", move || {
            let mut sent = Vec::new();
            for i in 0..n {
                let id = 0x10 + i as u32;
                if (if i == 0 { tx.send(id) } else { tx.send_ref(id) }).is_ok() {
                    sent.push(id);
                }
            }
            drop(tx);
            sent
        });
        let s = side(std::ptr::null(), &rx, Some(extra));
        for k in 0..2 {
            s.armed = true;
            if let Ok(id) = if k == 0 { rx.try_recv() } else { rx.try_recv_ref() } {
                s.got.push(id);
            }
        }
        s.armed = false;
        s.extra = None;
        // the rest, until the end
        while let Some(id) = rx.recv() {
            s.got.push(id);
        }
        sent = h.join();
        set_user_hook(None);
        let s = unsafe { (*std::ptr::addr_of_mut!(SIDE)).take().unwrap() };
        sent.extend(s.sent);
        got = s.got;
        drop(rx);
    } else {
        let extra = tx.clone();
        let h = spawn("receiver", move || {
            let mut got = Vec::new();
            while let Some(id) = if got.len() % 2 == 0 { rx.recv() } else { rx.recv_ref() } {
                got.push(id);
            }
            got
        });
        let s = side(&tx, std::ptr::null(), Some(extra));
        for k in 0..2 {
            s.armed = true;
            let id = 0x10 + k;
            if (if k == 0 { tx.try_send(id) } else { tx.try_send_ref(id) }).is_ok() {
                s.sent.push(id);
            }
        }
        s.armed = act == 0;
        s.extra = None;
        s.armed = false;
        drop(tx);
        got = h.join();
        set_user_hook(None);
        sent = unsafe { (*std::ptr::addr_of_mut!(SIDE)).take().unwrap() }.sent;
    }
    drop(home);
    outcome(|| format!("{:x?} {:x?}", sent, got));
    sent.sort();
    got.sort();
    if sent != got {
        violation(format!("sent {:x?}, received {:x?}", sent, got));
    }
}

struct Closing {
    thread: usize,
    armed: bool,
    act: usize,
    pending: Option<Pin<Box<dyn Future<Output = Result<(), E>>>>>,
    wid: WakerId,
    tx: *const Tx,
    done: u8,
}
static mut CLOSING: Option<Closing> = None;

fn closing_code(k: Hk, _t: usize) {
    let Some(s) = (unsafe { (*std::ptr::addr_of_mut!(CLOSING)).as_mut() }) else { return };
    if !s.armed || s.thread != me() || !matches!(k, Hk::Wake | Hk::Drop) {
        return;
    }
    s.armed = false;
    match s.act {
        // the pending send is given up
        0 => {
            let f = s.pending.take();
            lib(move || drop(f));
            s.done = 1;
        }
        // it is polled again, with another waker
        1 => {
            if let Some(mut f) = s.pending.take() {
                let (wid, w) = new_waker();
                match poll_once(f.as_mut(), &w) {
                    Poll::Ready(Err(E::Closed)) => s.done = 2,
                    Poll::Ready(x) => violation(format!("a send to a receiver that is gone returned {:?}", x)),
                    Poll::Pending => s.pending = Some(f),
                }
                s.wid = wid;
                drop(w);
            }
        }
        // one more send
        _ => {
            let mut f = unsafe { &*s.tx }.send_ref_fut(0x77);
            let (_wid, w) = new_waker();
            if poll_once(f.as_mut(), &w) != Poll::Ready(Err(E::Closed)) {
                violation("a send to a receiver that is gone does not fail");
            }
            lib(move || drop(f));
            drop(w);
        }
    }
}

/// The receiver goes away while senders wait; the wakeups run code that uses the channel.
fn closing_race(fl: Fl, cap: usize, act: usize) {
    set_user_hook(None);
    // (left behind by an execution that was cut short)
    std::mem::forget(unsafe { (*std::ptr::addr_of_mut!(CLOSING)).take() });
    let (home, tx, rx) = channel(fl, cap);
    let tx = Box::new(tx);
    let t: &'static Tx = unsafe { &*(&*tx as *const Tx) };
    for k in 0..cap {
        if t.try_send(1 + k as u32).is_err() {
            violation("a send failed although there is room");
        }
    }
    let (wid, w) = new_waker();
    let mut f = t.send_fut(0x20);
    if poll_once(f.as_mut(), &w) != Poll::Pending {
        violation("a send into a full channel completed");
    }
    drop(w);
    let tx2 = t.clone();
    let h = spawn("sender", move || tx2.send(0x21));
    unsafe { CLOSING = Some(Closing { thread: me(), armed: true, act, pending: Some(f), wid, tx: t, done: 0 }) };
    set_user_hook(Some(&closing_code));
    lib(move || drop(rx));
    set_user_hook(None);
    let mut s = unsafe { (*std::ptr::addr_of_mut!(CLOSING)).take().unwrap() };
    if let Some(mut f) = s.pending.take() {
        if !s.wid.is_woken() {
            violation("the receiver is gone but a waiting send was not woken");
        }
        let (_wid, w) = new_waker();
        if poll_once(f.as_mut(), &w) != Poll::Ready(Err(E::Closed)) {
            violation("a send to a receiver that is gone does not fail");
        }
        lib(move || drop(f));
        drop(w);
    }
    if h.join() != Err(E::Closed) {
        violation("a waiting send did not fail although the receiver is gone");
    }
    outcome(|| format!("{}", s.done));
    drop(tx);
    drop(home);
}

pub fn register(v: &mut Vec<Scn>) {
    for (deep, depth) in [(false, 5), (true, 7)] {
        let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
        let t = if deep { "_deep" } else { "" };
        for (cap, laps) in [(1usize, 0usize), (1, 1), (2, 0), (2, 1), (3, 1)] {
            for stat in [false, true] {
                let k = if stat { "static" } else { "heap" };
                add(v, format!("r_element_{}_cap{}_lap{}{}", k, cap, laps, t), &["P25", "P14"], q, d, move || elements(Obj::Queue(Q::new(stat, cap)), cap, laps, depth));
            }
            for fl in flavours() {
                if cap == 3 {
                    continue;
                }
                add(v, format!("r_element_{}_cap{}_lap{}{}", fl.tag(), cap, laps, t), &["P25", "P14"], q, d, move || {
                    let (home, tx, rx) = channel(fl, cap);
                    elements(Obj::Chan(tx, rx), cap, laps, depth);
                    drop(home);
                });
            }
        }
        for fl in flavours() {
            if !fl.is_async() {
                continue;
            }
            for cap in [1usize, 2] {
                let (n, m) = if deep { (3, 1) } else { (2, 1) };
                add(v, format!("r_waker_{}_cap{}{}", fl.tag(), cap, t), &["P25", "P08"], q, d, move || wakers(fl, cap, n, m));
                let (n, m) = if deep { (3, 3) } else { (2, 2) };
                add(v, format!("r_waker_{}_cap{}_nested{}", fl.tag(), cap, t), &["P25", "P08"], q, d, move || wakers(fl, cap, n, m));
            }
        }
    }
    // the same against another thread
    let q0 = [b(2, 0, 0, 0, 0), b(1, 1, 1, 0, 0)];
    let q = [b(3, 0, 0, 0, 0), b(2, 1, 1, 1, 0)];
    let d = [b(255, 0, 0, 0, 0), b(3, 1, 1, 1, 0)];
    use super::queue::Op::*;
    for (t, nested) in [("push", PushRef), ("pop", PopRef), ("len", Len)] {
        for stat in [false, true] {
            for cap in [1usize, 2] {
                let k = if stat { "static" } else { "heap" };
                add(v, format!("r_race_{}_cap{}_{}_in_push", k, cap, t), &["P25", "P01", "P14"], &q, &d, move || {
                    super::queue::run_nested(stat, cap, 1, cap - 1, &[&[Push, PushRef], &[Pop, Push]], Some(nested))
                });
                add(v, format!("r_race_{}_cap{}_{}_in_pop", k, cap, t), &["P25", "P01", "P14"], if cap == 1 { &q0 } else { &q }, &d, move || {
                    super::queue::run_nested(stat, cap, 1, 1, &[&[Pop, Push], &[Push, PopRef]], Some(nested))
                });
            }
        }
    }
    for fl in flavours() {
        if !fl.is_async() {
            continue;
        }
        for cap in [1usize, 2] {
            for (act, a) in ["cancel", "poll", "send"].into_iter().enumerate() {
                add(v, format!("r_closing_{}_cap{}_{}", fl.tag(), cap, a), &["P25", "P11"], &q, &d, move || closing_race(fl, cap, act));
            }
            for rx_side in [false, true] {
                for (act, a) in ["op", "drop", "cancel"].into_iter().enumerate() {
                    let t = if rx_side { "recv" } else { "send" };
                    add(v, format!("r_wrace_{}_cap{}_{}_{}", fl.tag(), cap, t, a), &["P25", "P08", "P09"], if rx_side { &q0 } else { &q }, &d, move || waker_race(fl, cap, rx_side, act));
                }
            }
        }
    }
}
