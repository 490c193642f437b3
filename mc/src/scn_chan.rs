//! Channels under concurrency: programs of operations for every flavour.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use crate::hist::{self, *};
use std::rc::Rc;
#[cfg(feature = "tb_std")]
use std::time::Duration;

const MS: u64 = 1_000_000;

/// Operation of a sender thread.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum S {
    Send,
    SendRef,
    Try,
    TryRef,
    /// waiting send polled with a new waker every time (async), plain send otherwise
    Fresh,
    /// async: create, poll n times (waker renewed if n > 2), drop. blocking: send with a timeout.
    Cancel(u8),
    /// wait until woken, then give up without another attempt
    Abandon,
    /// async: two sends in one task, keep the first that completes, drop the other
    Select,
    /// poll a send until complete, polling also without being woken
    Eager,
    /// timed send by value / in place (blocking flavours), milliseconds
    Timed(u64),
    TimedRef(u64),
    /// clone the handle and drop the clone
    Clone,
    /// hand a clone to nobody: clone, send through the clone, drop it
    ViaClone,
    /// panic while holding a write reference; unwinding drops everything incl. the handle
    PanicRef,
    /// panic with nothing but the handle
    Panic,
}
use S::*;

/// Operation of the receiver.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    Recv,
    RecvRef,
    TryRecv,
    TryRecvRef,
    /// iterator (blocking), poll_recv loop with fresh wakers (async)
    Next,
    /// async: poll a receive once and drop it; blocking: receive with a short timeout
    CancelRecv,
    /// poll until something comes, polling also without being woken
    EagerRecv,
    RecvTimed(u64),
    RecvTimedRef(u64),
    IsClosed,
    /// hold n references together, release in order / reverse
    Hold(u8, bool),
    /// hold two references and release them from two threads
    HoldSplit,
    /// panic while holding a read reference
    PanicRefR,
}
use R::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// receive until the end of the stream
    Drain,
    /// drop the receiver while the senders may be running
    DropRx,
    /// keep the receiver, stop receiving, wait for the senders, then drain
    Stop,
    /// as Drain but checks that the end is reported again and again by every entry point
    DrainAll,
    /// the receiver's thread panics
    PanicRx,
    /// wait for the senders first, then receive (by entry points in turn)
    Late,
}

fn sent(n: u32, id: u32, r: Result<(), E>) {
    match r {
        Ok(()) => {
            ev(PUSH_OK, n, id);
            ev(PUSH_DONE, n, id);
        }
        Err(E::Full) | Err(E::Timeout) => ev(PUSH_FULL, n, id),
        Err(E::Closed) => ev(FAIL, n, id),
        Err(E::Empty) => violation("a send reported empty"),
    }
}

fn perform(fl: Fl, tx: &Tx, op: S, n: u32) {
    let id = 0x100 + n;
    if !matches!(op, Clone | Panic) {
        ev(PUSH_CALL, n, id);
    }
    match op {
        Send => sent(n, id, tx.send(id)),
        SendRef => sent(n, id, tx.send_ref(id)),
        // whatever the receiver or other senders are in the middle of, a try-send does not wait
        Try => sent(n, id, nonblocking(|| tx.try_send(id))),
        TryRef => sent(n, id, nonblocking(|| tx.try_send_ref(id))),
        Fresh => {
            if fl.is_async() {
                sent(n, id, block_on_fresh(tx.send_ref_fut(id)))
            } else {
                sent(n, id, tx.send_ref(id))
            }
        }
        Cancel(polls) => {
            if fl.is_async() {
                let mut f = if polls & 1 == 1 { tx.send_fut(id) } else { tx.send_ref_fut(id) };
                let (_w1, w1) = new_waker();
                let (_w2, w2) = new_waker();
                for k in 0..polls {
                    if k > 0 {
                        step();
                    }
                    let w = if polls > 2 && k > 0 { &w2 } else { &w1 };
                    if let std::task::Poll::Ready(r) = poll_once(f.as_mut(), w) {
                        sent(n, id, r);
                        return;
                    }
                }
                step();
                drop(f);
                ev(GAVE_UP, n, id);
            } else {
                timed(tx, n, id, 10 * MS, polls & 1 == 1)
            }
        }
        Abandon => {
            if fl.is_async() {
                let mut f = tx.send_ref_fut(id);
                let (wid, w) = new_waker();
                if let std::task::Poll::Ready(r) = poll_once(f.as_mut(), &w) {
                    sent(n, id, r);
                    return;
                }
                wid.wait();
                drop(f);
                ev(GAVE_UP, n, id);
            } else {
                sent(n, id, tx.send_ref(id))
            }
        }
        Select => {
            if fl.is_async() {
                let (wid, w) = new_waker();
                let (id1, id2) = (id, id + 8);
                ev(PUSH_CALL, n + 8, id2);
                let mut f1 = tx.send_fut(id1);
                let mut f2 = tx.send_ref_fut(id2);
                loop {
                    if let std::task::Poll::Ready(r) = poll_once(f1.as_mut(), &w) {
                        sent(n, id1, r);
                        break;
                    }
                    if let std::task::Poll::Ready(r) = poll_once(f2.as_mut(), &w) {
                        sent(n + 8, id2, r);
                        break;
                    }
                    wid.wait();
                }
            } else {
                sent(n, id, tx.send(id))
            }
        }
        Eager => {
            if fl.is_async() {
                let (wid, w) = new_waker();
                let mut f = tx.send_ref_fut(id);
                let mut k = 0;
                loop {
                    if let std::task::Poll::Ready(r) = poll_once(f.as_mut(), &w) {
                        sent(n, id, r);
                        break;
                    }
                    k += 1;
                    if k <= 2 {
                        step();
                    } else {
                        wid.wait();
                    }
                }
            } else {
                sent(n, id, tx.send_ref(id))
            }
        }
        Timed(ms) => {
            if fl.is_async() {
                sent(n, id, tx.send(id))
            } else {
                timed(tx, n, id, ms * MS, false)
            }
        }
        TimedRef(ms) => {
            if fl.is_async() {
                sent(n, id, tx.send_ref(id))
            } else {
                timed(tx, n, id, ms * MS, true)
            }
        }
        Clone => {
            ev(TX_NEW, n, id);
            let t = tx.clone();
            step();
            ev(TX_DROP_CALL, n, id);
            drop(t);
            ev(TX_DROP_DONE, n, id);
        }
        ViaClone => {
            ev(TX_NEW, n, id);
            let t = tx.clone();
            sent(n, id, t.send(id));
            ev(TX_DROP_CALL, n, id);
            drop(t);
            ev(TX_DROP_DONE, n, id);
        }
        PanicRef | Panic => unreachable!(),
    }
}

#[cfg(feature = "tb_std")]
fn timed(tx: &Tx, n: u32, id: u32, d: u64, by_ref: bool) {
    let t0 = clock();
    let dur = Duration::from_nanos(d);
    let r = if by_ref { tx.send_ref_timeout(id, dur) } else { tx.send_timeout(id, dur) };
    if r == Err(E::Timeout) {
        let dt = clock() - t0;
        if dt < d {
            violation(format!("a send gave up after {} ns of a {} ns timeout", dt, d));
        }
        late(dt, d);
    }
    sent(n, id, r);
}
#[cfg(not(feature = "tb_std"))]
fn timed(_tx: &Tx, _n: u32, _id: u32, _d: u64, _by_ref: bool) {
    panic!("no timed operations")
}

/// In scenarios where no other timer can be responsible, a timed operation must not overrun.
#[cfg(feature = "tb_std")]
fn late(dt: u64, d: u64) {
    if shared_peek("strict_time") != 0 && dt > d {
        violation(format!("a timed operation with a {} ns timeout returned only after {} ns", d, dt));
    }
}

fn got(n: u32, id: u32) {
    ev(POP_OK, n, id);
    ev(POP_DONE, n, id);
}

/// Performs one receive operation; true at the end of the stream.
fn receive(fl: Fl, rx: &Rc<Rx>, op: R, n: u32) -> bool {
    if op != IsClosed {
        ev(POP_CALL, n, 0);
    }
    let opt = |o: Option<u32>| match o {
        Some(id) => {
            got(n, id);
            false
        }
        None => {
            ev(RECV_END, n, 0);
            true
        }
    };
    let res = |r: Result<u32, E>| match r {
        Ok(id) => {
            got(n, id);
            false
        }
        Err(E::Empty) | Err(E::Timeout) => {
            ev(POP_NONE, n, 0);
            false
        }
        Err(E::Closed) => {
            ev(RECV_END, n, 0);
            true
        }
        Err(E::Full) => violation("a receive reported full"),
    };
    match op {
        Recv => opt(rx.recv()),
        RecvRef => opt(rx.recv_ref()),
        TryRecv => res(rx.try_recv()),
        TryRecvRef => res(rx.try_recv_ref()),
        Next => {
            if fl.is_async() {
                loop {
                    let (wid, w) = new_waker();
                    if let std::task::Poll::Ready(o) = rx.poll_recv(&w) {
                        return opt(o);
                    }
                    wid.wait();
                }
            } else {
                #[cfg(feature = "tb_std")]
                return opt(rx.next());
                #[cfg(not(feature = "tb_std"))]
                unreachable!()
            }
        }
        EagerRecv => {
            if fl.is_async() {
                let (wid, w) = new_waker();
                let mut k = 0;
                loop {
                    if let std::task::Poll::Ready(o) = rx.poll_recv_ref(&w) {
                        return opt(o);
                    }
                    k += 1;
                    if k <= 2 {
                        step();
                    } else {
                        wid.wait();
                    }
                }
            } else {
                opt(rx.recv_ref())
            }
        }
        CancelRecv => {
            if fl.is_async() {
                let (_wid, w) = new_waker();
                let mut f = rx.recv_fut();
                match poll_once(f.as_mut(), &w) {
                    std::task::Poll::Ready(o) => opt(o),
                    std::task::Poll::Pending => {
                        step();
                        drop(f);
                        ev(POP_NONE, n, 0);
                        false
                    }
                }
            } else {
                res(timed_recv(rx, 5 * MS, false))
            }
        }
        RecvTimed(ms) => {
            if fl.is_async() {
                opt(rx.recv())
            } else {
                res(timed_recv(rx, ms * MS, false))
            }
        }
        RecvTimedRef(ms) => {
            if fl.is_async() {
                opt(rx.recv_ref())
            } else {
                res(timed_recv(rx, ms * MS, true))
            }
        }
        IsClosed => {
            ev(CLOSED_CALL, n, 0);
            let c = rx.is_closed();
            ev(CLOSED_RET, n, c as u32);
            false
        }
        Hold(k, rev) => {
            let mut i = 0;
            let mut ids: Vec<u32> = Vec::new();
            let end = {
                let ids = std::cell::RefCell::new(&mut ids);
                rx.hold_refs(
                    k as usize,
                    rev,
                    &mut |id| {
                        if i > 0 {
                            ev(POP_CALL, n + i * 16, 0);
                        }
                        ev(POP_OK, n + i * 16, id);
                        ids.borrow_mut().push(id);
                        i += 1;
                    },
                    &mut |id| {
                        let k = ids.borrow().iter().position(|x| *x == id).unwrap() as u32;
                        ev(POP_DONE, n + k * 16, id);
                    },
                )
            };
            if end {
                ev(RECV_END, n + 15 * 16, 0);
            }
            end
        }
        HoldSplit => {
            let r1 = rx.recv_ref_guard();
            let Some((id1, g1)) = r1 else { return opt(None) };
            ev(POP_OK, n, id1);
            ev(POP_CALL, n + 16, 0);
            let Some((id2, g2)) = rx.recv_ref_guard() else {
                g1();
                ev(POP_DONE, n, id1);
                ev(RECV_END, n + 16, 0);
                return true;
            };
            ev(POP_OK, n + 16, id2);
            // the helper keeps the receiver alive through its own handle to it
            let g2: Box<dyn FnOnce()> = unsafe { std::mem::transmute(g2) };
            let h = spawn("releaser", move || {
                g2();
                ev(POP_DONE, n + 16, id2);
            });
            g1();
            ev(POP_DONE, n, id1);
            h.join();
            false
        }
        PanicRefR => {
            let r = catch(|| match rx.recv_ref_guard() {
                Some((id, g)) => {
                    ev(POP_OK, n, id);
                    let _g = g;
                    throw()
                }
                None => true,
            });
            match r {
                Ok(_) => {
                    ev(RECV_END, n, 0);
                    true
                }
                Err(()) => {
                    ev(POP_DONE, n, 0);
                    false
                }
            }
        }
    }
}

#[cfg(feature = "tb_std")]
fn timed_recv(rx: &Rx, d: u64, by_ref: bool) -> Result<u32, E> {
    let t0 = clock();
    let dur = Duration::from_nanos(d);
    let r = if by_ref { rx.recv_ref_timeout(dur) } else { rx.recv_timeout(dur) };
    if r == Err(E::Timeout) {
        let dt = clock() - t0;
        if dt < d {
            violation(format!("a receive gave up after {} ns of a {} ns timeout", dt, d));
        }
        late(dt, d);
    }
    r
}
#[cfg(not(feature = "tb_std"))]
fn timed_recv(_rx: &Rx, _d: u64, _by_ref: bool) -> Result<u32, E> {
    panic!("no timed operations")
}

#[derive(Clone, Copy)]
pub struct Prog {
    pub cap: usize,
    pub laps: usize,
    pub prefill: usize,
    pub senders: &'static [&'static [S]],
    pub rx: &'static [R],
    pub end: End,
    /// keep main's own sender until the senders are done (End::Stop / Late only)
    pub keep_tx: bool,
}

pub fn run(fl: Fl, p: &Prog) {
    let (home, tx, rx) = channel(fl, p.cap);
    let rx = Rc::new(rx);
    ev(TX_NEW, 0, 1);
    let mut n = 0;
    for _ in 0..p.laps {
        perform(fl, &tx, Try, n);
        receive(fl, &rx, TryRecvRef, n + 1);
        n += 2;
    }
    for _ in 0..p.prefill {
        perform(fl, &tx, TryRef, n);
        n += 1;
    }
    let mut hs = Vec::new();
    for (t, ops) in p.senders.iter().enumerate() {
        let ops: &'static [S] = ops;
        let tx = tx.clone();
        let h = 2 + t as u32;
        ev(TX_NEW, 0, h);
        let base = 64 + 16 * t as u32;
        hs.push(spawn("sender", move || {
            let mut slot = Some(tx);
            for (i, op) in ops.iter().enumerate() {
                match op {
                    Panic | PanicRef => {
                        // the handle is dropped by unwinding
                        let tx = slot.take().unwrap();
                        ev(TX_DROP_CALL, 0, h);
                        let _ = catch(move || {
                            let tx = tx;
                            if *op == PanicRef {
                                if let Ok(g) = tx.try_send_ref_guard() {
                                    // unwinding publishes the element as it is: give it a message first
                                    struct Publish<'a>(Option<Box<dyn FnOnce(u32) + 'a>>, u32, u32);
                                    impl Drop for Publish<'_> {
                                        fn drop(&mut self) {
                                            ev(PUSH_CALL, self.1, self.2);
                                            ev(PUSH_OK, self.1, self.2);
                                            (self.0.take().unwrap())(self.2);
                                            ev(PUSH_DONE, self.1, self.2);
                                        }
                                    }
                                    let n = base + i as u32;
                                    let _p = Publish(Some(g), n, 0x100 + n);
                                    step();
                                    throw();
                                }
                            }
                            throw()
                        });
                        ev(TX_DROP_DONE, 0, h);
                        return;
                    }
                    op => perform(fl, slot.as_ref().unwrap(), *op, base + i as u32),
                }
            }
            ev(TX_DROP_CALL, 0, h);
            drop(slot);
            ev(TX_DROP_DONE, 0, h);
        }));
    }
    let mut main_tx = Some(tx);
    let drop_main = |t: &mut Option<Tx>| {
        if let Some(t) = t.take() {
            ev(TX_DROP_CALL, 0, 1);
            drop(t);
            ev(TX_DROP_DONE, 0, 1);
        }
    };
    if !p.keep_tx {
        drop_main(&mut main_tx);
    }
    let mut n = 0x200;
    let mut ended = false;
    for op in p.rx {
        if receive(fl, &rx, *op, n) {
            ended = true;
        }
        n += 1;
    }
    let rx = match p.end {
        End::Drain | End::DrainAll | End::Late => {
            if p.end == End::Late {
                for h in hs.drain(..) {
                    h.join();
                }
                drop_main(&mut main_tx);
            }
            let mode = p.rx.iter().rev().find(|o| !matches!(o, IsClosed | Hold(..) | HoldSplit | PanicRefR | CancelRecv | TryRecv | TryRecvRef)).copied().unwrap_or(Recv);
            while !ended {
                ended = receive(fl, &rx, mode, n);
                n += 1;
            }
            if p.end == End::DrainAll {
                for op in [Recv, TryRecv, RecvRef, TryRecvRef, Next, RecvTimed(5), RecvTimedRef(5), CancelRecv, IsClosed] {
                    if !receive(fl, &rx, op, n) && op != IsClosed {
                        violation("a receive after the end of the stream does not report the end");
                    }
                    n += 1;
                }
            }
            hist::check(p.cap, true);
            Some(rx)
        }
        End::DropRx => {
            ev(RX_DROP_CALL, 0, 0);
            match Rc::try_unwrap(rx) {
                Ok(r) => drop(r),
                Err(_) => violation("receiver still shared"),
            }
            ev(RX_DROP_DONE, 0, 0);
            None
        }
        End::PanicRx => {
            ev(RX_DROP_CALL, 0, 0);
            let r = match Rc::try_unwrap(rx) {
                Ok(r) => r,
                Err(_) => violation("receiver still shared"),
            };
            let _ = catch(move || {
                let _r = r;
                throw()
            });
            ev(RX_DROP_DONE, 0, 0);
            None
        }
        End::Stop => Some(rx),
    };
    for h in hs {
        h.join();
    }
    match rx {
        Some(rx) => {
            if p.end == End::Stop {
                if !p.keep_tx && !ended {
                    // everything that was accepted must still come out
                    let mut k = 0x400;
                    while !receive(fl, &rx, TryRecv, k) {
                        k += 1;
                    }
                    hist::check(p.cap, true);
                } else {
                    hist::check(p.cap, false);
                }
            }
            drop_main(&mut main_tx);
            match Rc::try_unwrap(rx) {
                Ok(r) => drop(r),
                Err(_) => violation("receiver still shared"),
            }
        }
        None => {
            hist::check(p.cap, false);
            if let Some(t) = &main_tx {
                // the receiver is gone: every kind of send must fail as closed
                for (i, op) in [Send, SendRef, Try, TryRef, Timed(5), TimedRef(5)].iter().enumerate() {
                    let before = get_log().len();
                    perform(fl, t, *op, 0x700 + i as u32);
                    if !get_log()[before..].iter().any(|(_, w)| w >> 56 == FAIL) {
                        violation("a send after the receiver was dropped did not fail as closed");
                    }
                }
            }
            drop_main(&mut main_tx);
        }
    }
    drop(home);
}

pub const Q1: [Budget; 1] = [b(2, 0, 0, 0, 0)];

pub fn register(v: &mut Vec<Scn>) {
    let p = |cap, laps, prefill, senders, rx, end| Prog { cap, laps, prefill, senders, rx, end, keep_tx: false };
    let k = |cap, laps, prefill, senders, rx, end| Prog { cap, laps, prefill, senders, rx, end, keep_tx: true };
    const CORE: &[&str] = &["P02", "P03", "P04", "P07", "P08", "P09", "P10", "P18", "P19", "P20"];
    const STOP: &[&str] = &["P02", "P03", "P04", "P07", "P08", "P09", "P10", "P18", "P20"];
    const DROP: &[&str] = &["P02", "P03", "P04", "P07", "P09", "P11", "P19", "P18", "P20"];
    const CANC: &[&str] = &["P03", "P04", "P08", "P09", "P12", "P07", "P16", "P18", "P20"];
    const CAND: &[&str] = &["P03", "P04", "P09", "P11", "P12", "P16", "P18", "P19", "P20"];
    const TIME: &[&str] = &["P03", "P04", "P13", "P07", "P08", "P09", "P18", "P19", "P20"];
    const TIMD: &[&str] = &["P03", "P04", "P13", "P09", "P11", "P18", "P19", "P20"];
    const WAKE: &[&str] = &["P03", "P04", "P07", "P08", "P09", "P16", "P18", "P20"];
    const PANI: &[&str] = &["P17", "P04", "P10", "P11", "P18"];
    let plain: Vec<Budget> = vec![b(2, 0, 0, 0, 0), b(1, 1, 0, 0, 0), b(1, 0, 1, 0, 0), b(1, 0, 0, 1, 0)];
    let timers: Vec<Budget> = vec![b(2, 0, 0, 0, 1), b(1, 1, 0, 0, 1), b(1, 0, 1, 0, 1), b(1, 0, 0, 1, 1)];
    let deep: Vec<Budget> = vec![b(1, 1, 1, 1, 0), b(2, 1, 0, 0, 0), b(3, 0, 0, 0, 0), b(3, 0, 0, 1, 0), b(2, 1, 1, 1, 0), b(3, 1, 1, 1, 0), b(255, 0, 0, 0, 0), b(255, 1, 1, 1, 0)];
    let deept: Vec<Budget> = vec![b(1, 1, 1, 1, 1), b(2, 1, 0, 0, 1), b(3, 0, 0, 0, 1), b(3, 0, 0, 1, 1), b(2, 1, 1, 1, 2), b(3, 1, 1, 1, 2), b(255, 0, 0, 0, 1), b(255, 1, 1, 1, 2)];
    let mut list: Vec<(&str, &[&str], Prog, &Vec<Budget>, &Vec<Budget>, bool)> = Vec::new();
    macro_rules! sc {
        ($name:expr, $props:expr, $p:expr) => {
            list.push(($name, $props, $p, &plain, &deep, false))
        };
        ($name:expr, $props:expr, $p:expr, time) => {
            list.push(($name, $props, $p, &timers, &deept, true))
        };
    }
    // waiting sends and receives
    sc!("1s_cap1_recv", CORE, p(1, 0, 0, &[&[Send, SendRef]], &[Recv], End::Drain));
    sc!("1s_cap1_ref_lap", CORE, p(1, 1, 1, &[&[SendRef, Send]], &[RecvRef], End::DrainAll));
    sc!("2s_cap1_recv", CORE, p(1, 0, 0, &[&[Send], &[SendRef]], &[RecvRef], End::Drain));
    sc!("2s_cap2_full", CORE, p(2, 1, 2, &[&[Send], &[SendRef]], &[RecvRef], End::Drain));
    sc!("2s_cap2_try", CORE, p(2, 0, 1, &[&[Try, Send], &[TryRef]], &[TryRecv, Next], End::Drain));
    sc!("1s_cap2_iter", CORE, p(2, 0, 0, &[&[Send, TryRef, SendRef]], &[Next], End::DrainAll));
    sc!("late_drain", CORE, p(2, 1, 0, &[&[Try, TryRef], &[Try]], &[], End::Late));
    sc!("eager_recv", WAKE, p(1, 0, 0, &[&[Send], &[TryRef]], &[EagerRecv], End::Drain));
    sc!("try_waiting_rx", CORE, p(2, 0, 0, &[&[Try, TryRef]], &[RecvRef], End::Drain));
    sc!("try_cancelled_rx", CANC, p(1, 0, 0, &[&[TryRef, Try], &[Try]], &[CancelRecv, CancelRecv], End::Drain));
    // the receiver stops receiving: whoever fits must get in
    sc!("stop_2s_cap1", STOP, p(1, 0, 1, &[&[Send], &[SendRef]], &[RecvRef, Recv], End::Stop));
    sc!("stop_2s_cap2", STOP, p(2, 0, 2, &[&[Send], &[Send]], &[Recv, RecvRef], End::Stop));
    sc!("stop_2s_cap2_hold", STOP, p(2, 0, 2, &[&[Send], &[SendRef]], &[Hold(2, false)], End::Stop));
    sc!("stop_2s_cap2_hold_rev", STOP, p(2, 1, 2, &[&[SendRef], &[Send]], &[Hold(2, true)], End::Stop));
    sc!("stop_2s_cap2_split", STOP, p(2, 0, 2, &[&[Send], &[SendRef]], &[HoldSplit], End::Stop));
    sc!("stop_try_steals", STOP, p(1, 0, 1, &[&[Send], &[Try]], &[RecvRef, Recv], End::Stop));
    sc!("stop_1s_cap1", STOP, p(1, 0, 1, &[&[Send, SendRef]], &[TryRecv, Recv], End::Stop));
    // three senders: every position in the line of waiters
    let mut few: Vec<(&str, &[&str], Prog, &Vec<Budget>, &Vec<Budget>, bool)> = Vec::new();
    let plain3: Vec<Budget> = vec![b(1, 0, 0, 0, 0)];
    let plain3d: Vec<Budget> = vec![b(2, 0, 0, 0, 0), b(1, 1, 0, 0, 0), b(1, 0, 0, 1, 0)];
    let timers3: Vec<Budget> = vec![b(1, 0, 0, 0, 1)];
    let deep3: Vec<Budget> = vec![b(1, 1, 0, 0, 0), b(1, 0, 0, 1, 0), b(2, 0, 0, 0, 0), b(2, 1, 1, 1, 0), b(3, 0, 0, 0, 0), b(255, 0, 0, 0, 0)];
    let deept3: Vec<Budget> = vec![b(1, 1, 0, 0, 1), b(1, 0, 0, 1, 1), b(2, 0, 0, 0, 1), b(2, 1, 1, 1, 1), b(3, 0, 0, 0, 2)];
    few.push(("3s_cap1", CORE, p(1, 0, 1, &[&[Send], &[SendRef], &[Send]], &[RecvRef], End::Drain), &plain3, &deep3, false));
    few.push(("3s_cap2_stop", STOP, p(2, 1, 2, &[&[Send], &[SendRef], &[Send]], &[Hold(2, false), Recv], End::Stop), &plain3, &deep3, false));
    few.push(("3s_cap1_rxdrop", DROP, p(1, 0, 1, &[&[Send], &[SendRef], &[Send]], &[], End::DropRx), &plain3d, &deep3, false));
    few.push(("3s_cancel", CANC, p(1, 0, 1, &[&[Send], &[Cancel(1)], &[SendRef]], &[RecvRef, Recv, Recv], End::Drain), &plain3, &deep3, false));
    few.push(("3s_cancel_rxdrop", CAND, p(1, 0, 1, &[&[Send], &[Cancel(1)], &[SendRef]], &[], End::DropRx), &plain3d, &deep3, false));
    few.push(("3s_cancel_recv_rxdrop", CAND, p(1, 0, 1, &[&[Cancel(1)], &[Send], &[SendRef]], &[RecvRef], End::DropRx), &plain3d, &deep3, false));
    few.push(("3s_abandon_rxdrop", CAND, p(1, 0, 1, &[&[Abandon], &[Send], &[SendRef]], &[RecvRef], End::DropRx), &plain3d, &deep3, false));
    few.push(("3s_abandon", CANC, p(1, 0, 1, &[&[Abandon], &[Send], &[Abandon]], &[RecvRef, Recv], End::Drain), &plain3, &deep3, false));
    few.push(("3s_timed", TIME, p(1, 0, 1, &[&[Send], &[TimedRef(10)], &[Send]], &[RecvRef], End::Drain), &timers3, &deept3, true));
    // disconnection by the receiver
    sc!("rxdrop_1s_cap1", DROP, p(1, 0, 1, &[&[Send, SendRef]], &[], End::DropRx));
    sc!("rxdrop_2s_cap1", DROP, p(1, 0, 1, &[&[Send], &[SendRef]], &[], End::DropRx));
    sc!("rxdrop_recv", DROP, p(1, 1, 1, &[&[Send], &[Try, Try]], &[RecvRef], End::DropRx));
    sc!("rxdrop_cap2", DROP, k(2, 0, 1, &[&[Send, TryRef]], &[Recv], End::DropRx));
    // closed queries and handles
    sc!("closed_query", CORE, p(1, 0, 0, &[&[Clone], &[ViaClone]], &[IsClosed, IsClosed, Recv, IsClosed], End::DrainAll));
    sc!("closed_query_try", CORE, p(1, 0, 1, &[&[Try], &[]], &[IsClosed, TryRecv, IsClosed, TryRecvRef, IsClosed], End::Drain));
    // cancellation
    sc!("cancel_recv_drain", CANC, p(1, 0, 1, &[&[Cancel(1), Send], &[SendRef]], &[RecvRef], End::Drain));
    sc!("cancel_stop", CANC, p(1, 0, 1, &[&[Cancel(1)], &[Send]], &[RecvRef, Recv], End::Stop));
    sc!("cancel_twice_stop", CANC, p(1, 1, 1, &[&[Cancel(2)], &[SendRef]], &[Recv, RecvRef], End::Stop));
    sc!("cancel_rewake_stop", CANC, p(1, 0, 1, &[&[Cancel(3)], &[Send]], &[Recv, Recv], End::Stop));
    sc!("cancel_rxdrop", CAND, p(1, 0, 1, &[&[Cancel(2)], &[Send]], &[], End::DropRx));
    sc!("abandon_stop", CANC, p(1, 0, 1, &[&[Abandon], &[Send]], &[RecvRef, Recv], End::Stop));
    sc!("abandon_cap2", CANC, p(2, 1, 2, &[&[Abandon], &[Abandon]], &[Hold(2, true)], End::Drain));
    sc!("abandon_rxdrop", CAND, p(1, 0, 1, &[&[Abandon], &[Send]], &[RecvRef], End::DropRx));
    sc!("select_stop", CANC, p(1, 0, 1, &[&[Select], &[Send]], &[RecvRef, Recv], End::Stop));
    sc!("cancel_recv", CANC, p(1, 0, 0, &[&[Send, TryRef]], &[CancelRecv, Recv], End::Drain));
    sc!("cancel_recv_full", CANC, p(1, 0, 1, &[&[SendRef], &[Send]], &[CancelRecv, CancelRecv, RecvRef], End::Drain));
    sc!("eager_send", CANC, p(1, 0, 1, &[&[Eager], &[Cancel(2)]], &[RecvRef, Recv], End::Drain));
    // renewed wakers
    sc!("fresh_send", WAKE, p(1, 0, 1, &[&[Fresh], &[Cancel(3)]], &[RecvRef], End::Drain));
    sc!("fresh_both", WAKE, p(1, 0, 1, &[&[Fresh, Fresh]], &[Next], End::Drain));
    // panics
    sc!("panic_tx", PANI, p(1, 0, 0, &[&[PanicRef], &[Send]], &[Recv], End::DrainAll));
    sc!("panic_last_tx", PANI, p(1, 0, 0, &[&[Panic]], &[Recv], End::DrainAll));
    sc!("panic_last_tx_ref", PANI, p(2, 0, 0, &[&[Send, PanicRef]], &[RecvRef], End::DrainAll));
    sc!("panic_rx", PANI, p(1, 0, 1, &[&[Send], &[SendRef]], &[], End::PanicRx));
    sc!("panic_rx_ref", PANI, p(1, 0, 1, &[&[Send, Send]], &[PanicRefR, Recv], End::Stop));
    // timed operations
    sc!("timed_send_stop", TIME, p(1, 0, 1, &[&[Timed(10)], &[Send]], &[RecvRef, Recv], End::Stop), time);
    sc!("timed_send_drain", TIME, p(1, 0, 1, &[&[TimedRef(10), Send]], &[RecvRef], End::Drain), time);
    sc!("timed_2s", TIME, p(1, 0, 1, &[&[Timed(10)], &[TimedRef(20)]], &[RecvRef, Recv], End::Drain), time);
    sc!("timed_recv", TIME, p(1, 0, 0, &[&[Send], &[SendRef]], &[RecvTimed(10), RecvTimedRef(10)], End::Drain), time);
    sc!("timed_recv_closed", TIME, p(1, 0, 0, &[&[Try]], &[RecvTimedRef(10)], End::DrainAll), time);
    sc!("timed_rxdrop", TIMD, p(1, 0, 1, &[&[Timed(10)], &[TimedRef(10)]], &[], End::DropRx), time);
    for fl in flavours() {
        for (name, props, prog, quick, deep, time) in list.iter().chain(few.iter()) {
            if *time && fl.is_async() {
                continue;
            }
            // blocking sends cannot be abandoned
            if name.contains("abandon") && !fl.is_async() {
                continue;
            }
            // the static flavours share all but their outermost layer with the others
            let one = [quick[0]];
            let light = name.starts_with("3s_") && (fl.is_static() || cfg!(not(feature = "tb_std")));
            let one3 = [Budget { preempt: 1, ..one[0] }];
            let quick: &[Budget] = if light { &one3 } else { quick };
            // without `std` the library assumes that nothing unwinds
            if props.contains(&"P17") && !cfg!(feature = "tb_std") {
                continue;
            }
            let prog = *prog;
            let mut props = props.to_vec();
            if prog.senders.iter().any(|o| o.iter().any(|o| matches!(o, Try | TryRef))) {
                props.push("P14");
            }
            add(v, format!("c_{}_{}", fl.tag(), name), &props, quick, deep, move || run(fl, &prog));
        }
    }
}
