//! Histories over element types of unusual shape: zero-sized, over-aligned, large, with a niche.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use crate::val::{Pol, Val};
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use thingbuf::mpsc;
#[cfg(feature = "tb_std")]
use thingbuf::mpsc::blocking;
use thingbuf::{StaticThingBuf, ThingBuf};

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];

trait Shape: Default + Clone + 'static {
    /// whether it can hold a number
    const CARRIES: bool = true;
    /// whether its instances are counted
    const COUNTED: bool = true;
    fn set(&mut self, id: u32);
    fn get(&self) -> u32;
    fn make(id: u32) -> Self {
        let mut s = Self::default();
        s.set(id);
        s
    }
}

fn born() {
    shared_add("made", 1);
}
fn gone() {
    if shared_add("made", -1) < 0 {
        violation("an element was dropped more often than it was created");
    }
}

macro_rules! shape {
    ($n:ident, $get:expr, $set:expr, $carries:expr, $new:expr) => {
        impl Default for $n {
            fn default() -> Self {
                born();
                $new
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                let mut s = $n::default();
                s.set(self.get());
                s
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                let a = self as *const Self as usize;
                if a % std::mem::align_of::<Self>() != 0 {
                    violation("a misaligned element");
                }
                gone();
            }
        }
        impl Shape for $n {
            const CARRIES: bool = $carries;
            fn set(&mut self, id: u32) {
                let f: fn(&mut Self, u32) = $set;
                f(self, id)
            }
            fn get(&self) -> u32 {
                let f: fn(&Self) -> u32 = $get;
                f(self)
            }
        }
    };
}

/// Zero-sized, but dropping it matters.
struct Token;
shape!(Token, |_| 0, |_, _| {}, false, Token);

/// More than a cache line of alignment.
#[repr(align(256))]
struct Aligned(u8);
shape!(Aligned, |s| s.0 as u32, |s, id| s.0 = id as u8, true, Aligned(0));

/// Larger than a page.
struct Large([u32; 1500]);
shape!(Large, |s| if s.0.iter().all(|x| *x == s.0[0]) { s.0[0] } else { violation("a torn element") }, |s, id| s.0 = [id; 1500], true, Large([0; 1500]));

/// One byte.
struct Byte(u8);
shape!(Byte, |s| s.0 as u32, |s, id| s.0 = id as u8, true, Byte(0));

/// A pointer with a niche.
struct Boxed(Box<u32>);
shape!(Boxed, |s| *s.0, |s, id| *s.0 = id, true, Boxed(Box::new(0)));

/// Plain data without a destructor; the unit type.
impl Shape for u64 {
    const COUNTED: bool = false;
    fn set(&mut self, id: u32) {
        *self = id as u64;
    }
    fn get(&self) -> u32 {
        *self as u32
    }
}
impl Shape for () {
    const COUNTED: bool = false;
    const CARRIES: bool = false;
    fn set(&mut self, _: u32) {}
    fn get(&self) -> u32 {
        0
    }
}

enum Got<E> {
    None,
    Val(E),
    Ref(u32, usize),
}

/// `op(0..=3)`: send by value, send in place, take by value, take by reference.
fn history<E: Shape>(cap: usize, depth: usize, mut op: impl FnMut(usize, u32) -> (bool, Got<E>)) -> String {
    let mut model: VecDeque<u32> = VecDeque::new();
    let mut log = String::new();
    for k in 0..depth {
        let o = choose(4);
        let id = 0x21 + k as u32;
        let (ok, got) = op(o, id);
        let (right, taken) = if o < 2 {
            let right = model.len() < cap;
            if right {
                model.push_back(if E::CARRIES { id } else { 0 });
            }
            (right, None)
        } else {
            let t = model.pop_front();
            (t.is_some(), t)
        };
        if ok != right {
            violation(format!("operation {} answered {} with {} of {} elements inside", o, ok, model.len(), cap));
        }
        match (got, taken) {
            (Got::None, None) => {}
            (Got::Val(e), Some(id)) => {
                if e.get() != id {
                    violation(format!("received {:#x} instead of {:#x}", e.get(), id));
                }
            }
            (Got::Ref(x, a), Some(id)) => {
                if x != id {
                    violation(format!("received {:#x} instead of {:#x}", x, id));
                }
                if a % std::mem::align_of::<E>() != 0 {
                    violation("a misaligned element");
                }
            }
            _ => violation("wrong kind of answer"),
        }
        if E::COUNTED {
            let n = shared_peek("made");
            if n < model.len() as i64 || n > cap as i64 {
                violation(format!("{} elements alive with {} of {} inside", n, model.len(), cap));
            }
        }
        let _ = write!(log, "{}{}", o, ok as u8);
    }
    log
}

fn at<T>(t: &T) -> usize {
    t as *const T as usize
}

fn finish(log: String) {
    if shared_peek("made") != 0 {
        violation(format!("{} elements were never dropped", shared_peek("made")));
    }
    outcome(|| log.clone());
}

macro_rules! queue_op {
    ($q:expr) => {
        |o, id| match o {
            0 => ($q.push(E::make(id)).is_ok(), Got::None),
            1 => match $q.push_ref() {
                Ok(mut r) => {
                    if r.get() != 0 {
                        violation("a write reference exposes an earlier message");
                    }
                    r.set(id);
                    (true, Got::None)
                }
                Err(_) => (false, Got::None),
            },
            2 => match $q.pop() {
                Some(e) => (true, Got::Val(e)),
                None => (false, Got::None),
            },
            _ => match $q.pop_ref() {
                Some(r) => (true, Got::Ref(r.get(), at(&*r))),
                None => (false, Got::None),
            },
        }
    };
}

macro_rules! chan_op {
    ($tx:expr, $rx:expr) => {
        |o, id| match o {
            0 => ($tx.try_send(E::make(id)).is_ok(), Got::None),
            1 => match $tx.try_send_ref() {
                Ok(mut r) => {
                    if r.get() != 0 {
                        violation("a write reference exposes an earlier message");
                    }
                    r.set(id);
                    (true, Got::None)
                }
                Err(_) => (false, Got::None),
            },
            2 => match $rx.try_recv() {
                Ok(e) => (true, Got::Val(e)),
                Err(_) => (false, Got::None),
            },
            _ => match $rx.try_recv_ref() {
                Ok(r) => (true, Got::Ref(r.get(), at(&*r))),
                Err(_) => (false, Got::None),
            },
        }
    };
}

fn poll<F: std::future::Future>(f: F) -> Option<F::Output> {
    let (_w, w) = new_waker();
    let mut f = Box::pin(f);
    match Pin::as_mut(&mut f).poll(&mut std::task::Context::from_waker(&w)) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}

/// The waiting forms, each polled once and given up when it would wait.
macro_rules! async_op {
    ($tx:expr, $rx:expr) => {
        |o, id| match o {
            0 => (matches!(poll($tx.send(E::make(id))), Some(Ok(()))), Got::None),
            1 => match poll($tx.send_ref()) {
                Some(Ok(mut r)) => {
                    if r.get() != 0 {
                        violation("a write reference exposes an earlier message");
                    }
                    r.set(id);
                    (true, Got::None)
                }
                _ => (false, Got::None),
            },
            2 => match poll($rx.recv()) {
                Some(Some(e)) => (true, Got::Val(e)),
                _ => (false, Got::None),
            },
            _ => match poll($rx.recv_ref()) {
                Some(Some(r)) => (true, Got::Ref(r.get(), at(&*r))),
                _ => (false, Got::None),
            },
        }
    };
}

fn shapes<E: Shape>(depth: usize) {
    let log;
    macro_rules! both {
        ($m:ident, $op:ident) => {
            match choose(3) {
                0 => {
                    let (tx, rx) = $m::channel::<E>(1);
                    log = history::<E>(1, depth, $op!(tx, rx));
                    if choose(2) == 0 {
                        drop(tx);
                        drop(rx);
                    } else {
                        drop(rx);
                        drop(tx);
                    }
                }
                1 => {
                    let (tx, rx) = $m::channel::<E>(3);
                    log = history::<E>(3, depth, $op!(tx, rx));
                    drop(rx);
                    drop(tx);
                }
                _ => {
                    let (c, h) = home($m::StaticChannel::<E, 2>::new());
                    let (tx, rx) = c.split();
                    log = history::<E>(2, depth, $op!(tx, rx));
                    drop(tx);
                    drop(rx);
                    drop(h);
                }
            }
        };
    }
    match choose(5) {
        0 => {
            let cap = 1 + choose(3);
            let q = ThingBuf::<E>::new(cap);
            log = history::<E>(cap, depth, queue_op!(q));
            drop(q);
        }
        1 => {
            let (q, h) = home(StaticThingBuf::<E, 2>::new());
            log = history::<E>(2, depth, queue_op!(q));
            drop(h);
        }
        2 => both!(mpsc, chan_op),
        3 => both!(mpsc, async_op),
        _ => {
            #[cfg(feature = "tb_std")]
            both!(blocking, chan_op);
            #[cfg(not(feature = "tb_std"))]
            {
                log = String::new();
            }
        }
    }
    finish(log);
}

/// `fmt::Write` through the references: what is written is what is received.
fn written(depth: usize) {
    macro_rules! go {
        ($send:expr, $recv:expr) => {{
            let mut model: VecDeque<String> = VecDeque::new();
            let mut log = String::new();
            for k in 0..depth {
                match choose(3) {
                    0 => {
                        if let Some(mut r) = $send {
                            let m = format!("{}-{}", k, "x".repeat(k));
                            if write!(r, "{}-{}", k, "x".repeat(k)).is_err() {
                                violation("writing text into a reference failed");
                            }
                            model.push_back(m);
                            log.push('+');
                        } else if model.len() < 2 {
                            violation("refused");
                        }
                    }
                    1 => {
                        if let Some(mut r) = $send {
                            let _ = r.write_str("ab");
                            let _ = r.write_char('é');
                            model.push_back("abé".into());
                            log.push('*');
                        } else if model.len() < 2 {
                            violation("refused");
                        }
                    }
                    _ => match ($recv, model.pop_front()) {
                        (Some(mut r), Some(m)) => {
                            if *r != m {
                                violation(format!("received {:?} instead of {:?}", *r, m));
                            }
                            // a reference of the receiving side can be written as well
                            let _ = write!(r, "!");
                            if *r != format!("{}!", m) {
                                violation("writing text into a reference had another effect");
                            }
                            log.push('-');
                        }
                        (None, None) => {}
                        _ => violation("wrong answer of a receive"),
                    },
                }
            }
            outcome(|| log.clone());
        }};
    }
    match choose(5) {
        0 => {
            let q = ThingBuf::<String>::new(2);
            go!(q.push_ref().ok(), q.pop_ref());
        }
        1 => {
            let q = StaticThingBuf::<String, 2>::new();
            go!(q.push_ref().ok(), q.pop_ref());
        }
        2 => {
            let (tx, rx) = mpsc::channel::<String>(2);
            go!(tx.try_send_ref().ok(), rx.try_recv_ref().ok());
        }
        3 => {
            let (c, h) = home(mpsc::StaticChannel::<String, 2>::new());
            let (tx, rx) = c.split();
            go!(tx.try_send_ref().ok(), rx.try_recv_ref().ok());
            drop(tx);
            drop(rx);
            drop(h);
        }
        _ => {
            #[cfg(feature = "tb_std")]
            {
                let (tx, rx) = blocking::channel::<String>(2);
                go!(tx.try_send_ref().ok(), rx.try_recv_ref().ok());
            }
        }
    }
}

/// Timed operations on their own: they return when their time is up, whatever the duration.
#[cfg(feature = "tb_std")]
fn durations(fl: Fl) {
    use std::time::Duration;
    let all = [
        Duration::from_nanos(0),
        Duration::from_nanos(1),
        Duration::from_nanos(999),
        Duration::from_micros(1),
        Duration::from_nanos(999_999),
        Duration::from_millis(1),
        Duration::from_nanos(1_500_001),
        Duration::from_nanos(999_999_999),
        Duration::from_secs(1),
        Duration::from_nanos(1_000_000_001),
        Duration::from_nanos(59_999_999_999),
        Duration::from_secs(61),
        Duration::from_nanos((1 << 32) - 1),
        Duration::from_nanos((1 << 32) + 1),
        Duration::from_millis((1 << 32) + 1),
        Duration::from_secs(400 * 86400),
    ];
    let (home, tx, rx) = channel(fl, 1);
    let d = all[choose(all.len())];
    let op = choose(4);
    if op < 2 && tx.try_send(0x11).is_err() {
        violation("send failed");
    }
    // time may have passed when the operation is woken in vain
    let n = d.as_nanos() as u64;
    let later = [0, n / 3, n - n / 3, n.saturating_sub(1)][choose(4)];
    let h = spawn("other", move || sleep(later));
    let t0 = clock();
    let r = match op {
        0 => tx.send_timeout(0x12, d).map(|_| 0),
        1 => tx.send_ref_timeout(0x12, d).map(|_| 0),
        2 => rx.recv_timeout(d),
        _ => rx.recv_ref_timeout(d),
    };
    let dt = clock() - t0;
    if r != Err(E::Timeout) {
        violation(format!("wrong answer {:?} of a timed operation", r));
    }
    if dt as u128 != d.as_nanos() {
        violation(format!("an operation with a timeout of {:?} returned after {} ns", d, dt));
    }
    outcome(|| format!("{} {}", op, dt));
    h.join();
    drop(tx);
    drop(rx);
    drop(home);
}

/// Any number of senders, most of which come and go.
fn many_senders(fl: Fl, n: usize) {
    let (home, tx, rx) = channel(fl, 2);
    let keep = choose(2) == 1;
    solo();
    let all: Vec<Tx> = (0..n).map(|_| tx.clone()).collect();
    if rx.is_closed() {
        violation("closed although there are senders");
    }
    let mut all = all.into_iter();
    let last = if keep { all.next() } else { None };
    drop(all);
    match (rx.is_closed(), rx.try_recv()) {
        (false, Err(E::Empty)) => {}
        r => violation(format!("{:?} of an empty channel with senders", r)),
    }
    if tx.try_send(0x31).is_err() {
        violation("a send failed");
    }
    drop(tx);
    if let Some(l) = last {
        if rx.is_closed() {
            violation("closed although there is a sender");
        }
        if l.try_send(0x32).is_err() {
            violation("a send failed");
        }
        drop(l);
        if rx.recv() != Some(0x31) || rx.recv() != Some(0x32) {
            violation("wrong messages");
        }
    } else if rx.recv() != Some(0x31) {
        violation("wrong message");
    }
    if !rx.is_closed() || rx.recv().is_some() {
        violation("not closed although all senders are gone");
    }
    drop(rx);
    drop(home);
}

/// Printing a queue, a channel half, a reference or a future changes nothing and does not wait.
fn printed(depth: usize) {
    fn show(d: &dyn std::fmt::Debug) {
        let a = format!("{:?}", d);
        let b = format!("{:#?}", d);
        if a.is_empty() || b.is_empty() {
            violation("prints as nothing");
        }
    }
    macro_rules! queue {
        ($q:expr, $cap:expr) => {{
            let mut model: VecDeque<u32> = VecDeque::new();
            for k in 0..depth {
                let id = 0x21 + k as u32;
                match choose(3) {
                    0 => {
                        if let Ok(mut r) = $q.push_ref() {
                            show(&$q);
                            *r = id;
                            show(&r);
                            model.push_back(id);
                        } else if model.len() < $cap {
                            violation("refused");
                        }
                    }
                    1 => {
                        if $q.push(id).is_ok() != (model.len() < $cap) {
                            violation("wrong answer of a push");
                        }
                        if model.len() < $cap {
                            model.push_back(id);
                        }
                    }
                    _ => {
                        let r = $q.pop_ref();
                        if let Some(r) = &r {
                            show(&$q);
                            show(r);
                        }
                        if r.map(|r| *r) != model.pop_front() {
                            violation("wrong element");
                        }
                    }
                }
                show(&$q);
                if $q.len() != model.len() {
                    violation("wrong length");
                }
            }
        }};
    }
    macro_rules! chan {
        ($tx:expr, $rx:expr, $cap:expr, $poll:expr) => {{
            let mut model: VecDeque<u32> = VecDeque::new();
            for k in 0..depth {
                let id = 0x21 + k as u32;
                match choose(4) {
                    0 => match $tx.try_send_ref() {
                        Ok(mut r) => {
                            show(&$tx);
                            show(&$rx);
                            *r = id;
                            show(&r);
                            model.push_back(id);
                        }
                        Err(e) => {
                            show(&e);
                            if model.len() < $cap {
                                violation("refused");
                            }
                        }
                    },
                    1 => {
                        if $tx.try_send(id).is_ok() != (model.len() < $cap) {
                            violation("wrong answer of a send");
                        }
                        if model.len() < $cap {
                            model.push_back(id);
                        }
                    }
                    2 => {
                        let r = $rx.try_recv_ref();
                        show(&$rx);
                        show(&r);
                        if r.ok().map(|r| *r) != model.pop_front() {
                            violation("wrong message");
                        }
                    }
                    _ => $poll,
                }
                show(&$tx);
                show(&$rx);
            }
            // (the halves are printed with the other one gone as well)
            drop($rx);
            show(&$tx);
            if $tx.try_send(9).is_ok() {
                violation("sent to nobody");
            }
            drop($tx);
        }};
    }
    macro_rules! waits {
        ($tx:expr, $rx:expr) => {{
            // somebody waits while the halves are printed
            let (_w, w) = new_waker();
            let mut cx = std::task::Context::from_waker(&w);
            let mut s = Box::pin($tx.send_ref());
            let a = s.as_mut().poll(&mut cx).is_pending();
            show(&$tx);
            show(&$rx);
            if !a {
                // it got a slot and is dropped with the future's result: an empty message
                violation("unreachable");
            }
            drop(s);
        }};
    }
    match choose(5) {
        0 => {
            let q = ThingBuf::<u32>::new(2);
            queue!(q, 2)
        }
        1 => {
            let q = StaticThingBuf::<u32, 2>::new();
            queue!(q, 2)
        }
        2 => {
            let (tx, rx) = mpsc::channel::<u32>(1);
            chan!(tx, rx, 1, {
                if tx.try_send(0x7).is_err() {
                    waits!(tx, rx)
                } else {
                    let r = rx.try_recv();
                    if r != Ok(0x7) {
                        violation("wrong message");
                    }
                    let (_w, w) = new_waker();
                    let mut cx = std::task::Context::from_waker(&w);
                    let mut f = Box::pin(rx.recv());
                    if !f.as_mut().poll(&mut cx).is_pending() {
                        violation("received from an empty channel");
                    }
                    show(&rx);
                    show(&tx);
                    drop(f);
                }
            })
        }
        3 => {
            let (c, h) = home(mpsc::StaticChannel::<u32, 2>::new());
            let (tx, rx) = c.split();
            chan!(tx, rx, 2, {});
            drop(h);
        }
        _ => {
            #[cfg(feature = "tb_std")]
            if choose(2) == 0 {
                let (tx, rx) = blocking::channel::<u32>(2);
                chan!(tx, rx, 2, {})
            } else {
                let (c, h) = home(blocking::StaticChannel::<u32, 2>::new());
                let (tx, rx) = c.split();
                chan!(tx, rx, 2, {});
                drop(h);
            }
        }
    }
}

/// A queue or channel without capacity: construction is refused, or it never holds anything.
fn no_capacity() {
    macro_rules! queue {
        ($mk:expr) => {
            if let Ok(q) = catch_any(|| $mk) {
                for _ in 0..3 {
                    if q.capacity() != 0 || q.len() != 0 || !q.is_empty() || q.remaining() != 0 {
                        violation("a queue without capacity has a size");
                    }
                    if q.push(Val::new(3)).is_ok() || q.push_ref().is_ok() || q.pop().is_some() || q.pop_ref().is_some() {
                        violation("a queue without capacity held an element");
                    }
                }
            }
        };
    }
    macro_rules! chan {
        ($mk:expr) => {
            if let Ok((tx, rx)) = catch_any(|| $mk) {
                for _ in 0..3 {
                    if tx.try_send(Val::new(3)).is_ok() || tx.try_send_ref().is_ok() || rx.try_recv().is_ok() || rx.try_recv_ref().is_ok() {
                        violation("a channel without capacity held a message");
                    }
                }
            }
        };
    }
    match choose(8) {
        0 => queue!(ThingBuf::<Val>::new(0)),
        1 => queue!(ThingBuf::<Val, Pol>::with_recycle(0, Pol)),
        2 => queue!(StaticThingBuf::<Val, 0>::new()),
        3 => queue!(StaticThingBuf::<Val, 0, Pol>::with_recycle(Pol)),
        4 => chan!(mpsc::channel::<Val>(0)),
        5 => chan!(mpsc::with_recycle::<Val, Pol>(0, Pol)),
        k => {
            #[cfg(feature = "tb_std")]
            if k == 6 {
                chan!(blocking::channel::<Val>(0))
            } else {
                chan!(blocking::with_recycle::<Val, Pol>(0, Pol))
            }
            let _ = k;
        }
    }
}

/// Printing while others work: the printing thread must come back and disturb nobody.
fn printed_meanwhile(fl: usize) {
    if fl == 0 {
        let q = Arc::new(ThingBuf::<u32>::new(1));
        let q2 = q.clone();
        let h = spawn("printer", move || {
            let _ = format!("{:?}", q2);
        });
        if q.push(1).is_err() || q.pop() != Some(1) || q.push(2).is_err() || q.pop() != Some(2) {
            violation("wrong answer");
        }
        h.join();
    } else {
        let (tx, rx) = mpsc::channel::<u32>(1);
        let tx2 = tx.clone();
        let h = spawn("printer", move || {
            let _ = format!("{:?}", tx2);
        });
        let s = spawn("sender", move || {
            for i in 1..3 {
                if block_on(tx.send(i)).is_err() {
                    violation("a send failed");
                }
            }
        });
        if block_on(rx.recv()) != Some(1) || block_on(rx.recv()) != Some(2) {
            violation("wrong message");
        }
        s.join();
        h.join();
        if !rx.is_closed() {
            violation("not closed although all senders are gone");
        }
    }
}

pub fn register(v: &mut Vec<Scn>) {
    macro_rules! sh {
        ($t:ty, $n:expr, $q:expr, $d:expr) => {
            add(v, format!("e_{}", $n), &["P01", "P04", "P02"], &ONE, &[], || shapes::<$t>($q));
            add(v, format!("e_{}_deep", $n), &["P01", "P04", "P02"], &[], &ONE, || shapes::<$t>($d));
        };
    }
    sh!(Token, "zero_sized", 6, 8);
    sh!(Aligned, "aligned", 6, 8);
    sh!(Large, "large", 5, 7);
    sh!(Byte, "byte", 6, 8);
    sh!(Boxed, "boxed", 6, 8);
    sh!(u64, "plain", 6, 8);
    sh!((), "unit", 6, 8);
    add(v, "e_written_text", &["P01", "P06"], &ONE, &ONE, || written(7));
    add(v, "e_no_capacity", &["P01", "P02", "P04", "P15"], &ONE, &ONE, no_capacity);
    add(v, "e_printed", &["P01", "P07", "P14"], &ONE, &[], || printed(5));
    add(v, "e_printed_deep", &["P01", "P07", "P14"], &[], &ONE, || printed(7));
    add(v, "e_printed_queue", &["P01", "P03"], &[b(2, 0, 0, 0, 0)], &[b(3, 1, 1, 0, 0)], || printed_meanwhile(0));
    add(v, "e_printed_channel", &["P07", "P03", "P08", "P10"], &[b(1, 0, 0, 0, 0)], &[b(2, 1, 1, 0, 0)], || printed_meanwhile(1));
    for fl in flavours() {
        add(v, format!("e_many_senders_{}", fl.tag()), &["P10", "P11"], &ONE, &ONE, move || {
            many_senders(fl, [254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537][choose(8)])
        });
        #[cfg(feature = "tb_std")]
        if !fl.is_async() {
            add(v, format!("t_durations_{}", fl.tag()), &["P13"], &[b(0, 0, 0, 1, 0)], &[b(0, 0, 0, 2, 0)], move || durations(fl));
        }
    }
}
