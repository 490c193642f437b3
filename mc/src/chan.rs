//! Uniform access to every queue and channel flavour, with the monitors built in.
use crate::engine::api::*;
use crate::val::{hold, Val};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use thingbuf::mpsc::{self, errors::*};
#[cfg(feature = "tb_std")]
use thingbuf::mpsc::blocking;
#[cfg(feature = "tb_std")]
use std::time::Duration;
use thingbuf::{StaticThingBuf, ThingBuf};

// ------------------------------------------------------------------ executor

/// Run a future to completion on this thread (one task, one waker).
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let (id, w) = new_waker();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(r) = lib(|| f.as_mut().poll(&mut cx)) {
            return r;
        }
        id.wait();
    }
}

/// Like `block_on`, but uses a fresh waker for every poll (as `select!`-style combinators do) and
/// insists on being woken through the latest one.
pub fn block_on_fresh<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    loop {
        let (id, w) = new_waker();
        let mut cx = Context::from_waker(&w);
        if let Poll::Ready(r) = lib(|| f.as_mut().poll(&mut cx)) {
            return r;
        }
        id.wait();
    }
}

pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>, w: &std::task::Waker) -> Poll<F::Output> {
    let mut cx = Context::from_waker(w);
    lib(|| f.poll(&mut cx))
}

// ------------------------------------------------------------------ queues

pub enum Q {
    H(ThingBuf<Val>),
    S1(StaticThingBuf<Val, 1>),
    S2(StaticThingBuf<Val, 2>),
    S3(StaticThingBuf<Val, 3>),
    S4(StaticThingBuf<Val, 4>),
    S9(StaticThingBuf<Val, 9>),
}

macro_rules! q {
    ($s:expr, $q:ident => $e:expr) => {
        match $s {
            Q::H($q) => $e,
            Q::S1($q) => $e,
            Q::S2($q) => $e,
            Q::S3($q) => $e,
            Q::S4($q) => $e,
            Q::S9($q) => $e,
        }
    };
}

pub type QRef<'a> = thingbuf::Ref<'a, Val>;

impl Q {
    pub fn new(stat: bool, cap: usize) -> Q {
        if !stat {
            return Q::H(ThingBuf::new(cap));
        }
        match cap {
            1 => Q::S1(lib(StaticThingBuf::new)),
            2 => Q::S2(lib(StaticThingBuf::new)),
            3 => Q::S3(lib(StaticThingBuf::new)),
            4 => Q::S4(lib(StaticThingBuf::new)),
            9 => Q::S9(lib(StaticThingBuf::new)),
            _ => panic!("no such static capacity"),
        }
    }
    /// Ok, or the value handed back
    pub fn push(&self, id: u32) -> Result<(), ()> {
        let v = Val::new(id);
        let inst = v.inst();
        lib(|| q!(self, q => q.push(v))).map_err(|e| {
            let v = e.into_inner();
            if v.id() != id || v.inst() != inst {
                violation(format!("refused push of {:#x} handed back {:?}", id, v));
            }
        })
    }
    pub fn push_ref(&self) -> Result<QRef<'_>, ()> {
        lib(|| q!(self, q => q.push_ref())).map_err(|_| ())
    }
    pub fn push_with<U>(&self, f: impl FnOnce(&mut Val) -> U) -> Result<U, ()> {
        lib(|| q!(self, q => q.push_with(f))).map_err(|_| ())
    }
    pub fn pop(&self) -> Option<Val> {
        lib(|| q!(self, q => q.pop()))
    }
    pub fn pop_ref(&self) -> Option<QRef<'_>> {
        lib(|| q!(self, q => q.pop_ref()))
    }
    pub fn pop_with<U>(&self, f: impl FnOnce(&mut Val) -> U) -> Option<U> {
        lib(|| q!(self, q => q.pop_with(f)))
    }
    pub fn len(&self) -> usize {
        lib(|| q!(self, q => q.len()))
    }
    pub fn is_empty(&self) -> bool {
        lib(|| q!(self, q => q.is_empty()))
    }
    pub fn remaining(&self) -> usize {
        lib(|| q!(self, q => q.remaining()))
    }
    pub fn capacity(&self) -> usize {
        lib(|| q!(self, q => q.capacity()))
    }
}

// ------------------------------------------------------------------ channels

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fl {
    A,
    SA,
    B,
    SB,
}

impl Fl {
    pub fn tag(self) -> &'static str {
        match self {
            Fl::A => "async",
            Fl::SA => "async_static",
            Fl::B => "blocking",
            Fl::SB => "blocking_static",
        }
    }
    pub fn is_async(self) -> bool {
        matches!(self, Fl::A | Fl::SA)
    }
    pub fn is_static(self) -> bool {
        matches!(self, Fl::SA | Fl::SB)
    }
}

/// Flavours available in this build.
pub fn flavours() -> Vec<Fl> {
    if cfg!(feature = "tb_std") {
        vec![Fl::A, Fl::B, Fl::SA, Fl::SB]
    } else {
        vec![Fl::A, Fl::SA]
    }
}

pub enum Tx {
    A(mpsc::Sender<Val>),
    SA(mpsc::StaticSender<Val>),
    #[cfg(feature = "tb_std")]
    B(blocking::Sender<Val>),
    #[cfg(feature = "tb_std")]
    SB(blocking::StaticSender<Val>),
}

pub enum Rx {
    A(mpsc::Receiver<Val>),
    SA(mpsc::StaticReceiver<Val>),
    #[cfg(feature = "tb_std")]
    B(blocking::Receiver<Val>),
    #[cfg(feature = "tb_std")]
    SB(blocking::StaticReceiver<Val>),
}

/// Owns the memory of a static channel; drop it last.
pub struct Home(Option<(*mut (), unsafe fn(*mut ()))>);
impl Drop for Home {
    fn drop(&mut self) {
        if let Some((p, f)) = self.0.take() {
            unsafe { f(p) }
        }
    }
}
unsafe fn drop_box<T>(p: *mut ()) {
    drop(Box::from_raw(p as *mut T))
}
pub fn home<T>(t: T) -> (&'static T, Home) {
    let p = Box::into_raw(Box::new(t));
    (unsafe { &*p }, Home(Some((p as *mut (), drop_box::<T>))))
}

pub fn channel(f: Fl, cap: usize) -> (Home, Tx, Rx) {
    macro_rules! stat {
        ($m:ident, $v:ident) => {{
            macro_rules! one {
                ($n:expr) => {{
                    let (c, h) = home($m::StaticChannel::<Val, $n>::new());
                    let (t, r) = lib(|| c.split());
                    (h, Tx::$v(t), Rx::$v(r))
                }};
            }
            match cap {
                1 => one!(1),
                2 => one!(2),
                3 => one!(3),
                4 => one!(4),
                5 => one!(5),
                8 => one!(8),
                33 => one!(33),
                _ => panic!("no such static capacity"),
            }
        }};
    }
    match f {
        Fl::A => {
            let (t, r) = mpsc::channel(cap);
            (Home(None), Tx::A(t), Rx::A(r))
        }
        Fl::SA => stat!(mpsc, SA),
        #[cfg(feature = "tb_std")]
        Fl::B => {
            let (t, r) = blocking::channel(cap);
            (Home(None), Tx::B(t), Rx::B(r))
        }
        #[cfg(feature = "tb_std")]
        Fl::SB => stat!(blocking, SB),
        #[cfg(not(feature = "tb_std"))]
        _ => panic!("flavour not available"),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E {
    Full,
    Empty,
    Timeout,
    Closed,
}

fn back(v: Val, id: u32, inst: usize) {
    if v.id() != id || v.inst() != inst {
        violation(format!("failed send of {:#x} handed back {:?}", id, v));
    }
}

fn try_send_err<T>(e: &TrySendError<T>) -> E {
    let k = match e {
        TrySendError::Full(_) => E::Full,
        TrySendError::Closed(_) => E::Closed,
        _ => violation("unknown TrySendError"),
    };
    if e.is_full() != (k == E::Full) || e.is_closed() != (k == E::Closed) {
        violation(format!("TrySendError {:?} is classified is_full={} is_closed={}", k, e.is_full(), e.is_closed()));
    }
    k
}
#[cfg(feature = "tb_std")]
fn send_timeout_err<T>(e: &SendTimeoutError<T>) -> E {
    let k = match e {
        SendTimeoutError::Timeout(_) => E::Timeout,
        SendTimeoutError::Closed(_) => E::Closed,
        _ => violation("unknown SendTimeoutError"),
    };
    if e.is_timeout() != (k == E::Timeout) || e.is_closed() != (k == E::Closed) {
        violation(format!("SendTimeoutError {:?} is classified is_timeout={} is_closed={}", k, e.is_timeout(), e.is_closed()));
    }
    k
}
fn try_recv_err(e: TryRecvError) -> E {
    match e {
        TryRecvError::Empty => E::Empty,
        TryRecvError::Closed => E::Closed,
        _ => violation("unknown TryRecvError"),
    }
}

/// What a write reference is used for: check it, write, give others a chance, check again.
pub fn fill(v: &mut Val, id: u32) {
    let h = hold(v);
    v.check_granted();
    v.set(id);
    step();
    if v.id() != id {
        violation("element changed while a write reference was held");
    }
    drop(h);
}

pub fn drain_ref(v: &mut Val) -> u32 {
    let h = hold(v);
    let id = v.id();
    step();
    if v.id() != id {
        violation("element changed while a read reference was held");
    }
    drop(h);
    id
}

impl Clone for Tx {
    fn clone(&self) -> Tx {
        match self {
            Tx::A(t) => Tx::A(lib(|| t.clone())),
            Tx::SA(t) => Tx::SA(lib(|| t.clone())),
            #[cfg(feature = "tb_std")]
            Tx::B(t) => Tx::B(lib(|| t.clone())),
            #[cfg(feature = "tb_std")]
            Tx::SB(t) => Tx::SB(lib(|| t.clone())),
        }
    }
}

impl Tx {
    /// Waiting send by value.
    pub fn send(&self, id: u32) -> Result<(), E> {
        let v = Val::new(id);
        let inst = v.inst();
        let r = match self {
            Tx::A(t) => block_on(t.send(v)),
            Tx::SA(t) => block_on(t.send(v)),
            #[cfg(feature = "tb_std")]
            Tx::B(t) => lib(|| t.send(v)),
            #[cfg(feature = "tb_std")]
            Tx::SB(t) => lib(|| t.send(v)),
        };
        r.map_err(|e| {
            back(e.into_inner(), id, inst);
            E::Closed
        })
    }
    /// Waiting send in place.
    pub fn send_ref(&self, id: u32) -> Result<(), E> {
        let r = match self {
            Tx::A(t) => block_on(t.send_ref()).map(|mut s| lib(move || fill(&mut s, id))),
            Tx::SA(t) => block_on(t.send_ref()).map(|mut s| lib(move || fill(&mut s, id))),
            #[cfg(feature = "tb_std")]
            Tx::B(t) => lib(|| t.send_ref().map(|mut s| fill(&mut s, id))),
            #[cfg(feature = "tb_std")]
            Tx::SB(t) => lib(|| t.send_ref().map(|mut s| fill(&mut s, id))),
        };
        r.map_err(|_| E::Closed)
    }
    pub fn try_send(&self, id: u32) -> Result<(), E> {
        let v = Val::new(id);
        let inst = v.inst();
        let r = match self {
            Tx::A(t) => lib(|| t.try_send(v)),
            Tx::SA(t) => lib(|| t.try_send(v)),
            #[cfg(feature = "tb_std")]
            Tx::B(t) => lib(|| t.try_send(v)),
            #[cfg(feature = "tb_std")]
            Tx::SB(t) => lib(|| t.try_send(v)),
        };
        r.map_err(|e| {
            let k = try_send_err(&e);
            back(e.into_inner(), id, inst);
            k
        })
    }
    pub fn try_send_ref(&self, id: u32) -> Result<(), E> {
        let r = match self {
            Tx::A(t) => lib(|| t.try_send_ref().map(|mut s| fill(&mut s, id))),
            Tx::SA(t) => lib(|| t.try_send_ref().map(|mut s| fill(&mut s, id))),
            #[cfg(feature = "tb_std")]
            Tx::B(t) => lib(|| t.try_send_ref().map(|mut s| fill(&mut s, id))),
            #[cfg(feature = "tb_std")]
            Tx::SB(t) => lib(|| t.try_send_ref().map(|mut s| fill(&mut s, id))),
        };
        r.map_err(|e| try_send_err(&e))
    }
    /// A write reference whose publication is left to the caller (who passes the message).
    pub fn try_send_ref_guard<'a>(&'a self) -> Result<Box<dyn FnOnce(u32) + 'a>, E> {
        macro_rules! go {
            ($e:expr) => {
                $e.map_err(|e| try_send_err(&e)).map(|mut v| {
                    v.check_granted();
                    let h = hold(&v);
                    let b: Box<dyn FnOnce(u32) + 'a> = user(|| Box::new(move |id| {
                        v.set(id);
                        drop(h);
                        lib(move || drop(v))
                    }));
                    b
                })
            };
        }
        match self {
            Tx::A(r) => go!(lib(|| r.try_send_ref())),
            Tx::SA(r) => go!(lib(|| r.try_send_ref())),
            #[cfg(feature = "tb_std")]
            Tx::B(r) => go!(lib(|| r.try_send_ref())),
            #[cfg(feature = "tb_std")]
            Tx::SB(r) => go!(lib(|| r.try_send_ref())),
        }
    }
    #[cfg(feature = "tb_std")]
    pub fn send_timeout(&self, id: u32, d: Duration) -> Result<(), E> {
        let v = Val::new(id);
        let inst = v.inst();
        let r = match self {
            Tx::B(t) => lib(|| t.send_timeout(v, d)),
            Tx::SB(t) => lib(|| t.send_timeout(v, d)),
            _ => panic!("no timed send"),
        };
        r.map_err(|e| {
            let k = send_timeout_err(&e);
            back(e.into_inner(), id, inst);
            k
        })
    }
    #[cfg(feature = "tb_std")]
    pub fn send_ref_timeout(&self, id: u32, d: Duration) -> Result<(), E> {
        let r = match self {
            Tx::B(t) => lib(|| t.send_ref_timeout(d).map(|mut s| fill(&mut s, id))),
            Tx::SB(t) => lib(|| t.send_ref_timeout(d).map(|mut s| fill(&mut s, id))),
            _ => panic!("no timed send"),
        };
        r.map_err(|e| send_timeout_err(&e))
    }
    /// A boxed pending-able send (async flavours).
    pub fn send_fut<'a>(&'a self, id: u32) -> Pin<Box<dyn Future<Output = Result<(), E>> + 'a>> {
        let v = Val::new(id);
        let inst = v.inst();
        let m = move |e: Closed<Val>| {
            back(e.into_inner(), id, inst);
            E::Closed
        };
        match self {
            Tx::A(t) => Box::pin(async move { t.send(v).await.map_err(m) }),
            Tx::SA(t) => Box::pin(async move { t.send(v).await.map_err(m) }),
            #[cfg(feature = "tb_std")]
            _ => panic!("not async"),
        }
    }
    pub fn send_ref_fut<'a>(&'a self, id: u32) -> Pin<Box<dyn Future<Output = Result<(), E>> + 'a>> {
        match self {
            Tx::A(t) => Box::pin(async move { t.send_ref().await.map(|mut s| fill(&mut s, id)).map_err(|_| E::Closed) }),
            Tx::SA(t) => Box::pin(async move { t.send_ref().await.map(|mut s| fill(&mut s, id)).map_err(|_| E::Closed) }),
            #[cfg(feature = "tb_std")]
            _ => panic!("not async"),
        }
    }
}

impl Rx {
    pub fn recv(&self) -> Option<u32> {
        let v = match self {
            Rx::A(r) => block_on(r.recv()),
            Rx::SA(r) => block_on(r.recv()),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => lib(|| r.recv()),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => lib(|| r.recv()),
        };
        v.map(|v| v.id())
    }
    pub fn recv_ref(&self) -> Option<u32> {
        match self {
            Rx::A(r) => block_on(r.recv_ref()).map(|mut v| lib(move || drain_ref(&mut v))),
            Rx::SA(r) => block_on(r.recv_ref()).map(|mut v| lib(move || drain_ref(&mut v))),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => lib(|| r.recv_ref().map(|mut v| drain_ref(&mut v))),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => lib(|| r.recv_ref().map(|mut v| drain_ref(&mut v))),
        }
    }
    pub fn try_recv(&self) -> Result<u32, E> {
        let v = match self {
            Rx::A(r) => lib(|| r.try_recv()),
            Rx::SA(r) => lib(|| r.try_recv()),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => lib(|| r.try_recv()),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => lib(|| r.try_recv()),
        };
        v.map(|v| v.id()).map_err(try_recv_err)
    }
    pub fn try_recv_ref(&self) -> Result<u32, E> {
        match self {
            Rx::A(r) => lib(|| r.try_recv_ref().map(|mut v| drain_ref(&mut v))).map_err(try_recv_err),
            Rx::SA(r) => lib(|| r.try_recv_ref().map(|mut v| drain_ref(&mut v))).map_err(try_recv_err),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => lib(|| r.try_recv_ref().map(|mut v| drain_ref(&mut v))).map_err(try_recv_err),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => lib(|| r.try_recv_ref().map(|mut v| drain_ref(&mut v))).map_err(try_recv_err),
        }
    }
    #[cfg(feature = "tb_std")]
    pub fn recv_timeout(&self, d: Duration) -> Result<u32, E> {
        let v = match self {
            Rx::B(r) => lib(|| r.recv_timeout(d)),
            Rx::SB(r) => lib(|| r.recv_timeout(d)),
            _ => panic!("no timed receive"),
        };
        v.map(|v| v.id()).map_err(|e| match e {
            RecvTimeoutError::Timeout => E::Timeout,
            RecvTimeoutError::Closed => E::Closed,
            _ => violation("unknown RecvTimeoutError"),
        })
    }
    #[cfg(feature = "tb_std")]
    pub fn recv_ref_timeout(&self, d: Duration) -> Result<u32, E> {
        let m = |e| match e {
            RecvTimeoutError::Timeout => E::Timeout,
            RecvTimeoutError::Closed => E::Closed,
            _ => violation("unknown RecvTimeoutError"),
        };
        match self {
            Rx::B(r) => lib(|| r.recv_ref_timeout(d).map(|mut v| drain_ref(&mut v))).map_err(m),
            Rx::SB(r) => lib(|| r.recv_ref_timeout(d).map(|mut v| drain_ref(&mut v))).map_err(m),
            _ => panic!("no timed receive"),
        }
    }
    /// Iterator entry point (blocking flavours).
    #[cfg(feature = "tb_std")]
    pub fn next(&self) -> Option<u32> {
        match self {
            Rx::B(r) => {
                let mut it = r;
                lib(|| Iterator::next(&mut it).map(|mut v| drain_ref(&mut v)))
            }
            Rx::SB(r) => {
                let mut it = r;
                lib(|| Iterator::next(&mut it).map(|mut v| drain_ref(&mut v)))
            }
            _ => panic!("no iterator"),
        }
    }
    /// One poll (async flavours).
    pub fn poll_recv(&self, w: &std::task::Waker) -> Poll<Option<u32>> {
        let mut cx = Context::from_waker(w);
        match self {
            Rx::A(r) => lib(|| r.poll_recv(&mut cx).map(|o| o.map(|v| v.id()))),
            Rx::SA(r) => lib(|| r.poll_recv(&mut cx).map(|o| o.map(|v| v.id()))),
            #[cfg(feature = "tb_std")]
            _ => panic!("not async"),
        }
    }
    pub fn poll_recv_ref(&self, w: &std::task::Waker) -> Poll<Option<u32>> {
        let mut cx = Context::from_waker(w);
        match self {
            Rx::A(r) => lib(|| r.poll_recv_ref(&mut cx).map(|o| o.map(|mut v| drain_ref(&mut v)))),
            Rx::SA(r) => lib(|| r.poll_recv_ref(&mut cx).map(|o| o.map(|mut v| drain_ref(&mut v)))),
            #[cfg(feature = "tb_std")]
            _ => panic!("not async"),
        }
    }
    pub fn recv_fut<'a>(&'a self) -> Pin<Box<dyn Future<Output = Option<u32>> + 'a>> {
        match self {
            Rx::A(r) => Box::pin(async move { r.recv().await.map(|v| v.id()) }),
            Rx::SA(r) => Box::pin(async move { r.recv().await.map(|v| v.id()) }),
            #[cfg(feature = "tb_std")]
            _ => panic!("not async"),
        }
    }
    /// Obtain `n` receive references one after the other, hold them together, release them
    /// (in reverse order if `rev`); ends early at the end of the stream.
    pub fn hold_refs(&self, n: usize, rev: bool, got: &mut dyn FnMut(u32), done: &mut dyn FnMut(u32)) -> bool {
        macro_rules! go {
            ($e:expr) => {{
                let mut refs = Vec::new();
                let mut end = false;
                for _ in 0..n {
                    match $e {
                        Some(v) => {
                            let h = hold(&v);
                            let id = v.id();
                            got(id);
                            refs.push((h, v, id));
                        }
                        None => {
                            end = true;
                            break;
                        }
                    }
                }
                step();
                while !refs.is_empty() {
                    let (h, v, id) = if rev { refs.pop().unwrap() } else { refs.remove(0) };
                    if v.id() != id {
                        violation("element changed while a read reference was held");
                    }
                    drop(h);
                    lib(move || drop(v));
                    done(id);
                }
                end
            }};
        }
        match self {
            Rx::A(r) => go!(block_on(r.recv_ref())),
            Rx::SA(r) => go!(block_on(r.recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => go!(lib(|| r.recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => go!(lib(|| r.recv_ref())),
        }
    }
    /// A receive reference whose release is left to the caller.
    pub fn recv_ref_guard<'a>(&'a self) -> Option<(u32, Box<dyn FnOnce() + 'a>)> {
        macro_rules! go {
            ($e:expr) => {
                $e.map(|v| {
                    let h = hold(&v);
                    let id = v.id();
                    let b: Box<dyn FnOnce() + 'a> = user(|| Box::new(move || {
                        if v.id() != id {
                            violation("element changed while a read reference was held");
                        }
                        drop(h);
                        lib(move || drop(v))
                    }));
                    (id, b)
                })
            };
        }
        match self {
            Rx::A(r) => go!(block_on(r.recv_ref())),
            Rx::SA(r) => go!(block_on(r.recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => go!(lib(|| r.recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => go!(lib(|| r.recv_ref())),
        }
    }
    pub fn try_recv_ref_guard<'a>(&'a self) -> Result<(u32, Box<dyn FnOnce() + 'a>), E> {
        macro_rules! go {
            ($e:expr) => {
                $e.map_err(try_recv_err).map(|v| {
                    let h = hold(&v);
                    let id = v.id();
                    let b: Box<dyn FnOnce() + 'a> = user(|| Box::new(move || {
                        if v.id() != id {
                            violation("element changed while a read reference was held");
                        }
                        drop(h);
                        lib(move || drop(v))
                    }));
                    (id, b)
                })
            };
        }
        match self {
            Rx::A(r) => go!(lib(|| r.try_recv_ref())),
            Rx::SA(r) => go!(lib(|| r.try_recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => go!(lib(|| r.try_recv_ref())),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => go!(lib(|| r.try_recv_ref())),
        }
    }
    pub fn is_closed(&self) -> bool {
        match self {
            Rx::A(r) => lib(|| r.is_closed()),
            Rx::SA(r) => lib(|| r.is_closed()),
            #[cfg(feature = "tb_std")]
            Rx::B(r) => lib(|| r.is_closed()),
            #[cfg(feature = "tb_std")]
            Rx::SB(r) => lib(|| r.is_closed()),
        }
    }
}
