//! Several channels used together: pipelines, rings, request and reply, one task waiting on several.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use thingbuf::mpsc;
#[cfg(feature = "tb_std")]
use thingbuf::mpsc::blocking;

fn sent(r: Result<(), E>) {
    if let Err(e) = r {
        violation(format!("a send failed although the receiver is there: {:?}", e));
    }
}
fn expect(what: &str, got: Option<u32>, want: Option<u32>) {
    if got != want {
        violation(format!("{}: received {:x?} instead of {:x?}", what, got, want));
    }
}

/// A message goes there and an answer comes back, over two channels.
fn ping_pong(f1: Fl, f2: Fl, rounds: u32) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    let peer = spawn("peer", move || {
        let mut n = 0;
        loop {
            let x = if n % 2 == 0 { rx1.recv_ref() } else { rx1.recv() };
            let Some(x) = x else { break };
            sent(if n % 2 == 0 { tx2.send(x + 0x100) } else { tx2.send_ref(x + 0x100) });
            n += 1;
        }
        n
    });
    for r in 1..=rounds {
        sent(if r % 2 == 0 { tx1.send_ref(r) } else { tx1.send(r) });
        expect("answer", if r % 2 == 0 { rx2.recv_ref() } else { rx2.recv() }, Some(r + 0x100));
    }
    drop(tx1);
    expect("end of answers", rx2.recv(), None);
    if peer.join() != rounds {
        violation("the peer did not see every message");
    }
    drop(rx2);
    drop((h1, h2));
}

/// source -> relay -> sink; the relay keeps its reference while it waits to pass the message on.
fn relay(f1: Fl, f2: Fl, msgs: u32, sink_leaves: Option<u32>) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    let source = spawn("source", move || {
        let mut n = 0;
        for i in 1..=msgs {
            if (if i % 2 == 0 { tx1.send(i) } else { tx1.send_ref(i) }).is_err() {
                break;
            }
            n += 1;
        }
        n
    });
    let relay = spawn("relay", move || {
        let mut n = 0;
        while let Some((id, release)) = rx1.recv_ref_guard() {
            let r = if n % 2 == 0 { tx2.send_ref(id) } else { tx2.send(id) };
            release();
            if r.is_err() {
                break;
            }
            n += 1;
        }
        n
    });
    let take = sink_leaves.unwrap_or(msgs);
    for i in 1..=take {
        expect("sink", if i % 2 == 0 { rx2.recv() } else { rx2.recv_ref() }, Some(i));
    }
    if sink_leaves.is_none() {
        expect("end of the pipeline", rx2.recv(), None);
    }
    drop(rx2);
    let (s, r) = (source.join(), relay.join());
    if r < take || s < r || (sink_leaves.is_none() && (s != msgs || r != msgs)) {
        violation(format!("{} messages were sent, {} passed on, {} received", s, r, take));
    }
    outcome(|| format!("{} {}", s, r));
    drop((h1, h2));
}

/// A token that travels through a ring of threads until it has gone round `rounds` times.
fn ring(fl: [Fl; 3], rounds: u32) {
    let (h0, tx0, rx0) = channel(fl[0], 1);
    let (h1, tx1, rx1) = channel(fl[1], 1);
    let (h2, tx2, rx2) = channel(fl[2], 1);
    let a = spawn("a", move || {
        while let Some(x) = rx0.recv() {
            sent(tx1.send(x + 1));
        }
    });
    let c = spawn("b", move || {
        while let Some(x) = rx1.recv_ref() {
            sent(tx2.send_ref(x + 1));
        }
    });
    let mut x = 1;
    for _ in 0..rounds {
        sent(tx0.send(x));
        expect("token", rx2.recv(), Some(x + 2));
        x += 3;
    }
    drop(tx0);
    expect("end of the ring", rx2.recv(), None);
    a.join();
    c.join();
    drop(rx2);
    drop((h0, h1, h2));
}

/// One thread takes messages from two channels in turn.
fn two_sources(f1: Fl, f2: Fl) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    let a = spawn("a", move || {
        sent(tx1.send(1));
        sent(tx1.send_ref(2));
    });
    let c = spawn("b", move || {
        sent(tx2.send_ref(0x11));
        sent(tx2.send(0x12));
    });
    expect("first", rx1.recv(), Some(1));
    expect("second", rx2.recv_ref(), Some(0x11));
    expect("first", rx1.recv_ref(), Some(2));
    expect("second", rx2.recv(), Some(0x12));
    expect("first", rx1.recv(), None);
    expect("second", rx2.recv(), None);
    a.join();
    c.join();
    drop((rx1, rx2));
    drop((h1, h2));
}

/// Two threads that are each other's sender and receiver, over channels of capacity 1.
fn crossing(f1: Fl, f2: Fl) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    let a = spawn("a", move || {
        sent(tx1.send(1));
        expect("a", rx2.recv(), Some(0x11));
        sent(tx1.send_ref(2));
        drop(tx1);
        expect("a", rx2.recv_ref(), Some(0x12));
        expect("a", rx2.recv(), None);
    });
    sent(tx2.send_ref(0x11));
    expect("b", rx1.recv_ref(), Some(1));
    sent(tx2.send(0x12));
    drop(tx2);
    expect("b", rx1.recv(), Some(2));
    expect("b", rx1.recv(), None);
    a.join();
    drop(rx1);
    drop((h1, h2));
}

/// The receiver makes room in one channel and then waits for something on another, which comes only
/// after the room was used.
fn credit(f1: Fl, f2: Fl) {
    let (h1, tx1, rx1) = channel(f1, 2);
    let (h2, tx2, rx2) = channel(f2, 1);
    let a = spawn("a", move || {
        for i in 1..=3 {
            sent(if i % 2 == 0 { tx1.send(i) } else { tx1.send_ref(i) });
        }
        sent(tx2.send(0x11));
        for i in 4..=5 {
            sent(if i % 2 == 0 { tx1.send(i) } else { tx1.send_ref(i) });
        }
        sent(tx2.send_ref(0x12));
    });
    expect("b", rx1.recv(), Some(1));
    expect("credit", rx2.recv(), Some(0x11));
    expect("b", rx1.recv_ref(), Some(2));
    expect("b", rx1.recv(), Some(3));
    expect("credit", rx2.recv_ref(), Some(0x12));
    expect("b", rx1.recv(), Some(4));
    expect("b", rx1.recv_ref(), Some(5));
    expect("b", rx1.recv(), None);
    expect("credit", rx2.recv(), None);
    a.join();
    drop((rx1, rx2));
    drop((h1, h2));
}

/// The receiver travels to another thread through a channel, after having waited here.
fn handover(f: Fl) {
    let (h, tx, rx) = channel(f, 1);
    let slot = std::rc::Rc::new(std::cell::RefCell::new(None));
    let s2 = slot.clone();
    let (hc, ctx, crx) = channel(f, 1);
    let a = spawn("a", move || {
        for i in 1..=3 {
            sent(if i % 2 == 0 { tx.send(i) } else { tx.send_ref(i) });
        }
    });
    let c = spawn("b", move || {
        expect("notice", crx.recv(), Some(7));
        let rx: Rx = s2.borrow_mut().take().unwrap();
        expect("b", rx.recv_ref(), Some(2));
        expect("b", rx.recv(), Some(3));
        expect("b", rx.recv(), None);
    });
    expect("main", rx.recv(), Some(1));
    if f.is_async() {
        // leaves its waker behind
        let (id, w) = new_waker();
        if let Poll::Ready(x) = rx.poll_recv(&w) {
            // too fast: the message is taken here
            expect("main", x, Some(2));
            *slot.borrow_mut() = None;
            drop((id, w));
            expect("main", rx.recv(), Some(3));
            expect("main", rx.recv(), None);
            // the other thread gets a channel that says the same
            let (h3, tx3, rx3) = channel(f, 2);
            sent(tx3.try_send(2));
            sent(tx3.try_send(3));
            drop(tx3);
            *slot.borrow_mut() = Some(rx3);
            sent(ctx.send(7));
            drop(ctx);
            a.join();
            c.join();
            drop(rx);
            drop((h, hc, h3));
            return;
        }
    }
    *slot.borrow_mut() = Some(rx);
    sent(ctx.send(7));
    drop(ctx);
    a.join();
    c.join();
    drop((h, hc));
}

/// One task waits for whichever of two channels has something, with one waker or a new one each time.
fn select(f1: Fl, f2: Fl, fresh: bool) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    let a = spawn("a", move || {
        sent(tx1.send(1));
        sent(tx1.send_ref(2));
    });
    let c = spawn("b", move || {
        sent(tx2.send_ref(0x11));
        drop(tx2);
    });
    let mut got = Vec::new();
    let mut open = [true; 2];
    let mut w = new_waker();
    while open[0] || open[1] {
        let mut any = false;
        for (k, rx) in [&rx1, &rx2].into_iter().enumerate() {
            if !open[k] {
                continue;
            }
            match if got.len() % 2 == 0 { rx.poll_recv(&w.1) } else { rx.poll_recv_ref(&w.1) } {
                Poll::Ready(Some(x)) => {
                    got.push(x);
                    any = true;
                }
                Poll::Ready(None) => {
                    open[k] = false;
                    any = true;
                }
                Poll::Pending => {}
            }
        }
        if !any {
            w.0.wait();
            if fresh {
                w = new_waker();
            }
        }
    }
    let ones: Vec<u32> = got.iter().copied().filter(|x| *x < 0x10).collect();
    let twos: Vec<u32> = got.iter().copied().filter(|x| *x > 0x10).collect();
    if ones != [1, 2] || twos != [0x11] {
        violation(format!("received {:x?}", got));
    }
    outcome(|| format!("{:x?}", got));
    a.join();
    c.join();
    drop((rx1, rx2));
    drop((h1, h2));
}

/// Polls several futures with one waker until all are done.
fn join_all(mut fs: Vec<Option<Pin<Box<dyn Future<Output = ()> + '_>>>>) {
    let (id, w) = new_waker();
    let mut cx = Context::from_waker(&w);
    loop {
        let mut left = false;
        for f in fs.iter_mut() {
            if let Some(g) = f {
                if lib(|| g.as_mut().poll(&mut cx)).is_ready() {
                    *f = None;
                } else {
                    left = true;
                }
            }
        }
        if !left {
            return;
        }
        id.wait();
    }
}

/// One task joins sends to two full channels.
fn join_sends(f1: Fl, f2: Fl) {
    let (h1, tx1, rx1) = channel(f1, 1);
    let (h2, tx2, rx2) = channel(f2, 1);
    sent(tx1.try_send(1));
    sent(tx2.try_send(0x11));
    let a = spawn("a", move || {
        expect("a", rx1.recv_ref(), Some(1));
        expect("a", rx1.recv(), Some(2));
        expect("a", rx1.recv(), None);
    });
    let c = spawn("b", move || {
        expect("b", rx2.recv(), Some(0x11));
        expect("b", rx2.recv_ref(), Some(0x12));
        expect("b", rx2.recv(), None);
    });
    {
        let (s1, s2) = (tx1.send_fut(2), tx2.send_ref_fut(0x12));
        join_all(vec![Some(Box::pin(async { sent(s1.await) })), Some(Box::pin(async { sent(s2.await) }))]);
    }
    drop((tx1, tx2));
    a.join();
    c.join();
    drop((h1, h2));
}

/// A sender and the receiver of a channel share one task; another thread sends as well.
fn one_task(fl: Fl) {
    let (h, tx, rx) = channel(fl, 1);
    let t2 = tx.clone();
    let a = spawn("a", move || {
        sent(t2.send(0x11));
        sent(t2.send_ref(0x12));
    });
    let got = std::cell::RefCell::new(Vec::new());
    join_all(vec![
        Some(Box::pin(async {
            while let Some(x) = rx.recv_fut().await {
                user(|| got.borrow_mut().push(x));
            }
        })),
        Some(Box::pin(async move {
            for i in 1..=2 {
                sent(if i == 1 { tx.send_fut(i).await } else { tx.send_ref_fut(i).await });
            }
        })),
    ]);
    a.join();
    let got = got.into_inner();
    let mine: Vec<u32> = got.iter().copied().filter(|x| *x < 0x10).collect();
    let its: Vec<u32> = got.iter().copied().filter(|x| *x > 0x10).collect();
    if mine != [1, 2] || its != [0x11, 0x12] {
        violation(format!("received {:x?}", got));
    }
    outcome(|| format!("{:x?}", got));
    drop(rx);
    drop(h);
}

// ------------------------------------------------------------------ handles inside messages

/// Requests carry the sender for their answer. The server answers `serve` of them and leaves; the others
/// are dropped together with the channel, which tells their clients that no answer will come.
macro_rules! requests {
    ($name:ident, $Req:ident, $m:ident, $send:expr, $recv_req:expr, $recv:expr) => {
        #[derive(Default, Clone)]
        struct $Req {
            id: u32,
            reply: Option<$m::Sender<u32>>,
        }
        fn $name(clients: usize, serve: usize, by_ref: bool) {
            let (tx, rx) = lib(|| $m::channel::<$Req>(clients));
            let mut hs = Vec::new();
            for k in 0..clients {
                let tx = lib(|| tx.clone());
                hs.push(spawn("client", move || {
                    let (rtx, rrx) = lib(|| $m::channel::<u32>(1));
                    let id = 0x10 + k as u32;
                    let sent: bool = $send(&tx, $Req { id, reply: Some(rtx) });
                    lib(|| drop(tx));
                    // without an answer: its sender is gone with the request
                    let got: Option<u32> = $recv(&rrx);
                    if got.is_some() && (!sent || got != Some(id + 0x100)) {
                        violation(format!("client {:x} received {:x?}", id, got));
                    }
                    lib(|| drop(rrx));
                    got.is_some()
                }));
            }
            lib(|| drop(tx));
            for _ in 0..serve {
                let r: Option<(u32, Option<$m::Sender<u32>>)> = $recv_req(&rx, by_ref);
                match r {
                    Some((id, Some(reply))) => {
                        if lib(|| reply.try_send(id + 0x100)).is_err() {
                            violation("an answer could not be sent");
                        }
                        lib(|| drop(reply));
                    }
                    Some((_, None)) => violation("a request without a sender for the answer"),
                    None => violation("a request is missing"),
                }
            }
            lib(|| drop(rx));
            let answered = hs.into_iter().map(|h| h.join()).filter(|a| *a).count();
            if answered != serve {
                violation(format!("{} requests were answered and {} answers received", serve, answered));
            }
        }
    };
}

requests!(
    requests_async,
    ReqA,
    mpsc,
    |tx: &mpsc::Sender<ReqA>, r| block_on(tx.send(r)).is_ok(),
    |rx: &mpsc::Receiver<ReqA>, by_ref| if by_ref {
        block_on(rx.recv_ref()).map(|mut r| { let x = (r.id, r.reply.take()); lib(move || drop(r)); x })
    } else {
        block_on(rx.recv()).map(|r| (r.id, r.reply))
    },
    |rx: &mpsc::Receiver<u32>| block_on(rx.recv())
);
#[cfg(feature = "tb_std")]
requests!(
    requests_blocking,
    ReqB,
    blocking,
    |tx: &blocking::Sender<ReqB>, r| lib(|| tx.send(r)).is_ok(),
    |rx: &blocking::Receiver<ReqB>, by_ref| if by_ref {
        lib(|| rx.recv_ref()).map(|mut r| { let x = (r.id, r.reply.take()); lib(move || drop(r)); x })
    } else {
        lib(|| rx.recv()).map(|r| (r.id, r.reply))
    },
    |rx: &blocking::Receiver<u32>| lib(|| rx.recv())
);

/// Tasks carry the sender with which their follow-up is sent; the channel ends with the last of them.
macro_rules! follow_ups {
    ($name:ident, $Task:ident, $m:ident, $send:expr, $recv:expr) => {
        #[derive(Default, Clone)]
        struct $Task {
            left: u32,
            tx: Option<$m::Sender<$Task>>,
        }
        fn $name(starters: u32, by_ref: bool) {
            let (tx, rx) = lib(|| $m::channel::<$Task>(2));
            let mut hs = Vec::new();
            for k in 0..starters {
                let tx = lib(|| tx.clone());
                hs.push(spawn("starter", move || {
                    let inner = lib(|| tx.clone());
                    let ok: bool = $send(&tx, $Task { left: 1 + k, tx: Some(inner) });
                    if !ok {
                        violation("the channel is closed");
                    }
                    lib(|| drop(tx));
                }));
            }
            lib(|| drop(tx));
            let mut n = 0;
            loop {
                let t: Option<$Task> = $recv(&rx, by_ref);
                let Some($Task { left, tx }) = t else { break };
                n += 1;
                let Some(tx) = tx else { violation("a task without its sender") };
                if left > 0 {
                    // sent from a place of its own: the channel may be full of other tasks
                    let inner = lib(|| tx.clone());
                    if let Err(e) = lib(|| tx.try_send($Task { left: left - 1, tx: Some(inner) })) {
                        let full = matches!(e, mpsc::errors::TrySendError::Full(_));
                        lib(|| drop(e));
                        if !full || starters < 2 {
                            violation("the follow-up could not be sent");
                        }
                        n += left;
                    }
                }
                lib(|| drop(tx));
            }
            let want: u32 = (0..starters).map(|k| k + 2).sum();
            if n != want {
                violation(format!("{} tasks instead of {}", n, want));
            }
            for h in hs {
                h.join();
            }
            lib(|| drop(rx));
        }
    };
}
follow_ups!(
    follow_ups_async,
    TaskA,
    mpsc,
    |tx: &mpsc::Sender<TaskA>, t| block_on(tx.send(t)).is_ok(),
    |rx: &mpsc::Receiver<TaskA>, by_ref| if by_ref {
        block_on(rx.recv_ref()).map(|mut r| { let x = std::mem::take(&mut *r); lib(move || drop(r)); x })
    } else {
        block_on(rx.recv())
    }
);
#[cfg(feature = "tb_std")]
follow_ups!(
    follow_ups_blocking,
    TaskB,
    blocking,
    |tx: &blocking::Sender<TaskB>, t| lib(|| tx.send(t)).is_ok(),
    |rx: &blocking::Receiver<TaskB>, by_ref| if by_ref {
        lib(|| rx.recv_ref()).map(|mut r| { let x = std::mem::take(&mut *r); lib(move || drop(r)); x })
    } else {
        lib(|| rx.recv())
    }
);

pub fn register(v: &mut Vec<Scn>) {
    const P: &[&str] = &["P23", "P07", "P08", "P09"];
    const D: &[&str] = &["P23", "P08", "P09", "P10", "P11"];
    let q = [b(2, 0, 0, 1, 0), b(1, 1, 1, 0, 0)];
    let q1 = [b(1, 0, 0, 1, 0), b(1, 1, 0, 0, 0)];
    let d = [b(2, 1, 1, 1, 0), b(3, 0, 0, 1, 0), b(255, 0, 0, 0, 0)];
    let fls = flavours();
    let mut pairs: Vec<(Fl, Fl)> = fls.iter().map(|f| (*f, *f)).collect();
    if fls.len() == 4 {
        pairs.extend([(Fl::A, Fl::B), (Fl::B, Fl::A), (Fl::SA, Fl::SB)]);
    } else {
        pairs.push((Fl::A, Fl::SA));
    }
    for (f1, f2) in pairs {
        let t = if f1 == f2 { f1.tag().to_string() } else { format!("{}_{}", f1.tag(), f2.tag()) };
        add(v, format!("g_ping_pong_{}", t), P, &q, &d, move || ping_pong(f1, f2, 2));
        add(v, format!("g_relay_{}", t), P, &q1, &d, move || relay(f1, f2, 2, None));
        add(v, format!("g_relay_leaves_{}", t), D, &q1, &d, move || relay(f1, f2, 3, Some(1)));
        add(v, format!("g_ring_{}", t), P, &q1, &d, move || ring([f1, f2, f1], 2));
        add(v, format!("g_two_sources_{}", t), P, &q1, &d, move || two_sources(f1, f2));
        add(v, format!("g_credit_{}", t), P, &q1, &d, move || credit(f1, f2));
        add(v, format!("g_crossing_{}", t), P, &q, &d, move || crossing(f1, f2));
        if f1.is_async() && f2.is_async() {
            for fresh in [false, true] {
                add(v, format!("g_select_{}{}", t, if fresh { "_fresh" } else { "" }), P, &q1, &d, move || select(f1, f2, fresh));
            }
            add(v, format!("g_join_sends_{}", t), P, &q1, &d, move || join_sends(f1, f2));
            if f1 == f2 {
                add(v, format!("g_one_task_{}", t), P, &q1, &d, move || one_task(f1));
            }
        }
    }
    for f in fls {
        add(v, format!("g_handover_{}", f.tag()), P, &q1, &d, move || handover(f));
    }
    for by_ref in [false, true] {
        for n in [1, 2] {
            let r = if by_ref { "_ref" } else { "" };
            add(v, format!("g_follow_ups_async_{}{}", n, r), &["P23", "P08", "P10"], &q, &d, move || follow_ups_async(n, by_ref));
            #[cfg(feature = "tb_std")]
            add(v, format!("g_follow_ups_blocking_{}{}", n, r), &["P23", "P08", "P10"], &q, &d, move || follow_ups_blocking(n, by_ref));
        }
        let r = if by_ref { "_ref" } else { "" };
        for (n, k) in [(1usize, 1usize), (1, 0), (2, 1), (2, 2)] {
            add(v, format!("g_requests_async_{}_{}{}", n, k, r), D, if n == 1 { &q } else { &q1 }, &d, move || requests_async(n, k, by_ref));
            #[cfg(feature = "tb_std")]
            add(v, format!("g_requests_blocking_{}_{}{}", n, k, r), D, if n == 1 { &q } else { &q1 }, &d, move || requests_blocking(n, k, by_ref));
        }
    }
}
