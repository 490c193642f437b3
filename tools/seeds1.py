import sys; sys.path.insert(0, "/verif/tools")
from seedlib import make
L="src/lib.rs";M="src/mpsc.rs";A="src/mpsc/async_impl.rs";B="src/mpsc/blocking.rs";Q="src/wait/queue.rs";C="src/wait/cell.rs";R="src/recycling.rs";E="src/mpsc/errors.rs"

WAKE = r'''
#[allow(dead_code)]
mod w {
    use std::{future::Future, pin::Pin, sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc}, task::{Context, Poll, Wake, Waker}};
    pub struct Count(pub AtomicUsize);
    impl Wake for Count {
        fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); }
    }
    pub fn counter() -> (Arc<Count>, Waker) {
        let c = Arc::new(Count(AtomicUsize::new(0)));
        (c.clone(), c.into())
    }
    impl Count { pub fn get(&self) -> usize { self.0.load(SeqCst) } }
    pub fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>, w: &Waker) -> Poll<F::Output> {
        f.as_mut().poll(&mut Context::from_waker(w))
    }
}
#[allow(dead_code)]
fn watchdog(secs: u64, what: &'static str) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        eprintln!("hangs: {}", what);
        std::process::exit(9);
    });
}
'''

# --- P01
make("p01-pop-claims-without-cas", "P01",
 "two threads popping the same queue at the same moment: both have to read the same head index before either of them advances it",
 "pop_ref claims the head slot with a load and a store instead of a compare-and-swap, so two consumers can claim the same slot and receive the same element",
 [(L,"""match test_dbg!(self
                    .head
                    .compare_exchange_weak(head, next_head, SeqCst, Acquire))
                {
                    Ok(_) => {""","""let current = test_dbg!(self.head.load(SeqCst));
                let claimed = if current == head {
                    self.head.store(next_head, SeqCst);
                    Ok(head)
                } else {
                    Err(current)
                };
                match claimed {
                    Ok(_) => {""")],
 r'''
use std::sync::atomic::{AtomicUsize, Ordering::*};
fn main() {
    let q = thingbuf::ThingBuf::<usize>::new(64);
    let n = 2_000_000usize;
    let seen: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let got = AtomicUsize::new(0);
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(60);
    std::thread::scope(|s| {
        s.spawn(|| {
            for i in 0..n {
                while q.push(i).is_err() {
                    if std::time::Instant::now() > stop || got.load(Relaxed) > usize::MAX / 2 { return; }
                    std::hint::spin_loop();
                }
            }
        });
        for _ in 0..3 {
            s.spawn(|| {
                while got.load(Relaxed) < n && std::time::Instant::now() < stop {
                    if let Some(v) = q.pop() {
                        if seen[v].fetch_add(1, Relaxed) != 0 {
                            eprintln!("element {} received twice", v);
                            std::process::exit(1);
                        }
                        got.fetch_add(1, Relaxed);
                    }
                }
            });
        }
    });
    if got.load(Relaxed) != n { eprintln!("{} of {} elements received", got.load(Relaxed), n); std::process::exit(1); }
}
''')

# --- P15
make("p15-len-without-recheck", "P15",
 "len() reads the tail, then the queue advances by a whole element (push and pop on another thread) before len() reads the head",
 "len() no longer re-reads the tail to make sure that both indices belong together, so a queue that never holds more than one element reports a length of nearly its capacity",
 [(L,"            if self.tail.load(SeqCst) == tail {\n                let (head_idx","            if tail & self.closed == 0 || self.tail.load(SeqCst) == tail {\n                let (head_idx")],
 r'''
use std::sync::atomic::{AtomicBool, Ordering::*};
fn main() {
    let q = thingbuf::ThingBuf::<usize>::new(7);
    let done = AtomicBool::new(false);
    let mut worst = 0;
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Relaxed) {
                q.push(1).unwrap();
                assert!(q.pop().is_some());
            }
        });
        let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
        while std::time::Instant::now() < end && worst <= 1 {
            for _ in 0..10_000 { worst = worst.max(q.len()); }
        }
        done.store(true, Relaxed);
    });
    if worst > 1 { eprintln!("len() reported {} although at most one element was ever inside", worst); std::process::exit(1); }
}
''')

# --- P03
make("p03-slot-released-relaxed", "P03",
 "any hand-over of an element between two threads, on a machine (or under a memory model) that reorders a relaxed store with earlier writes",
 "a push or pop reference releases its slot with a relaxed store, so the peer that takes over the slot is not synchronised with the writes made through the reference",
 [(L,"store(test_dbg!(self.new_state), Release)","store(test_dbg!(self.new_state), Relaxed)")],
 r'''
fn main() {
    let q = thingbuf::ThingBuf::<Vec<u8>>::new(2);
    std::thread::scope(|s| {
        s.spawn(|| for i in 0..3u8 { loop { if let Ok(mut r) = q.push_ref() { r.push(i); break; } std::thread::yield_now(); } });
        s.spawn(|| for i in 0..3u8 { loop { if let Some(r) = q.pop_ref() { assert_eq!(r[..], [i]); break; } std::thread::yield_now(); } });
    });
}
''', miri="")

# --- P09: notify before release
make("p09-notify-before-release", "P09",
 "the woken sender has to run between the wakeup and the release of the receive reference's slot (here: a waker that polls the task at once)",
 "the receive reference wakes the next sender before it releases its slot, so the sender can find the channel still full, go back to sleep and be stranded although the slot is free a moment later",
 [(M,"    slot: Ref<'a, T>,\n    _notify: crate::mpsc::NotifyTx<'a, N>,","    _notify: crate::mpsc::NotifyTx<'a, N>,\n    slot: Ref<'a, T>,")],
 WAKE + r'''
use std::{cell::RefCell, future::Future, pin::Pin, rc::Rc, sync::Arc, task::*};
thread_local! { static TASK: RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(None); static DONE: RefCell<bool> = RefCell::new(false); }
struct Inline;
impl Wake for Inline { fn wake(self: Arc<Self>) { run(); } }
fn run() {
    let w: Waker = Arc::new(Inline).into();
    let Some(mut t) = TASK.with(|t| t.borrow_mut().take()) else { return };
    if t.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { DONE.with(|d| *d.borrow_mut() = true); }
    else { TASK.with(|s| *s.borrow_mut() = Some(t)); }
}
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    tx.try_send(1).unwrap();
    let tx2 = tx.clone();
    TASK.with(|t| *t.borrow_mut() = Some(Box::pin(async move { tx2.send(2).await.unwrap(); })));
    run();
    let r = rx.try_recv_ref().unwrap();
    assert_eq!(*r, 1);
    drop(r);
    let _ = Rc::new(());
    if !DONE.with(|d| *d.borrow()) { eprintln!("the waiting sender is still asleep although the channel is empty"); std::process::exit(1); }
    assert_eq!(rx.try_recv().unwrap(), 2);
}
''')

# --- P10
make("p10-closed-means-none", "P10",
 "the last sender sends a message and is dropped exactly while the receiver, having found nothing, is registering its waker",
 "a receiver that learns of the disconnect while registering reports the end of the stream without looking into the queue once more, losing the last message",
 [(M,"return Poll::Ready(self.core.pop_ref(slots).ok());","return Poll::Ready(None);")],
 r'''
use std::{cell::RefCell, future::Future, task::*};
thread_local! { static TX: RefCell<Option<thingbuf::mpsc::Sender<u32>>> = RefCell::new(None); }
unsafe fn clone(_: *const ()) -> RawWaker {
    // the other task runs while our waker is being cloned
    if let Some(tx) = TX.with(|t| t.borrow_mut().take()) { tx.try_send(7).unwrap(); drop(tx); }
    RawWaker::new(std::ptr::null(), &VT)
}
unsafe fn nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(2);
    TX.with(|t| *t.borrow_mut() = Some(tx));
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut got = Vec::new();
    for _ in 0..10 {
        let mut f = Box::pin(rx.recv());
        match f.as_mut().poll(&mut cx) { Poll::Ready(Some(v)) => got.push(v), Poll::Ready(None) => break, Poll::Pending => {} }
    }
    if got != [7] { eprintln!("end of stream before the last message was received: {:?}", got); std::process::exit(1); }
}
''')

# --- P12
make("p12-remove-newest-waiter", "P12",
 "at least two senders waiting at once, of which the one that came last is cancelled before the others are served",
 "unlinking a cancelled waiter from the newest end of the wait list does not clear its neighbour's link to it, so the cancelled node stays reachable: later wakeups go to freed memory instead of to the senders that still wait",
 [(Q,"                debug_assert_eq!(next.prev, Some(ptr));\n                next.prev = prev;","                debug_assert_eq!(next.prev, Some(ptr));\n                next.prev = prev.or(next.prev);")],
 WAKE + r'''
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    for victim in 0..3 {
        tx.try_send(0).unwrap();
        let mut fs: Vec<_> = (1..4).map(|i| { let (c, w) = w::counter(); let mut f = Box::pin(tx.send(i)); assert!(w::poll(&mut f, &w).is_pending()); (c, w, Some(f)) }).collect();
        fs[victim].2 = None;
        let mut got = vec![rx.try_recv().unwrap()];
        let mut served = vec![victim];
        for _ in 0..2 {
            let next = (0..3).find(|i| !served.contains(i)).unwrap();
            if fs[next].0.get() != 1 { eprintln!("cancelled {}: sender {} was not woken ({:?})", victim, next, got); std::process::exit(1); }
            let w = fs[next].1.clone();
            let mut f = fs[next].2.take().unwrap();
            if !w::poll(&mut f, &w).is_ready() { eprintln!("woken but not ready"); std::process::exit(1); }
            served.push(next);
            got.push(rx.try_recv().unwrap());
        }
    }
}
''', miri="")

# --- P16
make("p16-send-keeps-old-waker", "P16",
 "a pending send future that is polled again with another task's waker before it is notified",
 "the wait queue keeps the waker of the first poll of a pending send instead of replacing it",
 [(Q,"if !waiter.same(my_waiter) {","if waiter.same(my_waiter) {")],
 WAKE + r'''
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    tx.try_send(0).unwrap();
    let (c1, w1) = w::counter();
    let (c2, w2) = w::counter();
    let mut f = Box::pin(tx.send(1));
    assert!(w::poll(&mut f, &w1).is_pending());
    assert!(w::poll(&mut f, &w2).is_pending());
    rx.try_recv().unwrap();
    if c2.get() == 0 { eprintln!("the current task was not woken (old one: {} times)", c1.get()); std::process::exit(1); }
}
''')

# --- P17
make("p17-waker-clone-panic", "P17",
 "a waker whose clone panics while a receive registers it, followed by more use of the channel",
 "a panic while the receiver's waker is created leaves the wait cell locked, so that no later send ever wakes the receiver again",
 [(C,"            Err(panic) => (Some(panic), None),","            Err(panic) => panic::resume_unwind(panic),")],
 WAKE + r'''
use std::task::*;
unsafe fn clone(_: *const ()) -> RawWaker { panic!("no") }
unsafe fn nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    let bad = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut f = Box::pin(rx.recv()); let _ = w::poll(&mut f, &bad); }));
    assert!(r.is_err());
    let (c, w) = w::counter();
    let mut f = Box::pin(rx.recv());
    assert!(w::poll(&mut f, &w).is_pending());
    tx.try_send(3).unwrap();
    if c.get() == 0 { eprintln!("the receiver was not woken"); std::process::exit(1); }
    assert_eq!(w::poll(&mut f, &w), Poll::Ready(Some(3)));
}
''')

# --- P13
make("p13-early-timeout", "P13",
 "the receiving thread is unparked (by a third party, or by a message that someone else has already consumed) before its timeout has elapsed",
 "a timed receive that is woken without a message reports a timeout at once instead of waiting for the rest of its time",
 [(B,"                let elapsed = beginning_park.elapsed();\n                if elapsed >= timeout {\n                    return Err(RecvTimeoutError::Timeout);","                let elapsed = beginning_park.elapsed();\n                if elapsed >= timeout / 2 {\n                    return Err(RecvTimeoutError::Timeout);")],
 r'''
use std::time::*;
fn main() {
    let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(1);
    let me = std::thread::current();
    let h = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(600)); me.unpark(); std::thread::sleep(Duration::from_secs(2)); drop(tx); });
    let t = Instant::now();
    let r = rx.recv_timeout(Duration::from_millis(1000));
    let e = t.elapsed();
    h.join().unwrap();
    if e < Duration::from_millis(1000) { eprintln!("{:?} after only {:?}", r, e); std::process::exit(1); }
}
''')

# --- P19
make("p19-timeout-for-closed", "P19",
 "a timed receive on a channel whose senders are all gone and that has been drained",
 "recv_timeout reports a timeout instead of the disconnect when the senders go away while it waits",
 [(B,"                    .ok_or(RecvTimeoutError::Closed);","                    .ok_or(if beginning_park.elapsed() < timeout / 4 {\n                        RecvTimeoutError::Closed\n                    } else {\n                        RecvTimeoutError::Timeout\n                    });")],
 r'''
use std::time::*;
use thingbuf::mpsc::errors::RecvTimeoutError;
fn main() {
    let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(1);
    let h = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(1000)); drop(tx); });
    let r = rx.recv_timeout(Duration::from_millis(3000));
    h.join().unwrap();
    if !matches!(r, Err(RecvTimeoutError::Closed)) { eprintln!("{:?} although the channel is closed", r); std::process::exit(1); }
}
''')

# --- P18
make("p18-split-twice", "P18",
 "two threads splitting the same static channel at the same moment",
 "try_split tests and sets its flag in two steps, so two threads can both obtain a sender and receiver pair",
 [(B,"            self.is_split\n                .compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst)\n                .ok()?;","            if self.is_split.load(Ordering::SeqCst) {\n                return None;\n            }\n            self.is_split.store(true, Ordering::SeqCst);")],
 r'''
use std::sync::atomic::{AtomicUsize, Ordering::*};
use thingbuf::mpsc::blocking::StaticChannel;
fn main() {
    const N: usize = 40_000;
    let chans: &'static [StaticChannel<u8, 1>] = Box::leak((0..N).map(|_| StaticChannel::new()).collect::<Vec<_>>().into_boxed_slice());
    let wins: &'static [AtomicUsize] = Box::leak((0..N).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>().into_boxed_slice());
    let gate: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || {
        for i in 0..N {
            gate.fetch_add(1, SeqCst);
            while gate.load(SeqCst) < 4 * (i + 1) { std::hint::spin_loop(); }
            if let Some(p) = chans[i].try_split() { wins[i].fetch_add(1, SeqCst); std::mem::forget(p); }
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
    let bad = wins.iter().filter(|w| w.load(SeqCst) != 1).count();
    if bad != 0 { eprintln!("{} channels were split more than once", bad); std::process::exit(1); }
}
''')

# --- P04
make("p04-drop-counts-from-head", "P04",
 "a queue dropped during its first lap with at least one element still inside",
 "dropping a queue during its first lap takes the number of initialised slots from the head instead of the tail, leaking every element that was pushed but not popped",
 [(L,"let tail = self.tail.load(SeqCst);\n        let (idx, gen) = self.idx_gen(tail);\n        let num_initialized","let head = self.head.load(SeqCst);\n        let (idx, gen) = self.idx_gen(head);\n        let num_initialized")],
 r'''
use std::sync::Arc;
fn main() {
    let a = Arc::new(());
    let mut bad = false;
    for cap in 1..6 { for pushed in 0..=2 * cap { for popped in 0..=pushed {
        let q = thingbuf::ThingBuf::<Option<Arc<()>>>::new(cap);
        let (mut p, mut c) = (0, 0);
        while p < pushed {
            if q.push(Some(a.clone())).is_ok() { p += 1; }
            else if c < popped { drop(q.pop_ref()); c += 1; } else { break; }
        }
        while c < popped.min(p) { drop(q.pop_ref()); c += 1; }
        drop(q);
        if Arc::strong_count(&a) != 1 { bad = true; eprintln!("capacity {}: {} pushed, {} popped: {} elements leaked", cap, p, c, Arc::strong_count(&a) - 1); break; }
    } } }
    if bad { std::process::exit(1); }
}
''')

# --- P06
make("p06-map-shrinks-to-min", "P06",
 "a HashMap recycled by a policy whose minimum capacity is smaller than the capacity it has grown to",
 "recycling a HashMap shrinks it to the policy's minimum instead of its maximum, throwing away an allocation the policy promises to keep",
 [(R,"fn recycle(&self, element: &mut HashMap<K, V, S>) {\n            element.clear();\n            element.shrink_to(self.max);","fn recycle(&self, element: &mut HashMap<K, V, S>) {\n            element.clear();\n            element.shrink_to(self.min);")],
 r'''
use std::collections::HashMap;
use thingbuf::recycling::{Recycle, WithCapacity};
fn main() {
    let p = WithCapacity::new().with_min_capacity(4).with_max_capacity(1000);
    let mut m: HashMap<u32, u32> = p.new_element();
    for i in 0..300 { m.insert(i, i); }
    let before = m.capacity();
    assert!(before <= 1000);
    p.recycle(&mut m);
    if m.capacity() != before { eprintln!("capacity {} -> {} although up to 1000 may be kept", before, m.capacity()); std::process::exit(1); }
}
''')

# --- P05
make("p05-pop-recycles-replacement", "P05",
 "an element taken by value from a queue whose policy tells fresh elements from recycled ones, and a later push into the same slot",
 "pop() applies the recycle step to the replacement it has just created, and the next push recycles it again: elements are recycled without having been used in between",
 [("src/thingbuf.rs","""        let mut slot = self.pop_ref()?;
        Some(recycling::take(&mut *slot, &self.recycle))""","""        let mut slot = self.pop_ref()?;
        let val = recycling::take(&mut *slot, &self.recycle);
        self.recycle.recycle(&mut *slot);
        Some(val)""")],
 r'''
use std::cell::Cell;
use thingbuf::{recycling::Recycle, ThingBuf};
#[derive(Default)]
struct P { recycled: Cell<u32> }
impl Recycle<u32> for &P {
    fn new_element(&self) -> u32 { 0 }
    fn recycle(&self, e: &mut u32) { self.recycled.set(self.recycled.get() + 1); *e = 0; }
}
fn main() {
    let p = P::default();
    let q = ThingBuf::with_recycle(2, &p);
    let mut reuses = 0;
    for i in 0..9 {
        q.push(i).unwrap();
        if i >= 2 { reuses += 1; }
        assert_eq!(q.pop(), Some(i));
    }
    if p.recycled.get() != reuses { eprintln!("{} recycle steps for {} reuses", p.recycled.get(), reuses); std::process::exit(1); }
}
''')

# --- P08
make("p08-no-second-look", "P08",
 "a message is sent after the receiver has found the queue empty and before it has registered its waiter",
 "the receiver goes to sleep right after registering instead of looking into the queue once more, so a message that slipped in between is not noticed until somebody sends another one",
 [(M,"                    try_poll_recv!();\n                    test_println!(\"-> yield\");","                    test_println!(\"-> yield\");")],
 WAKE + r'''
fn main() {
    watchdog(100, "a receiver sleeps although its message has been sent");
    for _ in 0..4 {
        let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(1);
        let (tx2, rx2) = thingbuf::mpsc::blocking::channel::<u32>(1);
        let h = std::thread::spawn(move || { while let Some(v) = rx.recv() { for _ in 0..(v % 64) { std::hint::spin_loop(); } if tx2.send(v).is_err() { break; } } });
        for i in 0..400_000u32 { tx.send(i).unwrap(); for _ in 0..(i % 61) { std::hint::spin_loop(); } assert_eq!(rx2.recv(), Some(i)); }
        drop(tx);
        h.join().unwrap();
    }
}
''')

# --- P11
make("p11-closed-checked-once", "P11",
 "the receiver is dropped while a send is in the middle of its attempt to claim a slot",
 "push checks for the disconnect only before its first attempt; when the receiver goes away during the attempt the send spins forever instead of failing as closed",
 [(L,"        loop {\n            if test_dbg!(tail & self.closed != 0) {\n                return Err(TrySendError::Closed(()));\n            }\n","        if test_dbg!(tail & self.closed != 0) {\n            return Err(TrySendError::Closed(()));\n        }\n\n        loop {\n")],
 WAKE + r'''
fn main() {
    watchdog(60, "a try_send that was under way when the receiver was dropped");
    for i in 0..60_000usize {
        let (tx, rx) = thingbuf::mpsc::blocking::channel::<usize>(8);
        std::thread::scope(|s| {
            for _ in 0..2 {
                let tx = tx.clone();
                s.spawn(move || loop { match tx.try_send(1) { Err(e) if matches!(e, thingbuf::mpsc::errors::TrySendError::Closed(_)) => break, _ => {} } });
            }
            for _ in 0..(i % 40) { let _ = rx.try_recv(); }
            drop(rx);
        });
    }
}
''')

