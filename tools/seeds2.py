import sys; sys.path.insert(0, "/verif/tools")
from seedlib import make
L="src/lib.rs";M="src/mpsc.rs";A="src/mpsc/async_impl.rs";B="src/mpsc/blocking.rs";Q="src/wait/queue.rs";C="src/wait/cell.rs";R="src/recycling.rs";E="src/mpsc/errors.rs"
WAKE = open("/verif/tools/seeds1.py").read().split("WAKE = r'''")[1].split("'''")[0]

# --- P02
make("p02-contention-means-full", "P02",
 "several threads pushing at the same time, one of which loses the race for the tail index several times in a row",
 "a push that keeps losing the race for the tail index gives up and reports the queue as full although almost all of its slots are free",
 [(L,"""                        tail = actual;
                        backoff.spin();
                        continue;""","""                        tail = actual;
                        if backoff.done_spinning() {
                            return Err(TrySendError::Full(()));
                        }
                        backoff.spin();
                        continue;""")],
 r'''
use std::sync::atomic::{AtomicBool, Ordering::*};
fn main() {
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let bad = AtomicBool::new(false);
    while std::time::Instant::now() < stop && !bad.load(SeqCst) {
        let n = 1_000_000usize;
        let q = thingbuf::ThingBuf::<usize>::new(16 * n);
        std::thread::scope(|s| {
            for _ in 0..16 {
                s.spawn(|| {
                    for i in 0..n {
                        if q.push(i).is_err() { bad.store(true, SeqCst); return; }
                        if bad.load(Relaxed) { return; }
                    }
                });
            }
        });
    }
    if bad.load(SeqCst) { eprintln!("full although there was room for every element"); std::process::exit(1); }
}
''')

# --- P07
make("p07-late-message-dropped", "P07",
 "a message arrives at the end of a timed blocking receive: after the receiver's sleep has run out and before it has looked into the channel again",
 "the timed receive takes the message out of the channel, sees that its time is up, and reports a timeout, losing the message",
 [(B,"""    let beginning_park = Instant::now();
    loop {
        match core.poll_recv_ref(slots, thread::current) {
            Poll::Ready(r) => {""","""    let beginning_park = Instant::now();
    let mut timed_out = false;
    loop {
        match core.poll_recv_ref(slots, thread::current) {
            Poll::Ready(Some(_)) if timed_out => return Err(RecvTimeoutError::Timeout),
            Poll::Ready(r) => {"""),
  (B,"""                test_println!("park_timeout ({:?})", thread::current());
                thread::park_timeout(timeout - elapsed);
""","""                test_println!("park_timeout ({:?})", thread::current());
                thread::park_timeout(timeout - elapsed);
                timed_out = beginning_park.elapsed() >= timeout;
""")],
 r'''
use std::{thread, time::{Duration, Instant}};
fn main() {
    for i in 0..60_000u64 {
        let (tx, rx) = thingbuf::mpsc::blocking::channel::<u64>(4);
        let d = Duration::from_micros(150);
        let t0 = Instant::now();
        let h = thread::spawn(move || {
            let at = Duration::from_micros(100 + i % 200);
            while t0.elapsed() < at { std::hint::spin_loop(); }
            tx.send(i).unwrap();
        });
        let mut got = rx.recv_timeout(d).ok();
        if got.is_none() { got = rx.recv(); }
        h.join().unwrap();
        if got != Some(i) { eprintln!("message {} lost: {:?}", i, got); std::process::exit(1); }
        if i % 64 == 0 && t0.elapsed() > Duration::from_secs(5) { break; }
    }
}
''')

# --- P14
make("p14-notify-waits-for-parking", "P14",
 "a sender notifies the receiver exactly while the receiver is in the middle of registering its waker, and the receiver is suspended there",
 "notifying waits until a registration in progress has finished, so try_send hangs as long as the receiving thread is stuck in the middle of its own poll",
 [(C,"""                waiter.notify();
                return true;
            }
        }
        false""","""                waiter.notify();
                return true;
            }
        }
        // A waiter that was just registering itself sees the notification and
        // wakes itself up. Don't return before it has done so.
        while test_dbg!(self.current_state().contains(State::PARKING)) {
            crate::loom::hint::spin_loop();
        }
        false""")],
 WAKE + r'''
use std::{sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc}, task::*};
static IN: AtomicBool = AtomicBool::new(false);
static GO: AtomicBool = AtomicBool::new(false);
// a waker whose clone takes its time
static V: RawWakerVTable = RawWakerVTable::new(
    |_| { IN.store(true, SeqCst); while !GO.load(SeqCst) { std::thread::yield_now(); } RawWaker::new(std::ptr::null(), &V) },
    |_| {}, |_| {}, |_| {});
fn main() {
    watchdog(30, "try_send while the receiver is suspended in the middle of its poll");
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(4);
    let h = std::thread::spawn(move || {
        let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
        let mut f = Box::pin(rx.recv());
        let _ = w::poll(&mut f, &w);
    });
    while !IN.load(SeqCst) { std::thread::yield_now(); }
    tx.try_send(1).unwrap();
    tx.try_send(2).unwrap();
    GO.store(true, SeqCst);
    h.join().unwrap();
    let _ = Arc::new(0);
}
''')

# --- P20
make("p20-boxed-waiter", "P20",
 "a timed blocking send that finds the channel full and has to wait",
 "the wait-queue node of a timed send lives in a heap allocation of its own, so sending allocates memory after the channel has been built, once per wait",
 [(B,"""    let mut waiter = queue::Waiter::new();
    let mut unqueued = true;
    let thread = thread::current();
    let mut boff = Backoff::new();
    let beginning_park = Instant::now();
    loop {
        let node = unsafe {
            // Safety: in this case, it's totally safe to pin the waiter, as
            // it is owned uniquely by this function, and it cannot possibly
            // be moved while this thread is parked.
            Pin::new_unchecked(&mut waiter)
        };
""","""    let mut waiter = std::boxed::Box::pin(queue::Waiter::new());
    let mut unqueued = true;
    let thread = thread::current();
    let mut boff = Backoff::new();
    let beginning_park = Instant::now();
    loop {
        let node = waiter.as_mut();
"""),
  (B,"""                    let node = unsafe {
                        // Safety: as above.
                        Pin::new_unchecked(&mut waiter)
                    };
                    node.remove(&core.tx_wait);""","""                    waiter.as_mut().remove(&core.tx_wait);""")],
 r'''
use std::{alloc::*, sync::atomic::{AtomicUsize, Ordering::SeqCst}, time::Duration};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let _ = std::thread::current();
    let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(2);
    tx.send(1).unwrap();
    tx.send(2).unwrap();
    let before = N.load(SeqCst);
    for _ in 0..5 { assert!(tx.send_timeout(3, Duration::from_millis(2)).is_err()); }
    assert_eq!(rx.recv(), Some(1));
    tx.send_timeout(3, Duration::from_millis(2)).unwrap();
    let n = N.load(SeqCst) - before;
    if n != 0 { eprintln!("{} allocations while sending and receiving", n); std::process::exit(1); }
}
''')

# --- P21
make("p21-new-waker-loses-place", "P21",
 "a waiting async send is polled again with a different waker while another send is waiting behind it",
 "replacing the waker of a waiting send takes it out of the line and puts it back at the end, so that senders which began to wait later overtake it, possibly for ever",
 [(Q,"fn continue_wait_slow(&self, node: Pin<&mut Waiter<T>>,","fn continue_wait_slow(&self, mut node: Pin<&mut Waiter<T>>,"),
  (Q,"""        node.with_node(&mut *list, |node| {
            if let Some(ref mut waiter) = node.waiter {
                if !waiter.same(my_waiter) {
                    *waiter = my_waiter.clone();
                }
            } else {
                // XXX(eliza): This branch should _probably_ never occur...
                node.waiter = Some(my_waiter.clone());
            }
        });
""","""        let renewed = node.with_node(&mut *list, |node| match node.waiter {
            Some(ref waiter) if waiter.same(my_waiter) => false,
            _ => {
                node.waiter = Some(my_waiter.clone());
                true
            }
        });

        // Register the renewed waiter with the queue.
        if renewed {
            unsafe {
                // Safety: the list is locked, and the node is linked, as it has
                // not been woken.
                list.remove(node.as_mut());
            }
            list.enqueue(node);
        }
""")],
 WAKE + r"""
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    tx.try_send(0).unwrap();
    let (ca, wa) = w::counter();
    let (ca2, wa2) = w::counter();
    let (cb, wb) = w::counter();
    let mut a = Box::pin(tx.send(1));
    let mut b = Box::pin(tx.send(2));
    assert!(w::poll(&mut a, &wa).is_pending());
    assert!(w::poll(&mut b, &wb).is_pending());
    // the task of the first send moves to another executor
    assert!(w::poll(&mut a, &wa2).is_pending());
    assert_eq!(rx.try_recv().unwrap(), 0);
    if cb.get() != 0 || ca.get() + ca2.get() != 1 { eprintln!("the second sender in line was woken"); std::process::exit(1); }
    assert!(w::poll(&mut a, &wa2).is_ready());
    assert_eq!(rx.try_recv().unwrap(), 1);
    assert_eq!(cb.get(), 1);
}
""")
