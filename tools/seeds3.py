import sys; sys.path.insert(0, "/verif/tools")
from seedlib import make
L="src/lib.rs";M="src/mpsc.rs";A="src/mpsc/async_impl.rs";B="src/mpsc/blocking.rs";Q="src/wait/queue.rs";C="src/wait/cell.rs";R="src/recycling.rs";E="src/mpsc/errors.rs"
WAKE = open("/verif/tools/seeds1.py").read().split("WAKE = r'''")[1].split("'''")[0]
CPU = r"""
#[repr(C)]
struct Ts { s: i64, n: i64 }
extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
/// processor time used by this process, in ms
fn cpu() -> i64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.s * 1000 + t.n / 1_000_000
}
"""

# --- P22
make("p22-receiver-spins-for-commit", "P22",
 "a receiver that finds nothing to take while a sender holds a claimed but uncommitted slot for long",
 "the receiver, about to sleep, sees that a slot is claimed and spins until it is committed instead of going to sleep, however long the reference is held",
 [(M,"""                    try_poll_recv!();
                    test_println!("-> yield");
                    return Poll::Pending;""","""                    try_poll_recv!();
                    if test_dbg!(self.core.len()) == 0 {
                        test_println!("-> yield");
                        return Poll::Pending;
                    }
                    // a message is being written right now, it is not worth
                    // going to sleep.
                    crate::loom::hint::spin_loop();""")],
 CPU + r"""
use std::time::Duration;
fn main() {
    let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(4);
    let mut slot = tx.try_send_ref().unwrap();
    *slot = 7;
    let t = std::thread::spawn(move || rx.recv());
    std::thread::sleep(Duration::from_millis(200));
    let c = cpu();
    std::thread::sleep(Duration::from_millis(1000));
    let used = cpu() - c;
    drop(slot);
    assert_eq!(t.join().unwrap(), Some(7));
    if used > 400 { eprintln!("a waiting receiver used {} ms of processor time within 1000 ms", used); std::process::exit(1); }
}
""")

make("p22-waiting-send-wakes-itself", "P22",
 "a waiting async send that is polled again (a spurious poll, or a select over several futures) while the receiver still holds the reference to the slot it has just taken out",
 "a waiting send that sees fewer messages than the capacity takes it that a slot has become free and asks to be polled again at once, over and over, for as long as the receiver holds its reference",
 [(A,"""                        WaitResult::Wait => return Poll::Pending,
""","""                        WaitResult::Wait => {
                            // if a slot is free already, try again right away
                            // instead of waiting to be notified about it.
                            if this.core.core.len() < this.slots.len() {
                                cx.waker().wake_by_ref();
                            }
                            return Poll::Pending;
                        }
""")],
 WAKE + r"""
fn main() {
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(1);
    tx.try_send(0).unwrap();
    let (c, w) = w::counter();
    let mut a = Box::pin(tx.send(1));
    assert!(w::poll(&mut a, &w).is_pending());
    // another task waits in front of this one no more: it was cancelled after the notification
    let held = rx.try_recv_ref().unwrap();
    let (c2, w2) = w::counter();
    let mut b = Box::pin(tx.send(2));
    assert!(w::poll(&mut b, &w2).is_pending());
    for _ in 0..100 {
        // a spurious poll of a send that is still waiting
        assert!(w::poll(&mut b, &w2).is_pending());
    }
    if c2.get() > 0 || c.get() > 0 { eprintln!("a waiting send woke itself {} times", c.get() + c2.get()); std::process::exit(1); }
    drop(held);
    assert_eq!(c.get() + c2.get(), 1);
}
""")

# --- P23
make("p23-wakeup-after-the-batch", "P23",
 "a receiver takes one of several messages of a full channel on which a sender waits, and then waits for something else (another channel) that the sender would do next",
 "taking a message wakes a waiting sender only once the channel has been emptied, to drain in batches: a receiver that turns to another channel in between leaves the sender asleep, and a program of two such channels hangs",
 [(M,"    _notify: crate::mpsc::NotifyTx<'a, N>,","    _notify: Option<crate::mpsc::NotifyTx<'a, N>>,"),
  (M,"            _notify: NotifyTx(&self.tx_wait),","            _notify: self.notify_tx(),"),
  (M,"    fn try_recv_ref<'a, T>(\n","""    /// Senders are woken once the receiver has drained the channel, so that
    /// messages are moved in batches.
    fn notify_tx(&self) -> Option<NotifyTx<'_, N>> {
        if self.core.len() == 0 {
            Some(NotifyTx(&self.tx_wait))
        } else {
            None
        }
    }

    fn try_recv_ref<'a, T>(
"""),
  (A,"_notify: super::NotifyTx(&core.tx_wait),","_notify: core.notify_tx(),"),
  (B,"_notify: super::NotifyTx(&core.tx_wait),","_notify: core.notify_tx(),"),
  (B,"_notify: super::NotifyTx(&core.tx_wait),","_notify: core.notify_tx(),"),
 ],
 WAKE + r"""
use thingbuf::mpsc::blocking;
fn main() {
    watchdog(20, "a thread that waits on two channels in turn");
    let (tx1, rx1) = blocking::channel::<u32>(2);
    let (tx2, rx2) = blocking::channel::<u32>(1);
    let t = std::thread::spawn(move || {
        for i in 0..3 { tx1.send(i).unwrap(); }
        tx2.send(9).unwrap();
    });
    std::thread::sleep(std::time::Duration::from_millis(300));
    assert_eq!(rx1.recv(), Some(0));
    // the sender continues with the slot that has just become free
    assert_eq!(rx2.recv(), Some(9));
    assert_eq!(rx1.recv(), Some(1));
    assert_eq!(rx1.recv(), Some(2));
    t.join().unwrap();
}
""")

# --- P24
make("p24-end-waits-for-leaked-send", "P24",
 "a write reference leaked with mem::forget, after which the last sender goes away and the receiver drains the channel",
 "once the senders are gone the receiver takes it for granted that a claimed slot is about to be filled and spins for it: if the reference to it was leaked, receiving (also without waiting) never returns",
 [(L,"""                if test_dbg!(backoff.done_spinning()) {
                    return Err(TryRecvError::Empty);
                }

                backoff.spin();
            } else {
                backoff.spin_yield();
            }

            head = ""","""                // A closed channel must not look drained while the last message
                // is still being written: it is there in a moment.
                if test_dbg!(tail & self.closed == 0 && backoff.done_spinning()) {
                    return Err(TryRecvError::Empty);
                }

                backoff.spin();
            } else {
                backoff.spin_yield();
            }

            head = """)],
 WAKE + r"""
fn main() {
    watchdog(20, "receiving from a channel in which a write reference was leaked");
    let (tx, rx) = thingbuf::mpsc::blocking::channel::<u32>(4);
    tx.try_send(1).unwrap();
    std::mem::forget(tx.try_send_ref().unwrap());
    assert_eq!(rx.try_recv().unwrap(), 1);
    assert!(rx.try_recv().is_err());
    drop(tx);
    assert!(rx.try_recv().is_err());
    assert_eq!(rx.recv(), None);
}
""")

# --- P25
make("p25-wake-inside-notify", "P25",
 "a waker that polls the receiver from within wake, as executors that run tasks inline do",
 "the receiver is woken before the wait cell is released, so that the woken task always finds its waiter gone but, if it runs from within wake, meets a notification in progress: its poll is told that it was notified over and over and never returns",
 [(C,"""            test_dbg!(self.fetch_and(!State::NOTIFYING, AcqRel));

            if let Some(waiter) = test_dbg!(waiter) {
                waiter.notify();
                return true;
            }
""","""            let woken = test_dbg!(waiter).map(Notify::notify).is_some();

            test_dbg!(self.fetch_and(!State::NOTIFYING, AcqRel));

            return woken;
""")],
 WAKE + r"""
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
use std::task::{Context, Poll, Wake, Waker};
use std::pin::Pin;
use std::future::Future;
/// Runs the task from within `wake`.
struct Task { f: Mutex<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>, runs: AtomicUsize }
impl Task {
    fn run(self: &Arc<Self>) {
        let taken = self.f.lock().unwrap().take();
        if let Some(mut f) = taken {
            self.runs.fetch_add(1, Ordering::SeqCst);
            let w = Waker::from(self.clone());
            if let Poll::Pending = f.as_mut().poll(&mut Context::from_waker(&w)) {
                *self.f.lock().unwrap() = Some(f);
            }
        }
    }
}
impl Wake for Task {
    fn wake(self: Arc<Self>) { self.run() }
}
fn main() {
    watchdog(20, "an executor that runs the receiver from within wake");
    let (tx, rx) = thingbuf::mpsc::channel::<u32>(4);
    let sum = Arc::new(AtomicUsize::new(0));
    let s = sum.clone();
    let task = Arc::new(Task { f: Mutex::new(None), runs: AtomicUsize::new(0) });
    *task.f.lock().unwrap() = Some(Box::pin(async move {
        while let Some(v) = rx.recv().await { s.fetch_add(v as usize, Ordering::SeqCst); }
        s.fetch_add(100, Ordering::SeqCst);
    }));
    task.run();
    for i in 1..=3 { tx.try_send(i).unwrap(); }
    assert_eq!(sum.load(Ordering::SeqCst), 6);
    drop(tx);
    assert_eq!(sum.load(Ordering::SeqCst), 106);
}
""")
