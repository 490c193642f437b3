//! Recycling policies, panics, wakers that run code, static splitting, timing, stalled peers.
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::engine::Budget;
use crate::hist::{self, *};
use crate::val::{hold, Pol, Val};
use std::collections::{BinaryHeap, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::Poll;
use thingbuf::mpsc;
use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};
use thingbuf::{StaticThingBuf, ThingBuf};
#[cfg(feature = "tb_std")]
use thingbuf::mpsc::blocking;

const ONE: [Budget; 1] = [b(0, 0, 0, 0, 0)];
const MS: u64 = 1_000_000;

// ------------------------------------------------------------------ policies

/// What the checks need to know about a collection.
pub trait Coll: Sized {
    fn with_cap(n: usize) -> Self;
    fn put(&mut self, k: u32);
    fn n(&self) -> usize;
    fn cap(&self) -> usize;
    fn clear_shrink(&mut self, to: usize);
    /// address of the storage, if the type tells
    fn addr(&self) -> usize {
        0
    }
}
impl Coll for Vec<Val> {
    fn with_cap(n: usize) -> Self {
        Vec::with_capacity(n)
    }
    fn put(&mut self, k: u32) {
        self.push(Val::new(k + 1))
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
    fn addr(&self) -> usize {
        self.as_ptr() as usize
    }
}
impl Coll for Vec<()> {
    fn with_cap(n: usize) -> Self {
        Vec::with_capacity(n)
    }
    fn put(&mut self, _: u32) {
        self.push(())
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
}
impl Coll for String {
    fn with_cap(n: usize) -> Self {
        String::with_capacity(n)
    }
    fn put(&mut self, k: u32) {
        self.push((b'a' + (k % 26) as u8) as char)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
    fn addr(&self) -> usize {
        self.as_ptr() as usize
    }
}
impl Coll for VecDeque<Val> {
    fn with_cap(n: usize) -> Self {
        VecDeque::with_capacity(n)
    }
    fn put(&mut self, k: u32) {
        if k % 2 == 0 {
            self.push_back(Val::new(k + 1))
        } else {
            self.push_front(Val::new(k + 1))
        }
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
}
impl Coll for BinaryHeap<u32> {
    fn with_cap(n: usize) -> Self {
        BinaryHeap::with_capacity(n)
    }
    fn put(&mut self, k: u32) {
        self.push(k)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
}
#[cfg(feature = "tb_std")]
type Bh = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
#[cfg(feature = "tb_std")]
impl Coll for std::collections::HashMap<u32, Val, Bh> {
    fn with_cap(n: usize) -> Self {
        Self::with_capacity_and_hasher(n, Default::default())
    }
    fn put(&mut self, k: u32) {
        self.insert(k, Val::new(k + 1));
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
}
#[cfg(feature = "tb_std")]
impl Coll for std::collections::HashSet<u32, Bh> {
    fn with_cap(n: usize) -> Self {
        Self::with_capacity_and_hasher(n, Default::default())
    }
    fn put(&mut self, k: u32) {
        self.insert(k);
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn clear_shrink(&mut self, to: usize) {
        self.clear();
        self.shrink_to(to)
    }
}

const CAPS: [usize; 9] = [0, 1, 2, 3, 4, 7, 8, 20, 33];
const MAXES: [usize; 10] = [0, 1, 2, 3, 4, 7, 8, 20, 40, usize::MAX];

fn with_capacity<C: Coll + 'static>(what: &str)
where
    WithCapacity: Recycle<C>,
{
    let min = CAPS[choose(CAPS.len())];
    let max = MAXES[choose(MAXES.len())];
    let mut p = WithCapacity::new();
    // the order in which the bounds are configured does not matter
    match choose(4) {
        0 => p = p.with_min_capacity(min).with_max_capacity(max),
        1 => p = p.with_max_capacity(max).with_min_capacity(min),
        2 => {
            if max != usize::MAX {
                return;
            }
            p = WithCapacity::default().with_min_capacity(min)
        }
        _ => {
            if min != 0 {
                return;
            }
            p = p.with_max_capacity(max)
        }
    }
    if p.min_capacity() != min || p.max_capacity() != max {
        violation(format!("configured {}..{} but the policy says {}..{}", min, max, p.min_capacity(), p.max_capacity()));
    }
    let shared = choose(2) == 1;
    let arc = Arc::new(p.clone());
    let new = || -> C {
        if shared {
            arc.new_element()
        } else {
            p.new_element()
        }
    };
    let recycle = |c: &mut C| {
        if shared {
            arc.recycle(c)
        } else {
            p.recycle(c)
        }
    };
    let c = new();
    if c.n() != 0 || c.cap() < min || c.cap() != C::with_cap(min).cap() {
        violation(format!("{}: a new element has {} items and capacity {} with minimum {}", what, c.n(), c.cap(), min));
    }
    // an element with a history: own or fresh storage, then filled
    let n = CAPS[choose(CAPS.len())];
    let mut c = match choose(2) {
        0 => c,
        _ => C::with_cap(CAPS[choose(CAPS.len())]),
    };
    for k in 0..n as u32 {
        c.put(k);
    }
    let before = c.cap();
    let addr = c.addr();
    recycle(&mut c);
    if c.n() != 0 {
        violation(format!("{}: {} items are left after recycling", what, c.n()));
    }
    let after = c.cap();
    let mut r = C::with_cap(before);
    r.clear_shrink(max);
    if before <= max && (after != before || (before > 0 && c.addr() != addr)) {
        violation(format!("{}: an allocation of capacity {} within the maximum {} was not kept (now {})", what, before, max, after));
    }
    if before > max && after > before {
        violation(format!("{}: recycling grew the capacity from {} to {}", what, before, after));
    }
    if before > max && C::with_cap(before).cap() == before && after != r.cap() {
        violation(format!("{}: capacity {} with maximum {} became {} instead of {}", what, before, max, after, r.cap()));
    }
    // recycling again changes nothing, and the element stays usable
    recycle(&mut c);
    if c.n() != 0 || c.cap() != after {
        violation(format!("{}: recycling an empty element changed its capacity from {} to {}", what, after, c.cap()));
    }
    c.put(0);
    if c.n() != 1 {
        violation("element unusable after recycling");
    }
    outcome(|| format!("{} {}", before <= max, after));
}

/// The same for bounds and contents that are far from small.
fn with_large_capacity<C: Coll + 'static>(what: &str)
where
    WithCapacity: Recycle<C>,
{
    solo();
    const L: [usize; 7] = [0, 100, 255, 256, 1025, 5000, 70_000];
    let min = L[choose(L.len())];
    let max = [0, 100, 255, 256, 1025, 5000, 70_000, usize::MAX / 2, usize::MAX][choose(9)];
    let p = WithCapacity::new().with_min_capacity(min).with_max_capacity(max);
    let mut c: C = p.new_element();
    if c.n() != 0 || c.cap() < min || c.cap() != C::with_cap(min).cap() {
        violation(format!("{}: a new element has {} items and capacity {} with minimum {}", what, c.n(), c.cap(), min));
    }
    let n = L[choose(L.len())];
    for k in 0..n as u32 {
        solo_progress();
        c.put(k);
    }
    let (before, addr) = (c.cap(), c.addr());
    p.recycle(&mut c);
    let after = c.cap();
    if c.n() != 0 {
        violation(format!("{}: {} items are left after recycling", what, c.n()));
    }
    if before <= max && (after != before || (before > 0 && c.addr() != addr)) {
        violation(format!("{}: an allocation of capacity {} within the maximum {} was not kept (now {})", what, before, max, after));
    }
    let mut r = C::with_cap(before);
    r.clear_shrink(max);
    if before > max && C::with_cap(before).cap() == before && after != r.cap() {
        violation(format!("{}: capacity {} with maximum {} became {} instead of {}", what, before, max, after, r.cap()));
    }
    outcome(|| format!("{} {}", before, after));
}

/// The printed forms of errors name the same reason as the variant.
fn error_texts(fl: Fl) {
    fn says(what: &str, closed: bool, d: String, g: String) {
        if d.is_empty() || d.to_lowercase().contains("closed") != closed || g.to_lowercase().contains("closed") != closed {
            violation(format!("{} (channel {}) prints as {:?} / {:?}", what, if closed { "closed" } else { "open" }, d, g));
        }
    }
    macro_rules! say {
        ($w:expr, $c:expr, $e:expr) => {{
            let e = $e;
            says($w, $c, format!("{}", e), format!("{:?}", e));
        }};
    }
    macro_rules! go {
        ($tx:ident, $rx:ident) => {{
            let closed = choose(2) == 1;
            if choose(2) == 0 {
                $tx.try_send(Val::new(1)).unwrap();
                let keep = if closed {
                    drop($rx);
                    None
                } else {
                    Some($rx)
                };
                say!("try_send", closed, $tx.try_send(Val::new(2)).unwrap_err());
                match $tx.try_send_ref() {
                    Ok(_) => violation("accepted"),
                    Err(e) => say!("try_send_ref", closed, e),
                }
                drop(keep);
            } else {
                let keep = if closed {
                    drop($tx);
                    None
                } else {
                    Some($tx)
                };
                say!("try_recv", closed, $rx.try_recv().unwrap_err());
                match $rx.try_recv_ref() {
                    Ok(_) => violation("received"),
                    Err(e) => say!("try_recv_ref", closed, e),
                }
                drop(keep);
            }
        }};
    }
    let (_home, tx, rx) = channel(fl, 1);
    match (tx, rx) {
        (Tx::A(tx), Rx::A(rx)) => match choose(2) {
            0 => go!(tx, rx),
            _ => {
                drop(rx);
                let (_w, w) = new_waker();
                match poll_once(Box::pin(tx.send(Val::new(3))).as_mut(), &w) {
                    Poll::Ready(Err(e)) => say!("send", true, e),
                    _ => violation("sent"),
                }
            }
        },
        (Tx::SA(tx), Rx::SA(rx)) => go!(tx, rx),
        #[cfg(feature = "tb_std")]
        (Tx::B(tx), Rx::B(rx)) => match choose(2) {
            0 => go!(tx, rx),
            _ => {
                let z = std::time::Duration::from_nanos(1);
                say!("recv_timeout", false, rx.recv_timeout(z).unwrap_err());
                tx.send(Val::new(1)).unwrap();
                say!("send_timeout", false, tx.send_timeout(Val::new(2), z).unwrap_err());
                if choose(2) == 0 {
                    drop(rx);
                    say!("send_timeout", true, tx.send_timeout(Val::new(2), z).unwrap_err());
                    say!("send", true, tx.send(Val::new(2)).unwrap_err());
                } else {
                    drop(tx);
                    rx.recv();
                    say!("recv_timeout", true, rx.recv_timeout(z).unwrap_err());
                }
            }
        },
        #[cfg(feature = "tb_std")]
        (Tx::SB(tx), Rx::SB(rx)) => go!(tx, rx),
        _ => {}
    }
    outcome(|| "ok".into());
}

fn default_policy<T: Default + Clone + PartialEq + Debug>(what: &str, mk: impl Fn(usize) -> T, n: usize) {
    let k = choose(n);
    let shared = choose(2) == 1;
    let p = DefaultRecycle::new();
    let arc = Arc::new(DefaultRecycle::default());
    let fresh: T = if shared { Recycle::<T>::new_element(&arc) } else { Recycle::<T>::new_element(&p) };
    if fresh != T::default() {
        violation(format!("{}: a new element is {:?}", what, fresh));
    }
    let mut t = mk(k);
    for _ in 0..2 {
        if shared {
            Recycle::<T>::recycle(&arc, &mut t)
        } else {
            Recycle::<T>::recycle(&p, &mut t)
        }
        if t != T::default() {
            violation(format!("{}: a recycled element is {:?}", what, t));
        }
    }
    outcome(|| format!("{} {}", what, k));
}

// ------------------------------------------------------------------ pooling through the queues

/// A queue of strings with the default or a capacity policy, used by reference only: allocations
/// are made once per slot and kept.
fn pooled_strings(cap: usize) {
    fn go<R: Recycle<String>>(q: &ThingBuf<String, R>, cap: usize, keep: bool) {
        let mut seen = vec![0usize; cap];
        for i in 0..3 * cap {
            let mut r = match q.push_ref() {
                Ok(r) => r,
                Err(_) => violation("refused by an empty queue"),
            };
            if !r.is_empty() {
                violation(format!("an in-place push exposes {:?} from an earlier message", *r));
            }
            if i >= cap && keep && r.as_ptr() as usize != seen[i % cap] {
                violation("the allocation of an element that was only taken by reference is not reused");
            }
            r.push_str("0123456789abcdef");
            seen[i % cap] = r.as_ptr() as usize;
            drop(r);
            match q.pop_ref() {
                Some(r) if *r == "0123456789abcdef" => {}
                _ => violation("wrong element"),
            }
        }
    }
    match choose(4) {
        0 => go(&ThingBuf::<String>::new(cap), cap, true),
        1 => go(&ThingBuf::<String, _>::with_recycle(cap, WithCapacity::new()), cap, true),
        2 => go(&ThingBuf::<String, _>::with_recycle(cap, WithCapacity::new().with_min_capacity(16).with_max_capacity(16)), cap, true),
        _ => go(&ThingBuf::<String, _>::with_recycle(cap, WithCapacity::new().with_max_capacity(8)), cap, false),
    }
}

/// All histories of a channel or queue with the counting policy.
fn pooled<P>(cap: usize, depth: usize, mk: impl Fn() -> P, op: impl Fn(&P, usize, u32) -> i32) {
    let p = mk();
    let mut inside = 0i64;
    let mut pushed = 0i64;
    let mut taken = 0i64;
    for k in 0..depth {
        let o = choose(4);
        let id = 0x20 + k as u32;
        let r = op(&p, o, id);
        if o < 2 {
            if (r != 0) != (inside < cap as i64) {
                violation("wrong answer of a send");
            }
            if r != 0 {
                inside += 1;
                pushed += 1;
            }
        } else {
            if (r != 0) != (inside > 0) {
                violation("wrong answer of a receive");
            }
            if r != 0 {
                inside -= 1;
                if o == 2 {
                    taken += 1;
                }
            }
        }
        let slots = pushed.min(cap as i64);
        let created = shared_peek("created");
        let recycled = shared_peek("recycled");
        if created > slots + taken {
            violation(format!("{} elements created for {} slots and {} by-value takes", created, slots, taken));
        }
        if recycled != (pushed - cap as i64).max(0) {
            violation(format!("{} recycle steps for {} reuses", recycled, (pushed - cap as i64).max(0)));
        }
    }
    outcome(|| format!("inside {} pushed {} taken {}", inside, pushed, taken));
}

// ------------------------------------------------------------------ panics

/// A recycle step or element creation that panics: nothing is leaked, dropped twice or read
/// uninitialised; after a failed recycle step the queue is fully usable.
fn policy_panics(stat: bool, cap: usize, laps: usize, depth: usize) {
    fn go<'a>(
        cap: usize,
        laps: usize,
        depth: usize,
        push: &dyn Fn(u32) -> bool,
        push_ref: &dyn Fn(u32) -> bool,
        pop: &dyn Fn() -> Option<u32>,
        pop_ref: &dyn Fn() -> Option<u32>,
    ) {
        for i in 0..laps {
            push(0x10 + i as u32);
            pop_ref();
        }
        let mut wedged = false;
        for k in 0..depth {
            let id = 0x40 + k as u32;
            match choose(6) {
                0 => {
                    push(id);
                }
                1 => {
                    push_ref(id);
                }
                2 => {
                    pop();
                }
                3 => {
                    pop_ref();
                }
                4 => {
                    shared_add("panic_recycle", 1);
                    let r = catch(|| push_ref(id));
                    if r.is_err() {
                        outcome(|| "recycle panicked".into());
                    }
                    let left = shared_peek("panic_recycle");
                    shared_add("panic_recycle", -left);
                }
                _ => {
                    shared_add("panic_new", 1);
                    let by = choose(2) == 0;
                    let r = catch(|| if by { push(id) } else { pop().is_some() });
                    if r.is_err() {
                        outcome(|| "creation panicked".into());
                        wedged |= by;
                    }
                    let left = shared_peek("panic_new");
                    shared_add("panic_new", -left);
                }
            }
        }
        if !wedged {
            // drain, then the full capacity is available
            while pop_ref().is_some() {}
            for k in 0..cap {
                if !push(0x80 + k as u32) {
                    violation("a slot stays unusable after a panic in a recycle step");
                }
            }
            for k in 0..cap {
                if pop() != Some(0x80 + k as u32) {
                    violation("wrong element after a panic in a recycle step");
                }
            }
        }
    }
    macro_rules! run {
        ($q:expr) => {{
            let q = $q;
            go(
                cap,
                laps,
                depth,
                &|id| nonblocking(|| q.push(Val::new(id)).is_ok()),
                &|id| nonblocking(|| q.push_ref().map(|mut r| r.set(id)).is_ok()),
                &|| nonblocking(|| q.pop().map(|v| v.id())),
                &|| nonblocking(|| q.pop_ref().map(|v| v.id())),
            );
        }};
    }
    match (stat, cap) {
        (false, _) => run!(ThingBuf::<Val, Pol>::with_recycle(cap, Pol)),
        (true, 1) => run!(StaticThingBuf::<Val, 1, Pol>::with_recycle(Pol)),
        (true, _) => run!(StaticThingBuf::<Val, 2, Pol>::with_recycle(Pol)),
    }
}

/// The recycle step panics inside a send while the receiver waits or a sender waits.
fn recycle_panics_in_channel() {
    let (tx, rx) = mpsc::with_recycle::<Val, Pol>(1, Pol);
    let block = choose(2) == 0;
    if tx.try_send(Val::new(0x11)).is_err() || rx.try_recv_ref().map(|v| v.id()).ok() != Some(0x11) {
        violation("channel does not work");
    }
    let h = spawn("sender", move || {
        shared_add("panic_recycle", 1);
        let r = catch(|| if block { block_on(tx.send(Val::new(0x12))).is_ok() } else { tx.try_send(Val::new(0x12)).is_ok() });
        if r.is_ok() {
            violation("the panic of the recycle step did not reach the caller");
        }
        // the channel goes on
        if block_on(tx.send(Val::new(0x13))).is_err() {
            violation("send failed as closed although the receiver is there");
        }
    });
    let mut ok = false;
    while let Some(v) = block_on(rx.recv_ref()) {
        if v.id() == 0x13 {
            ok = true;
        }
    }
    if !ok {
        violation("a message was lost");
    }
    h.join();
}

/// Wakers whose clone or wake panics.
fn waker_panics(fl: Fl, depth: usize) {
    let (home, tx, rx) = channel(fl, 1);
    let tx = Box::new(tx);
    if tx.try_send(0x11).is_err() {
        violation("send failed");
    }
    let mut inside = 1;
    let mut futs: [Option<(Pin<Box<dyn Future<Output = Result<(), E>>>>, (WakerId, std::task::Waker), bool)>; 2] = [None, None];
    for k in 0..2 {
        let t: &'static Tx = unsafe { &*(&*tx as *const Tx) };
        futs[k] = Some((t.send_fut(0x20 + k as u32), new_waker(), false));
    }
    let mut dead = false;
    for _ in 0..depth {
        let clear = || {
            for k in ["panic_on_clone", "panic_on_wake"] {
                let l = shared_peek(k);
                shared_add(k, -l);
            }
        };
        let o = choose(8);
        match o {
            // poll a send, with a panicking clone or not, with the old or a new waker
            0..=3 => {
                let k = (o & 1) as usize;
                let Some((f, w, pending)) = &mut futs[k] else { break };
                if choose(2) == 1 {
                    *w = new_waker();
                }
                if o >= 2 {
                    shared_add("panic_on_clone", 1);
                }
                w.0.take_woken();
                match catch(|| poll_once(f.as_mut(), &w.1)) {
                    Ok(Poll::Ready(r)) => {
                        if r.is_ok() {
                            inside += 1;
                        }
                        futs[k] = None;
                    }
                    Ok(Poll::Pending) => *pending = true,
                    Err(()) => {
                        // the task is gone
                        futs[k] = None;
                    }
                }
                clear();
            }
            4 | 5 => {
                if o == 5 {
                    shared_add("panic_on_wake", 1);
                }
                let r = catch(|| rx.try_recv_ref().is_ok());
                if r != Ok(false) {
                    inside -= 1;
                }
                if r.is_err() {
                    // that wakeup went to a task that does not exist any more
                    for k in 0..2 {
                        if futs[k].as_ref().map_or(false, |f| f.2 && f.1 .0.is_woken()) {
                            futs[k] = None;
                        }
                    }
                }
                clear();
            }
            6 => {
                let (w, wk) = new_waker();
                shared_add("panic_on_clone", 1);
                match catch(|| rx.poll_recv(&wk)) {
                    Ok(Poll::Ready(Some(_))) => inside -= 1,
                    Ok(Poll::Ready(None)) => violation("the end was reported although a sender is there"),
                    _ => {}
                }
                clear();
                // a receive that was given up leaves the receiver usable
                let (w2, wk2) = new_waker();
                match rx.poll_recv(&wk2) {
                    Poll::Ready(Some(_)) => inside -= 1,
                    Poll::Ready(None) => violation("the end was reported although a sender is there"),
                    Poll::Pending => {
                        if inside > 0 {
                            violation("a receive is pending although a message is there");
                        }
                        if tx.try_send(0x55).is_ok() {
                            if !w2.is_woken() {
                                violation("the receiver was not woken after an earlier panic in a waker");
                            }
                            if rx.try_recv() != Ok(0x55) {
                                violation("wrong message");
                            }
                        }
                    }
                }
                let _ = w;
            }
            _ => {
                dead = true;
                break;
            }
        }
        let pending = futs.iter().flatten().filter(|f| f.2).count();
        let woken = futs.iter().flatten().filter(|f| f.2 && f.1 .0.is_woken()).count();
        if inside == 0 && pending > 0 && woken == 0 {
            violation("a slot is free and a send is waiting, but it was not woken");
        }
    }
    drop(rx);
    if futs.iter().flatten().any(|f| f.2 && !f.1 .0.is_woken()) {
        violation("the receiver is gone but a waiting send was not woken");
    }
    drop(futs);
    outcome(|| format!("{} {}", inside, dead));
    drop(tx);
    drop(home);
}

// ------------------------------------------------------------------ wakers that run code

struct Inline {
    futs: [Option<Pin<Box<dyn Future<Output = Result<(), E>>>>>; 2],
    wakers: Vec<(WakerId, std::task::Waker)>,
    /// what `wake` does: 0 nothing, 1 poll the task, 2 drop the task
    act: usize,
    done: [i32; 2],
    depth: u32,
    rx_waker: usize,
    rx: *const Rx,
    got: Vec<u32>,
}
static mut INLINE: *mut Inline = std::ptr::null_mut();

fn inline_wake(t: usize) {
    user(|| unsafe {
        if INLINE.is_null() {
            return;
        }
        let c = &mut *INLINE;
        if c.depth > 3 {
            return;
        }
        c.depth += 1;
        for k in 0..2 {
            if c.wakers[k].0 .0 == t {
                match c.act {
                    1 => {
                        // take the future out while polling, as an executor does
                        if let Some(mut f) = c.futs[k].take() {
                            match poll_once(f.as_mut(), &c.wakers[k].1) {
                                Poll::Ready(r) => c.done[k] = if r.is_ok() { 1 } else { 2 },
                                Poll::Pending => c.futs[k] = Some(f),
                            }
                        }
                    }
                    2 => {
                        let f = c.futs[k].take();
                        if f.is_some() {
                            c.done[k] = 3;
                        }
                        drop(f);
                    }
                    _ => {}
                }
            }
        }
        if c.rx_waker == t && !c.rx.is_null() && c.act == 1 {
            let rx = &*c.rx;
            while let Poll::Ready(Some(id)) = rx.poll_recv_ref(&c.wakers[2].1) {
                c.got.push(id);
            }
        }
        c.depth -= 1;
    })
}

/// An executor that runs or drops the woken task inside `wake`.
fn inline_executor(fl: Fl, cap: usize) {
    let (home, tx, rx) = channel(fl, cap);
    let tx = Box::new(tx);
    let rx = Box::new(rx);
    let t: &'static Tx = unsafe { &*(&*tx as *const Tx) };
    for k in 0..cap {
        if t.try_send(0x10 + k as u32).is_err() {
            violation("send failed");
        }
    }
    let mut c = Box::new(Inline {
        futs: [Some(t.send_fut(0x20)), Some(t.send_ref_fut(0x21))],
        wakers: vec![new_waker(), new_waker(), new_waker()],
        act: choose(3),
        done: [0; 2],
        depth: 0,
        rx_waker: usize::MAX,
        rx: std::ptr::null(),
        got: Vec::new(),
    });
    c.rx_waker = c.wakers[2].0 .0;
    let c = Box::into_raw(c);
    unsafe { INLINE = c };
    let c = unsafe { &mut *c };
    set_wake_hook(&inline_wake);
    let n = 1 + choose(2);
    for k in 0..n {
        if poll_once(c.futs[k].as_mut().unwrap().as_mut(), &c.wakers[k].1) != Poll::Pending {
            violation("a send into a full channel completed");
        }
    }
    for k in n..2 {
        c.futs[k] = None;
    }
    match choose(4) {
        // receive everything
        0 => {
            for _ in 0..cap + 2 {
                if let Ok(id) = rx.try_recv() {
                    c.got.push(id);
                }
            }
        }
        1 => {
            for _ in 0..cap + 2 {
                if let Ok(id) = rx.try_recv_ref() {
                    c.got.push(id);
                }
            }
        }
        // the receiver waits with an inline waker
        2 => {
            while let Ok(id) = rx.try_recv() {
                c.got.push(id);
            }
            c.futs[0] = None;
            c.futs[1] = None;
            c.rx = &*rx;
            if let Poll::Ready(Some(id)) = rx.poll_recv_ref(&c.wakers[2].1) {
                c.got.push(id);
            }
            let before = c.got.len();
            if t.try_send(0x33).is_err() {
                violation("a send into an empty channel failed");
            }
            if c.act == 1 && c.got.len() == before {
                violation("the receiver's waker was not woken");
            }
            c.rx = std::ptr::null();
        }
        _ => {}
    }
    // the receiver goes away: everyone left is woken (and possibly polled or dropped right there)
    drop(rx);
    for k in 0..2 {
        if c.futs[k].is_some() && !c.wakers[k].0.is_woken() {
            violation("the receiver is gone but a waiting send was not woken");
        }
        if c.act == 1 {
            if let Some(f) = &mut c.futs[k] {
                if poll_once(f.as_mut(), &c.wakers[k].1) != Poll::Ready(Err(E::Closed)) {
                    violation("a waiting send did not fail as closed");
                }
            }
        }
    }
    outcome(|| format!("{:?} {:?}", c.done, c.got));
    unsafe { INLINE = std::ptr::null_mut() };
    c.futs = [None, None];
    let c = unsafe { Box::from_raw(c as *mut Inline) };
    drop(tx);
    drop(home);
    for w in &c.wakers {
        if w.0.refs() != 1 {
            violation("a waker is still referenced after everything was dropped");
        }
    }
    drop(c);
}

// ------------------------------------------------------------------ static channels

macro_rules! split_race {
    ($name:ident, $m:ident, $recv:expr) => {
        fn $name(threads: usize) {
            let (ch, home) = home($m::StaticChannel::<Val, 2>::new());
            let wins = Rc::new(Plain::new(0u32));
            let _ = &wins;
            let mut hs = Vec::new();
            for t in 0..threads {
                hs.push(spawn("splitter", move || {
                    let by_panic = t == 0;
                    let got = if by_panic { catch_any(|| ch.split()).ok() } else { ch.try_split() };
                    match got {
                        Some((tx, rx)) => {
                            shared_add("splits", 1);
                            let tx2 = tx.clone();
                            if tx.try_send(Val::new(7)).is_err() || tx2.try_send(Val::new(8)).is_err() {
                                violation("a fresh channel refused a message");
                            }
                            if tx.try_send(Val::new(9)).is_ok() {
                                violation("a channel of capacity 2 accepted three messages");
                            }
                            drop(tx);
                            drop(tx2);
                            let f: fn(&$m::StaticReceiver<Val>) -> Option<u32> = $recv;
                            if f(&rx) != Some(7) || f(&rx) != Some(8) || f(&rx).is_some() || !rx.is_closed() {
                                violation("wrong messages");
                            }
                            true
                        }
                        None => false,
                    }
                }));
            }
            let n = hs.into_iter().map(|h| h.join()).filter(|w| *w).count();
            if n != 1 {
                violation(format!("{} of {} concurrent attempts to split a static channel succeeded", n, threads));
            }
            if ch.try_split().is_some() {
                violation("a static channel was split twice");
            }
            if catch_any(|| ch.split()).is_ok() {
                violation("a static channel was split twice");
            }
            drop(home);
        }
    };
}
split_race!(split_async, mpsc, |r| block_on(r.recv()).map(|v| v.id()));
#[cfg(feature = "tb_std")]
split_race!(split_blocking, blocking, |r| r.recv().map(|v| v.id()));

// ------------------------------------------------------------------ timing

/// Timed operations that are woken early, in vain, must still return at their deadline.
#[cfg(feature = "tb_std")]
fn strict_send(fl: Fl, by_ref: bool) {
    use std::time::Duration;
    let (home, tx, rx) = channel(fl, 1);
    if tx.try_send(0x11).is_err() {
        violation("send failed");
    }
    let tx1 = tx.clone();
    let h = spawn("timed", move || {
        let d = 10 * MS;
        let t0 = clock();
        let r = if by_ref { tx1.send_ref_timeout(0x21, Duration::from_nanos(d)) } else { tx1.send_timeout(0x21, Duration::from_nanos(d)) };
        let dt = clock() - t0;
        match r {
            Ok(()) => {
                if dt > d {
                    violation(format!("a send with a {} ns timeout completed after {} ns", d, dt));
                }
                1
            }
            Err(E::Timeout) => {
                if dt < d {
                    violation(format!("a send timed out after {} ns instead of {} ns", dt, d));
                }
                if dt > d {
                    violation(format!("a send with a {} ns timeout returned only after {} ns", d, dt));
                }
                0
            }
            Err(e) => violation(format!("a timed send failed as {:?}", e)),
        }
    });
    let mut n = 0;
    for wait in [4, 3, 2] {
        sleep(wait * MS);
        match rx.try_recv() {
            Ok(_) => n += 1,
            Err(_) => {}
        }
        let _ = tx.try_send(0x30);
    }
    sleep(5 * MS);
    let sent = h.join();
    outcome(|| format!("{} {}", sent, n));
    drop(tx);
    let mut seen = 0;
    while let Some(id) = rx.recv() {
        if id == 0x21 {
            seen += 1;
        }
    }
    if seen > sent {
        violation("a timed-out send delivered its message");
    }
    drop(rx);
    drop(home);
}

#[cfg(feature = "tb_std")]
fn strict_recv(fl: Fl, by_ref: bool) {
    use std::time::Duration;
    let (home, tx, rx) = channel(fl, 2);
    let h = spawn("sender", move || {
        // a reserved slot keeps the receiver from the second message
        let g = match tx.try_send_ref_guard() {
            Ok(g) => g,
            Err(_) => violation("refused by an empty channel"),
        };
        sleep(4 * MS);
        if tx.try_send(0x22).is_err() {
            violation("refused although a slot is free");
        }
        sleep(3 * MS);
        drop(tx.clone());
        sleep(13 * MS);
        g(0x21);
    });
    let d = 10 * MS;
    let t0 = clock();
    let r = if by_ref { rx.recv_ref_timeout(Duration::from_nanos(d)) } else { rx.recv_timeout(Duration::from_nanos(d)) };
    let dt = clock() - t0;
    match r {
        Err(E::Timeout) => {
            if dt < d {
                violation(format!("a receive timed out after {} ns instead of {} ns", dt, d));
            }
            if dt > d {
                violation(format!("a receive with a {} ns timeout returned only after {} ns", d, dt));
            }
        }
        // the receiver may run after everything else if it is not scheduled before
        Ok(id) => {
            if id != 0x21 && id != 0x22 {
                violation("wrong message");
            }
        }
        Err(e) => violation(format!("a timed receive failed as {:?}", e)),
    }
    outcome(|| format!("{:?}", r));
    h.join();
    while rx.recv().is_some() {}
    drop(rx);
    drop(home);
}

/// A timeout of zero does not wait, a huge one does not overflow.
#[cfg(feature = "tb_std")]
fn extreme_timeouts(fl: Fl) {
    use std::time::Duration;
    let (home, tx, rx) = channel(fl, 1);
    let d = [Duration::from_nanos(0), Duration::from_nanos(1), Duration::from_secs(u64::MAX), Duration::MAX][choose(4)];
    let small = d.as_nanos() <= 1;
    let op = choose(4);
    let full = choose(2) == 1;
    if full && tx.try_send(0x11).is_err() {
        violation("send failed");
    }
    if small {
        let r = match op {
            0 => tx.send_timeout(0x12, d).map(|_| 0),
            1 => tx.send_ref_timeout(0x12, d).map(|_| 0),
            2 => rx.recv_timeout(d),
            _ => rx.recv_ref_timeout(d),
        };
        let ok = if op < 2 { !full } else { full };
        if ok != r.is_ok() || (!ok && r != Err(E::Timeout)) {
            violation(format!("wrong answer {:?} of a timed operation", r));
        }
    } else {
        // somebody makes it possible
        if op < 2 {
            let h = spawn("sender", move || {
                let r = if op == 0 { tx.send_timeout(0x12, d) } else { tx.send_ref_timeout(0x12, d) };
                if r.is_err() {
                    violation("a send with a very long timeout failed");
                }
            });
            let mut n = 0;
            while rx.recv().is_some() {
                n += 1;
            }
            h.join();
            if n != 1 + full as u32 {
                violation("wrong number of messages");
            }
            drop(rx);
            drop(home);
            return;
        }
        let h = spawn("sender", move || {
            if !full && tx.try_send(0x12).is_err() {
                violation("send failed");
            }
        });
        let r = if op == 2 { rx.recv_timeout(d) } else { rx.recv_ref_timeout(d) };
        if r.is_err() {
            violation("a receive with a very long timeout failed");
        }
        h.join();
        drop(rx);
        drop(home);
        return;
    }
    drop(tx);
    drop(rx);
    drop(home);
}

// ------------------------------------------------------------------ first come, first served

#[derive(Clone, Copy, PartialEq)]
enum W {
    Send,
    SendRef,
    /// gives up after a while (blocking), or polls with new wakers (async)
    Timed,
}

/// Senders that begin to wait one after the other get their slots in that order.
fn in_turn(fl: Fl, cap: usize, ops: &'static [W]) {
    let (home, tx, rx) = channel(fl, cap);
    for k in 0..cap as u32 {
        if tx.try_send(0x10 + k).is_err() {
            violation("a send into a channel with room failed");
        }
    }
    let mut hs = Vec::new();
    for (t, op) in ops.iter().enumerate() {
        let tx = tx.clone();
        let id = 0x100 + t as u32;
        let h = spawn("sender", move || match op {
            W::Send => tx.send(id).is_ok(),
            W::SendRef => tx.send_ref(id).is_ok(),
            #[cfg(feature = "tb_std")]
            W::Timed if !fl.is_async() => tx.send_timeout(id, std::time::Duration::from_millis(10)).is_ok(),
            W::Timed => block_on_fresh(tx.send_fut(id)).is_ok(),
        });
        h.asleep();
        hs.push(h);
    }
    let mut got = Vec::new();
    drop(tx);
    for k in 0..cap as u32 {
        if rx.recv() != Some(0x10 + k) {
            violation("messages came out of order");
        }
    }
    while let Some(id) = rx.recv_ref() {
        got.push(id);
    }
    let sent: Vec<u32> = hs.into_iter().enumerate().filter_map(|(i, h)| if h.join() { Some(0x100 + i as u32) } else { None }).collect();
    let mut sorted = got.clone();
    sorted.sort();
    if sorted != sent {
        violation(format!("{:x?} were sent but {:x?} arrived", sent, got));
    }
    if cap == 1 && got != sent {
        out_of_turn(format!("senders waiting in the order of their numbers got their slots in the order {:x?}", got));
    }
    outcome(|| format!("{:x?}", got));
    drop(rx);
    drop(home);
}

// ------------------------------------------------------------------ stalled peers

#[derive(Clone, Copy)]
enum N {
    Try,
    TryRef,
    /// reserve, let others run, publish
    Keep,
}

/// Non-waiting operations only, each of which must finish whatever the others do.
fn stalled(fl: Fl, cap: usize, laps: usize, prefill: usize, senders: &'static [&'static [N]], rx_ops: &'static [u8]) {
    let (home, tx, rx) = channel(fl, cap);
    ev(TX_NEW, 0, 1);
    let send = |tx: &Tx, n: u32, by_ref: bool| {
        let id = 0x100 + n;
        ev(PUSH_CALL, n, id);
        match nonblocking(|| if by_ref { tx.try_send_ref_guard().map(|g| user(|| g(id))) } else { tx.try_send(id) }) {
            Ok(()) => {
                ev(PUSH_OK, n, id);
                ev(PUSH_DONE, n, id);
            }
            Err(E::Full) => ev(PUSH_FULL, n, id),
            Err(_) => ev(FAIL, n, id),
        }
    };
    let recv = |rx: &Rx, n: u32, op: u8| -> bool {
        ev(POP_CALL, n, 0);
        let r = match op {
            0 => nonblocking(|| rx.try_recv()),
            1 => nonblocking(|| rx.try_recv_ref()),
            _ => nonblocking(|| rx.try_recv_ref_guard()).map(|(id, g)| {
                ev(POP_OK, n, id);
                step();
                nonblocking(|| user(g));
                ev(POP_DONE, n, id);
                id
            }),
        };
        match r {
            Ok(id) => {
                if op < 2 {
                    ev(POP_OK, n, id);
                    ev(POP_DONE, n, id);
                }
                true
            }
            Err(E::Empty) => {
                ev(POP_NONE, n, 0);
                false
            }
            Err(_) => {
                ev(RECV_END, n, 0);
                false
            }
        }
    };
    for k in 0..laps as u32 {
        send(&tx, k, true);
        recv(&rx, 0x20 + k, 0);
    }
    for k in 0..prefill as u32 {
        send(&tx, 0x10 + k, false);
    }
    let mut hs = Vec::new();
    for (t, ops) in senders.iter().enumerate() {
        let tx = tx.clone();
        let h = 2 + t as u32;
        ev(TX_NEW, 0, h);
        let ops: &'static [N] = ops;
        hs.push(spawn("sender", move || {
            for (i, op) in ops.iter().enumerate() {
                let n = 64 + 16 * t as u32 + i as u32;
                match op {
                    N::Try => send(&tx, n, false),
                    N::TryRef => send(&tx, n, true),
                    N::Keep => {
                        let id = 0x100 + n;
                        ev(PUSH_CALL, n, id);
                        match nonblocking(|| tx.try_send_ref_guard()) {
                            Ok(g) => {
                                ev(PUSH_OK, n, id);
                                step();
                                step();
                                nonblocking(|| user(|| g(id)));
                                ev(PUSH_DONE, n, id);
                            }
                            Err(E::Full) => ev(PUSH_FULL, n, id),
                            Err(_) => ev(FAIL, n, id),
                        }
                    }
                }
            }
            ev(TX_DROP_CALL, 0, h);
            drop(tx);
            ev(TX_DROP_DONE, 0, h);
        }));
    }
    for (i, op) in rx_ops.iter().enumerate() {
        recv(&rx, 0x200 + i as u32, *op);
    }
    for h in hs {
        h.join();
    }
    ev(TX_DROP_CALL, 0, 1);
    drop(tx);
    ev(TX_DROP_DONE, 0, 1);
    let mut n = 0x300;
    while recv(&rx, n, 0) {
        n += 1;
    }
    hist::check(cap, true);
    drop(rx);
    drop(home);
}

pub fn register(v: &mut Vec<Scn>) {
    let _ = hold;
    macro_rules! wc {
        ($t:ty, $n:expr) => {
            add(v, format!("p_capacity_{}", $n), &["P06"], &ONE, &ONE, || with_capacity::<$t>($n));
            add(v, format!("p_large_capacity_{}", $n), &["P06"], &ONE, &ONE, || with_large_capacity::<$t>($n));
        };
    }
    wc!(Vec<Val>, "vec");
    wc!(Vec<()>, "vec_zst");
    wc!(String, "string");
    wc!(VecDeque<Val>, "vecdeque");
    wc!(BinaryHeap<u32>, "binaryheap");
    #[cfg(feature = "tb_std")]
    {
        wc!(std::collections::HashMap<u32, Val, Bh>, "hashmap");
        wc!(std::collections::HashSet<u32, Bh>, "hashset");
    }
    add(v, "p_default_string", &["P06"], &ONE, &ONE, || default_policy("String", |k| "x".repeat(k), 9));
    add(v, "p_default_vec", &["P06"], &ONE, &ONE, || default_policy("Vec", |k| vec![k as u8; k], 9));
    add(v, "p_default_int", &["P06"], &ONE, &ONE, || default_policy("i64", |k| k as i64 - 3, 9));
    add(v, "p_default_option", &["P06"], &ONE, &ONE, || default_policy("Option", |k| if k == 0 { None } else { Some(vec![1u8; k]) }, 4));
    add(v, "p_default_tuple", &["P06"], &ONE, &ONE, || default_policy("tuple", |k| (k, "y".repeat(k), [k as u8; 3]), 5));
    add(v, "p_default_vecs", &["P06"], &ONE, &ONE, || default_policy("Vec<String>", |k| vec!["z".repeat(k); k], 5));
    add(v, "p_default_array", &["P06"], &ONE, &ONE, || default_policy("[u64; 32]", |k| [k as u64; 32], 5));
    add(v, "p_default_bool", &["P06"], &ONE, &ONE, || default_policy("bool", |k| k == 1, 2));
    add(v, "p_default_float", &["P06"], &ONE, &ONE, || default_policy("f64", |k| k as f64, 4));
    add(v, "p_default_box", &["P06"], &ONE, &ONE, || default_policy("Box<u32>", |k| Box::new(k as u32), 4));
    add(v, "p_default_arc", &["P06"], &ONE, &ONE, || default_policy("Arc<String>", |k| Arc::new("q".repeat(k)), 4));
    add(v, "p_default_map", &["P06"], &ONE, &ONE, || default_policy("BTreeMap", |k| (0..k).map(|i| (i, i)).collect::<std::collections::BTreeMap<_, _>>(), 5));
    add(v, "p_default_optvec", &["P06"], &ONE, &ONE, || default_policy("Option<Vec>", |k| if k == 0 { None } else { Some(vec![k; k]) }, 5));
    add(v, "p_default_nonzero", &["P06"], &ONE, &ONE, || {
        // a type whose default is not all zeroes
        #[derive(Clone, PartialEq, Debug)]
        struct N(u32, String);
        impl Default for N {
            fn default() -> N {
                N(7, "seven".into())
            }
        }
        default_policy("N", |k| N(k as u32, "n".repeat(k)), 9)
    });
    for cap in [1usize, 2, 3] {
        add(v, format!("p_pooled_strings_cap{}", cap), &["P05", "P06"], &ONE, &ONE, move || pooled_strings(cap));
    }
    for cap in [1usize, 2] {
        for (deep, depth) in [(false, 8), (true, 10)] {
            let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
            let tag = if deep { "_deep" } else { "" };
            add(v, format!("p_pooled_async_cap{}{}", cap, tag), &["P05", "P04"], q, d, move || {
                pooled(
                    cap,
                    depth,
                    || mpsc::with_recycle::<Val, Pol>(cap, Pol),
                    |(tx, rx), o, id| {
                        let (_w, w) = new_waker();
                        match o {
                            // waiting and non-waiting forms in turn
                            0 => {
                                let mut f = Box::pin(tx.send(Val::new(id)));
                                let r = if id % 2 == 0 { tx.try_send(Val::new(id)).is_ok() } else { matches!(poll_once(f.as_mut(), &w), Poll::Ready(Ok(()))) };
                                r as i32
                            }
                            1 => {
                                if id % 2 == 0 {
                                    tx.try_send_ref().map(|mut v| fill(&mut v, id)).is_ok() as i32
                                } else {
                                    let mut f = Box::pin(tx.send_ref());
                                    match poll_once(f.as_mut(), &w) {
                                        Poll::Ready(Ok(mut v)) => {
                                            fill(&mut v, id);
                                            1
                                        }
                                        _ => 0,
                                    }
                                }
                            }
                            2 => (if id % 3 == 0 {
                                matches!(rx.poll_recv(&mut std::task::Context::from_waker(&w)), Poll::Ready(Some(_)))
                            } else if id % 3 == 1 {
                                matches!(poll_once(Box::pin(rx.recv()).as_mut(), &w), Poll::Ready(Some(_)))
                            } else {
                                rx.try_recv().is_ok()
                            }) as i32,
                            _ => (if id % 3 == 0 {
                                matches!(rx.poll_recv_ref(&mut std::task::Context::from_waker(&w)), Poll::Ready(Some(_)))
                            } else if id % 3 == 1 {
                                matches!(poll_once(Box::pin(rx.recv_ref()).as_mut(), &w), Poll::Ready(Some(_)))
                            } else {
                                rx.try_recv_ref().is_ok()
                            }) as i32,
                        }
                    },
                )
            });
            #[cfg(feature = "tb_std")]
            add(v, format!("p_pooled_blocking_cap{}{}", cap, tag), &["P05", "P04"], q, d, move || {
                use std::time::Duration;
                let z = Duration::from_nanos(1);
                pooled(
                    cap,
                    depth,
                    || blocking::with_recycle::<Val, Pol>(cap, Pol),
                    move |(tx, rx), o, id| match o {
                        0 => (if id % 2 == 0 { tx.try_send(Val::new(id)).is_ok() } else { tx.send_timeout(Val::new(id), z).is_ok() }) as i32,
                        1 => (if id % 2 == 0 { tx.try_send_ref().map(|mut v| fill(&mut v, id)).is_ok() } else { tx.send_ref_timeout(z).map(|mut v| fill(&mut v, id)).is_ok() }) as i32,
                        2 => (if id % 2 == 0 { rx.try_recv().is_ok() } else { rx.recv_timeout(z).is_ok() }) as i32,
                        _ => (if id % 2 == 0 { rx.try_recv_ref().is_ok() } else { rx.recv_ref_timeout(z).is_ok() }) as i32,
                    },
                )
            });
        }
    }
    for fl in flavours() {
        add(v, format!("e_texts_{}", fl.tag()), &["P19"], &ONE, &ONE, move || error_texts(fl));
    }
    // panics (without `std` the library assumes that nothing unwinds)
    let unwind = cfg!(feature = "tb_std");
    for stat in [false, true].iter().copied().filter(|_| unwind) {
        for (cap, laps) in [(1usize, 0usize), (1, 1), (2, 2)] {
            for (deep, depth) in [(false, 5), (true, 7)] {
                let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                let tag = if deep { "_deep" } else { "" };
                add(v, format!("x_policy_panics_{}_cap{}_lap{}{}", if stat { "static" } else { "heap" }, cap, laps, tag), &["P17", "P04"], q, d, move || {
                    policy_panics(stat, cap, laps, depth)
                });
            }
        }
    }
    #[cfg(feature = "tb_std")]
    add(v, "x_recycle_panics_in_channel", &["P17", "P08"], &[b(2, 0, 0, 0, 0)], &[b(3, 1, 1, 1, 0)], recycle_panics_in_channel);
    for fl in flavours() {
        if fl.is_async() {
            for (deep, depth) in [(false, 4), (true, 6)].iter().copied().filter(|_| unwind) {
                let (q, d): (&[Budget], &[Budget]) = if deep { (&[], &ONE) } else { (&ONE, &ONE) };
                let tag = if deep { "_deep" } else { "" };
                add(v, format!("x_waker_panics_{}{}", fl.tag(), tag), &["P17", "P16", "P12"], q, d, move || waker_panics(fl, depth));
            }
            for cap in [1usize, 2] {
                add(v, format!("x_inline_executor_{}_cap{}", fl.tag(), cap), &["P09", "P11", "P12", "P16", "P17"], &ONE, &ONE, move || inline_executor(fl, cap));
            }
        }
    }
    // static splitting
    let sb = [b(2, 0, 0, 0, 0), b(1, 1, 1, 0, 0)];
    let sd = [b(3, 1, 1, 0, 0), b(255, 0, 0, 0, 0)];
    for n in [2usize, 3] {
        add(v, format!("x_split_async_{}", n), &["P18"], &sb, &sd, move || split_async(n));
        #[cfg(feature = "tb_std")]
        add(v, format!("x_split_blocking_{}", n), &["P18"], &sb, &sd, move || split_blocking(n));
    }
    // timing
    #[cfg(feature = "tb_std")]
    for fl in [Fl::B, Fl::SB] {
        let tb = [b(1, 0, 0, 0, 0), b(0, 0, 0, 1, 0)];
        let td = [b(2, 0, 0, 1, 0), b(3, 0, 0, 1, 0)];
        for by_ref in [false, true] {
            let r = if by_ref { "ref" } else { "val" };
            add(v, format!("t_strict_send_{}_{}", fl.tag(), r), &["P13"], &tb, &td, move || strict_send(fl, by_ref));
            add(v, format!("t_strict_recv_{}_{}", fl.tag(), r), &["P13"], &tb, &td, move || strict_recv(fl, by_ref));
        }
        add(v, format!("t_extreme_{}", fl.tag()), &["P13", "P19"], &[b(1, 0, 0, 0, 0)], &[b(2, 0, 0, 1, 1)], move || extreme_timeouts(fl));
    }
    // first come, first served
    for fl in flavours() {
        let fl2 = [b(1, 0, 0, 0, 1), b(0, 0, 0, 1, 0)];
        let fb = [b(2, 0, 0, 1, 1), b(1, 1, 1, 0, 0)];
        let fd = [b(2, 1, 1, 1, 1), b(3, 0, 0, 1, 2), b(255, 0, 0, 0, 0)];
        add(v, format!("f_{}_2", fl.tag()), &["P21", "P07", "P09"], &fb, &fd, move || in_turn(fl, 1, &[W::Send, W::SendRef]));
        add(v, format!("f_{}_3", fl.tag()), &["P21", "P07", "P09"], &fb, &fd, move || in_turn(fl, 1, &[W::SendRef, W::Timed, W::Send]));
        add(v, format!("f_{}_first", fl.tag()), &["P21", "P07", "P09"], &fb, &fd, move || in_turn(fl, 1, &[W::Timed, W::Send, W::SendRef]));
        add(v, format!("f_{}_cap2", fl.tag()), &["P07", "P09"], &fl2, &fd, move || in_turn(fl, 2, &[W::Send, W::Timed, W::SendRef]));
    }
    // stalled peers
    use N::*;
    let progs: &[(&str, usize, usize, usize, &'static [&'static [N]], &'static [u8])] = &[
        ("1s_cap1", 1, 0, 0, &[&[Keep, Try]], &[0, 1, 2]),
        ("2s_cap1", 1, 1, 0, &[&[Keep], &[Try, TryRef]], &[2, 0]),
        ("2s_cap2", 2, 1, 1, &[&[Keep], &[Keep]], &[2, 1, 0]),
        ("full_cap2", 2, 0, 2, &[&[TryRef], &[Try]], &[2, 2]),
    ];
    for fl in flavours() {
        for (name, cap, laps, pre, s, r) in progs.iter().copied() {
            let mut quick = vec![b(2, 0, 0, 0, 0), b(1, 1, 1, 0, 0)];
            if cap == 1 {
                quick.push(b(0, 0, 6, 0, 0));
            }
            add(
                v,
                format!("n_{}_{}", fl.tag(), name),
                &["P14", "P02", "P07", "P19", "P03"],
                &quick,
                &[b(3, 0, 0, 0, 0), b(2, 1, 1, 0, 0), b(1, 0, 8, 0, 0), b(3, 1, 1, 0, 0)],
                move || stalled(fl, cap, laps, pre, s, r),
            );
        }
    }
}
