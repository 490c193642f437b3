//! Recording of operation histories and the oracles over them.
use crate::engine::api::*;

pub const PUSH_CALL: u64 = 1;
pub const PUSH_OK: u64 = 2;
pub const PUSH_DONE: u64 = 3;
pub const PUSH_FULL: u64 = 4;
pub const POP_CALL: u64 = 5;
pub const POP_OK: u64 = 6;
pub const POP_DONE: u64 = 7;
pub const POP_NONE: u64 = 8;
pub const LEN_CALL: u64 = 9;
pub const LEN_RET: u64 = 10;
/// a send failed because the channel is closed
pub const FAIL: u64 = 11;
pub const TX_NEW: u64 = 12;
pub const TX_DROP_CALL: u64 = 13;
pub const TX_DROP_DONE: u64 = 14;
pub const RX_DROP_CALL: u64 = 15;
pub const RX_DROP_DONE: u64 = 16;
/// a receive operation reported the end of the stream
pub const RECV_END: u64 = 17;
pub const CLOSED_CALL: u64 = 18;
pub const CLOSED_RET: u64 = 19;
/// a send was abandoned or timed out (nothing may be delivered)
pub const GAVE_UP: u64 = 20;

/// `is_empty()` returned false
pub const LEN_NZ: u64 = 21;

/// op: identifies one call (unique per call within the execution)
pub fn ev(kind: u64, op: u32, x: u32) {
    log(kind << 56 | (op as u64) << 32 | x as u64);
}

#[derive(Clone, Copy, Debug)]
struct Ev {
    kind: u64,
    op: u32,
    x: u32,
}

fn events() -> Vec<Ev> {
    get_log().iter().map(|(_, w)| Ev { kind: w >> 56, op: (w >> 32) as u32 & 0xff_ffff, x: *w as u32 }).collect()
}

struct Push {
    id: u32,
    call: usize,
    ok: usize,
    done: usize,
}
struct Pop {
    id: u32,
    call: usize,
    ok: usize,
    done: usize,
}

const INF: usize = usize::MAX;

/// Oracle for queues and channels: exactly-once, FIFO, truthful refusals, sizes within bounds.
/// `drained`: the log ends with the queue emptied, so everything pushed must have come out.
pub fn check(cap: usize, drained: bool) {
    let evs = events();
    let find = |k: u64, op: u32| evs.iter().position(|e| e.kind == k && e.op == op).unwrap_or(INF);
    let mut pushes: Vec<Push> = Vec::new();
    let mut pops: Vec<Pop> = Vec::new();
    for (i, e) in evs.iter().enumerate() {
        match e.kind {
            PUSH_OK => pushes.push(Push { id: e.x, call: find(PUSH_CALL, e.op), ok: i, done: find(PUSH_DONE, e.op) }),
            POP_OK => pops.push(Pop { id: e.x, call: find(POP_CALL, e.op), ok: i, done: find(POP_DONE, e.op) }),
            _ => {}
        }
    }
    // exactly once
    for (i, p) in pops.iter().enumerate() {
        match pushes.iter().find(|q| q.id == p.id) {
            None => violation(format!("received {:#x}, which was never pushed", p.id)),
            Some(q) => {
                if q.call == INF || q.call > p.ok {
                    violation(format!("{:#x} received before it was sent", p.id));
                }
            }
        }
        if pops[..i].iter().any(|o| o.id == p.id) {
            violation(format!("{:#x} received twice", p.id));
        }
    }
    if drained {
        for q in &pushes {
            if !pops.iter().any(|p| p.id == q.id) {
                violation(format!("{:#x} was accepted but never received", q.id));
            }
        }
    }
    // FIFO by real-time order of the claims
    for a in &pushes {
        for b in &pushes {
            if a.ok < b.call {
                let pa = pops.iter().find(|p| p.id == a.id);
                let pb = pops.iter().find(|p| p.id == b.id);
                match (pa, pb) {
                    (Some(pa), Some(pb)) => {
                        if pb.ok < pa.call {
                            violation(format!("{:#x} came out before {:#x}, which was pushed earlier", b.id, a.id));
                        }
                    }
                    (None, Some(_)) => violation(format!("{:#x} came out although {:#x}, pushed earlier, did not", b.id, a.id)),
                    _ => {}
                }
            }
        }
    }
    for (i, e) in evs.iter().enumerate() {
        match e.kind {
            // (an execution in which a thread persistently reads old values, although nothing forces
            // it to know better, may well see a slot as still taken or not yet filled)
            PUSH_FULL | POP_NONE if lag_used() => {}
            PUSH_FULL => {
                // at some moment of the call all slots may have been occupied or held
                let c = find(PUSH_CALL, e.op);
                let mut ok = false;
                for t in c..=i {
                    let began = pushes.iter().filter(|p| p.call <= t).count();
                    let freed = pops.iter().filter(|p| p.done <= t).count();
                    // a held receive reference may block the slot that is next in turn
                    let held = pops.iter().any(|p| p.call <= t && p.done > t);
                    if began - freed.min(began) >= cap || (held && began >= cap) {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    violation("a push was refused as full although a slot was free during the whole call");
                }
            }
            POP_NONE => {
                let c = find(POP_CALL, e.op);
                // complete before the call, and not possibly taken by anyone until the return
                let avail = pushes.iter().any(|p| p.done < c && !pops.iter().any(|o| o.id == p.id && o.call < i));
                // someone in the middle of a push may be ahead in the line
                let busy = pushes.iter().any(|p| p.call < i && p.done > c);
                if avail && !busy {
                    violation("a pop found nothing although a completed element was next in line during the whole call");
                }
            }
            LEN_RET | LEN_NZ => {
                let c = find(LEN_CALL, e.op);
                let l = e.x as usize;
                // the answer must have been true at one moment of the call: claims happen
                // somewhere between the call and the return of their operation
                let mut hi = isize::MIN;
                let mut lo = isize::MAX;
                for t in c..i {
                    let n = |f: &dyn Fn(&Push) -> bool| pushes.iter().filter(|p| f(p)).count() as isize;
                    let m = |f: &dyn Fn(&Pop) -> bool| pops.iter().filter(|p| f(p)).count() as isize;
                    hi = hi.max(n(&|p| p.call <= t) - m(&|p| p.ok <= t));
                    lo = lo.min(n(&|p| p.ok <= t) - m(&|p| p.call <= t));
                }
                if l > cap {
                    violation(format!("reported length {} exceeds the capacity {}", l, cap));
                }
                if e.kind == LEN_NZ {
                    if hi < 1 {
                        violation("is_empty() was false although the queue was empty during the whole call");
                    }
                } else if (l as isize) > hi || (l as isize) < lo {
                    violation(format!("reported length {} is inconsistent with the operations so far ({}..{})", l, lo, hi));
                }
            }
            _ => {}
        }
    }
    // handles and disconnection
    let handles: Vec<u32> = evs.iter().filter(|e| e.kind == TX_NEW).map(|e| e.x).collect();
    let at = |k: u64, x: u32| evs.iter().position(|e| e.kind == k && e.x == x).unwrap_or(INF);
    let rx_drop = evs.iter().position(|e| e.kind == RX_DROP_CALL).unwrap_or(INF);
    let rx_gone = evs.iter().position(|e| e.kind == RX_DROP_DONE).unwrap_or(INF);
    for (i, e) in evs.iter().enumerate() {
        match e.kind {
            FAIL if rx_drop > i => violation("a send failed as closed although the receiver is still there"),
            PUSH_OK if find(PUSH_CALL, e.op) > rx_gone && find(PUSH_CALL, e.op) != INF => {
                violation("a send that started after the receiver was dropped succeeded")
            }
            // (a thread that does not know about the drop may still go by what it read before)
            PUSH_FULL if find(PUSH_CALL, e.op) > rx_gone && find(PUSH_CALL, e.op) != INF && !stale_used() => {
                violation("a send that started after the receiver was dropped was refused as full instead of closed")
            }
            RECV_END => {
                if handles.iter().any(|h| at(TX_DROP_CALL, *h) > i) {
                    violation("the end of the stream was reported although a sender is still there");
                }
                if let Some(q) = pushes.iter().find(|q| !pops.iter().any(|p| p.id == q.id && p.ok < i)) {
                    violation(format!("the end of the stream was reported before {:#x} was received", q.id));
                }
            }
            POP_NONE if !handles.is_empty() => {
                let c = find(POP_CALL, e.op);
                if handles.iter().all(|h| at(TX_DROP_DONE, *h) < c) {
                    violation("a receive reported empty although all senders are gone");
                }
            }
            CLOSED_RET => {
                let c = find(CLOSED_CALL, e.op);
                if e.x == 1 && handles.iter().any(|h| at(TX_DROP_CALL, *h) > i) {
                    violation("is_closed() is true although a sender is still there");
                }
                if e.x == 0 && handles.iter().all(|h| at(TX_DROP_DONE, *h) < c) {
                    violation("is_closed() is false although all senders are gone");
                }
            }
            _ => {}
        }
    }
    // never more than cap elements at once: certain occupancy at each event
    for t in 0..evs.len() {
        let inside = pushes.iter().filter(|p| p.ok <= t).count() as isize - pops.iter().filter(|p| p.call <= t).count() as isize;
        if inside > cap as isize {
            violation(format!("{} elements accepted by a queue of capacity {}", inside, cap));
        }
    }
    outcome(|| {
        let mut s = String::new();
        for p in &pops {
            s.push_str(&format!("{:x} ", p.id));
        }
        let full = evs.iter().filter(|e| e.kind == PUSH_FULL).count();
        let none = evs.iter().filter(|e| e.kind == POP_NONE).count();
        let fail = evs.iter().filter(|e| e.kind == FAIL).count();
        let gave = evs.iter().filter(|e| e.kind == GAVE_UP).count();
        s.push_str(&format!("| full {} none {} fail {} gave-up {}", full, none, fail, gave));
        s
    });
}
