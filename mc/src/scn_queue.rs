//! Queues (`ThingBuf`, `StaticThingBuf`).
use super::{add, b, Scn};
use crate::chan::*;
use crate::engine::api::*;
use crate::hist::{self, *};
use crate::val::hold;
use std::rc::Rc;

/// One operation of a concurrent queue program.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Push,
    PushRef,
    PushWith,
    Pop,
    PopRef,
    PopWith,
    Len,
    Rem,
    Empty,
}
use Op::*;

/// Perform one operation and record it. `n` is unique within the execution.
pub fn perform(q: &Q, op: Op, n: u32) {
    let id = 0x100 + n;
    match op {
        Push => {
            ev(PUSH_CALL, n, id);
            match nonblocking(|| q.push(id)) {
                Ok(()) => {
                    ev(PUSH_OK, n, id);
                    ev(PUSH_DONE, n, id)
                }
                Err(()) => ev(PUSH_FULL, n, id),
            }
        }
        PushRef => {
            ev(PUSH_CALL, n, id);
            match nonblocking(|| q.push_ref()) {
                Ok(mut r) => {
                    ev(PUSH_OK, n, id);
                    fill(&mut r, id);
                    drop(r);
                    ev(PUSH_DONE, n, id)
                }
                Err(()) => ev(PUSH_FULL, n, id),
            }
        }
        PushWith => {
            ev(PUSH_CALL, n, id);
            match nonblocking(|| q.push_with(|v| fill(v, id))) {
                Ok(()) => {
                    ev(PUSH_OK, n, id);
                    ev(PUSH_DONE, n, id)
                }
                Err(()) => ev(PUSH_FULL, n, id),
            }
        }
        Pop => {
            ev(POP_CALL, n, 0);
            match nonblocking(|| q.pop()) {
                Some(v) => {
                    ev(POP_OK, n, v.id());
                    ev(POP_DONE, n, v.id())
                }
                None => ev(POP_NONE, n, 0),
            }
        }
        PopRef => {
            ev(POP_CALL, n, 0);
            match nonblocking(|| q.pop_ref()) {
                Some(mut r) => {
                    let id = r.id();
                    ev(POP_OK, n, id);
                    drain_ref(&mut r);
                    drop(r);
                    ev(POP_DONE, n, id)
                }
                None => ev(POP_NONE, n, 0),
            }
        }
        PopWith => {
            ev(POP_CALL, n, 0);
            match nonblocking(|| q.pop_with(|v| drain_ref(v))) {
                Some(id) => {
                    ev(POP_OK, n, id);
                    ev(POP_DONE, n, id)
                }
                None => ev(POP_NONE, n, 0),
            }
        }
        Rem => {
            ev(LEN_CALL, n, 0);
            let r = nonblocking(|| q.remaining());
            if r > q.capacity() {
                violation(format!("remaining() = {} exceeds the capacity", r));
            }
            ev(LEN_RET, n, (q.capacity() - r) as u32);
        }
        Empty => {
            // `is_empty()` is a length of zero, or a length of which only >= 1 is known
            ev(LEN_CALL, n, 0);
            let e = nonblocking(|| q.is_empty());
            ev(if e { LEN_RET } else { LEN_NZ }, n, 0);
        }
        Len => {
            ev(LEN_CALL, n, 0);
            let l = nonblocking(|| q.len());
            ev(LEN_RET, n, l as u32);
            let r = nonblocking(|| q.remaining());
            if r > q.capacity() {
                violation(format!("remaining() = {} exceeds the capacity", r));
            }
        }
    }
}

/// Run `prog` (one operation list per thread) on a queue that starts `laps` operations in with
/// `fill` elements, then drain it and judge the history.
fn run(stat: bool, cap: usize, laps: usize, prefill: usize, prog: &[&[Op]]) {
    run_nested(stat, cap, laps, prefill, prog, None)
}

/// An operation that element code performs inside each operation of the first worker.
struct Nest {
    q: *const Q,
    op: Op,
    thread: usize,
    armed: bool,
    n: u32,
}
static mut NEST: Option<Nest> = None;

fn nest(_k: Hk, _t: usize) {
    if let Some(x) = unsafe { (*std::ptr::addr_of_mut!(NEST)).as_mut() } {
        if x.armed && x.thread == me() {
            x.armed = false;
            perform(unsafe { &*x.q }, x.op, x.n);
        }
    }
}

pub fn run_nested(stat: bool, cap: usize, laps: usize, prefill: usize, prog: &[&[Op]], nested: Option<Op>) {
    set_user_hook(None);
    unsafe { NEST = None };
    let q = Rc::new(Q::new(stat, cap));
    let mut n = 0;
    for _ in 0..laps {
        perform(&q, Push, n);
        perform(&q, PopRef, n + 1);
        n += 2;
    }
    for _ in 0..prefill {
        perform(&q, PushRef, n);
        n += 1;
    }
    let mut hs = Vec::new();
    for (t, ops) in prog.iter().enumerate() {
        let ops: Vec<Op> = ops.to_vec();
        let q = q.clone();
        let base = 64 + 16 * t as u32;
        hs.push(spawn("worker", move || {
            if let (0, Some(op)) = (t, nested) {
                unsafe { NEST = Some(Nest { q: &*q, op, thread: me(), armed: false, n: 0 }) };
                set_user_hook(Some(&nest));
            }
            for (i, op) in ops.iter().enumerate() {
                if let (0, Some(x)) = (t, unsafe { (*std::ptr::addr_of_mut!(NEST)).as_mut() }) {
                    x.armed = true;
                    x.n = base + 8 + i as u32;
                }
                perform(&q, *op, base + i as u32);
                if let (0, Some(x)) = (t, unsafe { (*std::ptr::addr_of_mut!(NEST)).as_mut() }) {
                    x.armed = false;
                }
            }
        }));
    }
    for h in hs {
        h.join();
    }
    set_user_hook(None);
    unsafe { NEST = None };
    // quiescent: sizes are exact
    let log = get_log();
    let cnt = |k: u64| log.iter().filter(|(_, w)| w >> 56 == k).count();
    let want = cnt(PUSH_OK) - cnt(POP_OK).min(cnt(PUSH_OK));
    drop(log);
    if q.len() != want || q.remaining() != cap - want || q.is_empty() != (want == 0) {
        violation(format!("{} elements inside, but len() = {}, remaining() = {}, is_empty() = {}", want, q.len(), q.remaining(), q.is_empty()));
    }
    let mut n = 200;
    loop {
        let before = get_log().len();
        perform(&q, Pop, n);
        n += 1;
        let l = get_log();
        if l[before..].iter().any(|(_, w)| w >> 56 == POP_NONE) {
            break;
        }
    }
    hist::check(cap, true);
    match Rc::try_unwrap(q) {
        Ok(q) => drop(q),
        Err(_) => violation("queue still shared"),
    }
}

pub fn register(v: &mut Vec<Scn>) {
    let all = ["P01", "P02", "P03", "P04", "P05", "P14", "P15", "P18", "P20"];
    let quick = [b(2, 0, 0, 0, 0), b(1, 1, 1, 0, 0)];
    let deep = [b(3, 1, 1, 0, 0), b(255, 0, 0, 0, 0), b(255, 1, 1, 0, 0), b(255, 2, 1, 0, 0)];
    type P = &'static [&'static [Op]];
    let progs: Vec<(&str, usize, usize, usize, P)> = vec![
        ("1p1c", 1, 0, 0, &[&[Push, PushRef], &[PopRef, Pop]]),
        ("1p1c", 2, 1, 1, &[&[PushRef, Push], &[Pop, PopRef]]),
        ("2p1c", 1, 0, 0, &[&[Push], &[PushRef], &[Pop, PopRef]]),
        ("2p1c", 2, 3, 1, &[&[PushRef], &[Push], &[PopRef, Pop]]),
        ("1p2c", 2, 0, 1, &[&[Push, PushRef], &[Pop], &[PopRef]]),
        ("2p2c", 3, 2, 1, &[&[Push], &[PushRef], &[Pop], &[PopRef]]),
        ("len", 1, 0, 0, &[&[Push, Push], &[Pop], &[Len]]),
        ("len", 2, 1, 2, &[&[Pop, Push], &[Len, Len], &[Push]]),
        ("len", 3, 0, 0, &[&[Push, Pop], &[Len]]),
        ("lenlap", 2, 1, 0, &[&[Push, Pop, Push, Pop], &[Len]]),
        ("lenlap", 1, 0, 0, &[&[Push, Pop, Push, Pop], &[Len]]),
        ("lenfull", 2, 1, 2, &[&[Pop, Push, Pop, Push], &[Len]]),
        ("rem", 2, 1, 1, &[&[Push, Pop, Push], &[Rem]]),
        ("empty", 2, 1, 1, &[&[Push, Pop, Push, Pop], &[Empty]]),
        ("with", 1, 1, 0, &[&[PushWith, PushWith], &[PopWith, PopWith]]),
        ("mixed", 2, 0, 0, &[&[Push, Pop], &[PushRef, PopRef]]),
        ("pushlap", 1, 0, 0, &[&[Push], &[PushRef, Pop, Push, PopRef]]),
        ("pushlap", 2, 1, 0, &[&[PushRef], &[Push, PopRef, PushRef, Pop, Push, Pop]]),
        ("pushlap", 3, 2, 2, &[&[Push], &[Pop, Pop, PushRef, Pop, Push, PushRef]]),
        ("poplap", 1, 1, 1, &[&[PopRef], &[Pop, PushRef, Pop, Push]]),
        ("poplap", 2, 1, 1, &[&[Pop], &[Push, PopRef, PushRef, Pop, Push]]),
        ("poplap", 3, 0, 3, &[&[PopRef], &[Pop, Push, Pop, PushRef, Pop, Push]]),
        ("3p", 2, 1, 1, &[&[Push], &[PushRef], &[Push]]),
        ("3c", 2, 1, 2, &[&[Pop], &[PopRef], &[Pop]]),
        ("mixed", 1, 0, 0, &[&[Push, Pop], &[PushRef, PopRef]]),
    ];
    for stat in [false, true] {
        for (name, cap, laps, pre, prog) in progs.iter().cloned() {
            add(v, format!("q_{}_{}_cap{}", if stat { "static" } else { "heap" }, name, cap), &all, &quick, &deep, move || run(stat, cap, laps, pre, prog));
        }
    }
    // a thread that loses the race for its slot again and again
    let lose = [b(6, 0, 0, 0, 0)];
    let weak = [b(0, 0, 10, 0, 0), b(1, 0, 6, 0, 0)];
    let losed = [b(9, 1, 1, 0, 0), b(1, 0, 10, 0, 0), b(255, 0, 0, 0, 0), b(255, 0, 9, 0, 0)];
    let progs: Vec<(&str, usize, usize, usize, P)> = vec![
        ("weakpush", 2, 0, 0, &[&[Push]]),
        ("weakpush", 1, 1, 0, &[&[PushRef]]),
        ("weakpop", 1, 0, 1, &[&[PopRef]]),
        ("weakpop", 3, 2, 2, &[&[Pop]]),
        ("losepush", 9, 0, 0, &[&[Push], &[PushRef, Push, PushRef, Push, Push, Push]]),
        ("losepop", 9, 1, 9, &[&[Pop], &[PopRef, Pop, PopRef, Pop, Pop, Pop]]),
        ("loselap", 2, 1, 1, &[&[PushRef], &[Push, Pop, Push, Pop, PushRef, PopRef, Push, Pop, Push]]),
        ("loselen", 2, 1, 1, &[&[Len], &[Push, Pop, Push, Pop, PushRef, PopRef, Push, Pop, Push]]),
    ];
    for stat in [false, true] {
        for (name, cap, laps, pre, prog) in progs.iter().cloned() {
            let lose = if stat { [b(2, 0, 0, 0, 0)] } else { lose };
            add(v, format!("q_{}_{}_cap{}", if stat { "static" } else { "heap" }, name, cap), &all, if name.starts_with("weak") { &weak[..] } else { &lose[..] }, &losed, move || run(stat, cap, laps, pre, prog));
        }
    }
    let _ = hold;
}
