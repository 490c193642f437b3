//! Self-test of the checker: classic litmus programs with known sets of outcomes, and programs with
//! planted bugs that it has to find.
use crate::engine::{api::*, eng, Budget};
use std::rc::Rc;
use std::time::{Duration, Instant};

const RLX: u8 = 0;
const ACQ: u8 = 1;
const REL: u8 = 2;
const AR: u8 = 3;
const SC: u8 = 4;

fn outcomes(body: &'static (dyn Fn() + Sync)) -> Result<Vec<String>, String> {
    let e = eng();
    e.new_bound(Budget { preempt: 255, stale: 4, weak: 1, spurious: 0, timer: 0 });
    e.outcomes.clear();
    e.outcome_samples.clear();
    e.violation = None;
    let x = e.explore(body, Instant::now() + Duration::from_secs(60), 1_000_000);
    if let Some(v) = e.violation.take() {
        return Err(v.kind);
    }
    if !x {
        return Err("not exhausted".into());
    }
    let mut v = e.outcome_samples.clone();
    v.sort();
    Ok(v)
}

fn two<A: 'static, B: 'static>(f: impl FnOnce() -> A + 'static, g: impl FnOnce() -> B + 'static) -> (A, B) {
    let a = spawn("a", f);
    let b = spawn("b", g);
    (a.join(), b.join())
}

struct V(At, At, Plain<u64>);
fn vars() -> (Rc<V>, Rc<V>) {
    let v = Rc::new(V(At::new(0), At::new(0), Plain::new(0)));
    (v.clone(), v)
}

pub fn run() -> bool {
    let mut good = true;
    macro_rules! expect {
        ($name:expr, $body:expr, $want:expr) => {{
            let b: &'static (dyn Fn() + Sync) = Box::leak(Box::new($body));
            let r = outcomes(b);
            let w: Result<Vec<String>, String> = $want;
            if r != w {
                good = false;
                println!("litmus {}: got {:?}, expected {:?}", $name, r, w);
            } else {
                println!("litmus {}: ok ({:?}; {} executions, {} states)", $name, r, eng().executions, eng().states());
            }
        }};
    }
    fn l(x: &[&str]) -> Result<Vec<String>, String> {
        Ok(x.iter().map(|s| s.to_string()).collect())
    }
    fn bad(x: &str) -> Result<Vec<String>, String> {
        Err(x.into())
    }
    fn sb(o: u8, f: bool) {
        let (x, y) = vars();
        let (a, b) = two(
            move || {
                x.0.store(1, o);
                if f {
                    fence(SC)
                }
                x.1.load(if o == REL { ACQ } else { o })
            },
            move || {
                y.1.store(1, o);
                if f {
                    fence(SC)
                }
                y.0.load(if o == REL { ACQ } else { o })
            },
        );
        outcome(|| format!("{}{}", a, b));
    }
    expect!("SB relaxed", || sb(RLX, false), l(&["00", "01", "10", "11"]));
    expect!("SB rel/acq", || sb(REL, false), l(&["00", "01", "10", "11"]));
    expect!("SB seqcst", || sb(SC, false), l(&["01", "10", "11"]));
    expect!("SB relaxed + sc fences", || sb(RLX, true), l(&["01", "10", "11"]));
    fn mp(st: u8, ld: u8, fs: u8, fl: u8) {
        let (x, y) = vars();
        let ((), r) = two(
            move || {
                x.2.set(7);
                if fs != 0 {
                    fence(fs)
                }
                x.0.store(1, st)
            },
            move || {
                if y.0.load(ld) == 1 {
                    if fl != 0 {
                        fence(fl)
                    }
                    y.2.get()
                } else {
                    99
                }
            },
        );
        outcome(|| format!("{}", r));
    }
    expect!("MP rel/acq", || mp(REL, ACQ, 0, 0), l(&["7", "99"]));
    expect!("MP fences", || mp(RLX, RLX, REL, ACQ), l(&["7", "99"]));
    expect!("MP relaxed store", || mp(RLX, ACQ, 0, 0), bad("data-race"));
    expect!("MP relaxed load", || mp(REL, RLX, 0, 0), bad("data-race"));
    expect!("MP missing acquire fence", || mp(RLX, RLX, REL, 0), bad("data-race"));
    expect!("CoRR", || {
        let (x, y) = vars();
        let ((), r) = two(move || { x.0.store(1, RLX); x.0.store(2, RLX) }, move || (y.0.load(RLX), y.0.load(RLX)));
        outcome(|| format!("{}{}", r.0, r.1));
    }, l(&["00", "01", "02", "11", "12", "22"]));
    expect!("release sequence through RMW", || {
        let v = Rc::new(V(At::new(0), At::new(0), Plain::new(0)));
        let (a, b, c) = (v.clone(), v.clone(), v);
        let t1 = spawn("w", move || { a.2.set(5); a.0.store(1, REL) });
        let t2 = spawn("rmw", move || { b.0.add(1, RLX); });
        let t3 = spawn("r", move || if c.0.load(ACQ) == 2 { c.2.get() } else { 99 });
        t1.join(); t2.join();
        let r = t3.join();
        outcome(|| format!("{}", r));
    }, l(&["5", "99"]));
    expect!("release sequence broken by a store", || {
        let v = Rc::new(V(At::new(0), At::new(0), Plain::new(0)));
        let (a, b, c) = (v.clone(), v.clone(), v);
        let t1 = spawn("w", move || { a.2.set(5); a.0.store(1, REL) });
        let t2 = spawn("st", move || { if b.0.load(RLX) == 1 { b.0.store(2, RLX) } });
        let t3 = spawn("r", move || if c.0.load(ACQ) == 2 { c.2.get() } else { 99 });
        t1.join(); t2.join();
        let r = t3.join();
        outcome(|| format!("{}", r));
    }, bad("data-race"));
    fn iriw(o: u8, l: u8) {
        let v = Rc::new(V(At::new(0), At::new(0), Plain::new(0)));
        let (a, b, c, d) = (v.clone(), v.clone(), v.clone(), v);
        let t1 = spawn("w1", move || a.0.store(1, o));
        let t2 = spawn("w2", move || b.1.store(1, o));
        let t3 = spawn("r1", move || (c.0.load(l), c.1.load(l)));
        let t4 = spawn("r2", move || (d.1.load(l), d.0.load(l)));
        t1.join(); t2.join();
        let (x, y) = (t3.join(), t4.join());
        outcome(|| if x == (1, 0) && y == (1, 0) { "weird".into() } else { "fine".into() });
    }
    expect!("IRIW rel/acq", || iriw(REL, ACQ), l(&["fine", "weird"]));
    expect!("IRIW seqcst", || iriw(SC, SC), l(&["fine"]));
    expect!("atomic increments", || {
        let (x, y) = vars();
        let z = x.clone();
        two(move || { x.0.add(1, RLX); }, move || { y.0.add(1, RLX); });
        let r = z.0.load(RLX);
        outcome(|| format!("{}", r));
    }, l(&["2"]));
    expect!("lost update", || {
        let (x, y) = vars();
        let z = x.clone();
        two(move || { let v = x.0.load(ACQ); x.0.store(v + 1, REL) }, move || { let v = y.0.load(ACQ); y.0.store(v + 1, REL) });
        let r = z.0.load(RLX);
        outcome(|| format!("{}", r));
    }, l(&["1", "2"]));
    expect!("spin until flag", || {
        let (x, y) = vars();
        two(move || { x.2.set(1); x.0.store(1, REL) }, move || { while y.0.load(ACQ) == 0 { spin() } let v = y.2.get(); outcome(|| format!("{}", v)) });
    }, l(&["1"]));
    expect!("spin forever", || {
        let (x, y) = vars();
        two(move || { x.0.store(2, REL) }, move || { while y.0.load(ACQ) != 1 { spin() } });
    }, bad("livelock"));
    expect!("spin without a hint until flag", || {
        let (x, y) = vars();
        two(move || { x.2.set(1); x.0.store(1, REL) }, move || { y.1.load(RLX); while y.0.load(ACQ) == 0 { y.1.load(RLX); } let v = y.2.get(); outcome(|| format!("{}", v)) });
    }, l(&["1"]));
    expect!("spin without a hint forever", || {
        let (x, y) = vars();
        two(move || { x.0.store(2, REL) }, move || { while y.0.load(ACQ) != 1 {} });
    }, bad("livelock"));
    expect!("CAS lock without a hint", || {
        let (x, y) = vars();
        let z = x.clone();
        fn inc(v: &V) {
            while !v.0.cas(0, 1, AR) {}
            v.2.set(v.2.get() + 1);
            v.0.store(0, REL);
        }
        two(move || inc(&x), move || inc(&y));
        let r = z.2.get();
        outcome(|| format!("{}", r));
    }, l(&["2"]));
    expect!("CAS lock", || {
        let (x, y) = vars();
        let z = x.clone();
        fn inc(v: &V) {
            while !v.0.cas(0, 1, AR) { spin() }
            v.2.set(v.2.get() + 1);
            v.0.store(0, REL);
        }
        two(move || inc(&x), move || inc(&y));
        let r = z.2.get();
        outcome(|| format!("{}", r));
    }, l(&["2"]));
    expect!("CAS lock released too weakly", || {
        let (x, y) = vars();
        fn inc(v: &V) {
            while !v.0.cas(0, 1, AR) { spin() }
            v.2.set(v.2.get() + 1);
            v.0.store(0, RLX);
        }
        two(move || inc(&x), move || inc(&y));
    }, bad("data-race"));
    expect!("lost wakeup", || {
        let (x, y) = vars();
        let (id, w) = new_waker();
        let ((), ()) = two(move || { x.0.store(1, SC); if x.1.load(SC) == 1 { w.wake_by_ref() } drop(w) }, move || { if y.0.load(SC) == 0 { y.1.store(1, SC); id.wait() } });
    }, bad("deadlock"));
    expect!("leak", || { std::mem::forget(std::hint::black_box(Box::new(5u64))); }, bad("leak"));
    expect!("double drop", || {
        let v = crate::val::Val::new(3);
        let w = unsafe { std::ptr::read(&v) };
        drop(v);
        drop(w);
    }, bad("oracle"));
    expect!("panic", || { panic!("boom") }, bad("panic"));
    let _ = ACQ;
    good
}
