//! Model checker for thingbuf: runs the real code under a controlled scheduler and memory model.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
mod alloc;
mod chan;
mod engine;
mod fiber;
mod hist;
mod litmus;
mod scn;
mod val;

use engine::{eng, Budget, Engine};
use scn::Scn;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::McAlloc = alloc::McAlloc;

static mut OUT: Option<String> = None;
static mut NAME: String = String::new();
static mut START: Option<Instant> = None;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {}
            c => o.push(c),
        }
    }
    o
}

fn bstr(b: &Budget) -> String {
    format!("{} {} {} {} {}", b.preempt, b.stale, b.weak, b.spurious, b.timer)
}

/// Print the result of a run as one JSON line; write the replay file if there is a violation.
fn report(exhausted: bool, done: &[(Budget, bool, u64)]) {
    let e = eng();
    let wall = unsafe { START }.map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0);
    let name = unsafe { NAME.clone() };
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"scenario\":\"{}\",\"executions\":{},\"states\":{},\"histories\":{},\"transitions\":{},\"pruned\":{},\"max_depth\":{},\"outcomes\":{},\"exhausted\":{},\"wall\":{:.3}",
        name,
        e.executions,
        e.states_total + e.states() as u64,
        e.histories,
        e.transitions,
        e.pruned,
        e.max_depth,
        e.outcomes.len(),
        exhausted,
        wall
    );
    s.push_str(",\"samples\":[");
    for (i, o) in e.outcome_samples.iter().take(12).enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "\"{}\"", esc(o));
    }
    s.push_str("],\"bounds\":[");
    for (i, (b, x, n)) in done.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(
            s,
            "{{\"preemptions\":{},\"stale\":{},\"weak_cas\":{},\"spurious\":{},\"timers\":{},\"exhausted\":{},\"executions\":{}}}",
            if b.preempt == 255 { -1 } else { b.preempt as i32 },
            b.stale,
            b.weak,
            b.spurious,
            b.timer,
            x,
            n
        );
    }
    s.push(']');
    if let Some(v) = &e.violation {
        let _ = write!(s, ",\"violation\":{{\"kind\":\"{}\",\"msg\":\"{}\"}}", esc(&v.kind), esc(&v.msg));
        if let Some(f) = unsafe { OUT.clone() } {
            let ch: Vec<String> = e.choices_list().iter().map(|c| c.to_string()).collect();
            let t = format!(
                "scenario {}\nbudget {}\nkind {}\nmsg {}\nchoices {}\n",
                name,
                bstr(&e.cfg),
                v.kind,
                v.msg.replace('\n', " "),
                ch.join(" ")
            );
            let _ = std::fs::write(f, t);
        }
    }
    s.push('}');
    println!("{}", s);
}

extern "C" fn on_crash(sig: libc::c_int, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        alloc::MODEL = usize::MAX;
        let rsp = (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RSP as usize] as usize;
        let in_fiber = rsp >= fiber::STACK_BASE && rsp < fiber::STACK_BASE + fiber::STACK_SIZE * engine::MAXT;
        let mut m = String::from("signal ");
        let _ = write!(m, "{}", sig);
        if engine::ENG.is_null() || !in_fiber {
            eprintln!("ENGINE ERROR: {} outside the model", m);
            libc::_exit(3);
        }
        let e = eng();
        if e.violation.is_none() {
            let what = match sig {
                libc::SIGSEGV | libc::SIGBUS => "memory fault",
                libc::SIGABRT => "abort",
                libc::SIGILL => "illegal instruction",
                _ => "crash",
            };
            e.violation = Some(engine::Violation { kind: "crash".into(), msg: format!("{} in the code under test", what) });
        }
        finish_process();
    }
}

static mut LAST: (u64, u64, u32) = (u64::MAX, 0, 0);

extern "C" fn on_tick(_s: libc::c_int, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        if engine::ENG.is_null() {
            return;
        }
        let rsp = (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RSP as usize] as usize;
        let in_fiber = rsp >= fiber::STACK_BASE && rsp < fiber::STACK_BASE + fiber::STACK_SIZE * engine::MAXT;
        let e = eng();
        let now = (e.executions, e.steps_now() as u64 + engine::SOLO_OPS);
        if !in_fiber || (LAST.0, LAST.1) != now {
            LAST = (now.0, now.1, 0);
            return;
        }
        LAST.2 += 1;
        if LAST.2 >= 4 {
            alloc::MODEL = usize::MAX;
            e.violation = Some(engine::Violation {
                kind: "non-termination".into(),
                msg: "the code under test runs forever without any operation on shared state".into(),
            });
            finish_process();
        }
    }
}

fn finish_process() -> ! {
    let e = eng();
    let b = [(e.cfg, false, e.executions)];
    if e.tracing {
        for l in &e.trace {
            println!("{}", l);
        }
    }
    report(false, &b);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

fn signals() {
    unsafe {
        let sz = 256 * 1024;
        let stk = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: stk, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_tick as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &a, std::ptr::null_mut());
        let iv = libc::timeval { tv_sec: 1, tv_usec: 0 };
        let it = libc::itimerval { it_interval: iv, it_value: iv };
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
    }
}

fn find(all: &'static [Scn], name: &str) -> &'static Scn {
    match all.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no such scenario: {}", name);
            std::process::exit(3)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let all: &'static [Scn] = Box::leak(scn::all().into_boxed_slice());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in all {
                println!("{}\t{}\t{}", s.name, s.props.join(","), if s.quick.is_empty() { "deep" } else { "quick" });
            }
        }
        Some("litmus") => {
            setup();
            std::process::exit(if litmus::run() { 0 } else { 3 });
        }
        Some("run") => {
            let name = args[2].clone();
            let s = find(all, &name);
            let tier = get("--tier").unwrap_or("quick".into());
            let secs: f64 = get("--time").and_then(|x| x.parse().ok()).unwrap_or(60.0);
            let max_states: usize = get("--states").and_then(|x| x.parse().ok()).unwrap_or(20_000_000);
            unsafe {
                OUT = get("--out");
                NAME = name;
                START = Some(Instant::now());
            }
            setup();
            unsafe {
                alloc::WATCH = args.iter().any(|a| a == "--watch-alloc");
                alloc::ORDER = args.iter().any(|a| a == "--watch-order");
                alloc::SPIN = args.iter().any(|a| a == "--watch-busy-wait");
            };
            let mut budgets: Vec<Budget> = match tier.as_str() {
                "quick" => s.quick.clone(),
                _ => {
                    let mut v = s.quick.clone();
                    v.extend(s.deep.iter().cloned());
                    v
                }
            };
            if let Some(b) = get("--budget") {
                let p: Vec<u8> = b.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                budgets = vec![Budget { preempt: p[0], stale: p[1], weak: p[2], spurious: p[3], timer: p[4] }];
            }
            let deadline = Instant::now() + Duration::from_secs_f64(secs);
            let mut done: Vec<(Budget, bool, u64)> = Vec::new();
            let mut ok = true;
            let e = eng();
            // --extra S: once the bounds above are exhausted, the deeper ones for at most S seconds
            // together; these need not be exhausted
            let extra: f64 = get("--extra").and_then(|x| x.parse().ok()).unwrap_or(0.0);
            let must = budgets.len();
            if extra > 0.0 && tier == "quick" && get("--budget").is_none() {
                budgets.extend(s.deep.iter().cloned());
            }
            let (mut end, mut until) = (deadline, deadline);
            let total = budgets.len();
            for (i, b) in budgets.into_iter().enumerate() {
                if i == must {
                    end = deadline.min(Instant::now() + Duration::from_secs_f64(extra));
                }
                if i >= must {
                    let now = Instant::now();
                    if now >= end {
                        break;
                    }
                    until = now + (end - now) / (total - i) as u32;
                }
                e.new_bound(b);
                let before = e.executions;
                let x = e.explore(&*s.body, until, max_states);
                done.push((b, x, e.executions - before));
                if e.violation.is_some() || (!x && i < must) {
                    ok = false;
                    break;
                }
            }
            report(ok, &done);
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let field = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("").to_string();
            let name = field("scenario");
            let s = find(all, &name);
            let p: Vec<u8> = field("budget").split(' ').map(|x| x.parse().unwrap()).collect();
            let ch: Vec<u16> = field("choices").split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            unsafe {
                NAME = name;
                START = Some(Instant::now());
            }
            setup();
            unsafe {
                alloc::WATCH = field("kind") == "alloc";
                alloc::ORDER = field("kind") == "order";
                alloc::SPIN = field("kind") == "busy-wait";
            };
            let e = eng();
            e.new_bound(Budget { preempt: p[0], stale: p[1], weak: p[2], spurious: p[3], timer: p[4] });
            e.tracing = args.iter().any(|a| a == "--trace");
            let _ = e.replay(&*s.body, &ch);
            finish_process();
        }
        _ => {
            eprintln!("usage: mc list | litmus | run NAME [--tier T] [--time S] [--out FILE] [--budget p,s,w,sp,t] | replay FILE [--trace]");
            std::process::exit(3);
        }
    }
}

fn setup() {
    alloc::map();
    fiber::map();
    let e = Box::leak(Box::new(Engine::new(Budget { preempt: 2, stale: 0, weak: 0, spurious: 0, timer: 0 })));
    unsafe { engine::ENG = e };
    engine::install_hooks();
    signals();
}
