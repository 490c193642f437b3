//! The model checker: controlled scheduler, weak-memory model, monitors, depth-first explorer.
use crate::alloc::{self, sys};
use crate::fiber;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::Location;

pub const MAXT: usize = 6;
const MAXL: usize = 320;
/// further reads for which a thread that has read an old value may keep reading it
const MAX_LAG: u8 = 6;
/// fruitless spins after which a spinner only continues once another thread changed something
const SPIN_FREE: u32 = 6;
/// fruitless spins after which an operation declared non-blocking is considered stuck
const SPIN_NB: u32 = 64;
const STAGNATION: u32 = 64;
/// fruitless spins, nobody else being in the middle of an operation, after which a waiting operation
/// is considered busy-waiting
const SPIN_ALONE: u32 = 64;
/// reads of one location, while nothing at all changes, after which a loop without any spin hint is
/// treated as if it had one
const IDLE: u32 = 24;
/// uninterrupted steps after which an operation declared non-blocking is considered stuck
const NB_STEPS: u32 = 1200;

#[derive(Clone, Copy, Debug)]
pub struct Budget {
    /// preemptions; 255 = unbounded
    pub preempt: u8,
    pub stale: u8,
    pub weak: u8,
    pub spurious: u8,
    pub timer: u8,
}

impl Budget {
    fn pack(&self) -> u64 {
        u64::from_le_bytes([self.preempt, self.stale, self.weak, self.spurious, self.timer, 0, 0, 0])
    }
    fn dominated_by(&self, o: u64) -> bool {
        let b = o.to_le_bytes();
        self.preempt <= b[0] && self.stale <= b[1] && self.weak <= b[2] && self.spurious <= b[3] && self.timer <= b[4]
    }
    fn sum(&self) -> u32 {
        self.preempt as u32 + self.stale as u32 + self.weak as u32 + self.spurious as u32 + self.timer as u32
    }
}

#[derive(Clone, Copy)]
struct View {
    clock: [u32; MAXT],
    ts: [u16; MAXL],
}

impl View {
    const EMPTY: View = View { clock: [0; MAXT], ts: [0; MAXL] };
    #[inline]
    fn join(&mut self, o: &View, n: usize) {
        for i in 0..MAXT {
            if o.clock[i] > self.clock[i] {
                self.clock[i] = o.clock[i];
            }
        }
        for i in 0..n {
            if o.ts[i] > self.ts[i] {
                self.ts[i] = o.ts[i];
            }
        }
    }
    #[inline]
    fn copy_from(&mut self, o: &View, n: usize) {
        self.clock = o.clock;
        self.ts[..n].copy_from_slice(&o.ts[..n]);
        for x in &mut self.ts[n..] {
            *x = 0
        }
    }
}

#[derive(Clone, Copy)]
struct Msg {
    val: u64,
    /// index into the view pool, u32::MAX = none
    view: u32,
    hash: u64,
}

struct Loc {
    canon: u64,
    chain: u64,
    msgs: Vec<Msg>,
    scts: u16,
    addr: usize,
    dead: bool,
    /// last use by each thread
    acc: [(u32, Option<&'static Location<'static>>); MAXT],
}

struct CellM {
    addr: usize,
    dead: bool,
    wr: (u8, u32),
    wr_at: Option<&'static Location<'static>>,
    rd: [u32; MAXT],
    rd_at: Option<&'static Location<'static>>,
}

struct MutexM {
    canon: u64,
    chain: u64,
    addr: usize,
    dead: bool,
    owner: Option<usize>,
    view: View,
}

struct Token {
    canon: u64,
    chain: u64,
    set: bool,
    view: View,
    /// outstanding waker references (wakers only)
    refs: i32,
    is_waker: bool,
    wakes: u32,
    /// times in a row that a task woke itself from inside its own poll, nobody else being in the
    /// middle of anything, and what others had written by then
    self_wakes: u32,
    others_seen: u64,
    owner: usize,
    /// the last wakeup came from inside the task's own poll
    by_self: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pending {
    Start,
    Op,
    Lock(usize),
    Park { token: usize, deadline: u64, spurious: bool },
    Join(usize),
    /// until the other thread is parked or finished
    Asleep(usize),
    Spin,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Normal,
    Spurious,
    Timer,
}

pub struct Thread {
    sp: usize,
    started: bool,
    finished: bool,
    pending: Pending,
    pend_at: Option<&'static Location<'static>>,
    way: Way,
    view: View,
    acq: View,
    rel: View,
    hash: u64,
    fruitless: u32,
    seen_others: u64,
    own_writes: u64,
    last_spin: bool,
    /// detection of waiting loops without spin hints: location, value of `total_writes`, operations
    /// since, visits of the location
    idle: (usize, u64, u32, u32),
    /// a location of which this thread reads an old value until it learns better: location, number
    /// of further reads
    lag: (usize, u8),
    /// this spinner was given the processor although others could run: it keeps it (others need a
    /// preemption) until somebody changes something
    stall: bool,
    pub panicking: bool,
    pub expect_panic: u32,
    pub nonblocking: u32,
    nb_steps: u32,
    /// nesting of operations of the library
    in_lib: u32,
    /// fruitless spins while nobody else was in the middle of anything
    alone_spins: u32,
    /// about to poll again because it woke itself
    rewaking: bool,
    entry: Option<Box<dyn FnOnce()>>,
    regs: u32,
    pub name: &'static str,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

#[derive(PartialEq, Clone, Copy)]
enum Outcome {
    Running,
    Done,
    Pruned,
    Violated,
}

#[derive(Default)]
struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[..8]);
        self.0 = u64::from_le_bytes(x);
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = i as u64;
    }
}

pub struct Engine {
    pub cfg: Budget,
    pub left: Budget,
    threads: Vec<Thread>,
    pub cur: usize,
    locs: Vec<Loc>,
    cells: Vec<CellM>,
    mutexes: Vec<MutexM>,
    tokens: Vec<Token>,
    views: Vec<View>,
    scv: View,
    nonce: u32,
    pub clock: u64,
    log_chain: u64,
    pub log: Vec<(u8, u64)>,
    addr_regs: HashMap<usize, u32, BuildHasherDefault<IdHash>>,
    // exploration
    choices: Vec<(u16, u16)>,
    depth: usize,
    visited: HashMap<u128, u64, BuildHasherDefault<IdHash>>,
    pub caching: bool,
    outcome: Outcome,
    pub violation: Option<Violation>,
    main_sp: usize,
    steps: u32,
    pub max_steps: u32,
    total_writes: u64,
    stagnation: u32,
    lagged: bool,
    // elements
    pub vals: Vec<u8>,
    pub live_vals: i32,
    /// addresses of elements currently reachable through a reference
    pub held: Vec<usize>,
    pub check_leaks: bool,
    // stats
    pub states_total: u64,
    /// distinct histories (prefixes of environment choices) reached
    pub histories: u64,
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub max_depth: usize,
    pub outcomes: HashSet<u64>,
    pub outcome_samples: Vec<String>,
    // tracing
    pub tracing: bool,
    pub trace: Vec<String>,
    replaying: bool,
    pub scratch: HashMap<&'static str, i64>,
    scratch_chain: u64,
}

pub static mut ENG: *mut Engine = core::ptr::null_mut();

#[inline]
pub fn eng() -> &'static mut Engine {
    unsafe { &mut *ENG }
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let m = ((a ^ 0x9E37_79B9_7F4A_7C15) as u128).wrapping_mul((b ^ 0xC2B2_AE3D_27D4_EB4F) as u128);
    (m as u64) ^ ((m >> 64) as u64) ^ b.rotate_left(29)
}

fn is_acq(o: u8) -> bool {
    o == 1 || o == 3 || o == 4
}
fn is_rel(o: u8) -> bool {
    o == 2 || o == 3 || o == 4
}
fn is_sc(o: u8) -> bool {
    o == 4
}

const K_ATOMIC: u64 = 1;
const K_CELL: u64 = 2;
const K_MUTEX: u64 = 3;

impl Engine {
    pub fn new(cfg: Budget) -> Engine {
        Engine {
            cfg,
            left: cfg,
            threads: Vec::new(),
            cur: 0,
            locs: Vec::new(),
            cells: Vec::new(),
            mutexes: Vec::new(),
            tokens: Vec::new(),
            views: Vec::new(),
            scv: View::EMPTY,
            nonce: 0,
            clock: 0,
            log_chain: 0,
            log: Vec::new(),
            addr_regs: HashMap::default(),
            choices: Vec::new(),
            depth: 0,
            visited: HashMap::default(),
            caching: true,
            outcome: Outcome::Running,
            violation: None,
            main_sp: 0,
            steps: 0,
            max_steps: 4000,
            total_writes: 0,
            stagnation: 0,
            lagged: false,
            vals: Vec::new(),
            live_vals: 0,
            held: Vec::new(),
            check_leaks: true,
            states_total: 0,
            histories: 0,
            executions: 0,
            pruned: 0,
            transitions: 0,
            max_depth: 0,
            outcomes: HashSet::new(),
            outcome_samples: Vec::new(),
            tracing: false,
            trace: Vec::new(),
            replaying: false,
            scratch: HashMap::new(),
            scratch_chain: 0,
        }
    }

    /// Start exploring with another bound (statistics accumulate).
    pub fn new_bound(&mut self, b: Budget) {
        self.states_total += self.visited.len() as u64;
        self.visited.clear();
        self.cfg = b;
        self.left = b;
        self.choices.clear();
    }

    pub fn steps_now(&self) -> u32 {
        self.steps
    }

    pub fn states(&self) -> usize {
        self.visited.len()
    }

    pub fn choices_list(&self) -> Vec<u16> {
        self.choices.iter().map(|c| c.0).collect()
    }

    // ---------------------------------------------------------------- exploration

    fn reset(&mut self) {
        self.left = self.cfg;
        self.threads.clear();
        self.locs.clear();
        self.cells.clear();
        self.mutexes.clear();
        self.tokens.clear();
        self.views.clear();
        self.scv = View::EMPTY;
        self.nonce = (self.nonce + 1) & 0x00ff_ffff;
        if self.nonce == 0 {
            self.nonce = 1;
        }
        self.clock = 1_000_000;
        self.log_chain = 0;
        self.log.clear();
        self.addr_regs.clear();
        self.depth = 0;
        self.outcome = Outcome::Running;
        self.steps = 0;
        self.total_writes = 0;
        self.stagnation = 0;
        self.lagged = false;
        self.vals.clear();
        self.live_vals = 0;
        self.held.clear();
        self.check_leaks = true;
        self.trace.clear();
        self.scratch.clear();
        self.scratch_chain = 0;
        alloc::reset();
        unsafe { SOLO = false };
    }

    /// Run one execution following `choices`; true if it was complete (not pruned).
    fn run_once(&mut self, body: &'static (dyn Fn() + Sync)) -> Outcome {
        self.reset();
        self.add_thread(Box::new(move || body()), "main");
        self.cur = 0;
        self.threads[0].started = true;
        self.threads[0].pending = Pending::Op;
        let sp = self.threads[0].sp;
        unsafe { fiber::switch(&mut self.main_sp, sp, self) };
        unsafe { alloc::MODEL = usize::MAX };
        if self.outcome == Outcome::Done {
            if self.check_leaks {
                let live = unsafe { alloc::LIVE };
                if self.live_vals != 0 {
                    self.end_violation("leak", format!("{} element(s) were never dropped", self.live_vals));
                } else if let Some(t) = self.tokens.iter().position(|t| t.is_waker && t.refs != 0) {
                    let r = self.tokens[t].refs;
                    self.end_violation("waker-leak", format!("waker #{} still has {} reference(s) at the end", t, r));
                } else if live != 0 {
                    self.end_violation("leak", format!("{} heap allocation(s) were never freed", live));
                }
            }
        }
        // closures of threads that did not run to completion live in the arenas: forget them
        for t in self.threads.iter_mut() {
            if let Some(e) = t.entry.take() {
                std::mem::forget(e);
            }
        }
        self.executions += 1;
        self.transitions += self.steps as u64;
        self.max_depth = self.max_depth.max(self.steps as usize);
        if self.outcome == Outcome::Pruned {
            self.pruned += 1;
        }
        self.outcome
    }

    fn end_violation(&mut self, kind: &str, msg: String) {
        self.violation = Some(Violation { kind: kind.into(), msg });
        self.outcome = Outcome::Violated;
    }

    /// Explore everything. Returns true if exhausted, false if a cap was hit.
    pub fn explore(&mut self, body: &'static (dyn Fn() + Sync), deadline: std::time::Instant, max_states: usize) -> bool {
        self.choices.clear();
        loop {
            let o = self.run_once(body);
            if o == Outcome::Violated {
                return false;
            }
            // backtrack
            loop {
                match self.choices.last_mut() {
                    None => return true,
                    Some(c) => {
                        if c.0 + 1 < c.1 {
                            c.0 += 1;
                            break;
                        }
                    }
                }
                self.choices.pop();
            }
            if self.executions & 0x3f == 0 && std::time::Instant::now() > deadline {
                return false;
            }
            if self.visited.len() > max_states {
                return false;
            }
        }
    }

    /// Re-run one recorded execution.
    pub fn replay(&mut self, body: &'static (dyn Fn() + Sync), choices: &[u16]) -> Result<(), String> {
        self.choices = choices.iter().map(|&c| (c, 0)).collect();
        self.replaying = true;
        self.caching = false;
        self.run_once(body);
        Ok(())
    }

    fn choose_raw(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let d = self.depth;
        self.depth += 1;
        if d < self.choices.len() {
            let c = &mut self.choices[d];
            if c.1 == 0 {
                c.1 = n as u16;
            }
            if c.1 as usize != n || c.0 >= c.1 {
                fatal(&format!("replay diverged at choice {}: {} options, recorded {} of {}", d, n, c.0, c.1));
            }
            c.0 as usize
        } else {
            self.choices.push((0, n as u16));
            0
        }
    }

    fn state_key(&self) -> u128 {
        let mut a: u64 = mix(self.log_chain, self.scratch_chain ^ 77);
        let mut b: u64 = 0x1234_5678_9abc_def1;
        macro_rules! add {
            ($x:expr, $y:expr) => {{
                let h = mix($x, $y);
                a = a.wrapping_add(h);
                b = b.wrapping_add(mix(h, 0x51ed_270b_9f3d_a2c7));
            }};
        }
        for (i, t) in self.threads.iter().enumerate() {
            let mut h = t.hash;
            if !t.finished {
                let f = if self.total_writes - t.own_writes != t.seen_others { 0 } else { t.fruitless };
                h = mix(h, f as u64 + 1 + if t.pending == Pending::Spin { 100 } else { 0 } + if t.stall { 1000 } else { 0 });
            }
            if t.finished {
                h = mix(h, 3);
            } else if let Pending::Park { deadline, .. } = t.pending {
                h = mix(h, deadline);
            }
            add!(i as u64 + 1, h);
        }
        for (i, l) in self.locs.iter().enumerate() {
            add!(l.canon, l.chain);
            let s = self.scv.ts[i].max(l.scts);
            if s != 0 {
                add!(l.canon ^ 0x5555, s as u64);
            }
        }
        for m in &self.mutexes {
            add!(m.canon, m.chain);
        }
        for t in &self.tokens {
            add!(t.canon, t.chain);
        }
        add!(0x7777, self.clock);
        add!(0x7778, self.stagnation as u64);
        if self.cfg.preempt != 255 {
            let c = &self.threads[self.cur];
            let running = !c.finished && c.pending != Pending::Spin;
            add!(0x9999, if running { self.cur as u64 } else { 99 });
        }
        ((a as u128) << 64) | b as u128
    }

    // ---------------------------------------------------------------- threads

    fn add_thread(&mut self, f: Box<dyn FnOnce()>, name: &'static str) -> usize {
        let id = self.threads.len();
        if id >= MAXT {
            fatal("too many threads");
        }
        let sp = fiber::prepare(id);
        self.threads.push(Thread {
            sp,
            started: false,
            finished: false,
            pending: Pending::Start,
            pend_at: None,
            way: Way::Normal,
            view: View::EMPTY,
            acq: View::EMPTY,
            rel: View::EMPTY,
            hash: mix(id as u64, 0xfeed),
            fruitless: 0,
            seen_others: 0,
            own_writes: 0,
            last_spin: false,
            idle: (0, 0, 0, 0),
            lag: (usize::MAX, 0),
            stall: false,
            panicking: false,
            expect_panic: 0,
            nonblocking: 0,
            nb_steps: 0,
            in_lib: 0,
            alone_spins: 0,
            rewaking: false,
            entry: Some(f),
            regs: 0,
            name,
        });
        self.tokens.push(Token { canon: mix(0x70cc, id as u64), chain: 0, set: false, view: View::EMPTY, refs: 0, is_waker: false, wakes: 0, self_wakes: 0, others_seen: 0, owner: usize::MAX, by_self: false });
        // thread i's own park token: find via threads -> store index
        let tok = self.tokens.len() - 1;
        self.threads[id].regs = 0;
        self.park_tokens_set(id, tok);
        id
    }

    fn park_tokens_set(&mut self, id: usize, tok: usize) {
        unsafe { PARK_TOKENS[id] = tok }
    }

    fn t(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.threads[c]
    }

    /// Is no thread but `i` in the middle of an operation of the library (asleep is not in
    /// the middle, unless it has been woken)?
    fn alone(&self, i: usize) -> bool {
        self.threads.iter().enumerate().all(|(j, t)| {
            j == i
                || t.finished
                || !t.started
                || matches!(t.pending, Pending::Join(_) | Pending::Asleep(_))
                || matches!(t.pending, Pending::Park { token, .. } if !self.tokens[token].set)
                || (t.in_lib == 0 && t.pend_at.map_or(false, |l| l.file().contains("scn") || l.file().ends_with("chan.rs")))
        })
    }

    /// Which ways can thread `i` be resumed?
    fn ways(&self, i: usize, out: &mut Vec<(usize, Way)>, limited: &mut bool) {
        let t = &self.threads[i];
        if t.finished {
            return;
        }
        match t.pending {
            Pending::Start | Pending::Op => out.push((i, Way::Normal)),
            Pending::Lock(m) => {
                if self.mutexes[m].owner.is_none() {
                    out.push((i, Way::Normal))
                }
            }
            Pending::Park { token, deadline, spurious } => {
                if self.tokens[token].set {
                    out.push((i, Way::Normal));
                } else {
                    if spurious && self.left.spurious > 0 {
                        out.push((i, Way::Spurious));
                    }
                    if deadline != u64::MAX && self.left.timer > 0 {
                        out.push((i, Way::Timer));
                    }
                }
            }
            Pending::Join(j) => {
                if self.threads[j].finished {
                    out.push((i, Way::Normal))
                }
            }
            Pending::Asleep(j) => {
                let o = &self.threads[j];
                let asleep = match o.pending {
                    Pending::Park { token, .. } => !self.tokens[token].set,
                    _ => false,
                };
                if o.finished || asleep {
                    out.push((i, Way::Normal))
                }
            }
            Pending::Spin => {
                let progressed = self.total_writes - t.own_writes != t.seen_others;
                if progressed || t.fruitless <= SPIN_FREE || t.nonblocking > 0 || (unsafe { alloc::SPIN } && (t.in_lib > 0 || t.rewaking) && self.alone(i)) {
                    out.push((i, Way::Normal));
                } else {
                    *limited = true;
                }
            }
        }
    }

    /// Decide who runs next. Returns None if the execution ended (outcome set).
    fn pick(&mut self) -> Option<(usize, Way)> {
        self.steps += 1;
        if self.steps > self.max_steps {
            self.set_violation("livelock", format!("execution did not finish within {} steps", self.max_steps));
            return None;
        }
        let mut opts: Vec<(usize, Way)> = Vec::with_capacity(8);
        let cur = self.cur;
        let n = self.threads.len();
        let cur_spin = self.threads[cur].pending == Pending::Spin && !self.threads[cur].stall;
        let mut limited = false;
        if !cur_spin {
            self.ways(cur, &mut opts, &mut limited);
        }
        let cur_runs = opts.first().map_or(false, |o| o.1 == Way::Normal);
        for i in 0..n {
            if i != cur {
                self.ways(i, &mut opts, &mut limited);
            }
        }
        if cur_spin {
            // giving way to somebody who is fruitlessly spinning as well is pointless
            let idle = |e: &Engine, i: usize| {
                let t = &e.threads[i];
                t.pending == Pending::Spin && e.total_writes - t.own_writes == t.seen_others
            };
            if opts.iter().any(|o| o.1 == Way::Normal && !idle(self, o.0)) {
                let keep: Vec<(usize, Way)> = opts.iter().copied().filter(|o| !(o.1 == Way::Normal && idle(self, o.0))).collect();
                opts = keep;
            }
            self.ways(cur, &mut opts, &mut limited);
        }
        let normal = opts.iter().any(|o| o.1 == Way::Normal);
        if !normal && limited {
            // only spinners that wait for somebody else are left
            self.stagnation += 1;
            if self.stagnation > STAGNATION {
                let d = self.describe_blocked();
                self.set_violation("livelock", format!("threads spin forever and nobody can make progress: {}", d));
                return None;
            }
            for k in 0..n {
                let i = (cur + 1 + k) % n;
                let t = &self.threads[i];
                if !t.finished && t.pending == Pending::Spin {
                    opts.push((i, Way::Normal));
                    break;
                }
            }
        }
        // when nobody can simply go on, time passes: the earliest timer fires at no cost. (A spurious
        // wakeup may come instead, but nobody can count on one.)
        let mut free = None;
        if !opts.iter().any(|o| o.1 == Way::Normal) {
            if self.threads.iter().all(|t| t.finished) {
                self.outcome = Outcome::Done;
                return None;
            }
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.threads.iter().enumerate() {
                if let (false, Pending::Park { deadline, .. }) = (t.finished, t.pending) {
                    if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                        best = Some((deadline, i));
                    }
                }
            }
            if let Some((_, i)) = best {
                opts.retain(|o| *o != (i, Way::Timer));
                opts.insert(0, (i, Way::Timer));
                free = Some(i);
            } else {
                let d = self.describe_blocked();
                self.set_violation("deadlock", format!("nobody can make progress: {}", d));
                return None;
            }
        }
        if cur_runs && self.left.preempt == 0 {
            opts.truncate(1);
        }
        if opts.len() > 1 || self.threads.len() > 1 {
            if self.caching && self.depth >= self.choices.len() {
                let key = self.state_key();
                let left = self.left;
                match self.visited.get_mut(&key) {
                    Some(b) => {
                        if left.dominated_by(*b) {
                            self.outcome = Outcome::Pruned;
                            return None;
                        }
                        let lb = b.to_le_bytes();
                        let bs: u32 = lb[..5].iter().map(|x| *x as u32).sum();
                        if left.sum() >= bs {
                            *b = left.pack();
                        }
                    }
                    None => {
                        self.visited.insert(key, left.pack());
                    }
                }
            }
        }
        let c = self.choose_raw(opts.len());
        let (i, w) = opts[c];
        if cur_runs && i != cur && self.left.preempt != 255 {
            self.left.preempt -= 1;
        }
        if cur_spin && i == cur && opts.len() > 1 {
            self.threads[cur].stall = true;
        }
        match w {
            Way::Spurious => self.left.spurious -= 1,
            Way::Timer if free == Some(i) => {}
            Way::Timer => self.left.timer = self.left.timer.saturating_sub(1),
            _ => {}
        }
        Some((i, w))
    }

    fn describe_blocked(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if !t.finished {
                let at = t.pend_at.map(|l| format!(" at {}:{}", short(l.file()), l.line())).unwrap_or_default();
                s.push_str(&format!("[{} {}: {:?}{}] ", i, t.name, t.pending, at));
            }
        }
        s
    }

    fn set_violation(&mut self, kind: &str, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { kind: kind.into(), msg });
        }
        self.outcome = Outcome::Violated;
    }

    /// Scheduling point of the current fiber. MODEL must be usize::MAX (inside `sys`).
    fn point(&mut self, p: Pending, at: &'static Location<'static>) {
        let me = self.cur;
        {
            let t = &mut self.threads[me];
            t.pending = p;
            t.pend_at = Some(at);
            if p != Pending::Spin {
                t.last_spin = false;
            }
            if matches!(p, Pending::Park { .. } | Pending::Join(_) | Pending::Asleep(_)) {
                t.stall = false;
            }
            if t.nonblocking > 0 {
                t.nb_steps += 1;
            }
        }
        match self.pick() {
            None => self.leave(),
            Some((i, w)) => {
                self.threads[i].way = w;
                if i != me {
                    if self.threads[me].nonblocking > 0 {
                        self.threads[me].nb_steps = 0;
                    }
                    self.cur = i;
                    self.threads[i].started = true;
                    let to = self.threads[i].sp;
                    let save: *mut usize = &mut self.threads[me].sp;
                    unsafe { fiber::switch(save, to, self) };
                }
            }
        }
        let e = eng();
        if e.threads[e.cur].nb_steps > NB_STEPS {
            e.set_violation("non-termination", format!("operation took more than {} uninterrupted steps without returning, at {}:{}", NB_STEPS, short(at.file()), at.line()));
            e.leave();
        }
    }

    /// Leave the execution for good (back to the explorer).
    fn leave(&mut self) -> ! {
        unsafe {
            let mut dummy = 0usize;
            fiber::switch(&mut dummy, self.main_sp, self);
        }
        unreachable!()
    }

    pub fn fail(&mut self, kind: &str, msg: String) -> ! {
        self.set_violation(kind, msg);
        self.leave()
    }

    fn finish_thread(&mut self) -> ! {
        let me = self.cur;
        self.threads[me].finished = true;
        self.threads[me].hash = mix(self.threads[me].hash, 0xf1);
        self.total_writes += 1;
        self.stagnation = 0;
        match self.pick() {
            None => self.leave(),
            Some((i, w)) => {
                self.threads[i].way = w;
                self.cur = i;
                self.threads[i].started = true;
                let to = self.threads[i].sp;
                unsafe {
                    let mut dummy = 0usize;
                    fiber::switch(&mut dummy, to, self);
                }
                unreachable!()
            }
        }
    }

    fn tick(&mut self) -> u32 {
        let c = self.cur;
        let v = &mut self.threads[c].view.clock[c];
        *v += 1;
        *v
    }

    fn tr(&mut self, what: impl FnOnce() -> String, at: &'static Location<'static>) {
        if self.tracing {
            let t = self.cur;
            let n = self.threads[t].name;
            let s = format!("{:>2} {:<10} {:<52} {}:{}", t, n, what(), short(at.file()), at.line());
            self.trace.push(s);
        }
    }

    // ---------------------------------------------------------------- objects

    fn stack_check(&mut self, addr: usize, at: &'static Location<'static>) {
        if let Some(j) = fiber::stack_of(addr) {
            let dead = if j >= self.threads.len() {
                true
            } else if j == self.cur {
                let here = 0u8;
                addr < (&here as *const u8 as usize)
            } else {
                self.threads[j].finished || !self.threads[j].started || addr < self.threads[j].sp
            };
            if dead {
                self.fail("use-after-free", format!("access to a dead stack frame at {}:{}", short(at.file()), at.line()));
            }
        }
    }

    fn lookup(&mut self, meta: *mut u64, kind: u64, init: u64, at: &'static Location<'static>) -> usize {
        let addr = meta as usize;
        let m = unsafe { *meta };
        self.stack_check(addr, at);
        if m == 0 {
            let cnt = self.addr_regs.entry(addr).or_insert(0);
            *cnt += 1;
            let canon = mix(addr as u64, (*cnt as u64) << 8 | kind);
            let idx = match kind {
                K_ATOMIC => {
                    if self.locs.len() >= MAXL {
                        fatal("too many atomic locations");
                    }
                    self.locs.push(Loc {
                        canon,
                        chain: 0,
                        msgs: vec![Msg { val: init, view: u32::MAX, hash: mix(canon, init) }],
                        scts: 0,
                        addr,
                        dead: false,
                        acc: [(0, None); MAXT],
                    });
                    self.locs.len() - 1
                }
                K_CELL => {
                    self.cells.push(CellM { addr, dead: false, wr: (0, 0), wr_at: None, rd: [0; MAXT], rd_at: None });
                    self.cells.len() - 1
                }
                _ => {
                    self.mutexes.push(MutexM { canon, chain: 0, addr, dead: false, owner: None, view: View::EMPTY });
                    self.mutexes.len() - 1
                }
            };
            unsafe { *meta = ((self.nonce as u64) << 40) | (kind << 32) | (idx as u64 + 1) };
            return idx;
        }
        let idx = ((m & 0xffff_ffff) as usize).wrapping_sub(1);
        let len = match kind {
            K_ATOMIC => self.locs.len(),
            K_CELL => self.cells.len(),
            _ => self.mutexes.len(),
        };
        if (m >> 40) as u32 != self.nonce || (m >> 32) & 0xff != kind || idx >= len {
            let what = if m == 0xDDDD_DDDD_DDDD_DDDD {
                "freed memory"
            } else if m == 0xAAAA_AAAA_AAAA_AAAA {
                "uninitialised memory"
            } else {
                "invalid or reused memory"
            };
            self.fail("use-after-free", format!("access to {} at {}:{}", what, short(at.file()), at.line()));
        }
        let dead = match kind {
            K_ATOMIC => {
                self.locs[idx].addr = addr;
                self.locs[idx].dead
            }
            K_CELL => {
                self.cells[idx].addr = addr;
                self.cells[idx].dead
            }
            _ => {
                self.mutexes[idx].addr = addr;
                self.mutexes[idx].dead
            }
        };
        if dead {
            self.fail("use-after-free", format!("access to an object that no longer exists at {}:{}", short(at.file()), at.line()));
        }
        idx
    }

    fn loc(&mut self, v: *mut u64, meta: *mut u64, at: &'static Location<'static>) -> usize {
        let init = unsafe { *v };
        let fresh = unsafe { *meta } == 0;
        let l = self.lookup(meta, K_ATOMIC, init, at);
        let me = self.cur;
        self.locs[l].acc[me] = (self.threads[me].view.clock[me] + 1, Some(at));
        if !fresh {
            // changed through exclusive access (get_mut)?
            let last = self.locs[l].msgs.last().unwrap().val;
            if last != init {
                self.write_msg(l, init, 4, false);
            }
        }
        l
    }

    fn new_view(&mut self, v: &View) -> u32 {
        let n = self.locs.len();
        self.views.push(View::EMPTY);
        let k = self.views.len() - 1;
        self.views[k].copy_from(v, n);
        k as u32
    }

    /// Append a message to `l`. For RMWs the release sequence continues from the previous message.
    fn write_msg(&mut self, l: usize, val: u64, ord: u8, rmw: bool) {
        let me = self.cur;
        let n = self.locs.len();
        let ts = self.locs[l].msgs.len() as u16;
        let prev = *self.locs[l].msgs.last().unwrap();
        let old = prev.val;
        self.threads[me].view.ts[l] = ts;
        let mut view = if is_rel(ord) {
            let v = self.threads[me].view;
            self.new_view(&v)
        } else {
            // relaxed: whatever the last release fence published
            let mut v = self.threads[me].rel;
            v.ts[l] = v.ts[l].max(ts);
            self.new_view(&v)
        };
        if rmw && prev.view != u32::MAX {
            let p = self.views[prev.view as usize];
            let k = view as usize;
            self.views[k].join(&p, n);
        }
        if ts == u16::MAX {
            view = 0;
            let _ = view;
            fatal("too many messages at one location");
        }
        let h = self.threads[me].hash;
        let loc = &mut self.locs[l];
        loc.chain = mix(loc.chain, h);
        loc.msgs.push(Msg { val, view, hash: h });
        if is_sc(ord) {
            loc.scts = loc.scts.max(ts);
        }
        if old != val {
            self.total_writes += 1;
            self.threads[me].own_writes += 1;
            self.stagnation = 0;
        }
    }

    fn read_msg(&mut self, l: usize, ts: usize, ord: u8) -> u64 {
        let me = self.cur;
        let n = self.locs.len();
        let m = self.locs[l].msgs[ts];
        let t = &mut self.threads[me];
        t.view.ts[l] = t.view.ts[l].max(ts as u16);
        if m.view != u32::MAX {
            let v = &self.views[m.view as usize];
            if is_acq(ord) {
                t.view.join(v, n);
            } else {
                t.acq.join(v, n);
            }
        }
        if is_sc(ord) {
            let s = &mut self.locs[l].scts;
            *s = (*s).max(ts as u16);
        }
        m.val
    }

    fn load(&mut self, v: *mut u64, meta: *mut u64, ord: u8, at: &'static Location<'static>) -> u64 {
        self.idle(v as usize, at);
        self.point(Pending::Op, at);
        let me = self.cur;
        let l = self.loc(v, meta, at);
        self.tick();
        let last = self.locs[l].msgs.len() - 1;
        let mut floor = self.threads[me].view.ts[l] as usize;
        if is_sc(ord) {
            floor = floor.max(self.locs[l].scts as usize).max(self.scv.ts[l] as usize);
        }
        let mut ts = last;
        let lag = self.threads[me].lag;
        if floor < last && lag.0 == l && lag.1 < MAX_LAG {
            // once behind, a thread may stay behind for a while, at no extra cost
            if self.choose_raw(2) == 1 {
                ts = floor;
                self.threads[me].lag.1 += 1;
                self.lagged = true;
            } else {
                self.threads[me].lag.0 = usize::MAX;
            }
        } else if floor < last && self.left.stale > 0 {
            let k = self.choose_raw(last - floor + 1);
            if k > 0 {
                self.left.stale -= 1;
                ts = last - k;
                self.threads[me].lag = (l, 0);
            }
        }
        let mh = self.locs[l].msgs[ts].hash;
        let canon = self.locs[l].canon;
        let t = &mut self.threads[me];
        t.hash = mix(mix(t.hash, canon ^ 1 ^ ((ord as u64) << 8)), mh);
        let r = self.read_msg(l, ts, ord);
        self.tr(|| format!("load x{} -> {:#x}{}", l, r, if ts != last { " (stale)" } else { "" }), at);
        r
    }

    fn store(&mut self, v: *mut u64, meta: *mut u64, val: u64, ord: u8, at: &'static Location<'static>) {
        self.point(Pending::Op, at);
        let me = self.cur;
        let l = self.loc(v, meta, at);
        self.tick();
        let canon = self.locs[l].canon;
        let t = &mut self.threads[me];
        t.hash = mix(mix(t.hash, canon ^ 2 ^ ((ord as u64) << 8)), val);
        self.write_msg(l, val, ord, false);
        unsafe { *v = val };
        self.tr(|| format!("store x{} = {:#x}", l, val), at);
    }

    fn rmw(&mut self, v: *mut u64, meta: *mut u64, ord: u8, what: &'static str, f: impl FnOnce(u64) -> u64, at: &'static Location<'static>) -> u64 {
        self.idle(v as usize, at);
        self.point(Pending::Op, at);
        let me = self.cur;
        let l = self.loc(v, meta, at);
        self.tick();
        let last = self.locs[l].msgs.len() - 1;
        let m = self.locs[l].msgs[last];
        let new = f(m.val);
        let canon = self.locs[l].canon;
        let t = &mut self.threads[me];
        t.hash = mix(mix(mix(t.hash, canon ^ 3 ^ ((ord as u64) << 8)), m.hash), new);
        self.read_msg(l, last, ord);
        self.write_msg(l, new, ord, true);
        unsafe { *v = new };
        self.tr(|| format!("{} x{}: {:#x} -> {:#x}", what, l, m.val, new), at);
        m.val
    }

    fn cas(&mut self, v: *mut u64, meta: *mut u64, cur: u64, new: u64, ok: u8, fail: u8, weak: bool, at: &'static Location<'static>) -> (u64, bool) {
        self.idle(v as usize, at);
        self.point(Pending::Op, at);
        let me = self.cur;
        let l = self.loc(v, meta, at);
        self.tick();
        let last = self.locs[l].msgs.len() - 1;
        let m = self.locs[l].msgs[last];
        let mut succ = m.val == cur;
        let mut spurious = false;
        if succ && weak && self.left.weak > 0 {
            if self.choose_raw(2) == 1 {
                self.left.weak -= 1;
                succ = false;
                spurious = true;
            }
        }
        let canon = self.locs[l].canon;
        let t = &mut self.threads[me];
        t.hash = mix(mix(t.hash, canon ^ 4 ^ ((ok as u64) << 8) ^ ((fail as u64) << 16)), m.hash);
        if succ {
            t.hash = mix(t.hash, new ^ 0x10);
            self.read_msg(l, last, ok);
            self.write_msg(l, new, ok, true);
            unsafe { *v = new };
        } else {
            t.hash = mix(t.hash, if spurious { 0x20 } else { 0x30 });
            self.read_msg(l, last, fail);
        }
        self.tr(|| format!("cas x{}: {:#x} ({:#x}->{:#x}) {}", l, m.val, cur, new, if succ { "ok" } else if spurious { "spurious failure" } else { "failed" }), at);
        (m.val, succ)
    }

    fn fence(&mut self, ord: u8, at: &'static Location<'static>) {
        self.point(Pending::Op, at);
        let n = self.locs.len();
        self.tick();
        let me = self.cur;
        let t = &mut self.threads[me];
        t.hash = mix(t.hash, 0xfe0 + ord as u64);
        if is_acq(ord) {
            let a = t.acq;
            t.view.join(&a, n);
        }
        if is_sc(ord) {
            for i in 0..n {
                let s = self.scv.ts[i].max(self.locs[i].scts);
                let x = &mut t.view.ts[i];
                if *x < s {
                    *x = s;
                }
                self.scv.ts[i] = *x;
            }
        }
        if is_rel(ord) {
            t.rel = t.view;
        }
        self.tr(|| format!("fence({})", ["", "acquire", "release", "acqrel", "seqcst"][ord as usize]), at);
    }

    /// Data-race check of a non-atomic access.
    fn cell(&mut self, meta: *mut u64, write: bool, at: &'static Location<'static>) {
        let c = self.lookup(meta, K_CELL, 0, at);
        self.cell_idx(c, write, at);
    }

    fn cell_idx(&mut self, c: usize, write: bool, at: &'static Location<'static>) {
        let clk = self.tick();
        let me = self.cur;
        let vc = self.threads[me].view.clock;
        let m = &mut self.cells[c];
        let mut race = None;
        if m.wr.1 > vc[m.wr.0 as usize] {
            race = Some((m.wr.0 as usize, m.wr_at, "write"));
        }
        if write {
            for i in 0..MAXT {
                if i != me && m.rd[i] > vc[i] {
                    race = Some((i, m.rd_at, "read"));
                }
            }
        }
        if let Some((o, oat, what)) = race {
            let oat = oat.map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
            let msg = format!(
                "unsynchronised {} by thread {} at {}:{} and {} by thread {} at {}",
                if write { "write" } else { "read" },
                me,
                short(at.file()),
                at.line(),
                what,
                o,
                oat
            );
            self.fail("data-race", msg);
        }
        if write {
            m.wr = (me as u8, clk);
            m.wr_at = Some(at);
        } else {
            m.rd[me] = clk;
            m.rd_at = Some(at);
        }
    }

    fn lock(&mut self, meta: *mut u64, block: bool, at: &'static Location<'static>) -> bool {
        let m = self.lookup(meta, K_MUTEX, 0, at);
        self.point(if block { Pending::Lock(m) } else { Pending::Op }, at);
        self.lookup(meta, K_MUTEX, 0, at);
        let me = self.cur;
        self.tick();
        let n = self.locs.len();
        let mm = &mut self.mutexes[m];
        let t = &mut self.threads[me];
        if mm.owner.is_some() {
            t.hash = mix(mix(t.hash, mm.canon), 0x77 ^ mm.chain);
            return false;
        }
        mm.owner = Some(me);
        t.hash = mix(mix(t.hash, mm.canon), mm.chain);
        mm.chain = mix(mm.chain, t.hash);
        t.view.join(&mm.view, n);
        self.tr(|| format!("lock m{}", m), at);
        true
    }

    fn unlock(&mut self, meta: *mut u64, at: &'static Location<'static>) {
        let m = self.lookup(meta, K_MUTEX, 0, at);
        let me = self.cur;
        self.tick();
        let n = self.locs.len();
        let mm = &mut self.mutexes[m];
        if mm.owner != Some(me) {
            self.fail("lock", "unlock of a lock that is not held".into());
        }
        mm.owner = None;
        mm.chain = mix(mm.chain, 0x0f);
        let v = self.threads[me].view;
        mm.view.join(&v, n);
        self.total_writes += 1;
        self.threads[me].own_writes += 1;
        self.stagnation = 0;
        self.tr(|| format!("unlock m{}", m), at);
    }

    fn spin(&mut self, at: &'static Location<'static>) {
        let me = self.cur;
        let total = self.total_writes;
        let t = &mut self.threads[me];
        if t.last_spin {
            return;
        }
        let others = total - t.own_writes;
        if others != t.seen_others {
            t.seen_others = others;
            t.fruitless = 0;
            t.alone_spins = 0;
            t.stall = false;
        } else {
            t.fruitless += 1;
        }
        if unsafe { alloc::SPIN } && self.threads[me].in_lib > 0 && self.alone(me) {
            self.threads[me].alone_spins += 1;
            if self.threads[me].alone_spins > SPIN_ALONE {
                let m = format!("an operation keeps spinning at {}:{} instead of going to sleep, with nobody else in the middle of anything", short(at.file()), at.line());
                self.fail("busy-wait", m);
            }
        }
        let t = &mut self.threads[me];
        if t.nonblocking > 0 && t.fruitless > SPIN_NB {
            let m = format!("operation keeps spinning at {}:{} although it must not wait for other threads", short(at.file()), at.line());
            self.fail("blocked", m);
        }
        self.point(Pending::Spin, at);
        let e = eng();
        let t = e.t();
        t.last_spin = true;
        t.hash = mix(t.hash, 0x5919);
    }

    /// Called before every atomic operation that reads.
    #[inline]
    fn idle(&mut self, addr: usize, at: &'static Location<'static>) {
        let total = self.total_writes;
        let t = &mut self.threads[self.cur];
        if t.idle.1 != total {
            t.idle = (addr, total, 1, 1);
            return;
        }
        t.idle.2 += 1;
        if t.idle.2.is_power_of_two() && t.idle.2 <= 64 {
            // the loop may have been entered through other locations
            t.idle.0 = addr;
            t.idle.3 = 1;
        } else if t.idle.0 == addr {
            t.idle.3 += 1;
            if t.idle.3 > IDLE {
                t.last_spin = false;
                self.spin(at);
            }
        }
    }

    fn park_on(&mut self, token: usize, timeout: u64, spurious: bool, at: &'static Location<'static>) {
        let deadline = if timeout == u64::MAX { u64::MAX } else { self.clock.saturating_add(timeout).min(u64::MAX - 1) };
        self.point(Pending::Park { token, deadline, spurious }, at);
        let me = self.cur;
        self.tick();
        let n = self.locs.len();
        let way = self.threads[me].way;
        let tk = &mut self.tokens[token];
        let t = &mut self.threads[me];
        t.hash = mix(mix(t.hash, tk.canon ^ way as u64), tk.chain);
        match way {
            Way::Normal => {
                tk.set = false;
                tk.chain = mix(tk.chain, t.hash);
                t.view.join(&tk.view, n);
            }
            Way::Spurious => {}
            Way::Timer => {
                self.clock = self.clock.max(deadline);
                self.total_writes += 1;
                self.stagnation = 0;
                self.threads[me].own_writes += 1;
            }
        }
        self.tr(|| format!("woke up ({:?})", way), at);
    }

    fn unpark_token(&mut self, token: usize, at: &'static Location<'static>) {
        if solo() {
            self.tokens[token].set = true;
            self.tokens[token].wakes += 1;
            return;
        }
        if unsafe { alloc::SPIN } {
            let me = self.cur;
            let others = self.total_writes - self.threads[me].own_writes;
            if self.tokens[token].owner == me && self.threads[me].in_lib > 0 && self.alone(me) {
                let tk = &mut self.tokens[token];
                if tk.others_seen != others {
                    tk.others_seen = others;
                    tk.self_wakes = 0;
                }
                tk.self_wakes += 1;
                if tk.self_wakes > SPIN_ALONE {
                    self.fail("busy-wait", "a waiting task keeps waking itself instead of going to sleep, with nobody else in the middle of anything".into());
                }
            }
        }
        self.point(Pending::Op, at);
        let me = self.cur;
        self.tick();
        let n = self.locs.len();
        let v = self.threads[me].view;
        let tk = &mut self.tokens[token];
        tk.by_self = tk.owner == me && self.threads[me].in_lib > 0;
        let h = mix(mix(self.threads[me].hash, tk.canon), tk.set as u64 ^ 0x55);
        self.threads[me].hash = h;
        tk.chain = mix(tk.chain, h);
        tk.view.join(&v, n);
        tk.set = true;
        tk.wakes += 1;
        self.total_writes += 1;
        self.threads[me].own_writes += 1;
        self.stagnation = 0;
        self.tr(|| format!("wake token {}", token), at);
    }

    /// The atomics and cells in this memory cease to exist: all uses of them must have happened before.
    pub fn retire(&mut self, addr: usize, size: usize) {
        let end = addr + size;
        let hit = |a: usize| a >= addr && a < end;
        let me = self.cur;
        let vc = self.threads[me].view.clock;
        let mut race = None;
        for l in self.locs.iter_mut() {
            if !l.dead && hit(l.addr) {
                l.dead = true;
                for i in 0..MAXT {
                    if i != me && l.acc[i].0 > vc[i] {
                        race = Some((i, l.acc[i].1));
                    }
                }
            }
        }
        for c in self.cells.iter_mut() {
            if !c.dead && hit(c.addr) {
                c.dead = true;
                if c.wr.1 > vc[c.wr.0 as usize] {
                    race = Some((c.wr.0 as usize, c.wr_at));
                }
                for i in 0..MAXT {
                    if i != me && c.rd[i] > vc[i] {
                        race = Some((i, c.rd_at));
                    }
                }
            }
        }
        if let Some((i, at)) = race {
            let at = at.map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
            self.fail("data-race", format!("thread {} frees memory that thread {} has just used at {}, unsynchronised", me, i, at));
        }
    }

    pub fn cur_hash_mix(&mut self, x: u64) {
        let t = self.t();
        t.hash = mix(t.hash, x);
    }

    pub fn scratch_set(&mut self, k: &'static str, v: i64) {
        self.scratch.insert(k, v);
        self.scratch_chain = 0;
        let mut s = 0u64;
        for (k, v) in &self.scratch {
            let mut h = 0;
            for b in k.bytes() {
                h = mix(h, b as u64);
            }
            s = s.wrapping_add(mix(h, *v as u64));
        }
        self.scratch_chain = s;
    }
}

static mut PARK_TOKENS: [usize; MAXT] = [0; MAXT];

pub fn short(f: &str) -> &str {
    f.strip_prefix("/repo/").unwrap_or(f)
}

pub fn fatal(msg: &str) -> ! {
    unsafe { alloc::MODEL = usize::MAX };
    eprintln!("ENGINE ERROR: {}", msg);
    unsafe { libc::_exit(3) }
}

#[no_mangle]
extern "C" fn mc_fiber_entry() {
    let e = eng();
    let me = e.cur;
    let f = e.threads[me].entry.take().expect("fiber entry");
    e.cur_hash_mix(0x57a7);
    unsafe { alloc::MODEL = me };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f()));
    unsafe { alloc::MODEL = usize::MAX };
    if let Err(p) = r {
        std::mem::forget(p);
        eng().fail("panic", format!("thread {} ended by a panic", me));
    }
    eng().finish_thread()
}

// -------------------------------------------------------------------- hooks called by the shim

/// Single-threaded execution in which every operation simply takes effect on memory: used for
/// histories that are too long, or rings that are too large, to be tracked location by location.
pub static mut SOLO: bool = false;
static mut SOLO_SPINS: u64 = 0;
/// Operations of untracked executions, for the watchdog.
pub static mut SOLO_OPS: u64 = 0;

#[inline]
fn solo() -> bool {
    unsafe {
        if SOLO {
            SOLO_OPS += 1;
            SOLO_SPINS += 1;
            if SOLO_SPINS > 10_000_000 {
                solo_spin("works");
            }
        }
        SOLO
    }
}
fn solo_spin(what: &str) {
    unsafe {
        SOLO_SPINS += 1000;
        if SOLO_SPINS > 10_000_000 {
            sys(|| eng().fail("deadlock", format!("the only thread {} for ever", what)));
        }
    }
}

fn rmw_new(op: u8, o: u64, val: u64, mask: u64) -> u64 {
    match op {
        0 => val,
        1 => o.wrapping_add(val) & mask,
        2 => o.wrapping_sub(val) & mask,
        3 => o & val,
        4 => o | val,
        5 => o ^ val,
        6 => !(o & val) & mask,
        7 => o.max(val),
        _ => o.min(val),
    }
}

macro_rules! hook {
    ($e:ident => $b:expr) => {
        sys(|| {
            let $e = eng();
            $b
        })
    };
}

#[no_mangle]
fn __mc_load(v: *mut u64, meta: *mut u64, ord: u8, at: &'static Location<'static>) -> u64 {
    if solo() {
        return unsafe { *v };
    }
    hook!(e => e.load(v, meta, ord, at))
}
#[no_mangle]
fn __mc_store(v: *mut u64, meta: *mut u64, val: u64, ord: u8, at: &'static Location<'static>) {
    if solo() {
        unsafe { *v = val };
        return;
    }
    hook!(e => e.store(v, meta, val, ord, at))
}
#[no_mangle]
fn __mc_rmw(v: *mut u64, meta: *mut u64, op: u8, val: u64, mask: u64, ord: u8, at: &'static Location<'static>) -> u64 {
    if solo() {
        unsafe {
            let o = *v;
            *v = rmw_new(op, o, val, mask);
            return o;
        }
    }
    let what = ["swap", "add", "sub", "and", "or", "xor", "nand", "max", "min"][op as usize];
    hook!(e => e.rmw(v, meta, ord, what, |o| rmw_new(op, o, val, mask), at))
}
#[no_mangle]
fn __mc_cas(v: *mut u64, meta: *mut u64, cur: u64, new: u64, ok: u8, fail: u8, weak: bool, at: &'static Location<'static>) -> (u64, bool) {
    if solo() {
        unsafe {
            let o = *v;
            if o == cur {
                *v = new;
            } else {
                solo_spin("fails to exchange a value");
            }
            return (o, o == cur);
        }
    }
    hook!(e => e.cas(v, meta, cur, new, ok, fail, weak, at))
}
#[no_mangle]
fn __mc_excl(v: *mut u64, meta: *mut u64, at: &'static Location<'static>) {
    if solo() {
        return;
    }
    hook!(e => { e.loc(v, meta, at); })
}
#[no_mangle]
fn __mc_fence(ord: u8, at: &'static Location<'static>) {
    if solo() {
        return;
    }
    hook!(e => e.fence(ord, at))
}
#[no_mangle]
fn __mc_cell(meta: *mut u64, write: bool, at: &'static Location<'static>) {
    if solo() {
        return;
    }
    hook!(e => e.cell(meta, write, at))
}
#[no_mangle]
fn __mc_lock(meta: *mut u64, block: bool, at: &'static Location<'static>) -> bool {
    if solo() {
        unsafe {
            if *meta != 0 {
                if block {
                    sys(|| eng().fail("deadlock", "the only thread waits for a lock it holds".into()));
                }
                return false;
            }
            *meta = 1;
            return true;
        }
    }
    hook!(e => e.lock(meta, block, at))
}
#[no_mangle]
fn __mc_unlock(meta: *mut u64, at: &'static Location<'static>) {
    if solo() {
        unsafe { *meta = 0 };
        return;
    }
    hook!(e => e.unlock(meta, at))
}
#[no_mangle]
fn __mc_spin(_yielding: bool, at: &'static Location<'static>) {
    if solo() {
        solo_spin("spins");
        return;
    }
    hook!(e => e.spin(at))
}
#[no_mangle]
fn __mc_current() -> u64 {
    eng().cur as u64
}
#[no_mangle]
fn __mc_park(timeout: u64, at: &'static Location<'static>) {
    if solo() {
        if timeout == u64::MAX {
            sys(|| eng().fail("deadlock", "the only thread parks".into()));
        }
        eng().clock += timeout;
        return;
    }
    hook!(e => {
        let tok = unsafe { PARK_TOKENS[e.cur] };
        e.park_on(tok, timeout, true, at)
    })
}
#[no_mangle]
fn __mc_unpark(id: u64, at: &'static Location<'static>) {
    if solo() {
        return;
    }
    hook!(e => {
        let tok = unsafe { PARK_TOKENS[id as usize] };
        e.unpark_token(tok, at)
    })
}
#[no_mangle]
fn __mc_now() -> u64 {
    hook!(e => {
        // time may pass between any two instructions: a budgeted jump
        if e.left.timer > 0 && e.scratch.get("time_jumps").copied().unwrap_or(0) != 0 {
            let k = e.choose_raw(3);
            if k > 0 {
                e.left.timer -= 1;
                e.clock += if k == 1 { 4_000_000 } else { 30_000_000 };
            }
        }
        let c = e.clock;
        e.cur_hash_mix(c ^ 0xc10c);
        c
    })
}
#[no_mangle]
fn __mc_panicking() -> bool {
    let e = eng();
    e.threads[e.cur].panicking
}
#[no_mangle]
fn __mc_set_panicking(p: bool) {
    let e = eng();
    e.threads[e.cur].panicking = p
}
#[no_mangle]
fn __mc_retire(addr: *const u8, size: usize) {
    if solo() {
        return;
    }
    hook!(e => e.retire(addr as usize, size))
}

// -------------------------------------------------------------------- API for scenarios

pub mod api {
    use super::*;
    use std::task::{RawWaker, RawWakerVTable, Waker};

    /// A violation found by a scenario's oracle.
    pub fn violation(msg: impl Into<String>) -> ! {
        let msg = msg.into();
        sys(|| {
            let m = msg.clone();
            eng().fail("oracle", m)
        })
    }

    /// Waiting senders were not woken in their order (judged on request only).
    pub fn out_of_turn(msg: impl Into<String>) {
        if unsafe { alloc::ORDER } {
            let m = msg.into();
            sys(|| eng().fail("order", m))
        }
    }

    /// Nondeterministic choice of the environment, 0..n.
    #[track_caller]
    pub fn choose(n: usize) -> usize {
        let at = Location::caller();
        sys(|| {
            let e = eng();
            if e.depth + 1 >= e.choices.len() {
                e.histories += 1;
            }
            let c = e.choose_raw(n);
            e.cur_hash_mix(0xc0 + c as u64);
            e.tr(|| format!("choose {} of {}", c, n), at);
            c
        })
    }

    /// Append to the execution's log (its order is part of the state).
    pub fn log(x: u64) {
        sys(|| {
            let e = eng();
            e.log_chain = mix(e.log_chain, mix(x, e.cur as u64));
            let c = e.cur as u8;
            e.log.push((c, x));
        })
    }
    /// Whether this execution has read an outdated value (so that the order of events in time says
    /// nothing about what other threads may know).
    /// some thread kept reading an old value several times in a row
    pub fn lag_used() -> bool {
        eng().lagged
    }

    pub fn stale_used() -> bool {
        let e = eng();
        e.left.stale != e.cfg.stale
    }
    pub fn get_log() -> Vec<(u8, u64)> {
        let e = eng();
        e.log.clone()
    }

    /// Shared scenario variable; its value is part of the state.
    pub fn shared_add(k: &'static str, d: i64) -> i64 {
        sys(|| {
            let e = eng();
            let v = e.scratch.get(k).copied().unwrap_or(0) + d;
            e.scratch_set(k, v);
            v
        })
    }
    pub fn shared_get(k: &'static str) -> i64 {
        // reading is an observation of shared state
        sys(|| {
            let e = eng();
            let v = e.scratch.get(k).copied().unwrap_or(0);
            e.cur_hash_mix(v as u64 ^ 0x9e);
            v
        })
    }

    /// Record a distinguishable outcome of this execution (for the vacuity report).
    pub fn outcome(s: impl FnOnce() -> String) {
        sys(|| {
            let e = eng();
            let s = s();
            let mut h = 0;
            for b in s.bytes() {
                h = mix(h, b as u64);
            }
            if e.outcomes.insert(h) && e.outcome_samples.len() < 40 {
                e.outcome_samples.push(s);
            }
        })
    }

    pub fn note(s: impl FnOnce() -> String) {
        sys(|| {
            let e = eng();
            if e.tracing {
                let t = e.cur;
                let n = e.threads[t].name;
                let l = format!("{:>2} {:<10} -- {}", t, n, s());
                e.trace.push(l);
            }
        })
    }

    pub struct JoinHandle<T> {
        id: usize,
        slot: std::rc::Rc<std::cell::RefCell<Option<T>>>,
    }

    /// Start a model thread.
    pub fn spawn<T: 'static>(name: &'static str, f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
        let slot = std::rc::Rc::new(std::cell::RefCell::new(None));
        let s2 = slot.clone();
        let b: Box<dyn FnOnce()> = Box::new(move || {
            let r = f();
            *s2.borrow_mut() = Some(r);
        });
        let id = sys(|| {
            let e = eng();
            e.tick();
            let parent = e.cur;
            let id = e.add_thread(b, name);
            let pv = e.threads[parent].view;
            let ph = e.threads[parent].hash;
            e.threads[parent].hash = mix(ph, 0xabcd + id as u64);
            e.threads[id].view = pv;
            e.threads[id].view.clock[id] = 1;
            e.threads[id].hash = mix(ph, id as u64 + 1);
            id
        });
        JoinHandle { id, slot }
    }

    impl<T> JoinHandle<T> {
        #[track_caller]
        pub fn join(self) -> T {
            let at = Location::caller();
            let id = self.id;
            sys(|| {
                let e = eng();
                e.point(Pending::Join(id), at);
                e.tick();
                let n = e.locs.len();
                let me = e.cur;
                let v = e.threads[id].view;
                let h = e.threads[id].hash;
                let t = &mut e.threads[me];
                t.view.join(&v, n);
                t.hash = mix(t.hash, h);
            });
            let r = self.slot.borrow_mut().take();
            r.expect("thread result")
        }
        /// Wait until the thread is parked or finished.
        #[track_caller]
        pub fn asleep(&self) {
            let at = Location::caller();
            let id = self.id;
            sys(|| {
                let e = eng();
                e.point(Pending::Asleep(id), at);
                let h = e.threads[id].hash;
                let me = e.cur;
                let t = &mut e.threads[me];
                t.hash = mix(t.hash, h ^ 0xa51e);
            });
        }
        pub fn is_finished(&self) -> bool {
            let f = eng().threads[self.id].finished;
            eng().cur_hash_mix(f as u64 + 5);
            f
        }
    }

    /// A visible step without effect: lets other threads run in between.
    #[track_caller]
    pub fn step() {
        if super::solo() {
            return;
        }
        let at = Location::caller();
        sys(|| {
            let e = eng();
            e.point(Pending::Op, at);
            e.cur_hash_mix(0x57e9);
        })
    }

    /// From here to the end of the execution the (only) thread runs untracked.
    pub fn solo() {
        unsafe {
            SOLO = true;
            SOLO_SPINS = 0;
        }
    }
    /// Resets the progress counter of untracked executions.
    pub fn solo_progress() {
        unsafe { SOLO_SPINS = 0 }
    }

    pub fn set_max_steps(n: u32) {
        eng().max_steps = n
    }
    pub fn me() -> usize {
        eng().cur
    }
    pub fn clock() -> u64 {
        let e = eng();
        let c = e.clock;
        e.cur_hash_mix(c ^ 0xc10d);
        c
    }
    /// Let (virtual) time pass.
    #[track_caller]
    pub fn sleep(ns: u64) {
        let at = Location::caller();
        sys(|| {
            let e = eng();
            let me = e.cur;
            e.threads[me].regs += 1;
            let canon = mix(0x51ee9, (me as u64) << 32 | e.threads[me].regs as u64);
            e.tokens.push(Token { canon, chain: 0, set: false, view: View::EMPTY, refs: 0, is_waker: false, wakes: 0, self_wakes: 0, others_seen: 0, owner: usize::MAX, by_self: false });
            let t = e.tokens.len() - 1;
            e.park_on(t, ns, false, at)
        })
    }
    pub fn enable_time_jumps() {
        sys(|| eng().scratch_set("time_jumps", 1));
    }
    pub fn allow_leaks() {
        eng().check_leaks = false
    }
    pub fn live_vals() -> i32 {
        eng().live_vals
    }
    pub fn allocs() -> usize {
        unsafe { alloc::ALLOCS }
    }

    /// Operations inside must complete without help from other threads.
    pub fn nonblocking<R>(f: impl FnOnce() -> R) -> R {
        {
            let t = eng().t();
            t.nonblocking += 1;
            t.nb_steps = 0;
            t.fruitless = 0;
        }
        let r = lib(f);
        let t = eng().t();
        t.nonblocking -= 1;
        t.nb_steps = 0;
        r
    }

    struct Zone(usize, i32);
    impl Drop for Zone {
        fn drop(&mut self) {
            let t = &mut eng().threads[self.0];
            t.in_lib = t.in_lib.saturating_sub(1);
            t.alone_spins = 0;
            unsafe {
                let hit = alloc::ZHIT[self.0];
                alloc::ZONE[self.0] = self.1;
                alloc::ZHIT[self.0] = 0;
                if hit != 0 && alloc::WATCH && !eng().threads[self.0].panicking && !std::thread::panicking() {
                    let w = ["", "allocated memory", "released memory", "allocated and released memory"][hit as usize & 3];
                    sys(|| eng().fail("alloc", format!("an operation of the library {}", w)));
                }
            }
        }
    }
    /// An operation of the library, which must not allocate or release memory.
    pub fn lib<R>(f: impl FnOnce() -> R) -> R {
        let me = eng().cur;
        let _z = unsafe {
            let z = Zone(me, alloc::ZONE[me]);
            alloc::ZONE[me] = z.1.max(0) + 1;
            eng().threads[me].in_lib += 1;
            eng().threads[me].alone_spins = 0;
            z
        };
        f()
    }
    /// User code called from within an operation of the library.
    pub fn user<R>(f: impl FnOnce() -> R) -> R {
        struct Back(usize, i32, u8);
        impl Drop for Back {
            fn drop(&mut self) {
                unsafe {
                    alloc::ZONE[self.0] = self.1;
                    alloc::ZHIT[self.0] = self.2;
                }
            }
        }
        let me = eng().cur;
        let _b = unsafe {
            let b = Back(me, alloc::ZONE[me], alloc::ZHIT[me]);
            alloc::ZONE[me] = 0;
            b
        };
        f()
    }

    // ------------------------------------------------------------ panics

    pub struct McPanic;

    /// Panic on purpose (does not count as a violation).
    pub fn throw() -> ! {
        eng().t().panicking = true;
        std::panic::resume_unwind(Box::new(McPanic))
    }

    /// Catch a deliberate panic (`throw`).
    pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        eng().t().panicking = false;
        r.map_err(|_| ())
    }

    /// Run code that may panic by itself (e.g. a documented assertion); true if it panicked.
    pub fn catch_any<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
        eng().t().expect_panic += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let t = eng().t();
        t.expect_panic -= 1;
        t.panicking = false;
        r.map_err(|_| ())
    }

    // ------------------------------------------------------------ wakers

    /// A task waker known to the checker.
    pub struct WakerId(pub usize);

    pub fn new_waker() -> (WakerId, Waker) {
        let id = sys(|| {
            let e = eng();
            let me = e.cur;
            e.threads[me].regs += 1;
            let canon = mix(0x3a4e, (me as u64) << 32 | e.threads[me].regs as u64);
            e.tokens.push(Token { canon, chain: 0, set: false, view: View::EMPTY, refs: 1, is_waker: true, wakes: 0, self_wakes: 0, others_seen: 0, owner: me, by_self: false });
            e.tokens.len() - 1
        });
        (WakerId(id), unsafe { Waker::from_raw(RawWaker::new((id * 8 + 8) as *const (), &VT)) })
    }

    fn tok(p: *const ()) -> usize {
        let id = (p as usize).wrapping_sub(8) / 8;
        let e = eng();
        if id >= e.tokens.len() || !e.tokens[id].is_waker {
            sys(|| eng().fail("use-after-free", "use of an invalid waker".into()));
        }
        if e.tokens[id].refs <= 0 {
            sys(|| eng().fail("use-after-free", format!("waker #{} used after its last reference was released", id)));
        }
        id
    }

    static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);

    unsafe fn w_clone(p: *const ()) -> RawWaker {
        let t = tok(p);
        if shared_peek("panic_on_clone") > 0 {
            shared_add("panic_on_clone", -1);
            throw();
        }
        eng().tokens[t].refs += 1;
        user_hook(Hk::Clone, t);
        RawWaker::new(p, &VT)
    }
    unsafe fn w_wake(p: *const ()) {
        // consumes the waker even when `wake` panics
        struct D(*const ());
        impl Drop for D {
            fn drop(&mut self) {
                unsafe { w_drop(self.0) }
            }
        }
        let _d = D(p);
        w_wake_by_ref(p);
    }
    unsafe fn w_wake_by_ref(p: *const ()) {
        let t = tok(p);
        sys(|| eng().unpark_token(t, Location::caller()));
        if shared_peek("panic_on_wake") > 0 {
            shared_add("panic_on_wake", -1);
            throw();
        }
        let hooks = shared_peek("reentrant_wake");
        if hooks != 0 {
            reentrant(t);
        }
        user_hook(Hk::Wake, t);
    }
    unsafe fn w_drop(p: *const ()) {
        let t = tok(p);
        eng().tokens[t].refs -= 1;
        user_hook(Hk::Drop, t);
    }

    /// Where the library calls user code.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Hk {
        Clone,
        Wake,
        Drop,
        ElementNew,
        ElementRecycle,
        ElementDrop,
    }
    thread_local! {
        static UHOOK: std::cell::Cell<Option<&'static dyn Fn(Hk, usize)>> = const { std::cell::Cell::new(None) };
    }
    /// Code to run whenever the library calls user code.
    pub fn set_user_hook(f: Option<&'static dyn Fn(Hk, usize)>) {
        UHOOK.with(|h| h.set(f));
    }
    pub fn user_hook(k: Hk, t: usize) {
        if let Some(f) = UHOOK.with(|h| h.get()) {
            if eng().t().in_lib > 0 {
                user(|| f(k, t));
            }
        }
    }

    pub fn shared_peek(k: &'static str) -> i64 {
        eng().scratch.get(k).copied().unwrap_or(0)
    }

    thread_local! {
        static HOOK: std::cell::Cell<Option<*const dyn Fn(usize)>> = const { std::cell::Cell::new(None) };
    }
    /// Code to run inside `wake` (an executor that runs or drops tasks inline).
    pub fn set_wake_hook(f: &'static dyn Fn(usize)) {
        HOOK.with(|h| h.set(Some(f as *const _)));
        shared_add("reentrant_wake", 1);
    }
    fn reentrant(t: usize) {
        if let Some(f) = HOOK.with(|h| h.get()) {
            unsafe { (*f)(t) }
        }
    }

    impl WakerId {
        /// Wait until this waker is woken.
        #[track_caller]
        pub fn wait(&self) {
            let at = Location::caller();
            if super::solo() {
                if !self.take_woken() {
                    sys(|| eng().fail("deadlock", "the only task waits".into()));
                }
                return;
            }
            sys(|| {
                let e = eng();
                // a task that asks to be polled again at once spins: the scheduler owes others a turn
                if e.tokens[self.0].set && e.tokens[self.0].by_self {
                    e.t().rewaking = true;
                    e.spin(at);
                    eng().t().rewaking = false;
                }
                eng().park_on(self.0, u64::MAX, true, at)
            })
        }
        /// Was it woken since the last wait? Consumes the wakeup.
        pub fn take_woken(&self) -> bool {
            let e = eng();
            let s = e.tokens[self.0].set;
            let c = e.tokens[self.0].chain;
            e.cur_hash_mix(s as u64 + 9 + c);
            if s {
                let n = e.locs.len();
                let v = e.tokens[self.0].view;
                let me = e.cur;
                e.threads[me].view.join(&v, n);
                e.tokens[self.0].set = false;
                e.tokens[self.0].chain = mix(c, 0x31);
            }
            s
        }
        pub fn is_woken(&self) -> bool {
            let e = eng();
            let s = e.tokens[self.0].set;
            let c = e.tokens[self.0].chain;
            e.cur_hash_mix(s as u64 + 9 + c);
            s
        }
        pub fn refs(&self) -> i32 {
            eng().tokens[self.0].refs
        }
    }

    // ------------------------------------------------------------ tracked plain data

    /// A plain (non-atomic) shared variable with data-race detection.
    pub struct Plain<T> {
        meta: std::cell::UnsafeCell<u64>,
        v: std::cell::UnsafeCell<T>,
    }
    unsafe impl<T> Sync for Plain<T> {}
    impl<T: Copy> Plain<T> {
        pub fn new(v: T) -> Self {
            Plain { meta: 0.into(), v: v.into() }
        }
        #[track_caller]
        pub fn get(&self) -> T {
            let at = Location::caller();
            sys(|| eng().cell(self.meta.get(), false, at));
            unsafe { *self.v.get() }
        }
        #[track_caller]
        pub fn set(&self, v: T) {
            let at = Location::caller();
            sys(|| eng().cell(self.meta.get(), true, at));
            unsafe { *self.v.get() = v }
        }
    }

    // ------------------------------------------------------------ atomics for litmus tests
    pub struct At {
        v: std::cell::UnsafeCell<u64>,
        meta: std::cell::UnsafeCell<u64>,
    }
    unsafe impl Sync for At {}
    impl At {
        pub fn new(v: u64) -> At {
            At { v: v.into(), meta: 0.into() }
        }
        #[track_caller]
        pub fn load(&self, o: u8) -> u64 {
            __mc_load(self.v.get(), self.meta.get(), o, Location::caller())
        }
        #[track_caller]
        pub fn store(&self, v: u64, o: u8) {
            __mc_store(self.v.get(), self.meta.get(), v, o, Location::caller())
        }
        #[track_caller]
        pub fn add(&self, v: u64, o: u8) -> u64 {
            __mc_rmw(self.v.get(), self.meta.get(), 1, v, u64::MAX, o, Location::caller())
        }
        #[track_caller]
        pub fn cas(&self, a: u64, b: u64, o: u8) -> bool {
            __mc_cas(self.v.get(), self.meta.get(), a, b, o, 0, false, Location::caller()).1
        }
    }
    #[track_caller]
    pub fn fence(o: u8) {
        __mc_fence(o, Location::caller())
    }
    #[track_caller]
    pub fn spin() {
        __mc_spin(false, Location::caller())
    }
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let in_model = unsafe { alloc::MODEL } != usize::MAX;
        unsafe { alloc::MODEL = usize::MAX };
        let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        if !in_model {
            fatal(&format!("panic in the checker: {} at {}", msg, loc));
        }
        let e = eng();
        if e.threads[e.cur].expect_panic > 0 {
            e.threads[e.cur].panicking = true;
            let me = e.cur;
            unsafe { alloc::MODEL = me };
            return;
        }
        let msg: String = msg.chars().take(400).collect();
        e.fail("panic", format!("panicked: {} at {}", msg, loc));
    }));
}
