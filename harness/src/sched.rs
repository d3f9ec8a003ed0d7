//! The monitor: a seeded hostile scheduler for fibers, virtual time, a
//! vector-clock happens-before/race detector with stale reads, and hang
//! detection. Everything here runs on one OS thread.
use crate::rng::{mix, Rng};
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::cell::UnsafeCell;
use std::sync::atomic::{
    AtomicBool, AtomicU64,
    Ordering::{self, *},
};
use std::time::Duration;
use thingbuf::monitor::{Monitor, Obj, Point};

pub const MAXT: usize = 12;
pub type Vc = [u32; MAXT];

#[inline]
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Block {
    Park,
    Lock(u32),
    /// waiting for a waker (harness executor)
    Wake,
    /// harness-level virtual sleep
    Sleep,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Runnable,
    Blocked(Block),
    Done,
}

pub struct Task {
    pub st: St,
    pub deadline: Option<u64>,
    token: bool,
    token_clock: Vc,
    /// executor wake flag
    pub woken: bool,
    clock: Vc,
    acq_pending: Vc,
    rel_fence: Vc,
    sc_fence_seen: Vc,
    sc_write_seen: Vc,
    fresh: u8,
    prio: u64,
    yielded: bool,
    paused: bool,
    pub steps: u64,
    /// virtual time that passed while the task could have run
    pub lag: u64,
    pub spurious_left: u32,
    pub noalloc: bool,
    /// `steps` at the beginning of the current bounded operation
    pub solo_bound: Option<u64>,
    pub now_calls: u64,
    /// what the task is doing, for the quiescence oracle
    pub waiting_as: WaitingAs,
    /// the task has suspended futures it is not currently polling
    pub dormant: u32,
    yielder: *const Yielder<(), ()>,
    /// parks performed
    pub parks: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WaitingAs {
    Nothing,
    Receiver,
    Sender,
}

#[derive(Clone, Copy)]
struct Rec {
    val: u64,
    tid: u8,
    ts: u32,
    sc: bool,
    rel: Vc,
    loads: Vc,
}

#[derive(Default)]
struct ObjState {
    hist: Vec<Rec>,
    /// cell: last write and reads
    w_tid: u8,
    w_ts: u32,
    reads: Vc,
    /// lock / arc clock
    rel: Vc,
    locked_by: Option<u8>,
    /// last atomic access by each task
    touched: Vc,
    destroyed: bool,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    Random { num: usize, den: usize },
    Pct { points: Vec<u64> },
    /// pause task at its nth step until everybody else is stuck or `len` steps passed
    Pause { at: Vec<(usize, u64, u64)>, num: usize, den: usize },
    /// stop a task that is about to access something until another one has written to it
    Window { rate: usize, num: usize, den: usize },
    /// like Random, but now and then let one task finish its current
    /// non-blocking operation alone
    Solo { num: usize, den: usize },
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// which oracle fired
    pub kind: &'static str,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub switches: u64,
    pub points: u64,
    pub stale: u64,
    pub weak_fail: u64,
    pub spurious: u64,
    pub parks: u64,
    pub unparks: u64,
    pub clock_jumps: u64,
    pub quiescent: u64,
    pub race_checks: u64,
    pub destroyed: u64,
    pub solo_ops: u64,
    pub lock_waits: u64,
    pub windows: u64,
    pub windows_hit: u64,
}

pub struct Sched {
    pub epoch: u32,
    pub active: bool,
    pub cur: usize,
    next: Option<usize>,
    pub tasks: Vec<Task>,
    objs: Vec<ObjState>,
    /// race-detector cells of tracked elements (by index), see elem.rs
    pub rng: Rng,
    strategy: Strategy,
    stale: (usize, usize),
    weak: (usize, usize),
    spurious: (usize, usize),
    jump: (usize, usize),
    pub seq: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub clock: u64,
    sc_fence: Vc,
    sc_write: Vc,
    pub stats: Stats,
    pub sched_hash: u64,
    solo: Option<usize>,
    pub trace: bool,
    pub multi: bool,
    pause_until: Vec<(usize, u64)>,
    /// (task, object it is about to access, until when)
    windows: Vec<(usize, usize, u64)>,
    starve: u32,
    spin_locks: Vec<(usize, usize)>,
    pub quiesce: fn(&mut Sched) -> Option<Violation>,
}

struct Global(UnsafeCell<Option<Sched>>);
unsafe impl Sync for Global {}
static GLOBAL: Global = Global(UnsafeCell::new(None));
static INSTALLED: AtomicBool = AtomicBool::new(false);
pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

/// The scheduler state. Single OS thread; callers never keep the reference
/// across a scheduling point.
#[inline]
pub fn st() -> &'static mut Sched {
    unsafe { (*GLOBAL.0.get()).as_mut().unwrap() }
}

pub fn cur() -> &'static mut Task {
    let s = st();
    &mut s.tasks[s.cur]
}

/// True while executing inside a fiber under control.
#[inline]
fn managed() -> bool {
    unsafe { (*GLOBAL.0.get()).as_ref().is_some_and(|s| s.active) }
}

// ---- allocation guard (see main.rs for the allocator) ----
pub static NOALLOC: AtomicBool = AtomicBool::new(false);
pub static ALLOC_BAD: AtomicU64 = AtomicU64::new(0);

/// Suspends the no-allocation check for the harness's own code.
pub struct Quiet(bool);
impl Quiet {
    #[inline]
    pub fn new() -> Self {
        Quiet(NOALLOC.swap(false, Relaxed))
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            NOALLOC.store(true, Relaxed);
        }
    }
}

pub struct NoAlloc(bool);
impl NoAlloc {
    pub fn new() -> Self {
        if managed() {
            cur().noalloc = true;
        }
        NoAlloc(NOALLOC.swap(true, Relaxed))
    }
}
impl Drop for NoAlloc {
    fn drop(&mut self) {
        if managed() {
            cur().noalloc = self.0;
        }
        NOALLOC.store(self.0, Relaxed);
        let n = ALLOC_BAD.swap(0, Relaxed);
        if n != 0 && !std::thread::panicking() {
            judge("alloc", format!("an operation allocated heap memory ({n} bytes)"));
        }
    }
}

// ---- stacks ----
struct Stacks(UnsafeCell<Vec<DefaultStack>>);
unsafe impl Sync for Stacks {}
static STACKS: Stacks = Stacks(UnsafeCell::new(Vec::new()));

type Fiber = Coroutine<(), (), (), DefaultStack>;

pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    pub stale: (usize, usize),
    pub weak: (usize, usize),
    pub spurious: (usize, usize),
    pub jump: (usize, usize),
    pub max_steps: u64,
    pub trace: bool,
    pub quiesce: fn(&mut Sched) -> Option<Violation>,
}

impl Task {
    fn new() -> Self {
        Task {
            st: St::Runnable,
            deadline: None,
            token: false,
            token_clock: [0; MAXT],
            woken: false,
            clock: [0; MAXT],
            acq_pending: [0; MAXT],
            rel_fence: [0; MAXT],
            sc_fence_seen: [0; MAXT],
            sc_write_seen: [0; MAXT],
            fresh: 0,
            prio: 0,
            yielded: false,
            paused: false,
            steps: 0,
            lag: 0,
            spurious_left: 6,
            noalloc: false,
            solo_bound: None,
            now_calls: 0,
            waiting_as: WaitingAs::Nothing,
            dormant: 0,
            yielder: std::ptr::null(),
            parks: 0,
        }
    }
}

/// Starts a run: after this the calling code is the managed task 0.
pub fn begin(cfg: Config) {
    if !INSTALLED.swap(true, SeqCst) {
        thingbuf::monitor::install(&Mon);
    }
    let g = unsafe { &mut *GLOBAL.0.get() };
    let epoch = g.as_ref().map_or(1, |s| s.epoch + 1);
    let mut main = Task::new();
    main.clock[0] = 1;
    *g = Some(Sched {
        epoch,
        active: true,
        cur: 0,
        next: None,
        tasks: vec![main],
        objs: Vec::with_capacity(64),
        rng: Rng::new(mix(cfg.seed ^ 0x5c4ed)),
        strategy: cfg.strategy,
        stale: cfg.stale,
        weak: cfg.weak,
        spurious: cfg.spurious,
        jump: cfg.jump,
        seq: 1,
        steps: 0,
        max_steps: cfg.max_steps,
        clock: 1_000_000_000,
        sc_fence: [0; MAXT],
        sc_write: [0; MAXT],
        stats: Stats::default(),
        sched_hash: 0xcbf29ce484222325,
        solo: None,
        trace: cfg.trace,
        multi: false,
        pause_until: Vec::new(),
        windows: Vec::new(),
        starve: 0,
        spin_locks: Vec::with_capacity(16),
        quiesce: cfg.quiesce,
    });
}

/// Ends a run (statistics stay readable through `st()`).
pub fn end() {
    st().active = false;
}

/// Reports a violation and ends the process (its state can no longer be
/// trusted); see `main.rs`.
pub fn fail(kind: &'static str, msg: String) -> ! {
    NOALLOC.store(false, Relaxed);
    crate::report(Violation { kind, msg })
}

/// The kinds of violations that end a run (`None`: all).
pub static HARD: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// Reports a violation after which the run can go on: when its kind belongs to
/// another property, it is only counted, so that it does not hide what follows.
#[cold]
pub fn judge(kind: &'static str, msg: String) {
    if HARD.get().is_none_or(|h| h.iter().any(|k| k == kind)) {
        fail(kind, msg);
    }
    let _q = Quiet::new();
    crate::count_other(kind);
}

/// Runs the tasks (as fibers 1..=n) to completion.
pub fn run_tasks(bodies: Vec<Box<dyn FnOnce()>>) {
    let n = bodies.len();
    assert!(n < MAXT);
    {
        let s = st();
        s.tasks.truncate(1);
        let parent = s.tasks[0].clock;
        for i in 0..n {
            let mut t = Task::new();
            t.clock = parent;
            t.clock[i + 1] = 1;
            t.prio = 1000 + s.rng.next() % 1000;
            s.tasks.push(t);
        }
        s.tasks[0].st = St::Blocked(Block::Sleep);
        s.tasks[0].deadline = None;
        s.multi = true;
    }
    let stacks = unsafe { &mut *STACKS.0.get() };
    let mut fibers: Vec<Option<Fiber>> = vec![None];
    for (i, body) in bodies.into_iter().enumerate() {
        let stack = stacks
            .pop()
            .unwrap_or_else(|| DefaultStack::new(STACK_SIZE).unwrap());
        fibers.push(Some(Coroutine::with_stack(stack, move |y, ()| {
            st().tasks[i + 1].yielder = y;
            body();
        })));
    }
    loop {
        let s = st();
        let next = match s.next.take() {
            Some(t) => Some(t),
            None => s.choose(None),
        };
        let Some(t) = next else {
            if s.tasks[1..].iter().all(|t| t.st == St::Done) {
                break;
            }
            s.idle();
            continue;
        };
        s.cur = t;
        s.tasks[t].yielded = false;
        let f = fibers[t].as_mut().unwrap();
        let res = f.resume(());
        NOALLOC.store(false, Relaxed);
        let s = st();
        if let CoroutineResult::Return(()) = res {
            s.tasks[t].st = St::Done;
            s.event(t, 99, 0);
            if s.solo == Some(t) {
                s.solo = None;
            }
            let f = fibers[t].take().unwrap();
            stacks.push(f.into_stack());
        }
    }
    let s = st();
    s.cur = 0;
    s.multi = false;
    s.solo = None;
    for i in 1..=n {
        let c = s.tasks[i].clock;
        join(&mut s.tasks[0].clock, &c);
    }
    s.tasks[0].st = St::Runnable;
    s.tasks[0].clock[0] += 1;
}

#[cfg(not(feature = "asan"))]
const STACK_SIZE: usize = 256 * 1024;
#[cfg(feature = "asan")]
const STACK_SIZE: usize = 1024 * 1024;

impl Sched {
    #[inline]
    fn event(&mut self, t: usize, a: u64, b: u64) {
        self.sched_hash = (self.sched_hash ^ (t as u64 | a << 8 | b << 16)).wrapping_mul(0x100000001b3);
    }

    fn id(&mut self, obj: &Obj) -> usize {
        let raw = obj.0.load(Relaxed);
        if raw >> 32 == self.epoch as u64 && (raw as u32 as usize) < self.objs.len() {
            let id = raw as u32 as usize;
            if self.objs[id].destroyed {
                fail("race", format!("use after free inside the library: obj{id} is used after it was destroyed"));
            }
            return id;
        }
        let _q = Quiet::new();
        let id = self.objs.len();
        self.objs.push(ObjState::default());
        obj.0.store((self.epoch as u64) << 32 | id as u64, Relaxed);
        id
    }

    fn others_hold_lock(&self) -> bool {
        let me = self.cur;
        self.objs.iter().any(|o| matches!(o.locked_by, Some(k) if usize::from(k) != me))
            || self.spin_locks.iter().any(|x| x.1 != me)
    }

    /// Picks the next task to run. `cur`: the running task, if it can go on.
    fn choose(&mut self, cur: Option<usize>) -> Option<usize> {
        if let Some(t) = self.solo {
            if self.tasks[t].st == St::Runnable {
                return Some(t);
            }
            self.solo = None;
        }
        let mut cand = [0usize; MAXT];
        let mut n = 0;
        for pass in 0..3 {
            for (i, t) in self.tasks.iter().enumerate().skip(1) {
                if t.st == St::Runnable && (pass > 0 || !t.yielded) && (pass > 1 || !t.paused) {
                    cand[n] = i;
                    n += 1;
                }
            }
            if n > 0 {
                if pass > 0 {
                    for t in &mut self.tasks {
                        t.yielded = false;
                    }
                    // everybody who is not paused only waits for others
                    self.starve += 1;
                    if self.starve > 40 {
                        self.starve = 0;
                        for t in &mut self.tasks {
                            t.paused = false;
                        }
                        self.pause_until.clear();
                    self.windows.clear();
                    }
                }
                if pass > 1 {
                    for t in &mut self.tasks {
                        t.paused = false;
                    }
                    self.pause_until.clear();
                    self.windows.clear();
                }
                break;
            }
        }
        if n == 0 {
            return None;
        }
        let cur_ok = cur.filter(|c| cand[..n].contains(c));
        match &self.strategy {
            Strategy::Pct { .. } => {
                let best = *cand[..n].iter().max_by_key(|&&i| self.tasks[i].prio).unwrap();
                Some(best)
            }
            Strategy::Random { num, den }
            | Strategy::Pause { num, den, .. }
            | Strategy::Window { num, den, .. }
            | Strategy::Solo { num, den } => {
                let (num, den) = (*num, *den);
                if let Some(c) = cur_ok {
                    if n == 1 || !self.rng.chance(num, den) {
                        return Some(c);
                    }
                }
                let k = self.rng.below(n);
                Some(cand[k])
            }
        }
    }

    /// Nobody can run: check, and advance time if somebody waits for that.
    fn idle(&mut self) {
        self.stats.quiescent += 1;
        if let Some(v) = (self.quiesce)(self) {
            fail(v.kind, v.msg);
        }
        let next = self
            .tasks
            .iter()
            .skip(1)
            .filter(|t| matches!(t.st, St::Blocked(_)))
            .filter_map(|t| t.deadline)
            .min();
        match next {
            Some(d) if d < u64::MAX => {
                self.advance(d.max(self.clock));
            }
            _ => {
                let who: Vec<String> = self
                    .tasks
                    .iter()
                    .enumerate()
                    .skip(1)
                    .filter(|(_, t)| t.st != St::Done)
                    .map(|(i, t)| format!("task {i}: {:?} as {:?}", t.st, t.waiting_as))
                    .collect();
                fail(
                    "deadlock",
                    format!("all remaining tasks are asleep for ever: {}", who.join("; ")),
                );
            }
        }
    }

    fn advance(&mut self, to: u64) {
        let old = self.clock;
        if to <= old && !self.tasks.iter().any(|t| t.deadline.is_some_and(|d| d <= to)) {
            return;
        }
        self.stats.clock_jumps += 1;
        self.clock = to.max(old);
        let now = self.clock;
        for t in self.tasks.iter_mut().skip(1) {
            match (t.st, t.deadline) {
                (St::Blocked(_), Some(d)) => {
                    if d <= now {
                        t.lag += now - d.max(old);
                        t.st = St::Runnable;
                        t.deadline = None;
                    }
                }
                (St::Blocked(Block::Lock(_)), None) | (St::Runnable, _) => t.lag += now - old,
                _ => {}
            }
        }
    }

    /// The scheduling point proper. May switch fibers.
    fn reschedule(&mut self, can_continue: bool) {
        let me = self.cur;
        let next = self.choose(if can_continue { Some(me) } else { None });
        if next == Some(me) {
            self.tasks[me].yielded = false;
            return;
        }
        self.stats.switches += 1;
        self.next = next;
        let y = self.tasks[me].yielder;
        unsafe { (*y).suspend(()) };
        NOALLOC.store(false, Relaxed); // still inside a hook
    }

    /// Common part of every event: counts, injects, maybe switches.
    fn at_point(&mut self, obj: usize, kind: u64) {
        self.seq += 1;
        self.steps += 1;
        self.stats.points += 1;
        let me = self.cur;
        let step = {
            let t = &mut self.tasks[me];
            t.steps += 1;
            t.steps
        };
        self.event(me, kind, obj as u64);
        if !self.multi {
            if self.steps > self.max_steps {
                self.overrun();
            }
            return;
        }
        if self.trace {
            eprintln!("  [{}] t{} {:?} obj{}", self.seq, me, kind_name(kind), obj);
        }
        if self.steps > self.max_steps {
            self.overrun();
        }
        if let (Some(b), Some(s)) = (self.tasks[me].solo_bound, self.solo) {
            if s == me && step > b {
                fail(
                    "solo-bound",
                    format!("task {me}: a non-blocking operation running alone did not finish within {SOLO_STEPS} of its own steps"),
                );
            }
        }
        if std::thread::panicking() {
            return; // unwinding is one step
        }
        match &mut self.strategy {
            Strategy::Pct { points } => {
                if points.contains(&self.steps) {
                    self.tasks[me].prio = self.rng.next() % 900;
                }
            }
            Strategy::Pause { at, .. } => {
                if let Some(i) = at.iter().position(|a| a.0 == me && a.1 == step) {
                    let len = at[i].2;
                    self.tasks[me].paused = true;
                    self.pause_until.push((me, self.steps + len));
                }
                if !self.pause_until.is_empty() {
                    let now = self.steps;
                    let tasks = &mut self.tasks;
                    self.pause_until.retain(|&(t, until)| {
                        if until <= now {
                            tasks[t].paused = false;
                        }
                        until > now
                    });
                }
            }
            Strategy::Window { rate, .. } => {
                let rate = match kind {
                    1 | 2 => *rate,
                    0 | 5 => *rate * 3,
                    _ => 0,
                };
                if rate > 0 && self.rng.chance(1, rate) {
                    let len = [40u64, 150, 600][self.rng.below(3)];
                    self.tasks[me].paused = true;
                    self.windows.push((me, obj, self.steps + len));
                    self.stats.windows += 1;
                }
                if !self.windows.is_empty() {
                    let now = self.steps;
                    let tasks = &mut self.tasks;
                    self.windows.retain(|&(t, _, until)| {
                        if until <= now {
                            tasks[t].paused = false;
                        }
                        until > now
                    });
                }
            }
            Strategy::Solo { .. } => {
                if self.solo.is_none()
                    && self.tasks[me].solo_bound.is_some()
                    && self.rng.chance(1, 6)
                {
                    self.solo = Some(me);
                    self.tasks[me].solo_bound = Some(step + SOLO_STEPS);
                    self.stats.solo_ops += 1;
                }
            }
            _ => {}
        }
        if self.jump.0 > 0 && self.rng.chance(self.jump.0, self.jump.1) {
            let d = self
                .tasks
                .iter()
                .filter(|t| matches!(t.st, St::Blocked(_)))
                .filter_map(|t| t.deadline)
                .filter(|d| *d < u64::MAX)
                .min();
            let to = match d {
                Some(d) if self.rng.chance(3, 4) => d,
                _ => self.clock + self.rng.below(3_000) as u64,
            };
            self.advance(to);
        }
        if self.spurious.0 > 0 && self.rng.chance(self.spurious.0, self.spurious.1) {
            // wake some parked task spuriously
            let n = self.tasks.len();
            let k = 1 + self.rng.below(n - 1);
            let t = &mut self.tasks[k];
            if t.spurious_left > 0
                && (t.st == St::Blocked(Block::Park) || t.st == St::Blocked(Block::Wake))
            {
                t.spurious_left -= 1;
                t.st = St::Runnable;
                t.deadline = None;
                self.stats.spurious += 1;
            }
        }
        self.reschedule(true);
    }

    fn overrun(&mut self) {
        let max = self.max_steps;
        self.max_steps = u64::MAX;
        fail(
            "livelock",
            format!(
                "the run did not finish within {max} steps; task {} was running, states {:?}",
                self.cur,
                self.tasks.iter().skip(1).map(|t| (t.st, t.steps)).collect::<Vec<_>>()
            ),
        );
    }

    #[inline]
    fn tick(&mut self) -> u32 {
        let me = self.cur;
        let c = &mut self.tasks[me].clock[me];
        *c += 1;
        *c
    }

    fn init_hist(&mut self, id: usize, val: u64) {
        let o = &mut self.objs[id];
        let stale = match o.hist.last() {
            None => true,
            Some(r) => r.val != val,
        };
        if stale {
            // initial value, or modified through `get_mut`
            let me = self.cur;
            let ts = if o.hist.is_empty() { 0 } else { self.tasks[me].clock[me] };
            let rel = if o.hist.is_empty() { [0; MAXT] } else { self.tasks[me].clock };
            o.hist.clear();
            o.hist.push(Rec {
                val,
                tid: me as u8,
                ts,
                sc: false,
                rel,
                loads: [0; MAXT],
            });
        }
    }

    fn sync_read(&mut self, order: Ordering, rel: &Vc) {
        let me = self.cur;
        let t = &mut self.tasks[me];
        if matches!(order, Acquire | AcqRel | SeqCst) {
            join(&mut t.clock, rel);
        } else {
            join(&mut t.acq_pending, rel);
        }
    }

    fn push_rec(&mut self, id: usize, order: Ordering, val: u64, base: Option<Vc>) {
        let ts = self.tick();
        let me = self.cur;
        self.objs[id].touched[me] = ts;
        if !self.windows.is_empty() {
            let mut i = 0;
            while i < self.windows.len() {
                let (t, o, _) = self.windows[i];
                if o == id && t != me && self.rng.chance(2, 3) {
                    self.tasks[t].paused = false;
                    self.windows.swap_remove(i);
                    self.stats.windows_hit += 1;
                } else {
                    i += 1;
                }
            }
        }
        let t = &self.tasks[me];
        let mut rel = if matches!(order, Release | AcqRel | SeqCst) {
            t.clock
        } else {
            t.rel_fence
        };
        if let Some(b) = base {
            join(&mut rel, &b);
        }
        let sc = order == SeqCst;
        if sc {
            self.sc_write[me] = ts;
        }
        let h = &mut self.objs[id].hist;
        if h.len() >= 8 {
            h.remove(0);
        }
        h.push(Rec {
            val,
            tid: me as u8,
            ts,
            sc,
            rel,
            loads: [0; MAXT],
        });
    }

    fn do_load(&mut self, id: usize, order: Ordering, curv: u64) -> u64 {
        let _q = Quiet::new();
        self.init_hist(id, curv);
        self.tick();
        let me = self.cur;
        let n = self.objs[id].hist.len();
        let mut pick = n - 1;
        if order != SeqCst
            && self.multi
            && n > 1
            && self.stale.0 > 0
            && self.tasks[me].fresh == 0
            && self.rng.chance(self.stale.0, self.stale.1)
        {
            let t = &self.tasks[me];
            let mut lo = n - 1;
            loop {
                let r = &self.objs[id].hist[lo];
                // may anything older than `r` still be read?
                let w = r.tid as usize;
                let stop = r.ts <= t.clock[w]
                    || (0..MAXT).any(|i| r.loads[i] != 0 && r.loads[i] <= t.clock[i])
                    || (r.sc && r.ts <= t.sc_write_seen[w])
                    || r.ts <= t.sc_fence_seen[w];
                if stop || lo == 0 {
                    break;
                }
                lo -= 1;
            }
            if lo < n - 1 {
                pick = lo + self.rng.below(n - lo);
                if pick != n - 1 {
                    self.stats.stale += 1;
                }
            }
        }
        if self.tasks[me].fresh > 0 {
            self.tasks[me].fresh -= 1;
        }
        let now = self.tasks[me].clock[me];
        self.objs[id].touched[me] = now;
        let r = &mut self.objs[id].hist[pick];
        if r.loads[me] == 0 {
            r.loads[me] = now;
        }
        let (val, rel) = (r.val, r.rel);
        self.sync_read(order, &rel);
        val
    }

    fn race(&mut self, id: usize, write: bool) -> Option<String> {
        let me = self.cur;
        self.stats.race_checks += 1;
        self.tick();
        let c = self.tasks[me].clock;
        let o = &mut self.objs[id];
        let mut bad = None;
        if o.w_ts != 0 && o.w_ts > c[o.w_tid as usize] {
            bad = Some((o.w_tid, "write"));
        }
        if write {
            for i in 0..MAXT {
                if o.reads[i] > c[i] {
                    bad = Some((i as u8, "read"));
                }
            }
            o.w_tid = me as u8;
            o.w_ts = c[me];
            o.reads = [0; MAXT];
        } else {
            o.reads[me] = c[me];
        }
        bad.map(|(t, k)| {
            format!(
                "{} by task {me} is not ordered after the {k} by task {t}",
                if write { "write" } else { "read" }
            )
        })
    }
}

pub const SOLO_STEPS: u64 = 600;

fn kind_name(k: u64) -> &'static str {
    ["load", "store", "rmw", "fence", "cell", "lock", "unlock", "unpark", "arc", "spin", "yield", "park", "harness"]
        .get(k as usize)
        .copied()
        .unwrap_or("?")
}

struct Mon;

impl Monitor for Mon {
    fn managed(&self) -> bool {
        managed()
    }

    fn point(&self, obj: &Obj, point: Point) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.at_point(id, point as u64);
    }

    fn load(&self, obj: &Obj, order: Ordering, curv: u64) -> u64 {
        let s = st();
        let id = s.id(obj);
        s.do_load(id, order, curv)
    }

    fn store(&self, obj: &Obj, order: Ordering, old: u64, new: u64) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.init_hist(id, old);
        s.push_rec(id, order, new, None);
    }

    fn rmw(&self, obj: &Obj, order: Ordering, old: u64, new: u64) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.init_hist(id, old);
        let me = s.cur;
        let now = s.tasks[me].clock[me];
        let last = s.objs[id].hist.last_mut().unwrap();
        if last.loads[me] == 0 {
            last.loads[me] = now;
        }
        let rel = last.rel;
        s.sync_read(order, &rel);
        s.push_rec(id, order, new, Some(rel));
    }

    fn cas_failed(&self, obj: &Obj, order: Ordering, curv: u64) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.init_hist(id, curv);
        s.tick();
        let me = s.cur;
        let now = s.tasks[me].clock[me];
        s.objs[id].touched[me] = now;
        let last = s.objs[id].hist.last_mut().unwrap();
        if last.loads[me] == 0 {
            last.loads[me] = now;
        }
        let rel = last.rel;
        s.sync_read(order, &rel);
    }

    fn fail_weak(&self, _obj: &Obj) -> bool {
        let s = st();
        if s.multi && s.weak.0 > 0 && s.rng.chance(s.weak.0, s.weak.1) {
            s.stats.weak_fail += 1;
            return true;
        }
        false
    }

    fn fence(&self, order: Ordering) {
        let s = st();
        let ts = s.tick();
        let me = s.cur;
        let (scf, scw) = (s.sc_fence, s.sc_write);
        let t = &mut s.tasks[me];
        if matches!(order, Acquire | AcqRel | SeqCst) {
            let p = t.acq_pending;
            join(&mut t.clock, &p);
        }
        if matches!(order, Release | AcqRel | SeqCst) {
            t.rel_fence = t.clock;
        }
        if order == SeqCst {
            join(&mut t.sc_fence_seen, &scf);
            join(&mut t.sc_write_seen, &scw);
            s.sc_fence[me] = ts;
        }
    }

    fn cell(&self, obj: &Obj, write: bool) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        if let Some(msg) = s.race(id, write) {
            judge("race", format!("data race inside the library: {msg} (cell obj{id})"));
        }
    }

    fn destroyed(&self, obj: &Obj) {
        let _q = Quiet::new();
        let s = st();
        if obj.0.load(Relaxed) >> 32 != s.epoch as u64 {
            return;
        }
        let id = s.id(obj);
        let mut bad = s.race(id, true);
        let c = s.tasks[s.cur].clock;
        for (i, t) in s.objs[id].touched.iter().enumerate() {
            if *t > c[i] {
                bad = Some(format!("destroyed by task {}, not ordered after its use by task {i}", s.cur));
            }
        }
        s.objs[id].destroyed = true;
        s.stats.destroyed += 1;
        if let Some(msg) = bad {
            judge("race", format!("memory given up too early inside the library: {msg} (obj{id})"));
        }
    }

    fn lock_contended(&self, obj: &Obj) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj) as u32;
        let me = s.cur;
        s.stats.lock_waits += 1;
        if !s.multi {
            fail("deadlock", "a thread locks a lock that it already holds".into());
        }
        if s.objs[id as usize].locked_by == Some(me as u8) {
            fail("deadlock", format!("task {me} locks a lock that it already holds"));
        }
        if std::thread::panicking() {
            // cannot switch while unwinding: nothing sensible can be done
            crate::inconclusive("lock contention while unwinding");
        }
        s.tasks[me].st = St::Blocked(Block::Lock(id));
        s.reschedule(false);
    }

    fn locked(&self, obj: &Obj) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.tick();
        let me = s.cur;
        let rel = s.objs[id].rel;
        join(&mut s.tasks[me].clock, &rel);
        s.objs[id].locked_by = Some(me as u8);
    }

    fn unlocked(&self, obj: &Obj) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.tick();
        let me = s.cur;
        s.objs[id].rel = s.tasks[me].clock;
        s.objs[id].locked_by = None;
        for t in &mut s.tasks {
            if t.st == St::Blocked(Block::Lock(id as u32)) {
                t.st = St::Runnable;
            }
        }
    }

    fn spin_lock(&self, addr: usize, held: bool) {
        let _q = Quiet::new();
        let s = st();
        let me = s.cur;
        if held {
            s.spin_locks.push((addr, me));
        } else {
            s.spin_locks.retain(|x| *x != (addr, me));
        }
    }

    fn arc_drop(&self, obj: &Obj, last: bool) {
        let _q = Quiet::new();
        let s = st();
        let id = s.id(obj);
        s.tick();
        let me = s.cur;
        let c = s.tasks[me].clock;
        join(&mut s.objs[id].rel, &c);
        if last {
            let r = s.objs[id].rel;
            join(&mut s.tasks[me].clock, &r);
        }
    }

    fn spin(&self) {
        self.yield_now()
    }

    fn yield_now(&self) {
        let _q = Quiet::new();
        let s = st();
        s.seq += 1;
        s.steps += 1;
        s.stats.points += 1;
        let me = s.cur;
        let step = {
            let t = &mut s.tasks[me];
            t.fresh = 3;
            t.steps += 1;
            t.yielded = true;
            t.steps
        };
        if s.steps > s.max_steps {
            s.overrun();
        }
        if !s.multi || std::thread::panicking() {
            s.tasks[me].yielded = false;
            return;
        }
        if s.solo == Some(me) && s.others_hold_lock() {
            // the internal lock is the one thing that may be waited for
            s.solo = None;
        }
        if let (Some(b), Some(so)) = (s.tasks[me].solo_bound, s.solo) {
            if so == me && step > b {
                fail(
                    "solo-bound",
                    format!("task {me}: a non-blocking operation running alone did not finish within {SOLO_STEPS} of its own steps"),
                );
            }
        }
        if matches!(s.strategy, Strategy::Pct { .. }) {
            let lowest = s.tasks.iter().map(|t| t.prio).min().unwrap();
            s.tasks[me].prio = lowest.saturating_sub(1);
            if lowest == 0 {
                for t in &mut s.tasks {
                    t.prio += 1000;
                }
                s.tasks[me].prio = 1;
            }
        }
        s.event(me, 9, 0);
        s.reschedule(true);
    }

    fn current(&self) -> u64 {
        let s = st();
        (s.epoch as u64) << 32 | s.cur as u64
    }

    fn park(&self, timeout: Option<Duration>) {
        let _q = Quiet::new();
        let s = st();
        let me = s.cur;
        let id = me;
        if !s.multi {
            if s.tasks[0].token {
                s.tasks[0].token = false;
                return;
            }
            match timeout {
                Some(t) => {
                    s.clock += t.as_nanos().min(1 << 60) as u64;
                    s.stats.clock_jumps += 1;
                }
                None => {
                    fail("deadlock", "the only thread went to sleep for ever".into());
                }
            }
            return;
        }
        s.at_point(1000 + id, 11);
        let s = st();
        s.stats.parks += 1;
        s.tasks[me].parks += 1;
        if !s.tasks[me].token {
            if std::thread::panicking() {
                crate::inconclusive("parking while unwinding");
            }
            if s.trace {
                eprintln!("  [{}] t{} parks {:?} (clock {})", s.seq, me, timeout, s.clock);
            }
            let t = &mut s.tasks[me];
            t.st = St::Blocked(Block::Park);
            t.deadline = timeout.map(|d| s.clock.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64));
            s.reschedule(false);
        }
        let s = st();
        let t = &mut s.tasks[me];
        t.deadline = None;
        if t.token {
            t.token = false;
            let c = t.token_clock;
            join(&mut t.clock, &c);
        }
    }

    fn unpark(&self, thread: u64) {
        let _q = Quiet::new();
        let s = st();
        if (thread >> 32) as u32 != s.epoch {
            return;
        }
        s.tick();
        s.stats.unparks += 1;
        let k = thread as u32 as usize;
        let c = s.tasks[s.cur].clock;
        if s.trace {
            eprintln!("  [{}] t{} unparks t{}", s.seq, s.cur, k);
        }
        let t = &mut s.tasks[k];
        join(&mut t.token_clock, &c);
        t.token = true;
        if t.st == St::Blocked(Block::Park) {
            t.st = St::Runnable;
            t.deadline = None;
        }
    }

    fn now(&self) -> Duration {
        let s = st();
        s.tasks[s.cur].now_calls += 1;
        Duration::from_nanos(s.clock)
    }
}

// ---- services for the harness's own code ----

/// A scheduling point in harness code.
pub fn yield_point() {
    if !managed() {
        return;
    }
    let _q = Quiet::new();
    st().at_point(2000, 12);
}

/// Marks the current task as unable to make progress until others did.
pub fn pause_point() {
    if managed() {
        Mon.yield_now();
    }
}

/// Throws `Injected`. Fibers cannot be switched while one of them unwinds, so
/// this first waits until nobody holds a lock that the unwinding could need.
pub fn throw() -> ! {
    if managed() && st().multi && !std::thread::panicking() {
        while st().others_hold_lock() {
            solo_end();
            pause_point();
        }
    }
    std::panic::panic_any(crate::elem::Injected)
}

/// Advances the event sequence number (orders harness-level events).
pub fn tick() -> u64 {
    let s = st();
    s.seq += 1;
    s.seq
}

/// Sleeps in virtual time (a random schedule may end it early).
pub fn sleep(nanos: u64) {
    let _q = Quiet::new();
    let s = st();
    if !s.multi {
        s.clock += nanos;
        return;
    }
    let me = s.cur;
    s.tasks[me].st = St::Blocked(Block::Sleep);
    s.tasks[me].deadline = Some(s.clock + nanos);
    s.reschedule(false);
}

/// Executor: waits until `wake_task` was called for this task (or spuriously).
pub fn wait_woken() {
    let _q = Quiet::new();
    let s = st();
    let me = s.cur;
    if !s.multi {
        if !s.tasks[0].woken {
            fail("deadlock", "the only task is pending and was not woken".into());
        }
        s.tasks[0].woken = false;
        return;
    }
    s.at_point(1000 + me, 11);
    let s = st();
    s.stats.parks += 1;
    s.tasks[me].parks += 1;
    if !s.tasks[me].woken {
        if std::thread::panicking() {
            crate::inconclusive("waiting while unwinding");
        }
        s.tasks[me].st = St::Blocked(Block::Wake);
        s.tasks[me].deadline = None;
        s.reschedule(false);
    }
    let s = st();
    let t = &mut s.tasks[me];
    t.woken = false;
    let c = t.token_clock;
    join(&mut t.clock, &c);
}

pub fn wake_task(k: usize) {
    let _q = Quiet::new();
    let s = st();
    s.tick();
    s.stats.unparks += 1;
    let c = s.tasks[s.cur].clock;
    let Some(t) = s.tasks.get_mut(k) else { return };
    join(&mut t.token_clock, &c);
    t.woken = true;
    if t.st == St::Blocked(Block::Wake) {
        t.st = St::Runnable;
    }
}

/// Race-detector access to a harness-owned location.
pub fn access(obj: &Obj, write: bool, what: impl FnOnce() -> String) {
    if !managed() {
        return;
    }
    let _q = Quiet::new();
    let s = st();
    let id = s.id(obj);
    if let Some(msg) = s.race(id, write) {
        judge("elem-race", format!("data race on {}: {msg}", what()));
    }
}

/// Orders everything the tasks did so far before what the caller does next
/// (where the harness itself synchronizes them).
pub fn join_all() {
    let s = st();
    let me = s.cur;
    for i in 0..s.tasks.len() {
        let c = s.tasks[i].clock;
        join(&mut s.tasks[me].clock, &c);
    }
}

pub fn solo_begin() {
    let t = cur();
    t.solo_bound = Some(u64::MAX);
}

pub fn solo_end() {
    let s = st();
    let me = s.cur;
    s.tasks[me].solo_bound = None;
    if s.solo == Some(me) {
        s.solo = None;
    }
}
