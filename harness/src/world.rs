//! The behavioural oracles: what every operation was told, what it may have
//! been told, and what must hold whenever nobody can run.
use crate::api::{Flavor, RErr, SErr};
use crate::elem::Elem;
use crate::sched::{self, fail, judge, st, Block, Quiet, Sched, St, Violation, WaitingAs};
use std::cell::UnsafeCell;
use std::task::{RawWaker, RawWakerVTable, Waker};
use thingbuf::monitor::Obj;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MSt {
    /// the operation is running
    Pending,
    /// a reference is held
    Open,
    /// the reference is being released
    Releasing,
    Sent,
    Failed,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub task: usize,
    /// when the operation that may have claimed the place was called
    pub call: u64,
    /// when the place was certainly claimed
    pub acq: u64,
    pub done: u64,
    pub st: MSt,
    pub recv_call: u64,
    pub recv_ret: u64,
    /// never written: the serial of the element
    pub blank: Option<u32>,
    /// consumed by an operation that panicked
    pub void: bool,
    pub done_clock: u64,
}

/// Bounds observed during an operation.
struct Infl {
    ticket: u64,
    pop: bool,
    min_lb: i64,
    max_ub: i64,
    max_occ: i64,
    readers: bool,
    others: bool,
    /// message that was available at the call
    avail: Option<usize>,
    /// (sequence) when it was called
    call: u64,
    closed_before: bool,
    tx_closed_before: bool,
}

pub struct Wk {
    task: usize,
    slot: usize,
    count: i32,
    obj: Obj,
}

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[derive(Default, Clone, Debug)]
        pub struct Counters { $(pub $n: u64),* }
        impl Counters {
            pub fn add(&mut self, o: &Counters) { $(self.$n += o.$n;)* }
            pub fn list(&self) -> Vec<(&'static str, u64)> { vec![$((stringify!($n), self.$n)),*] }
        }
    };
}
counters!(
    ops, sent, received, full, empty, closed_send, closed_recv, timeouts, lens, refs, held_across, cancels,
    cancels_notified, cancels_linked, repolls, wakes, stale_wakes, unwinds, leaks, faults, blanks, clones,
    rx_dropped_early, drained, laps, splits, refused_splits, checks, is_closed_calls, slept_rx, slept_tx, unjudged,
    reentrant, destroyed_full, wedged, created, recycled, waker_panics, helpers, migrations, joined
);

pub struct World {
    pub flavor: Flavor,
    pub cap: usize,
    /// no stale reads in this run: Full/Empty/Closed reports can be judged
    pub honest: bool,
    /// references were leaked or a constructor panicked: progress is not promised
    pub wedged: bool,
    pub msgs: Vec<Msg>,
    infl: Vec<Infl>,
    p_begun: i64,
    p_acq: i64,
    q_begun: i64,
    q_claimed: i64,
    q_released: i64,
    pub tx_live: i32,
    tx_dropping: i32,
    /// (sequence, clock)
    pub tx_last_done: Option<(u64, u64)>,
    pub rx_begin: Option<u64>,
    pub rx_done: Option<(u64, u64)>,
    wk: Vec<Wk>,
    latest: Vec<usize>,
    slot_woken: Vec<bool>,
    pub ev: Counters,
    next_ticket: u64,
    pub reentrant: Option<fn()>,
    /// tasks whose next waker clone panics, and those whose clone did (bits)
    pub bomb: u64,
    pub bombed: u64,
    /// how often a waker may still call back into the channel
    pub callbacks: u32,
    /// tasks inside such a call (bits)
    pub calling: u64,
    /// the waiting send that such calls started and have not given up yet
    pub spare_slot: Option<usize>,
    /// several tasks receive
    pub multi_rx: bool,
    /// they also register for wakeups: who gets them is not specified
    pub rival_rx: bool,
}

struct Global(UnsafeCell<Option<World>>);
unsafe impl Sync for Global {}
static WORLD: Global = Global(UnsafeCell::new(None));

pub fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().unwrap() }
}

pub fn reset(flavor: Flavor, cap: usize, honest: bool) {
    unsafe {
        *WORLD.0.get() = Some(World {
            flavor,
            cap,
            honest,
            wedged: false,
            msgs: Vec::new(),
            infl: Vec::new(),
            p_begun: 0,
            p_acq: 0,
            q_begun: 0,
            q_claimed: 0,
            q_released: 0,
            tx_live: 0,
            tx_dropping: 0,
            tx_last_done: None,
            rx_begin: None,
            rx_done: None,
            wk: Vec::new(),
            latest: Vec::new(),
            slot_woken: Vec::new(),
            ev: Counters::default(),
            next_ticket: 0,
            reentrant: None,
            bomb: 0,
            bombed: 0,
            callbacks: 12,
            calling: 0,
            spare_slot: None,
            multi_rx: false,
            rival_rx: false,
        })
    }
}

fn trace(s: impl FnOnce() -> String) {
    if st().trace {
        eprintln!("[{}] t{} (clock {}) {}", st().seq, st().cur, st().clock, s());
    }
}
pub fn note(s: impl FnOnce() -> String) {
    trace(s)
}

impl World {
    fn update(&mut self) {
        let lb = self.p_acq - self.q_begun;
        let ub = self.p_begun - self.q_claimed;
        let occ = self.p_begun - self.q_released;
        let readers = self.q_begun > self.q_released;
        let n = self.infl.len();
        for i in &mut self.infl {
            i.min_lb = i.min_lb.min(lb);
            i.max_ub = i.max_ub.max(ub);
            i.max_occ = i.max_occ.max(occ);
            i.readers |= readers && (!i.pop || self.q_begun - self.q_released > 1);
            i.others |= n > 1;
        }
    }

    fn begin(&mut self, pop: bool) -> u64 {
        let call = sched::tick();
        self.ev.ops += 1;
        self.next_ticket += 1;
        let ticket = self.next_ticket;
        if pop {
            self.q_begun += 1;
        }
        let avail = if pop { self.available() } else { None };
        let closed_before = self.rx_done.is_some();
        let tx_closed_before = self.tx_last_done.is_some();
        self.infl.push(Infl {
            ticket,
            pop,
            min_lb: i64::MAX,
            max_ub: i64::MIN,
            max_occ: i64::MIN,
            readers: false,
            others: false,
            avail,
            call,
            closed_before,
            tx_closed_before,
        });
        self.update();
        ticket
    }

    fn finish(&mut self, ticket: u64) -> Infl {
        let k = self.infl.iter().position(|i| i.ticket == ticket).unwrap();
        self.infl.swap_remove(k)
    }

    /// A completed message that certainly is next, or follows only messages
    /// that are being received.
    fn available(&self) -> Option<usize> {
        let mut best: Option<usize> = None;
        for (k, m) in self.msgs.iter().enumerate() {
            if m.st == MSt::Sent && m.recv_call == 0 && !m.void && best.is_none_or(|b| m.acq < self.msgs[b].acq) {
                best = Some(k);
            }
        }
        let b = best?;
        let acq = self.msgs[b].acq;
        let blocked = self.msgs.iter().any(|m| {
            // a sleeping sender has not claimed a place
            let asleep = m.st == MSt::Pending
                && matches!(st().tasks[m.task].st, St::Blocked(Block::Park) | St::Blocked(Block::Wake));
            matches!(m.st, MSt::Pending | MSt::Open | MSt::Releasing) && m.recv_call == 0 && m.call <= acq && !asleep
        });
        if blocked || self.wedged {
            None
        } else {
            Some(b)
        }
    }

    // ------------------------------------------------------------ pushes

    pub fn new_msg(&mut self) -> u64 {
        let _q = Quiet::new();
        self.msgs.push(Msg {
            task: st().cur,
            call: 0,
            acq: u64::MAX,
            done: u64::MAX,
            st: MSt::Failed,
            recv_call: 0,
            recv_ret: 0,
            blank: None,
            void: false,
            done_clock: 0,
        });
        self.msgs.len() as u64
    }

    pub fn m(&mut self, id: u64) -> &mut Msg {
        &mut self.msgs[id as usize - 1]
    }

    /// The operation (or one poll of it) that may claim a place for `id` begins.
    pub fn push_begin(&mut self, id: u64) -> u64 {
        let _q = Quiet::new();
        trace(|| format!("push/send of {id} begins"));
        self.p_begun += 1;
        let t = self.begin(false);
        let call = self.infl.last().unwrap().call;
        let m = self.m(id);
        m.st = MSt::Pending;
        m.call = call;
        t
    }

    /// Ended without claiming a place (`None`: still pending).
    pub fn push_none(&mut self, ticket: u64, id: u64, err: Option<SErr>, blocking: bool) {
        let _q = Quiet::new();
        sched::tick();
        trace(|| format!("push/send of {id}: {err:?}"));
        self.ev.checks += 1;
        let i = self.finish(ticket);
        self.p_begun -= 1;
        self.update();
        if self.m(id).recv_call != 0 {
            judge("phantom", format!("message {id} was received although its send failed ({err:?})"));
        }
        self.m(id).st = MSt::Failed;
        match err {
            Some(SErr::Full) => {
                self.ev.full += 1;
                if self.honest && i.closed_before {
                    judge("not-closed", "a send reports full, but the receiver had already been dropped".into());
                }
                if self.honest && !self.wedged && i.max_occ - 1 < self.cap as i64 && !i.readers {
                    judge(
                        "full-lie",
                        format!(
                            "a push/send reports full, but at most {} of {} places were taken at any time during it",
                            i.max_occ - 1,
                            self.cap
                        ),
                    );
                }
            }
            Some(SErr::Closed) => {
                self.ev.closed_send += 1;
                if self.rx_begin.is_none() {
                    judge("closed-lie", "a send reports closed, but the receiver exists".into());
                }
            }
            Some(SErr::Timeout) => {
                self.ev.timeouts += 1;
                if self.honest && i.closed_before {
                    judge("not-closed", "a send times out, but the receiver had already been dropped".into());
                }
            }
            None => {
                if self.honest && i.closed_before && blocking {
                    judge("not-closed", "a send waits, but the receiver had already been dropped".into());
                }
            }
        }
    }

    pub fn push_acq(&mut self, ticket: u64, id: u64, open: bool) {
        let _q = Quiet::new();
        let now = sched::tick();
        trace(|| format!("push/send of {id}: {}", if open { "reference" } else { "done" }));
        self.ev.checks += 1;
        let i = self.finish(ticket);
        self.p_acq += 1;
        let clock = st().clock;
        let m = self.m(id);
        m.acq = now;
        if open {
            m.st = MSt::Open;
        } else {
            m.st = MSt::Sent;
            m.done = now;
            m.done_clock = clock;
        }
        self.ev.sent += 1;
        self.update();
        if self.p_acq - self.q_begun > self.cap as i64 {
            judge(
                "overfull",
                format!("{} elements are held, the capacity is {}", self.p_acq - self.q_begun, self.cap),
            );
        }
        if i.closed_before && self.honest && !self.flavor.is_queue() {
            judge("not-closed", "a send succeeds although the receiver had already been dropped".into());
        }
    }

    pub fn push_release(&mut self, id: u64) {
        self.m(id).st = MSt::Releasing;
    }

    pub fn push_done(&mut self, id: u64) {
        let now = sched::tick();
        trace(|| format!("reference for {id} released"));
        let clock = st().clock;
        let m = self.m(id);
        m.st = MSt::Sent;
        m.done = now;
        m.done_clock = clock;
    }

    /// The push panicked inside a constructor or recycler.
    pub fn push_wedged(&mut self, ticket: u64, id: u64) {
        let _q = Quiet::new();
        self.finish(ticket);
        self.m(id).st = MSt::Failed;
        // the place stays taken
        self.p_acq += 0;
        self.wedged = true;
        self.ev.wedged += 1;
        self.update();
    }

    // ------------------------------------------------------------ pops

    pub fn pop_begin(&mut self) -> u64 {
        let _q = Quiet::new();
        trace(|| "pop/receive begins".into());
        self.begin(true)
    }

    pub fn pop_none(&mut self, ticket: u64, err: Option<RErr>) {
        let _q = Quiet::new();
        let now = sched::tick();
        trace(|| format!("pop/receive: {err:?}"));
        self.ev.checks += 1;
        let i = self.finish(ticket);
        self.q_begun -= 1;
        self.update();
        match err {
            Some(RErr::Closed) => {
                self.ev.closed_recv += 1;
                if self.tx_live > 0 {
                    judge("rx-closed-lie", format!("a receive reports closed, but {} senders exist", self.tx_live));
                }
                self.undelivered("a receive reports closed");
            }
            e => {
                match e {
                    Some(RErr::Timeout) => self.ev.timeouts += 1,
                    Some(RErr::Empty) => self.ev.empty += 1,
                    _ => {}
                }
                if !self.honest {
                    return;
                }
                if let Some(a) = i.avail {
                    let m = &self.msgs[a];
                    let other_pops = self.q_begun > self.q_claimed;
                    if (m.recv_call == 0 || m.recv_call > now) && !other_pops && !self.wedged {
                        judge(
                            "empty-lie",
                            format!("a pop/receive reports {e:?}, but message {} was available all the time", a + 1),
                        );
                    }
                }
                if i.tx_closed_before && !self.flavor.is_queue() && !self.wedged && self.rx_begin.is_none() {
                    judge(
                        "rx-not-closed",
                        format!("a receive reports {e:?}, but the last sender had already been dropped"),
                    );
                }
            }
        }
    }

    fn undelivered(&self, what: &str) {
        // (another receive may have taken it and not returned yet)
        if self.wedged || self.q_begun > self.q_claimed {
            return;
        }
        if let Some(k) = self.msgs.iter().position(|m| m.st == MSt::Sent && m.recv_call == 0 && !m.void) {
            judge("lost-at-close", format!("{what}, but message {} was not received yet", k + 1));
        }
    }

    /// Received an element (still in its slot if `open`).
    pub fn pop_acq(&mut self, ticket: u64, e: &Elem, what: &str) -> u64 {
        let _q = Quiet::new();
        let mut id = e.read(what);
        let now = sched::tick();
        self.ev.checks += 1;
        let i = self.finish(ticket);
        self.q_claimed += 1;
        self.ev.received += 1;
        self.update();
        if id == 0 {
            match self
                .msgs
                .iter()
                .position(|m| m.blank == Some(e.serial) && m.recv_call == 0)
            {
                Some(k) => id = k as u64 + 1,
                None => fail("phantom", format!("{what}: received an element that no one sent (#{})", e.serial)),
            }
        }
        trace(|| format!("{what}: received {id}"));
        if id as usize > self.msgs.len() {
            fail("phantom", format!("{what}: received message {id}, which no one sent"));
        }
        let (flavor, multi) = (self.flavor, self.multi_rx);
        let m = self.m(id);
        if m.recv_call != 0 {
            judge("dup", format!("{what}: message {id} was received twice"));
        }
        match m.st {
            MSt::Failed => judge("phantom", format!("{what}: received message {id}, whose send did not succeed")),
            MSt::Open => judge("aliased", format!("{what}: received message {id} while its sender still holds the reference")),
            _ => {}
        }
        m.recv_call = i.call;
        m.recv_ret = now;
        if flavor.is_queue() || multi {
            return id;
        }
        // single consumer: order can be checked at once
        let me = m.clone();
        for (k, o) in self.msgs.iter().enumerate() {
            if o.acq < me.call && o.recv_call == 0 && !o.void && o.st != MSt::Failed && !self.wedged {
                judge(
                    "fifo",
                    format!("{what}: received message {id} before message {}, which was sent earlier", k + 1),
                );
            }
        }
        id
    }

    pub fn pop_released(&mut self) {
        sched::tick();
        self.q_released += 1;
        self.update();
    }

    /// The receive panicked after claiming an element (constructor panic).
    pub fn pop_void(&mut self, ticket: u64) {
        let _q = Quiet::new();
        self.finish(ticket);
        self.q_claimed += 1;
        self.q_released += 1;
        // which one it was is known from the order: the oldest completed one
        let k = self
            .msgs
            .iter()
            .enumerate()
            .filter(|(_, m)| m.recv_call == 0 && !m.void && matches!(m.st, MSt::Sent | MSt::Pending | MSt::Releasing))
            .min_by_key(|(_, m)| m.acq)
            .map(|(k, _)| k);
        if let Some(k) = k {
            self.msgs[k].void = true;
        }
        self.wedged = true; // order and counts are no longer judged
        self.update();
    }

    // ------------------------------------------------------------ handles

    pub fn tx_drop_begin(&mut self) {
        self.tx_live -= 1;
        self.tx_dropping += 1;
        sched::tick();
        trace(|| "sender drop begins".into());
    }

    pub fn tx_drop_end(&mut self) {
        let now = sched::tick();
        trace(|| "sender dropped".into());
        self.tx_dropping -= 1;
        if self.tx_live == 0 && self.tx_dropping == 0 {
            self.tx_last_done = Some((now, st().clock));
        }
    }

    pub fn rx_drop_begin(&mut self) {
        self.rx_begin = Some(sched::tick());
        trace(|| "receiver drop begins".into());
    }

    pub fn rx_drop_end(&mut self) {
        self.rx_done = Some((sched::tick(), st().clock));
        trace(|| "receiver dropped".into());
    }

    // ------------------------------------------------------------ end of run

    /// Final checks over the recorded history.
    pub fn final_checks(&mut self, drained: bool) {
        self.ev.checks += 1;
        for (k, m) in self.msgs.iter().enumerate() {
            if drained && !self.wedged && m.st == MSt::Sent && m.recv_call == 0 && !m.void {
                judge("lost", format!("message {} was sent but never received", k + 1));
            }
            if m.recv_call != 0 && m.st != MSt::Sent {
                judge("phantom", format!("message {} was received, but its send did not succeed ({:?})", k + 1, m.st));
            }
        }
        let laps = self.p_acq as u64 / self.cap as u64;
        self.ev.laps += laps;
        if self.wedged {
            return;
        }
        for (i, a) in self.msgs.iter().enumerate() {
            if a.st != MSt::Sent || a.void {
                continue;
            }
            for (j, b) in self.msgs.iter().enumerate() {
                if b.st == MSt::Sent && !b.void && b.recv_call != 0 && a.acq < b.call && (a.recv_call == 0 || b.recv_ret < a.recv_call)
                {
                    judge(
                        "fifo",
                        format!("message {} was received before message {}, which was sent earlier", j + 1, i + 1),
                    );
                }
            }
        }
        // every bound on the number of elements, recomputed over the history
    }

    pub fn wakers_left(&self) -> i32 {
        self.wk.iter().map(|k| k.count).sum()
    }
}

/// Runs a length query: result, the bounds it must respect, and whether other
/// operations ran meanwhile.
pub fn query<R>(f: impl FnOnce() -> R) -> (R, i64, i64, bool) {
    let t = {
        let _q = Quiet::new();
        w().begin(false)
    };
    let r = f();
    sched::tick();
    let wo = w();
    let i = wo.finish(t);
    wo.ev.lens += 1;
    wo.ev.checks += 1;
    (r, i.min_lb.max(0), i.max_ub.min(wo.cap as i64), i.others)
}

// ---------------------------------------------------------------- wakers

static VTABLE: RawWakerVTable = RawWakerVTable::new(wk_clone, wk_wake, wk_wake_by_ref, wk_drop);

fn wk_raw(k: usize) -> RawWaker {
    RawWaker::new((k + 1) as *const (), &VTABLE)
}
fn idx(p: *const ()) -> usize {
    p as usize - 1
}
// panics (on purpose) like a user's waker may
unsafe fn wk_clone(p: *const ()) -> RawWaker {
    let _q = Quiet::new();
    let k = idx(p);
    check_alive(k, "cloned");
    let me = 1 << st().cur;
    if w().bomb & me != 0 {
        w().bomb &= !me;
        w().bombed |= me;
        w().ev.waker_panics += 1;
        sched::throw();
    }
    sched::access(&w().wk[k].obj, false, || "a waker".into());
    w().wk[k].count += 1;
    call_back(None);
    wk_raw(k)
}
/// A waker may use the channel itself when it is cloned, woken or dropped.
fn call_back(woken: Option<usize>) {
    if let Some(f) = w().reentrant {
        let me = 1 << st().cur;
        // (not recursively)
        if w().calling & me == 0 && !std::thread::panicking() {
            if w().callbacks == 0 && (woken.is_none() || woken != w().spare_slot) {
                return;
            }
            w().callbacks = w().callbacks.saturating_sub(1);
            w().ev.reentrant += 1;
            w().calling |= me;
            f();
            w().calling &= !me;
        }
    }
}
unsafe fn wk_wake(p: *const ()) {
    wk_wake_by_ref(p);
    wk_drop(p);
}
unsafe fn wk_wake_by_ref(p: *const ()) {
    let _q = Quiet::new();
    let k = idx(p);
    check_alive(k, "woken");
    let wo = w();
    sched::access(&wo.wk[k].obj, false, || "a waker".into());
    let (task, slot) = (wo.wk[k].task, wo.wk[k].slot);
    if wo.latest[slot] == k {
        wo.ev.wakes += 1;
        wo.slot_woken[slot] = true;
        trace(|| format!("waker {k} of task {task} woken"));
        sched::wake_task(task);
        call_back(Some(slot));
    } else {
        wo.ev.stale_wakes += 1;
    }
    sched::yield_point();
}
unsafe fn wk_drop(p: *const ()) {
    let _q = Quiet::new();
    let k = idx(p);
    check_alive(k, "dropped");
    w().wk[k].count -= 1;
    call_back(None);
}
fn check_alive(k: usize, what: &str) {
    match w().wk.get(k) {
        Some(x) if x.count > 0 => {}
        Some(_) => fail("waker", format!("a waker is {what} after it was dropped")),
        None => fail("waker", format!("something that is not a waker is {what}")),
    }
}

/// A place where a future (or the receiver) waits.
pub fn new_slot() -> usize {
    let _q = Quiet::new();
    w().latest.push(usize::MAX);
    w().slot_woken.push(false);
    w().latest.len() - 1
}

/// A new waker for the slot; from now on only this one counts.
pub fn new_waker(slot: usize) -> Waker {
    let _q = Quiet::new();
    let task = st().cur;
    let wo = w();
    let k = wo.wk.len();
    wo.wk.push(Wk {
        task,
        slot,
        count: 1,
        obj: Obj::new(),
    });
    wo.latest[slot] = k;
    unsafe { Waker::from_raw(wk_raw(k)) }
}

pub fn drop_slot(slot: usize) {
    w().latest[slot] = usize::MAX;
}
pub fn slot_woken(slot: usize) -> bool {
    w().slot_woken[slot]
}
pub fn clear_woken(slot: usize) {
    w().slot_woken[slot] = false;
}

// ---------------------------------------------------------------- quiescence

/// Called when no task can run.
pub fn quiesce(s: &mut Sched) -> Option<Violation> {
    let wo = w();
    if wo.flavor.is_queue() {
        return None;
    }
    wo.ev.checks += 1;
    let v = |kind, msg: String| Some(Violation { kind, msg });
    let asleep = |a: WaitingAs| {
        s.tasks
            .iter()
            .enumerate()
            .skip(1)
            .find(|(_, t)| t.waiting_as == a && matches!(t.st, St::Blocked(Block::Park) | St::Blocked(Block::Wake)))
            .map(|(i, _)| i)
    };
    let rx = asleep(WaitingAs::Receiver);
    let tx = asleep(WaitingAs::Sender);
    if rx.is_some() {
        wo.ev.slept_rx += 1;
    }
    if tx.is_some() {
        wo.ev.slept_tx += 1;
    }
    if let (Some(r), false) = (rx, wo.rival_rx) {
        if let Some(a) = wo.available() {
            return v(
                "rx-lost-wakeup",
                format!("the receiver (task {r}) is asleep although message {} was sent", a + 1),
            );
        }
        if wo.tx_last_done.is_some() && !wo.wedged {
            return v(
                "rx-missed-close",
                format!("the receiver (task {r}) is asleep although all senders were dropped"),
            );
        }
    }
    if let Some(t) = tx {
        if wo.rx_done.is_some() {
            return v(
                "tx-missed-close",
                format!("a sender (task {t}) is asleep although the receiver was dropped"),
            );
        }
        let open = wo
            .msgs
            .iter()
            .any(|m| matches!(m.st, MSt::Open | MSt::Releasing));
        let dormant = s.tasks.iter().any(|t| t.dormant > 0 && t.st != St::Done);
        let held = wo.q_claimed != wo.q_released;
        if let (Some(r), false, false, false, false) = (rx, open, held, dormant, wo.wedged || wo.rival_rx) {
            return v(
                "tx-lost-wakeup",
                format!("a sender (task {t}) is asleep although the receiver (task {r}) has emptied the channel and sleeps"),
            );
        }
    }
    None
}
