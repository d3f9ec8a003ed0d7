//! Workloads: seeded programs over every flavour, run by fibers under the
//! scheduler in `sched.rs`, judged by the oracles in `world.rs`.
use crate::api::*;
use crate::elem::{self, Elem, Faults, Injected, Use};
use crate::rng::{mix, Rng};
use crate::sched::{self, fail, judge, st, Config, Strategy, WaitingAs};
use crate::world::{self, note, query, w};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
#[cfg(feature = "std")]
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Plan {
    pub flavor: Flavor,
    pub cap: usize,
    pub custom: bool,
    /// one thread, judged against an exact reference model
    pub seq: bool,
    pub tasks: usize,
    pub ops: usize,
    /// only operations that never wait for ever
    pub nonblocking: bool,
    pub leak: bool,
    pub faults: Faults,
    pub unwind: bool,
    pub timed: u32,
    pub cancel: u32,
    pub split_race: usize,
    pub early_drop: usize,
    pub clones: u32,
    pub holds: u32,
    pub reentrant: bool,
    pub stale: bool,
    /// wakers panic now and then when they are cloned
    pub waker_panics: bool,
    /// further tasks that receive through a shared reference to the receiver
    pub helpers: usize,
    /// they also poll and wait for a limited time (who is woken is then not specified)
    pub helpers_poll: bool,
    /// the receiver, one sender, moves to another task half-way
    pub moves: (bool, bool),
}

pub fn plan(prop: &str, r: &mut Rng) -> (Plan, Strategy) {
    let prop = if prop == "C18" {
        // without the standard library: everything the other checks do
        *r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C15", "C16", "C20"])
    } else {
        prop
    };
    let all = Flavor::all();
    let pick = |r: &mut Rng, f: fn(Flavor) -> bool| -> Flavor {
        let v: Vec<Flavor> = all.iter().copied().filter(|x| f(*x)).collect();
        *r.pick(&v)
    };
    let flavor = match prop {
        "C03" if r.chance(2, 3) => pick(r, |f| f.is_queue()),
        "C11" => pick(r, |f| f.is_blocking()),
        "C06" | "C07" | "C08" | "C09" => pick(r, |f| !f.is_queue()),
        "C10" => {
            if r.chance(2, 3) || !cfg!(feature = "std") {
                pick(r, |f| f.is_async())
            } else {
                pick(r, |f| f.is_blocking())
            }
        }
        "C15" => pick(r, |f| f.is_static() && !f.is_queue()),
        _ => *r.pick(all),
    };
    let cap = if flavor.is_static() {
        STATIC_CAPS[r.weighted(&[8, 6, 4, 3, 1, 1, 1])]
    } else {
        [1, 2, 3, 4, 5, 6, 7, 8, 9][r.weighted(&[8, 6, 4, 3, 1, 1, 1, 1, 1])]
    };
    let seq = match prop {
        "C03" | "C13" | "C17" | "C05" => r.chance(1, 3),
        "C06" | "C07" | "C09" | "C10" | "C12" | "C11" => false,
        _ => r.chance(1, 10),
    };
    let tasks = 2 + r.weighted(&[5, 5, 3, 1]);
    let ops = match r.below(4) {
        0 => 1 + r.below(3),
        1 | 2 => 2 + r.below(6),
        _ => 4 + r.below(12),
    };
    let mut p = Plan {
        flavor,
        cap,
        custom: r.chance(1, 2),
        seq,
        tasks,
        ops,
        nonblocking: r.chance(1, 12),
        leak: false,
        faults: Faults::default(),
        unwind: r.chance(1, 6),
        timed: if r.chance(1, 2) { 2 } else { 0 },
        cancel: if r.chance(1, 2) { 2 } else { 0 },
        split_race: if r.chance(1, 12) { 2 } else { 0 },
        early_drop: 3,
        clones: 1,
        holds: r.below(3) as u32,
        reentrant: false,
        stale: r.chance(1, 2),
        waker_panics: false,
        helpers: 0,
        helpers_poll: false,
        moves: (r.chance(1, 8), r.chance(1, 10)),
    };
    match prop {
        "C01" | "C02" => p.leak = r.chance(1, 20),
        "C03" => {
            p.stale = r.chance(1, 4);
            p.holds = 1 + r.below(2) as u32;
            if r.chance(1, 3) {
                p.ops += 10;
            }
        }
        "C05" => {
            p.early_drop = 6;
            p.unwind = r.chance(1, 3);
            p.leak = r.chance(1, 6);
        }
        "C07" => {
            p.cap = if flavor.is_static() { *r.pick(&[1, 1, 2, 3]) } else { *r.pick(&[1, 1, 2, 3]) };
            p.tasks = 3 + r.below(3);
            p.early_drop = 1;
        }
        "C08" => {
            p.early_drop = 0;
            p.clones = 4;
            p.unwind = r.chance(1, 3);
            p.ops = 1 + r.below(5);
        }
        "C09" => {
            p.early_drop = 10;
            p.cap = *r.pick(&[1, 1, 2, 3]);
            p.tasks = 3 + r.below(3);
            p.unwind = r.chance(1, 4);
        }
        "C10" => {
            p.cancel = 6;
            p.timed = 6;
            p.cap = *r.pick(&[1, 1, 2, 3]);
            p.tasks = 3 + r.below(3);
            p.reentrant = flavor.is_async() && r.chance(1, 8);
            p.unwind &= !p.reentrant;
        }
        "C11" => {
            p.timed = 12;
            p.cap = *r.pick(&[1, 1, 2, 3]);
            p.stale = r.chance(1, 5);
        }
        "C12" => {
            p.leak = r.chance(1, 4);
            p.nonblocking = true;
            p.holds = 2;
        }
        "C14" => {
            p.cancel = 3;
            p.timed = 3;
        }
        "C15" => p.split_race = 1 + r.below(3),
        "C16" => {
            p.unwind = true;
            p.waker_panics = cfg!(feature = "std") && r.chance(1, 4);
            if r.chance(1, 2) {
                p.nonblocking = true;
                if r.chance(1, 2) {
                    p.faults.new_at = 1 + r.below(12) as u32;
                } else {
                    p.faults.recycle_at = 1 + r.below(12) as u32;
                }
            }
        }
        "C20" => {
            p.leak = r.chance(1, 5);
            p.unwind = r.chance(1, 3);
            p.cancel = 3;
            p.timed = 3;
        }
        _ => {}
    }
    let share = match prop {
        "C01" | "C02" | "C04" | "C05" | "C20" => 6,
        "C03" | "C06" | "C07" | "C08" | "C13" | "C14" | "C16" => 10,
        _ => 0,
    };
    if share > 0 && !p.flavor.is_queue() && r.chance(1, share) {
        p.helpers = 1 + r.below(2);
        p.helpers_poll = r.chance(1, 2);
        p.nonblocking |= p.helpers_poll;
    }
    if p.leak {
        p.nonblocking = true;
    }
    if !p.flavor.is_static() || p.flavor.is_queue() {
        p.split_race = 0;
    }
    let den = *r.pick(&[2usize, 3, 5, 8, 16, 30]);
    let strategy = match r.weighted(if prop == "C12" { &[1, 1, 1, 12, 1] } else { &[3, 2, 3, 1, 7] }) {
        0 => Strategy::Random { num: 1, den },
        1 => {
            let n = 1 + r.below(4);
            let span = *r.pick(&[100usize, 300, 900]);
            Strategy::Pct {
                points: (0..n).map(|_| 1 + r.below(span) as u64).collect(),
            }
        }
        2 => {
            let n = 1 + r.below(3);
            Strategy::Pause {
                at: (0..n)
                    .map(|_| {
                        (
                            1 + r.below(p.tasks + 1),
                            1 + r.below(120) as u64,
                            *r.pick(&[20u64, 100, 400, 100_000]),
                        )
                    })
                    .collect(),
                num: 1,
                den,
            }
        }
        3 => Strategy::Solo { num: 1, den },
        _ => Strategy::Window { rate: *r.pick(&[4usize, 8, 20]), num: 1, den },
    };
    (p, strategy)
}

pub struct RunInfo {
    pub hash: u64,
    pub stats: sched::Stats,
    pub ev: world::Counters,
    pub flavor: Flavor,
    pub cap: usize,
    pub seq: bool,
    pub steps: u64,
    pub desc: String,
}

pub fn run_one(prop: &str, seed: u64, trace: bool, describe: bool) -> RunInfo {
    let mut r = Rng::new(seed);
    let (plan, strategy) = plan(prop, &mut r);
    if trace {
        eprintln!("{plan:?}\n{strategy:?}");
    }
    let desc = if describe { format!("{plan:?} {strategy:?}") } else { String::new() };
    let stale = plan.stale && !plan.seq;
    let on = |r: &mut Rng, den: usize| if r.chance(1, 2) { (1, den) } else { (0, 1) };
    let cfg = Config {
        seed,
        strategy,
        stale: if stale { (1, *r.pick(&[2usize, 4])) } else { (0, 1) },
        weak: on(&mut r, 10),
        spurious: on(&mut r, 40),
        jump: on(&mut r, 40),
        max_steps: 60_000,
        trace,
        quiesce: world::quiesce,
    };
    elem::reset();
    world::reset(plan.flavor, plan.cap, !stale);
    sched::begin(cfg);
    elem::reg().faults = plan.faults;
    let drained = if plan.seq {
        crate::seq::run(&plan, &mut r)
    } else if plan.flavor.is_queue() {
        run_queue(&plan, &mut r)
    } else {
        run_channel(&plan, &mut r)
    };
    w().final_checks(drained);
    let left = elem::alive();
    if !left.is_empty() {
        judge("leak", format!("elements {left:?} were never dropped"));
    }
    if w().wakers_left() != 0 && !plan.leak {
        judge("waker-leak", format!("{} wakers were never dropped", w().wakers_left()));
    }
    let (made, by_value) = (elem::reg().rec_news as usize, elem::reg().by_value as usize);
    if elem::reg().faults_hit == 0 && made > plan.cap + by_value {
        judge(
            "churn",
            format!("the policy created {made} elements for {} slots and {by_value} by-value receives", plan.cap),
        );
    }
    w().ev.created += made as u64;
    w().ev.recycled += elem::reg().recycles as u64;
    w().ev.faults += elem::reg().faults_hit as u64;
    let s = st();
    sched::end();
    RunInfo {
        // flavour, capacity and the sequence of (task, point, object)
        hash: mix(s.sched_hash ^ mix((plan.flavor as u64) << 32 | plan.cap as u64)),
        stats: s.stats.clone(),
        ev: w().ev.clone(),
        flavor: plan.flavor,
        cap: plan.cap,
        seq: plan.seq,
        steps: s.steps,
        desc,
    }
}

/// Runs user code that may panic with `Injected`.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if !e.is::<Injected>() {
                fail("panic", "an unexpected panic".into());
            }
            None
        }
    }
}

/// Drops `x` while the thread unwinds from a panic.
fn drop_unwinding<T>(x: T) {
    w().ev.unwinds += 1;
    let _ = may_panic(move || {
        let _x = x;
        crate::sched::throw();
    });
}

/// Has the injected waker panic happened? Disarms it, too.
fn bombed() -> bool {
    let me = 1 << st().cur;
    let was = w().bombed & me != 0;
    w().bomb &= !me;
    w().bombed &= !me;
    was
}

pub fn garbage(r: &mut Rng) -> u64 {
    1 << 40 | r.below(1 << 20) as u64
}

/// Something a producer or consumer does while it holds a reference.
fn dwell(r: &mut Rng, p: &Plan) {
    match r.below(6) {
        0 | 1 if p.holds > 0 => {
            w().ev.held_across += 1;
            sched::sleep(r.below(3000) as u64)
        }
        2 => sched::yield_point(),
        3 => {
            for _ in 0..r.below(12) {
                sched::yield_point()
            }
        }
        _ => {}
    }
}

pub fn check_clean(e: &Elem, what: &str) {
    let m = e.read(what);
    if e.info().used != Use::Clean || m != 0 {
        judge(
            "dirty",
            format!("{what}: the producer was handed element #{} with the contents of an earlier message ({m})", e.serial),
        );
    }
}

pub fn check_show(r: &dyn RefLike, id: u64) {
    let (d, g) = r.show();
    if d != format!("{id}") || g != format!("Elem({id})") {
        judge("corrupt", format!("a reference to message {id} shows {d:?} / {g:?}"));
    }
}

/// A reference to a place that a producer holds.
pub struct Open {
    r: RefBox<'static>,
    id: u64,
    written: bool,
    _tx: Option<Rc<Box<dyn Tx>>>,
}

impl Open {
    fn new(r: RefBox<'_>, id: u64, tx: Option<Rc<Box<dyn Tx>>>) -> Open {
        w().ev.refs += 1;
        let r: RefBox<'static> = unsafe { std::mem::transmute(r) };
        r.get().hold("push/send reference");
        check_clean(r.get(), "push/send reference");
        Open {
            r,
            id,
            written: false,
            _tx: tx,
        }
    }

    fn write(&mut self, rng: &mut Rng) {
        if rng.chance(1, 4) {
            self.r.write_fmt_id(self.id);
        } else {
            self.r.get_mut().write(self.id, "push/send reference");
        }
        self.written = true;
        if rng.chance(1, 6) {
            check_show(&*self.r, self.id);
        }
    }

    /// Completes the push.
    fn finish(mut self, rng: &mut Rng, p: &Plan) {
        let blank = !self.written && rng.chance(1, 8);
        if !self.written && !blank {
            self.write(rng);
        }
        if blank {
            w().ev.blanks += 1;
            w().m(self.id).blank = Some(self.r.get().serial);
        } else if self.r.get().read("push/send reference") != self.id {
            judge("corrupt", format!("the element of message {} changed while its producer held it", self.id));
        }
        self.r.get().unhold("push/send reference");
        let id = self.id;
        w().push_release(id);
        let r = self.r;
        if p.unwind && rng.chance(1, 4) {
            drop_unwinding(r);
        } else {
            release(r);
        }
        w().push_done(id);
    }

    fn leak(self) {
        w().ev.leaks += 1;
        w().wedged = true;
        std::mem::forget(self.r);
    }
}

/// A reference to a received element.
pub struct Got {
    r: RefBox<'static>,
    id: u64,
    dirtied: bool,
}

impl Got {
    fn new(ticket: u64, r: RefBox<'_>) -> Got {
        w().ev.refs += 1;
        let r: RefBox<'static> = unsafe { std::mem::transmute(r) };
        r.get().hold("pop/receive reference");
        let id = w().pop_acq(ticket, r.get(), "pop/receive reference");
        Got {
            r,
            id,
            dirtied: false,
        }
    }

    fn finish(mut self, rng: &mut Rng, p: &Plan) {
        if !self.dirtied {
            let now = self.r.get().read("pop/receive reference");
            if now != self.id && w().m(self.id).blank.is_none() {
                judge("corrupt", format!("the element of message {} changed while its consumer held it", self.id));
            }
            if rng.chance(1, 6) {
                check_show(&*self.r, now);
            }
        }
        if rng.chance(1, 3) {
            let g = garbage(rng);
            self.r.get_mut().write(g, "pop/receive reference");
            self.dirtied = true;
        }
        self.r.get().unhold("pop/receive reference");
        let r = self.r;
        if p.unwind && rng.chance(1, 4) {
            drop_unwinding(r);
        } else {
            release(r);
        }
        w().pop_released();
    }

    fn leak(self) {
        w().ev.leaks += 1;
        w().wedged = true;
        std::mem::forget(self.r);
    }
}

/// A by-value message came out.
pub fn got_value(ticket: u64, e: Elem) {
    w().pop_acq(ticket, &e, "pop/receive by value");
    w().pop_released();
    drop(e);
}

pub fn payload_back(e: Elem, id: u64, serial: u32) {
    if e.serial != serial || e.read("returned message") != id {
        judge(
            "payload",
            format!("a failed send of message {id} returned a different or modified message"),
        );
    }
}

// ================================================================ queues

fn run_queue(p: &Plan, r: &mut Rng) -> bool {
    let q: Box<dyn Queue> = make_queue(p.flavor, p.cap, p.custom);
    let qr: &'static dyn Queue = unsafe { std::mem::transmute(&*q) };
    if q.capacity() != p.cap {
        judge("len-lie", format!("capacity() is {} instead of {}", q.capacity(), p.cap));
    }
    let bias = r.below(3);
    let bodies: Vec<Box<dyn FnOnce()>> = (0..p.tasks)
        .map(|i| {
            let rng = Rng::new(r.next());
            let p = p.clone();
            let role = if bias == 0 { 2 } else { i % 2 };
            let b: Box<dyn FnOnce()> = Box::new(move || queue_task(qr, rng, p, role));
            b
        })
        .collect();
    sched::run_tasks(bodies);
    let drain = !r.chance(1, 3);
    if drain {
        loop {
            let t = w().pop_begin();
            match may_panic(|| q.pop()) {
                None => w().pop_void(t),
                Some(None) => {
                    w().pop_none(t, Some(RErr::Empty));
                    break;
                }
                Some(Some(e)) => got_value(t, e),
            }
        }
        if !w().wedged {
            let l = (q.len(), q.is_empty(), q.remaining());
            if l != (0, true, p.cap) {
                judge("len-lie", format!("the drained queue reports (len, is_empty, remaining) = {l:?}"));
            }
        }
    } else {
        w().ev.destroyed_full += 1;
    }
    drop(q);
    drain && !w().wedged
}

fn queue_task(q: &'static dyn Queue, mut rng: Rng, p: Plan, role: usize) {
    let mut open: Vec<Open> = Vec::new();
    let mut got: Vec<Got> = Vec::new();
    let (pw, qw) = match role {
        0 => (6, 1),
        1 => (1, 6),
        _ => (3, 3),
    };
    for _ in 0..p.ops {
        let r = &mut rng;
        match r.weighted(&[pw, pw, pw, qw, qw, qw, 2, 2, 1, if p.leak { 1 } else { 0 }]) {
            0 => {
                let id = w().new_msg();
                let e = Elem::message(id);
                let serial = e.serial;
                let t = w().push_begin(id);
                sched::solo_begin();
                let res = may_panic(|| q.push(e));
                sched::solo_end();
                match res {
                    None => w().push_wedged(t, id),
                    Some(Ok(())) => w().push_acq(t, id, false),
                    Some(Err((err, e))) => {
                        w().push_none(t, id, Some(err), false);
                        payload_back(e, id, serial);
                    }
                }
            }
            1 => {
                let id = w().new_msg();
                let t = w().push_begin(id);
                sched::solo_begin();
                let res = may_panic(|| q.push_ref());
                sched::solo_end();
                match res {
                    None => w().push_wedged(t, id),
                    Some(Ok(rf)) => {
                        w().push_acq(t, id, true);
                        let mut o = Open::new(rf, id, None);
                        if r.chance(1, 2) {
                            o.write(r);
                        }
                        if r.chance(1, 3) && open.len() < 3 {
                            open.push(o);
                        } else {
                            dwell(r, &p);
                            o.finish(r, &p);
                        }
                    }
                    Some(Err(err)) => w().push_none(t, id, Some(err), false),
                }
            }
            2 => {
                let id = w().new_msg();
                let t = w().push_begin(id);
                let blow = p.unwind && r.chance(1, 4);
                let late = r.chance(1, 2);
                let mut called = 0;
                sched::solo_begin();
                let res = may_panic(|| {
                    q.push_with(&mut |e: &mut Elem| {
                        called += 1;
                        sched::solo_end();
                        e.hold("push_with");
                        check_clean(e, "push_with");
                        if blow && !late {
                            w().m(id).blank = Some(e.serial);
                            e.unhold("push_with");
                            w().ev.unwinds += 1;
                            crate::sched::throw();
                        }
                        e.write(id, "push_with");
                        e.unhold("push_with");
                        if blow {
                            w().ev.unwinds += 1;
                            crate::sched::throw();
                        }
                    })
                });
                sched::solo_end();
                match res {
                    None if called == 1 => w().push_acq(t, id, false),
                    None => w().push_wedged(t, id),
                    Some(Ok(7)) if called == 1 => w().push_acq(t, id, false),
                    Some(Ok(_)) => fail("closure", format!("push_with succeeded but called its closure {called} times, or lost its result")),
                    Some(Err(err)) => {
                        if called != 0 {
                            fail("closure", "push_with failed but called its closure".into());
                        }
                        w().push_none(t, id, Some(err), false)
                    }
                }
            }
            3 => {
                let t = w().pop_begin();
                sched::solo_begin();
                let res = may_panic(|| q.pop());
                sched::solo_end();
                match res {
                    None => w().pop_void(t),
                    Some(Some(e)) => got_value(t, e),
                    Some(None) => w().pop_none(t, Some(RErr::Empty)),
                }
            }
            4 => {
                let t = w().pop_begin();
                sched::solo_begin();
                let res = q.pop_ref();
                sched::solo_end();
                match res {
                    Some(rf) => {
                        let g = Got::new(t, rf);
                        if r.chance(1, 3) && got.len() < 3 {
                            got.push(g);
                        } else {
                            dwell(r, &p);
                            g.finish(r, &p);
                        }
                    }
                    None => w().pop_none(t, Some(RErr::Empty)),
                }
            }
            5 => {
                let t = w().pop_begin();
                let blow = p.unwind && r.chance(1, 4);
                let g = garbage(r);
                let mut called = 0;
                sched::solo_begin();
                let res = may_panic(|| {
                    q.pop_with(&mut |e: &mut Elem| {
                        called += 1;
                        sched::solo_end();
                        e.hold("pop_with");
                        w().pop_acq(t, e, "pop_with");
                        e.write(g, "pop_with");
                        e.unhold("pop_with");
                        if blow {
                            w().ev.unwinds += 1;
                            crate::sched::throw();
                        }
                    })
                });
                sched::solo_end();
                match (res, called) {
                    (Some(None), 0) => w().pop_none(t, Some(RErr::Empty)),
                    (None, 1) | (Some(Some(7)), 1) => w().pop_released(),
                    _ => fail("closure", format!("pop_with called its closure {called} times, or lost its result")),
                }
            }
            6 => queue_len(q, r, &p),
            7 => {
                if !open.is_empty() && (got.is_empty() || r.chance(1, 2)) {
                    let k = r.below(open.len());
                    open.swap_remove(k).finish(r, &p);
                } else if !got.is_empty() {
                    let k = r.below(got.len());
                    got.swap_remove(k).finish(r, &p);
                }
            }
            8 => {
                if r.chance(1, 2) {
                    sched::sleep(r.below(2000) as u64)
                } else {
                    let _ = q.debug();
                }
            }
            _ => {
                if let Some(o) = open.pop() {
                    o.leak();
                } else if let Some(g) = got.pop() {
                    g.leak();
                }
            }
        }
    }
    let r = &mut rng;
    while let Some(o) = open.pop() {
        o.finish(r, &p);
    }
    while let Some(g) = got.pop() {
        g.finish(r, &p);
    }
}

fn queue_len(q: &dyn Queue, r: &mut Rng, p: &Plan) {
    let k = r.below(3);
    sched::solo_begin();
    let (l, lb, ub, _) = query(|| match k {
        0 => q.len() as i64,
        1 => p.cap as i64 - q.remaining() as i64,
        _ => {
            if q.is_empty() {
                0
            } else {
                -1
            }
        }
    });
    sched::solo_end();
    note(|| format!("len ({k}) = {l}, bounds {lb}..={ub}"));
    if w().wedged {
        if l > p.cap as i64 {
            judge("len-lie", format!("length {l} exceeds the capacity {}", p.cap));
        }
        return;
    }
    let ok = if l == -1 { ub > 0 } else { lb <= l && l <= ub };
    if !ok {
        judge(
            "len-lie",
            format!(
                "{} reports {l} (-1: not empty), but the number of elements was between {lb} and {ub} all the time",
                ["len", "capacity - remaining", "is_empty"][k]
            ),
        );
    }
}

// ================================================================ channels

enum Fut {
    Val(SendFut<'static>, u32),
    Ref(SendRefFut<'static>),
}

/// Who is woken: one future, or several of a task that are joined.
struct Target(usize);

impl Drop for Target {
    fn drop(&mut self) {
        world::drop_slot(self.0);
    }
}

struct Pend {
    fut: Option<Fut>,
    id: u64,
    target: Rc<Target>,
    waker: Waker,
    polled: bool,
    tx: Rc<Box<dyn Tx>>,
}

impl Pend {
    /// `join`: a future that shall have the same waker.
    fn new(tx: &Rc<Box<dyn Tx>>, by_ref: bool, join: Option<&Pend>) -> Pend {
        let id = w().new_msg();
        let t: &'static dyn Tx = unsafe { std::mem::transmute(&***tx) };
        let fut = if by_ref {
            Fut::Ref(t.send_ref_fut())
        } else {
            let e = Elem::message(id);
            let s = e.serial;
            Fut::Val(t.send_fut(e), s)
        };
        let (target, waker) = match join {
            Some(x) => {
                w().ev.joined += 1;
                (x.target.clone(), x.waker.clone())
            }
            None => {
                let slot = world::new_slot();
                (Rc::new(Target(slot)), world::new_waker(slot))
            }
        };
        Pend {
            fut: Some(fut),
            id,
            target,
            waker,
            polled: false,
            tx: tx.clone(),
        }
    }

    /// Polls once. True when finished.
    fn poll(&mut self, r: &mut Rng, p: &Plan, keep: Option<&mut Vec<Open>>) -> bool {
        let id = self.id;
        if self.polled {
            w().ev.repolls += 1;
            // (joined futures keep the waker they share)
            if r.chance(1, 2) && Rc::strong_count(&self.target) == 1 {
                self.waker = world::new_waker(self.target.0);
            }
        }
        self.polled = true;
        world::clear_woken(self.target.0);
        let t = w().push_begin(id);
        let mut cx = Context::from_waker(&self.waker);
        if p.waker_panics && r.chance(1, 3) {
            w().bomb |= 1 << st().cur;
        }
        match self.fut.as_mut().unwrap() {
            Fut::Val(f, serial) => {
                let serial = *serial;
                let res = may_panic(|| f.as_mut().poll(&mut cx));
                let bombed = bombed();
                match res {
                    // a waker that panicked while it was registered: nothing happened
                    None if bombed => w().push_none(t, id, None, false),
                    None => w().push_wedged(t, id),
                    Some(Poll::Pending) => {
                        w().push_none(t, id, None, true);
                        return false;
                    }
                    Some(Poll::Ready(Ok(()))) => w().push_acq(t, id, false),
                    Some(Poll::Ready(Err((e, el)))) => {
                        w().push_none(t, id, Some(e), false);
                        payload_back(el, id, serial);
                    }
                }
            }
            Fut::Ref(f) => {
                let res = may_panic(|| f.as_mut().poll(&mut cx));
                let bombed = bombed();
                match res {
                    None if bombed => w().push_none(t, id, None, false),
                    None => w().push_wedged(t, id),
                    Some(Poll::Pending) => {
                        w().push_none(t, id, None, true);
                        return false;
                    }
                    Some(Poll::Ready(Ok(rf))) => {
                        w().push_acq(t, id, true);
                        let o = Open::new(rf, id, Some(self.tx.clone()));
                        match keep {
                            Some(v) if v.len() < 2 && r.chance(1, 3) => v.push(o),
                            _ => {
                                dwell(r, p);
                                o.finish(r, p)
                            }
                        }
                    }
                    Some(Poll::Ready(Err(e))) => w().push_none(t, id, Some(e), false),
                }
            }
        }
        self.fut = None;
        true
    }

    /// Drops the future, wherever it is.
    fn cancel(mut self, r: &mut Rng, p: &Plan) {
        note(|| format!("cancelling the pending send of {}", self.id));
        w().ev.cancels += 1;
        if world::slot_woken(self.target.0) {
            w().ev.cancels_notified += 1;
        } else if self.polled {
            w().ev.cancels_linked += 1;
        }
        let f = self.fut.take();
        if p.unwind && r.chance(1, 4) {
            drop_unwinding(f);
        } else {
            drop(f);
        }
    }
}

/// Through which a task passes all it has to another one, which goes on.
struct Relay<T> {
    to: usize,
    what: std::cell::RefCell<Option<(T, usize)>>,
    over: std::cell::Cell<bool>,
}

impl<T> Relay<T> {
    fn new(to: usize) -> Rc<Self> {
        Rc::new(Relay {
            to,
            what: Default::default(),
            over: Default::default(),
        })
    }

    fn pass(&self, x: T, steps: usize) {
        w().ev.migrations += 1;
        sched::cur().dormant = 0;
        *self.what.borrow_mut() = Some((x, steps));
        sched::wake_task(self.to);
    }

    /// It goes on with it to the end.
    fn close(&self) {
        self.over.set(true);
        sched::wake_task(self.to);
    }

    fn take(&self) -> Option<(T, usize)> {
        loop {
            sched::wait_woken();
            let x = self.what.borrow_mut().take();
            if x.is_some() || self.over.get() {
                return x;
            }
        }
    }
}

struct SenderTask {
    relay: Option<Rc<Relay<SenderTask>>>,
    txs: Vec<Rc<Box<dyn Tx>>>,
    open: Vec<Open>,
    pend: Vec<Pend>,
    rng: Rng,
    p: Plan,
}

#[cfg(feature = "std")]
fn duration(r: &mut Rng) -> Duration {
    match r.below(12) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(1),
        2 => Duration::from_secs(1),
        3 => Duration::MAX,
        4 => Duration::from_millis(1 + r.below(50) as u64),
        _ => Duration::from_nanos(r.below(4000) as u64),
    }
}

/// Judges how long a timed operation took.
#[cfg(feature = "std")]
struct Timed {
    start: u64,
    lag: u64,
    limit: Duration,
}
#[cfg(feature = "std")]
impl Timed {
    fn begin(limit: Duration) -> Timed {
        note(|| format!("timed operation, limit {limit:?}"));
        Timed {
            start: st().clock,
            lag: sched::cur().lag,
            limit,
        }
    }
    fn end(self, timed_out: bool, closed: Option<(u64, u64)>, what: &str) {
        w().ev.checks += 1;
        let elapsed = st().clock - self.start;
        let lag = sched::cur().lag - self.lag;
        let limit = self.limit.as_nanos();
        if timed_out && (elapsed as u128) < limit {
            judge(
                "timeout-early",
                format!("a timed {what} reports a timeout after {elapsed} ns, its limit is {limit} ns"),
            );
        }
        if elapsed as u128 > limit + lag as u128 {
            judge(
                "timeout-late",
                format!("a timed {what} with a limit of {limit} ns returned after {elapsed} ns, {lag} ns of which it could have run"),
            );
        }
        if let (true, Some((_, clock)), 0) = (timed_out, closed, lag) {
            if ((clock - self.start.min(clock)) as u128) < limit && clock >= self.start {
                judge(
                    "timeout-missed",
                    format!("a timed {what} reports a timeout although the channel was closed before its time was up"),
                );
            }
        }
    }
}

impl SenderTask {
    fn dormant(&mut self) {
        sched::cur().dormant = self.pend.len() as u32;
    }

    fn release_all(&mut self) {
        while let Some(o) = self.open.pop() {
            o.finish(&mut self.rng, &self.p);
        }
    }

    fn opened(&mut self, rf: RefBox<'_>, id: u64, tx: &Rc<Box<dyn Tx>>) {
        let r = &mut self.rng;
        let mut o = Open::new(rf, id, Some(tx.clone()));
        if r.chance(1, 2) {
            o.write(r);
        }
        if r.chance(1, 3) && self.open.len() < 2 {
            self.open.push(o);
        } else {
            dwell(r, &self.p);
            o.finish(r, &self.p);
        }
    }

    fn value(&mut self, tx: &Rc<Box<dyn Tx>>, f: impl FnOnce(&dyn Tx, Elem) -> Result<(), (SErr, Elem)>) -> Option<SErr> {
        let id = w().new_msg();
        let e = Elem::message(id);
        let serial = e.serial;
        let t = w().push_begin(id);
        match may_panic(|| f(&***tx, e)) {
            None => {
                w().push_wedged(t, id);
                None
            }
            Some(Ok(())) => {
                w().push_acq(t, id, false);
                None
            }
            Some(Err((err, e))) => {
                w().push_none(t, id, Some(err), false);
                payload_back(e, id, serial);
                Some(err)
            }
        }
    }

    fn reference(&mut self, tx: &Rc<Box<dyn Tx>>, f: impl FnOnce(&'static dyn Tx) -> Result<RefBox<'static>, SErr>, after: impl FnOnce(Option<SErr>)) {
        let id = w().new_msg();
        let tr: &'static dyn Tx = unsafe { std::mem::transmute(&***tx) };
        let t = w().push_begin(id);
        match may_panic(|| f(tr)) {
            None => w().push_wedged(t, id),
            Some(Ok(rf)) => {
                w().push_acq(t, id, true);
                after(None);
                self.opened(rf, id, tx)
            }
            Some(Err(e)) => {
                w().push_none(t, id, Some(e), false);
                after(Some(e));
            }
        }
    }

    /// Awaits the last pending future; polls all others, too.
    fn await_last(&mut self) {
        let target = self.pend.last().unwrap().id;
        sched::cur().dormant = 0;
        loop {
            let mut k = 0;
            while k < self.pend.len() {
                // a poll may run other tasks; futures are polled in turn
                if self.pend[k].poll(&mut self.rng, &self.p, None) {
                    drop(self.pend.remove(k));
                } else {
                    k += 1;
                }
            }
            let Some(k) = self.pend.iter().position(|x| x.id == target) else { break };
            // give up another one (as a timeout would), and wait on
            if self.pend.len() > 1 && self.rng.chance(1, 4) {
                let k = if k == 0 { 1 } else { self.rng.below(k) };
                self.pend.remove(k).cancel(&mut self.rng, &self.p);
            }
            sched::cur().waiting_as = WaitingAs::Sender;
            sched::wait_woken();
            sched::cur().waiting_as = WaitingAs::Nothing;
        }
        self.dormant();
    }

    fn drop_tx(&mut self, k: usize) {
        let tx = self.txs.swap_remove(k);
        let Ok(tx) = Rc::try_unwrap(tx) else { unreachable!() };
        w().tx_drop_begin();
        if self.p.unwind && self.rng.chance(1, 3) {
            drop_unwinding(tx);
        } else {
            let _n = sched::NoAlloc::new();
            drop(tx);
        }
        w().tx_drop_end();
    }

    /// A send, sometimes joined with one that is pending.
    fn start(&mut self, tx: &Rc<Box<dyn Tx>>, by_ref: bool) -> Pend {
        let join = self.rng.chance(1, 2);
        Pend::new(tx, by_ref, self.pend.last().filter(|_| join))
    }

    fn step(&mut self) {
        let p = self.p.clone();
        let is_async = p.flavor.is_async();
        let block = !p.nonblocking && !w().wedged;
        let k = self.rng.below(self.txs.len());
        let tx = self.txs[k].clone();
        let timed = if is_async { 0 } else { p.timed };
        let fut = if is_async { 1 + p.cancel } else { 0 };
        let choice = self.rng.weighted(&[
            3,
            3,
            if block { 5 } else { 0 },
            if block { 5 } else { 0 },
            timed,
            timed,
            fut,
            fut,
            2,
            p.clones,
            p.clones,
            1,
            if p.leak { 1 } else { 0 },
        ]);
        match choice {
            0 => {
                sched::solo_begin();
                self.value(&tx, |t, e| t.try_send(e));
                sched::solo_end();
            }
            1 => {
                sched::solo_begin();
                self.reference(&tx, |t| t.try_send_ref(), |_| sched::solo_end());
                sched::solo_end();
            }
            2 | 3 => {
                self.release_all();
                if is_async {
                    let x = self.start(&tx, choice == 3);
                    self.pend.push(x);
                    self.await_last();
                } else {
                    sched::cur().waiting_as = WaitingAs::Sender;
                    if choice == 2 {
                        self.value(&tx, |t, e| t.send(e));
                        sched::cur().waiting_as = WaitingAs::Nothing;
                    } else {
                        self.reference(&tx, |t| t.send_ref(), |_| sched::cur().waiting_as = WaitingAs::Nothing);
                    }
                    sched::cur().waiting_as = WaitingAs::Nothing;
                }
            }
            #[cfg(feature = "std")]
            4 | 5 => {
                let mut d = duration(&mut self.rng);
                if d > Duration::from_secs(100) {
                    if !block {
                        d = Duration::from_nanos(500);
                    } else {
                        self.release_all();
                    }
                }
                let tm = Timed::begin(d);
                sched::cur().waiting_as = WaitingAs::Sender;
                if choice == 4 {
                    let r = self.value(&tx, |t, e| t.send_timeout(e, d));
                    sched::cur().waiting_as = WaitingAs::Nothing;
                    tm.end(r == Some(SErr::Timeout), w().rx_done, "send");
                } else {
                    self.reference(
                        &tx,
                        |t| t.send_ref_timeout(d),
                        |r| {
                            sched::cur().waiting_as = WaitingAs::Nothing;
                            tm.end(r == Some(SErr::Timeout), w().rx_done, "send")
                        },
                    );
                    sched::cur().waiting_as = WaitingAs::Nothing;
                }
            }
            6 => {
                // start a send and leave it pending
                if self.pend.len() < 3 {
                    let by_ref = self.rng.chance(1, 2);
                    let mut x = self.start(&tx, by_ref);
                    if self.rng.chance(1, 10) {
                        x.cancel(&mut self.rng, &p); // never polled
                    } else if !x.poll(&mut self.rng, &p, Some(&mut self.open)) {
                        self.pend.push(x);
                    }
                }
                self.dormant();
            }
            7 => {
                if !self.pend.is_empty() {
                    let k = self.rng.below(self.pend.len());
                    if self.rng.chance(1, 2) {
                        let x = self.pend.remove(k);
                        if p.leak && self.rng.chance(1, 4) {
                            w().ev.leaks += 1;
                            if let Some(Fut::Val(_, serial)) = &x.fut {
                                elem::forgive(*serial);
                            }
                            std::mem::forget(x.fut.into_iter().next());
                        } else {
                            x.cancel(&mut self.rng, &p);
                        }
                    } else {
                        let mut x = self.pend.remove(k);
                        if !x.poll(&mut self.rng, &p, Some(&mut self.open)) {
                            self.pend.push(x);
                        }
                    }
                }
                self.dormant();
            }
            8 => {
                if !self.open.is_empty() {
                    let k = self.rng.below(self.open.len());
                    self.open.swap_remove(k).finish(&mut self.rng, &p);
                }
            }
            9 => {
                if self.txs.len() < 4 {
                    w().ev.clones += 1;
                    w().tx_live += 1;
                    let t = tx.dup();
                    self.txs.push(Rc::new(t));
                }
            }
            10 => {
                drop(tx);
                if self.txs.len() > 1 {
                    if let Some(k) = self.txs.iter().position(|t| Rc::strong_count(t) == 1) {
                        self.drop_tx(k);
                    }
                }
            }
            11 => {
                if self.rng.chance(1, 2) {
                    sched::sleep(self.rng.below(2500) as u64)
                } else if self.rng.chance(1, 4) {
                    let _ = tx.debug();
                } else {
                    sched::yield_point()
                }
            }
            _ => {
                if let Some(o) = self.open.pop() {
                    o.leak();
                }
            }
        }
    }

    /// Whether it ended here.
    fn run(mut self, steps: usize) -> bool {
        let stop = self.rng.below(steps.max(1));
        for i in 0..steps {
            if i == stop {
                if let Some(r) = self.relay.take() {
                    r.clone().pass(self, steps - i);
                    return false;
                }
            }
            self.step();
        }
        if let Some(r) = self.relay.take() {
            r.close();
        }
        // finish or cancel what is pending
        while !self.pend.is_empty() {
            self.release_all();
            if self.p.nonblocking || w().wedged || self.rng.chance(1, 3) {
                let x = self.pend.pop().unwrap();
                x.cancel(&mut self.rng, &self.p);
                self.dormant();
            } else {
                self.await_last();
            }
        }
        self.dormant();
        self.release_all();
        while !self.txs.is_empty() {
            let k = self.rng.below(self.txs.len());
            self.drop_tx(k);
        }
        true
    }

    /// In another task than before: what is pending has to be polled again, with
    /// a waker of this task.
    fn arrived(&mut self) {
        for k in 0..self.pend.len() {
            let first = self.pend[..k].iter().find(|x| Rc::ptr_eq(&x.target, &self.pend[k].target));
            self.pend[k].waker = match first {
                Some(x) => x.waker.clone(),
                None => world::new_waker(self.pend[k].target.0),
            };
        }
        self.dormant();
    }
}

struct ReceiverTask {
    relay: Option<Rc<Relay<ReceiverTask>>>,
    early: bool,
    /// `None`: a helper
    own: Option<Box<dyn Rx>>,
    rx: &'static dyn Rx,
    helpers: Rc<std::cell::Cell<usize>>,
    got: Vec<Got>,
    rng: Rng,
    p: Plan,
    slot: usize,
    waker: Option<Waker>,
    /// pending futures
    kept: (Option<crate::api::RecvFut<'static>>, Option<crate::api::RecvRefFut<'static>>),
}

impl ReceiverTask {
    fn release_all(&mut self) {
        while let Some(g) = self.got.pop() {
            g.finish(&mut self.rng, &self.p);
        }
    }

    fn rx(&self) -> &'static dyn Rx {
        self.rx
    }

    fn opened(&mut self, t: u64, rf: RefBox<'_>) {
        let g = Got::new(t, rf);
        let r = &mut self.rng;
        if r.chance(1, 3) && self.got.len() < 2 {
            self.got.push(g);
        } else {
            dwell(r, &self.p);
            g.finish(r, &self.p);
        }
    }

    fn waker(&mut self) -> Waker {
        if self.waker.is_none() || self.rng.chance(1, 2) {
            self.waker = Some(world::new_waker(self.slot));
        }
        self.waker.clone().unwrap()
    }

    /// One poll. `None`: pending; otherwise whether a message came.
    ///
    /// `again`: the last poll left the task pending, and this one panics when it
    /// registers its waker. The earlier registration must survive that.
    fn poll_once(&mut self, style: usize, again: bool) -> Option<bool> {
        let wk = if again { self.waker.clone().unwrap() } else { self.waker() };
        if !again {
            world::clear_woken(self.slot);
        }
        let mut cx = Context::from_waker(&wk);
        let rx = self.rx();
        let t = w().pop_begin();
        if again || self.p.waker_panics && self.rng.chance(1, 3) {
            w().bomb |= 1 << st().cur;
        }
        let nothing = if again { None } else { Some(true) };
        // a pending future is polled again later, or given up
        let keep = self.rng.chance(2, 3);
        // (a waker that panicked while it was registered: nothing happened)
        macro_rules! val {
            ($e:expr) => {
                match may_panic(|| $e) {
                    None if bombed() => {
                        w().pop_none(t, None);
                        return nothing;
                    }
                    None => {
                        w().pop_void(t);
                        Some(true)
                    }
                    Some(Poll::Pending) => {
                        w().pop_none(t, None);
                        None
                    }
                    Some(Poll::Ready(Some(e))) => {
                        got_value(t, e);
                        Some(true)
                    }
                    Some(Poll::Ready(None)) => {
                        w().pop_none(t, Some(RErr::Closed));
                        Some(false)
                    }
                }
            };
        }
        macro_rules! rf {
            ($e:expr) => {
                match may_panic(|| $e) {
                    None => {
                        if !bombed() {
                            fail("panic", "an unexpected panic".into());
                        }
                        w().pop_none(t, None);
                        return nothing;
                    }
                    Some(Poll::Pending) => {
                        w().pop_none(t, None);
                        None
                    }
                    Some(Poll::Ready(Some(r))) => {
                        bombed();
                        self.opened(t, r);
                        Some(true)
                    }
                    Some(Poll::Ready(None)) => {
                        w().pop_none(t, Some(RErr::Closed));
                        Some(false)
                    }
                }
            };
        }
        let r = match style {
            0 => val!(rx.poll_recv(&mut cx)),
            1 => rf!(rx.poll_recv_ref(&mut cx)),
            2 => {
                let mut f = match self.kept.0.take() {
                    Some(f) => f,
                    None => rx.recv_fut(),
                };
                let r = val!(f.as_mut().poll(&mut cx));
                if r.is_none() && keep {
                    self.kept.0 = Some(f);
                }
                r
            }
            _ => {
                let mut kept = self.kept.1.take();
                let r = rf!({
                    let mut f = match kept.take() {
                        Some(f) => f,
                        None => rx.recv_ref_fut(),
                    };
                    let r = f.as_mut().poll(&mut cx);
                    if r.is_pending() && keep {
                        kept = Some(f);
                    }
                    r
                });
                self.kept.1 = kept;
                r
            }
        };
        bombed();
        r
    }

    /// Waits for a message. False: closed.
    fn wait(&mut self) -> bool {
        let rx = self.rx();
        if self.p.flavor.is_async() {
            let style = self.rng.below(4);
            loop {
                // (sometimes a future that is pending is dropped and made again:
                // that is a cancellation, and allowed)
                if let Some(x) = self.poll_once(style, false) {
                    return x;
                }
                if self.p.waker_panics && self.rng.chance(1, 3) {
                    if let Some(x) = self.poll_once(style, true) {
                        return x;
                    }
                }
                sched::cur().waiting_as = WaitingAs::Receiver;
                sched::wait_woken();
                sched::cur().waiting_as = WaitingAs::Nothing;
            }
        }
        let style = self.rng.below(3);
        let t = w().pop_begin();
        sched::cur().waiting_as = WaitingAs::Receiver;
        if style == 0 {
            let res = may_panic(|| rx.recv());
            sched::cur().waiting_as = WaitingAs::Nothing;
            match res {
                None => w().pop_void(t),
                Some(Some(e)) => got_value(t, e),
                Some(None) => {
                    w().pop_none(t, Some(RErr::Closed));
                    return false;
                }
            }
        } else {
            let res = if style == 1 { rx.recv_ref() } else { rx.iter_next() };
            sched::cur().waiting_as = WaitingAs::Nothing;
            match res {
                Some(r) => self.opened(t, r),
                None => {
                    w().pop_none(t, Some(RErr::Closed));
                    return false;
                }
            }
        }
        true
    }

    fn try_one(&mut self) -> Result<(), RErr> {
        let rx = self.rx();
        let t = w().pop_begin();
        sched::solo_begin();
        if self.rng.chance(1, 2) {
            let res = may_panic(|| rx.try_recv());
            sched::solo_end();
            match res {
                None => w().pop_void(t),
                Some(Ok(e)) => got_value(t, e),
                Some(Err(e)) => {
                    w().pop_none(t, Some(e));
                    return Err(e);
                }
            }
        } else {
            let res = rx.try_recv_ref();
            sched::solo_end();
            match res {
                Ok(r) => self.opened(t, r),
                Err(e) => {
                    w().pop_none(t, Some(e));
                    return Err(e);
                }
            }
        }
        Ok(())
    }

    #[cfg(feature = "std")]
    fn timed(&mut self, d: Duration) -> Result<(), RErr> {
        let rx = self.rx();
        let tm = Timed::begin(d);
        let t = w().pop_begin();
        sched::cur().waiting_as = WaitingAs::Receiver;
        if self.rng.chance(1, 2) {
            let res = may_panic(|| rx.recv_timeout(d));
            sched::cur().waiting_as = WaitingAs::Nothing;
            match res {
                None => w().pop_void(t),
                Some(Ok(e)) => {
                    tm.end(false, None, "receive");
                    got_value(t, e)
                }
                Some(Err(e)) => {
                    w().pop_none(t, Some(e));
                    let closed = if self.p.helpers_poll { None } else { w().tx_last_done };
                    tm.end(e == RErr::Timeout, closed, "receive");
                    return Err(e);
                }
            }
        } else {
            let res = rx.recv_ref_timeout(d);
            sched::cur().waiting_as = WaitingAs::Nothing;
            match res {
                Ok(r) => {
                    tm.end(false, None, "receive");
                    self.opened(t, r)
                }
                Err(e) => {
                    w().pop_none(t, Some(e));
                    let closed = if self.p.helpers_poll { None } else { w().tx_last_done };
                    tm.end(e == RErr::Timeout, closed, "receive");
                    return Err(e);
                }
            }
        }
        Ok(())
    }

    fn is_closed(&mut self) {
        let before = w().tx_last_done.is_some();
        let c = self.rx.is_closed();
        sched::tick();
        w().ev.is_closed_calls += 1;
        w().ev.checks += 1;
        if c && w().tx_live > 0 {
            judge("is-closed", format!("the receiver says it is closed, but {} senders exist", w().tx_live));
        }
        if !c && before && w().honest {
            judge("is-closed", "the receiver says it is not closed, but all senders were dropped".into());
        }
    }

    fn step(&mut self) -> bool {
        let p = self.p.clone();
        let block = !p.nonblocking && !w().wedged;
        let is_async = p.flavor.is_async();
        match self.rng.weighted(&[
            3,
            if block { 6 } else { 0 },
            if is_async { 0 } else { p.timed },
            if is_async { 1 + p.cancel } else { 0 },
            2,
            1,
            1,
            if p.leak { 1 } else { 0 },
        ]) {
            0 => {
                let _ = self.try_one();
            }
            1 => {
                self.release_all();
                return self.wait();
            }
            #[cfg(feature = "std")]
            2 => {
                let mut d = duration(&mut self.rng);
                if d > Duration::from_secs(100) {
                    if block {
                        self.release_all();
                    } else {
                        d = Duration::from_nanos(700);
                    }
                }
                let _ = self.timed(d);
            }
            3 => {
                // poll once and walk away
                let style = self.rng.below(4);
                if self.poll_once(style, false).is_none() {
                    w().ev.cancels += 1;
                }
            }
            4 => {
                if !self.got.is_empty() {
                    let k = self.rng.below(self.got.len());
                    self.got.swap_remove(k).finish(&mut self.rng, &p);
                }
            }
            5 => self.is_closed(),
            6 => {
                if self.rng.chance(2, 3) {
                    sched::sleep(self.rng.below(2500) as u64)
                } else {
                    let _ = self.rx.debug();
                }
            }
            _ => {
                if let Some(g) = self.got.pop() {
                    g.leak();
                }
            }
        }
        true
    }

    /// Receives now and then through the shared reference.
    fn help(mut self) {
        for _ in 0..1 + self.rng.below(self.p.ops + 2) {
            let p = self.p.clone();
            let is_async = p.flavor.is_async();
            let polls = p.helpers_poll as u32;
            match self.rng.weighted(&[
                6,
                if is_async { 4 * polls } else { 0 },
                if is_async { 0 } else { 4 * polls },
                2,
                1,
            ]) {
                0 => {
                    let _ = self.try_one();
                }
                1 => {
                    let style = self.rng.below(4);
                    let _ = self.poll_once(style, false);
                }
                #[cfg(feature = "std")]
                2 => {
                    let mut d = duration(&mut self.rng);
                    if d > Duration::from_secs(100) {
                        d = Duration::from_nanos(900);
                    }
                    let _ = self.timed(d);
                }
                3 => self.release_all(),
                _ => sched::sleep(self.rng.below(1500) as u64),
            }
        }
        self.release_all();
        w().ev.helpers += 1;
        world::drop_slot(self.slot);
        self.kept = (None, None);
        self.waker = None;
        self.helpers.set(self.helpers.get() - 1);
    }

    /// Returns whether everything was received.
    fn run(mut self) {
        self.early = self.rng.chance(self.p.early_drop, 12);
        let n = if self.early { self.rng.below(self.p.ops + 1) } else { self.p.ops };
        self.go_on(n);
    }

    fn go_on(mut self, steps: usize) {
        let mut open = true;
        let stop = self.rng.below(steps.max(1));
        for i in 0..steps {
            if i == stop {
                if let Some(r) = self.relay.take() {
                    r.clone().pass(self, steps - i);
                    return;
                }
            }
            if !self.step() {
                open = false;
                break;
            }
        }
        if let Some(r) = self.relay.take() {
            r.close();
        }
        if self.early && open {
            w().ev.rx_dropped_early += 1;
        } else {
            self.release_all();
            let mut idle = 0;
            while open {
                if self.p.nonblocking || w().wedged {
                    match self.try_one() {
                        Ok(()) => {}
                        Err(RErr::Closed) => open = false,
                        Err(_) => {
                            idle += 1;
                            if w().wedged && idle > 20 {
                                break;
                            }
                            sched::sleep(1000 << idle.min(30));
                        }
                    }
                } else {
                    open = self.wait();
                }
                self.release_all();
            }
            if !w().wedged {
                w().ev.drained += 1;
                // closed stays closed
                if let Ok(()) = self.try_one() {
                    judge("rx-closed-lie", "a receive succeeds after an earlier one reported closed".into());
                }
                self.is_closed();
            }
        }
        self.release_all();
        while self.helpers.get() > 0 {
            sched::sleep(2000);
        }
        if self.p.helpers > 0 {
            sched::join_all();
        }
        self.kept = (None, None);
        let rx = self.own.take().unwrap();
        w().rx_drop_begin();
        if self.p.unwind && self.rng.chance(1, 3) {
            drop_unwinding(rx);
        } else {
            let _n = sched::NoAlloc::new();
            drop(rx);
        }
        w().rx_drop_end();
        world::drop_slot(self.slot);
    }
}

fn expect_split_refused(c: &dyn StaticChan) {
    if c.try_split().is_some() {
        fail("split", "a static channel was split twice".into());
    }
    w().ev.refused_splits += 1;
    crate::EXPECT_PANIC.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| drop(c.split())));
    crate::EXPECT_PANIC.store(false, std::sync::atomic::Ordering::SeqCst);
    if r.is_ok() {
        fail("split", "split() of an already split static channel did not panic".into());
    }
}

fn run_channel(p: &Plan, r: &mut Rng) -> bool {
    let mut free;
    let mut chan: Option<Rc<Box<dyn StaticChan>>> = None;
    let handles: Rc<std::cell::RefCell<Vec<(Box<dyn Tx>, Box<dyn Rx>)>>> = Default::default();
    let race = if p.split_race > 0 {
        let (c, f) = make_static(p.flavor, p.cap);
        free = Some(f);
        chan = Some(Rc::new(c));
        if r.chance(1, 20) {
            // never split
            free.take().unwrap()();
            return false;
        }
        true
    } else {
        let (tx, rx, f) = make_channel(p.flavor, p.cap, p.custom);
        free = f;
        handles.borrow_mut().push((tx, rx));
        false
    };
    w().tx_live = 1;
    // distribution of the handles: the winner of the split (or the main task)
    // hands them out through a mailbox
    let n = p.tasks - 1;
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    if race {
        // all tasks race to split; the winner plays all the roles one after the
        // other, the others go on trying
        let c = chan.clone().unwrap();
        let attempts = p.split_race + 1;
        let wins = Rc::new(std::cell::Cell::new(0));
        for _ in 0..attempts.min(4) {
            let c = c.clone();
            let mut rng = Rng::new(r.next());
            let wins = wins.clone();
            let p = p.clone();
            bodies.push(Box::new(move || {
                for _ in 0..1 + rng.below(2) {
                    w().ev.splits += 1;
                    if let Some((tx, rx)) = c.try_split() {
                        wins.set(wins.get() + 1);
                        if wins.get() > 1 {
                            fail("split", "a static channel was split twice".into());
                        }
                        solo_channel(&p, &mut rng, tx, rx);
                    } else {
                        w().ev.refused_splits += 1;
                    }
                    sched::yield_point();
                }
            }));
        }
        sched::run_tasks(bodies);
        if wins.get() != 1 {
            fail("split", format!("{} attempts to split an unsplit static channel: {} succeeded", attempts, wins.get()));
        }
        expect_split_refused(&**c);
        drop(c);
        drop(chan);
        free.take().unwrap()();
        return false;
    }
    let (tx, rx) = handles.borrow_mut().pop().unwrap();
    let mut txs: Vec<Box<dyn Tx>> = vec![tx];
    for _ in 1..n {
        w().tx_live += 1;
        let t = txs[0].dup();
        txs.push(t);
    }
    let slot = world::new_slot();
    let shared: &'static dyn Rx = unsafe { std::mem::transmute(&*rx) };
    let helpers = Rc::new(std::cell::Cell::new(p.helpers));
    w().multi_rx = p.helpers > 0;
    w().rival_rx = p.helpers > 0 && p.helpers_poll;
    for _ in 0..p.helpers {
        let h = ReceiverTask {
            relay: None,
            early: false,
            own: None,
            rx: shared,
            helpers: helpers.clone(),
            got: Vec::new(),
            rng: Rng::new(r.next()),
            p: p.clone(),
            slot: world::new_slot(),
            waker: None,
            kept: (None, None),
        };
        bodies.push(Box::new(move || h.help()));
    }
    let rx_relay = p.moves.0.then(|| Relay::new(p.helpers + n + 2));
    let tx_relay = p.moves.1.then(|| Relay::new(p.helpers + n + 2 + p.moves.0 as usize));
    let mut movable = tx_relay.clone();
    let rt = ReceiverTask {
        relay: rx_relay.clone(),
        early: false,
        own: Some(rx),
        rx: shared,
        helpers,
        got: Vec::new(),
        rng: Rng::new(r.next()),
        p: p.clone(),
        slot,
        waker: None,
        kept: (None, None),
    };
    let mut rt = Some(rt);
    let at = r.below(n + 1);
    let left = Rc::new(std::cell::Cell::new(n));
    REENTERED.with(|c| c.set(0));
    *reentry() = None;
    if p.reentrant {
        w().reentrant = Some(reenter);
        w().tx_live += 1;
        *reentry() = Some(Spare {
            tx: txs[0].dup(),
            waiting: None,
        });
    }
    let mut i = 0;
    while i <= n {
        if i == at {
            let rt = rt.take().unwrap();
            bodies.push(Box::new(move || rt.run()));
        } else {
            let task = SenderTask {
                relay: movable.take(),
                txs: vec![Rc::new(txs.pop().unwrap())],
                open: Vec::new(),
                pend: Vec::new(),
                rng: Rng::new(r.next()),
                p: p.clone(),
            };
            let left = left.clone();
            let ops = p.ops;
            bodies.push(Box::new(move || {
                if task.run(ops) {
                    sender_done(&left);
                }
            }));
        }
        i += 1;
    }
    if let Some(relay) = rx_relay {
        bodies.push(Box::new(move || {
            if let Some((mut t, steps)) = relay.take() {
                t.waker = None;
                t.go_on(steps);
            }
        }));
    }
    if let Some(relay) = tx_relay {
        bodies.push(Box::new(move || {
            if let Some((mut t, steps)) = relay.take() {
                t.arrived();
                t.run(steps);
                sender_done(&left);
            }
        }));
    }
    sched::run_tasks(bodies);
    let drained = w().ev.drained > 0;
    if let Some(f) = free {
        f();
    }
    drained
}

fn sender_done(left: &std::cell::Cell<usize>) {
    left.set(left.get() - 1);
    if left.get() == 0 && reentry().is_some() {
        // the wakers' spare sender goes away with the last task
        w().reentrant = None;
        while REENTERED.with(|c| c.get()) > 0 {
            sched::pause_point();
        }
        sched::join_all();
        let t = reentry().take().unwrap();
        if let Some(x) = t.waiting {
            give_up(x);
        }
        w().tx_drop_begin();
        drop(t.tx);
        w().tx_drop_end();
    }
}

thread_local!(static REENTERED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

type RefFut = SendRefFut<'static>;

/// What the wakers that call back into the channel work with.
struct Spare {
    tx: Box<dyn Tx>,
    waiting: Option<(RefFut, usize, Waker)>,
}

fn reentry() -> &'static mut Option<Spare> {
    struct G(std::cell::UnsafeCell<Option<Spare>>);
    unsafe impl Sync for G {}
    static R: G = G(std::cell::UnsafeCell::new(None));
    unsafe { &mut *R.0.get() }
}

fn give_up((f, slot, wk): (RefFut, usize, Waker)) {
    w().ev.cancels += 1;
    drop(f);
    world::drop_slot(slot);
    drop(wk);
}

/// A waker that calls back into the channel: gives up a waiting send, or starts
/// one and gives it up at once or the next time.
fn reenter() {
    let Some(spare) = reentry() else { return };
    REENTERED.with(|c| c.set(c.get() + 1));
    if let Some(x) = spare.waiting.take() {
        w().spare_slot = None;
        give_up(x);
    } else {
        let id = w().new_msg();
        let slot = world::new_slot();
        let wk = world::new_waker(slot);
        let mut cx = Context::from_waker(&wk);
        let tx: &'static dyn Tx = unsafe { std::mem::transmute(&*spare.tx) };
        let mut f = tx.send_ref_fut();
        let t = w().push_begin(id);
        match f.as_mut().poll(&mut cx) {
            Poll::Pending => {
                w().push_none(t, id, None, true);
                // (another task may have been here meanwhile)
                let later = w().callbacks % 3 != 0;
                match reentry() {
                    Some(s) if later && s.waiting.is_none() && w().reentrant.is_some() => {
                        s.waiting = Some((f, slot, wk));
                        w().spare_slot = Some(slot);
                    }
                    _ => give_up((f, slot, wk)),
                }
            }
            Poll::Ready(Ok(r)) => {
                w().push_acq(t, id, true);
                let mut o = Open::new(r, id, None);
                o.r.get_mut().write(id, "send reference");
                o.r.get().unhold("send reference");
                w().push_release(id);
                let r = o.r;
                release(r);
                w().push_done(id);
                drop(f);
                world::drop_slot(slot);
                drop(wk);
            }
            Poll::Ready(Err(e)) => {
                w().push_none(t, id, Some(e), false);
                drop(f);
                world::drop_slot(slot);
                drop(wk);
            }
        }
    }
    // its notification came while nobody could act on it
    while w().spare_slot.is_some_and(world::slot_woken) {
        let x = reentry().as_mut().and_then(|s| s.waiting.take());
        w().spare_slot = None;
        if let Some(x) = x {
            give_up(x);
        }
    }
    REENTERED.with(|c| c.set(c.get() - 1));
}

/// Uses both ends of a channel from one task without ever waiting.
fn solo_channel(p: &Plan, rng: &mut Rng, tx: Box<dyn Tx>, rx: Box<dyn Rx>) {
    let mut p = p.clone();
    p.nonblocking = true;
    p.timed = 0;
    p.cancel = 0;
    p.helpers = 0;
    let mut s = SenderTask {
        relay: None,
        txs: vec![Rc::new(tx)],
        open: Vec::new(),
        pend: Vec::new(),
        rng: Rng::new(rng.next()),
        p: p.clone(),
    };
    let mut t = ReceiverTask {
        relay: None,
        early: false,
        rx: unsafe { std::mem::transmute(&*rx) },
        own: Some(rx),
        helpers: Default::default(),
        got: Vec::new(),
        rng: Rng::new(rng.next()),
        p: p.clone(),
        slot: world::new_slot(),
        waker: None,
        kept: (None, None),
    };
    for _ in 0..p.ops {
        if rng.chance(1, 2) {
            s.step();
        } else {
            t.step();
        }
    }
    if rng.chance(1, 2) {
        s.run(0);
        t.p.ops = 0;
        t.run();
    } else {
        t.release_all();
        t.kept = (None, None);
        w().rx_drop_begin();
        drop(t.own.take());
        w().rx_drop_end();
        world::drop_slot(t.slot);
        s.run(2);
    }
}
