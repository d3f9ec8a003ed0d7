use crate::api::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::{count, fail, scene, Injected};
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

const STD: bool = cfg!(feature = "std");
const ALLOC: bool = cfg!(feature = "alloc");

fn check<T: Msg>(m: &T, want: u64, kind: &str, what: &str) {
    match m.get() {
        Err(e) => fail("corrupt", format!("{what}: {e}")),
        Ok(v) => {
            let mask = if T::BITS == 64 { u64::MAX } else { (1 << T::BITS) - 1 };
            if v != want & mask {
                fail(kind, format!("{what}: expected message {}, got {v}", want & mask));
            }
        }
    }
}

fn fresh<T: Msg>(m: &T) {
    if let Err(e) = m.get() {
        fail("corrupt", format!("an element handed to a producer: {e}"));
    }
    if !m.is_default() {
        fail("dirty", "a producer was handed an element with old contents".into());
    }
}

fn live_check<T: Msg>(before: i64) {
    if BAD_DROPS.load(Relaxed) != 0 {
        fail("lifecycle", "an element was dropped or recycled while it was not alive".into());
    }
    let n = LIVE.load(Relaxed) - before;
    if T::COUNTED && n > 0 {
        fail("leak", format!("{n} elements were never dropped"));
    }
    if T::COUNTED && n < 0 {
        fail("lifecycle", format!("{} elements were dropped twice", -n));
    }
}

macro_rules! for_type {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n {
            0 => $f::<u64>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<()>($($a),*),
            3 => $f::<Token>($($a),*),
            4 => $f::<Words<1>>($($a),*),
            5 => $f::<Words<37>>($($a),*),
            6 => $f::<Wide>($($a),*),
            7 => $f::<String>($($a),*),
            8 => $f::<Option<Box<(u64, u64)>>>($($a),*),
            9 => $f::<u128>($($a),*),
            _ => $f::<u16>($($a),*),
        }
    };
}

fn pick_cap(r: &mut Rng, fixed: bool) -> usize {
    if fixed {
        STATIC_CAPS[r.below(STATIC_CAPS.len())]
    } else {
        match r.below(4) {
            0 => 1,
            1 => 1 + r.below(4),
            2 => 1 + r.below(9),
            _ => [15, 16, 17, 31, 32, 33, 64, 100][r.below(8)],
        }
    }
}

// ------------------------------------------------------------- one thread

pub fn shapes(r: &mut Rng) {
    let t = r.below(11);
    for_type!(t, shape(r));
}

fn shape<T: Msg>(r: &mut Rng) {
    let before = LIVE.load(Relaxed);
    let fixed = !ALLOC || r.chance(1, 2);
    let cap = pick_cap(r, fixed);
    let steps = if cfg!(miri) { 12 + r.below(12) } else { 50 + r.below(200) };
    let mut next = 1u64;
    let mut model: VecDeque<u64> = VecDeque::new();
    let kind = r.below(if STD { 3 } else { 2 });
    scene(format!("one thread, {}, {} capacity {cap}, {}", T::NAME, if fixed { "static" } else { "heap" }, ["queue", "async", "blocking"][kind]));
    let bias = 1 + r.below(7);
    if kind == 0 {
        let q = queue::<T>(fixed, cap);
        for _ in 0..steps {
            let id = next;
            if r.below(8) < bias {
                let mut put = |m: &mut T| {
                    fresh(m);
                    m.put(id)
                };
                let ok = match r.below(3) {
                    0 => match q.push(T::make(id)) {
                        Ok(()) => true,
                        Err(m) => {
                            check(&m, id, "payload", "value returned by a full queue");
                            false
                        }
                    },
                    1 => q.push_ref(&mut put),
                    _ => q.push_with(&mut put),
                };
                if ok != (model.len() < cap) {
                    fail(if ok { "overfull" } else { "full-lie" }, format!("push returned {ok} with {} of {cap} elements", model.len()));
                }
                if ok {
                    next += 1;
                    model.push_back(id);
                }
            } else {
                let want = model.pop_front();
                let w = want.unwrap_or(0);
                let mut get = |m: &mut T| {
                    if want.is_some() {
                        check(m, w, "fifo", "popped")
                    }
                };
                let got = match r.below(3) {
                    0 => match q.pop() {
                        Some(mut m) => {
                            get(&mut m);
                            true
                        }
                        None => false,
                    },
                    1 => q.pop_ref(&mut get),
                    _ => q.pop_with(&mut get),
                };
                if got != want.is_some() {
                    fail(if got { "phantom" } else { "empty-lie" }, format!("pop returned {got} with {} elements", model.len()));
                }
            }
            let (l, c, rem, e) = (q.len(), q.capacity(), q.remaining(), q.is_empty());
            if (l, c, rem, e) != (model.len(), cap, cap - model.len(), model.is_empty()) {
                fail("len-lie", format!("len {l}, capacity {c}, remaining {rem}, is_empty {e} with {} of {cap} elements", model.len()));
            }
        }
        let _ = q.debug();
    } else {
        let (_o, tx, rx) = channel::<T>(fixed, kind == 2, cap);
        for _ in 0..steps {
            let id = next;
            let room = model.len() < cap;
            if r.below(8) < bias {
                let mut put = |m: &mut T| {
                    fresh(m);
                    m.put(id)
                };
                let sent = match r.below(if room { 5 } else { 3 }) {
                    0 => tx.try_send(T::make(id)).map_err(|(e, m)| {
                        check(&m, id, "payload", "value returned by a full channel");
                        Some(e)
                    }),
                    1 => tx.try_send_ref(&mut put).map_err(Some),
                    2 => tx.try_hard(&mut put, r.below(3) as u32),
                    3 => tx.send(T::make(id)).map_err(|_| Some(Err::Closed)),
                    _ => tx.send_ref(&mut put).map_err(|_| Some(Err::Closed)),
                };
                match sent {
                    Ok(()) if room => {
                        next += 1;
                        model.push_back(id);
                    }
                    Ok(()) => fail("overfull", "a send into a full channel succeeded".into()),
                    Err(Some(Err::Closed)) => fail("closed-lie", "a send reported closed while the receiver exists".into()),
                    Err(e) if room => fail("full-lie", format!("a send reported {e:?} with {} of {cap} elements", model.len())),
                    Err(_) => {}
                }
            } else {
                let want = model.pop_front();
                let w = want.unwrap_or(0);
                let mut get = |m: &mut T| {
                    if want.is_some() {
                        check(m, w, "fifo", "received")
                    }
                };
                let got = match r.below(if want.is_some() { 5 } else { 3 }) {
                    0 => rx.try_recv().map(|mut m| get(&mut m)).map_err(Some),
                    1 => rx.try_recv_ref(&mut get).map_err(Some),
                    2 => match rx.recv_hard(&mut get, r.below(3) as u32) {
                        Ok(true) => Ok(()),
                        Ok(false) => Err(Some(Err::Closed)),
                        Err(()) => Err(None),
                    },
                    3 => rx.recv().map(|mut m| get(&mut m)).ok_or(Some(Err::Closed)),
                    _ => if rx.recv_ref(&mut get) { Ok(()) } else { Err(Some(Err::Closed)) },
                };
                match got {
                    Ok(()) if want.is_some() => {}
                    Ok(()) => fail("phantom", "received from an empty channel".into()),
                    Err(Some(Err::Closed)) => fail("rx-closed-lie", "a receive reported closed while a sender exists".into()),
                    Err(e) if want.is_some() => fail("empty-lie", format!("a receive reported {e:?} though a message was there")),
                    Err(_) => {}
                }
            }
        }
        let _ = (tx.debug(), rx.debug());
        if r.chance(1, 2) {
            drop(tx);
            if !rx.is_closed() {
                fail("is-closed", "is_closed is false without senders".into());
            }
            while let Some(w) = model.pop_front() {
                match rx.recv() {
                    Some(m) => check(&m, w, "fifo", "received while draining"),
                    None => fail("lost-at-close", "closed before all messages were received".into()),
                }
            }
            if rx.recv().is_some() {
                fail("phantom", "received from a drained channel".into());
            }
            if !matches!(rx.try_recv(), Err(Err::Closed)) {
                fail("rx-not-closed", "try_recv on a drained closed channel".into());
            }
        } else {
            drop(rx);
            match tx.try_send(T::make(next)) {
                Err((Err::Closed, m)) => check(&m, next, "payload", "value returned by a closed channel"),
                x => fail("not-closed", format!("a send after the receiver was dropped: {:?}", x.map_err(|e| e.0))),
            }
            match tx.send(T::make(next)) {
                Err(m) => check(&m, next, "payload", "value returned by a closed channel"),
                Ok(()) => fail("not-closed", "a send after the receiver was dropped succeeded".into()),
            }
        }
    }
    count("shape_steps", steps as u64);
    live_check::<T>(before);
}

// ------------------------------------------------------------ many threads

/// Checks a stream of (producer, number) pairs.
struct Ledger {
    last: Vec<Mutex<u64>>,
    seen: Vec<Vec<AtomicBool>>,
    sent: Vec<Vec<AtomicBool>>,
    got: AtomicUsize,
    order: bool,
}
impl Ledger {
    fn new(producers: usize, per: usize, order: bool) -> Self {
        let t = |n: usize| (0..n).map(|_| AtomicBool::new(false)).collect::<Vec<_>>();
        Ledger {
            last: (0..producers).map(|_| Mutex::new(0)).collect(),
            seen: (0..producers).map(|_| t(per + 1)).collect(),
            sent: (0..producers).map(|_| t(per + 1)).collect(),
            got: AtomicUsize::new(0),
            order,
        }
    }
    /// `mine`: last number from each producer that this consumer saw
    fn receive<T: Msg>(&self, m: &T, mine: &mut [u64]) {
        self.got.fetch_add(1, Relaxed);
        let v = match m.get() {
            Err(e) => fail("corrupt", format!("received: {e}")),
            Ok(v) => v,
        };
        if T::BITS < 64 {
            return;
        }
        let (p, n) = ((v >> 32) as usize, v as u32 as usize);
        if p == 0 || p > self.seen.len() || n == 0 || n >= self.seen[0].len() {
            fail("phantom", format!("received {v:#x}, which nobody sent"));
        }
        let p = p - 1;
        if self.seen[p][n].swap(true, Relaxed) {
            fail("dup", format!("message {n} of producer {p} was received twice"));
        }
        if n as u64 <= mine[p] {
            fail("fifo", format!("message {n} of producer {p} received after its message {}", mine[p]));
        }
        mine[p] = n as u64;
        if self.order {
            *self.last[p].lock().unwrap() = n as u64;
        }
    }
    fn finish<T: Msg>(&self, drained: bool) {
        let mut sent = 0;
        for p in 0..self.sent.len() {
            for n in 0..self.sent[p].len() {
                let (s, g) = (self.sent[p][n].load(Relaxed), self.seen[p][n].load(Relaxed));
                sent += s as usize;
                if T::BITS == 64 && g && !s {
                    fail("phantom", format!("message {n} of producer {p} was received but its send failed"));
                }
                if T::BITS == 64 && drained && s && !g {
                    fail("lost", format!("message {n} of producer {p} was sent but never received"));
                }
            }
        }
        let got = self.got.load(Relaxed);
        if drained && got != sent {
            fail(if got < sent { "lost" } else { "dup" }, format!("{sent} messages sent, {got} received"));
        }
        count("sent", sent as u64);
        count("received", got as u64);
    }
}

fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 if !cfg!(miri) => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop();
            }
        }
        2 if !cfg!(miri) && r.chance(1, 20) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

pub fn threads(r: &mut Rng) {
    let t = [0, 4, 5, 6, 7, 8, 2, 3][r.below(8)];
    let queue = r.chance(1, 3);
    if queue {
        for_type!(t, queue_threads(r));
    } else {
        for_type!(t, channel_threads(r));
    }
}

fn queue_threads<T: Msg>(r: &mut Rng) {
    let before = LIVE.load(Relaxed);
    let fixed = !ALLOC || r.chance(1, 2);
    let cap = if r.chance(1, 2) { 1 + r.below(3) } else { pick_cap(r, fixed) };
    let producers = 1 + r.below(3);
    let consumers = 1 + r.below(3);
    let per = if cfg!(miri) { 2 + r.below(3) } else { 20 + r.below(200) };
    scene(format!("threads, {}, queue static {fixed} capacity {cap}, {producers}x{per} -> {consumers}", T::NAME));
    let q = queue::<T>(fixed, cap);
    let led = Ledger::new(producers, per, false);
    let done = AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..producers + consumers).map(|_| r.next()).collect();
    std::thread::scope(|s| {
        for p in 0..producers {
            let (q, led, done) = (&q, &led, &done);
            let mut r = Rng::new(seeds[p]);
            s.spawn(move || {
                for n in 1..=per {
                    let id = (p as u64 + 1) << 32 | n as u64;
                    loop {
                        let mut put = |m: &mut T| {
                            fresh(m);
                            m.put(id);
                            led.sent[p][n].store(true, Relaxed);
                        };
                        let ok = match r.below(3) {
                            0 => {
                                let ok = match q.push(T::make(id)) {
                                    Ok(()) => true,
                                    Err(m) => {
                                        check(&m, id, "payload", "value returned by a full queue");
                                        false
                                    }
                                };
                                if ok {
                                    led.sent[p][n].store(true, Relaxed);
                                }
                                ok
                            }
                            1 => q.push_ref(&mut put),
                            _ => q.push_with(&mut put),
                        };
                        let l = q.len();
                        if l > cap {
                            fail("len-lie", format!("len {l} of a queue of capacity {cap}"));
                        }
                        if ok {
                            break;
                        }
                        std::thread::yield_now();
                    }
                    jitter(&mut r);
                }
                done.fetch_add(1, SeqCst);
            });
        }
        for c in 0..consumers {
            let (q, led, done) = (&q, &led, &done);
            let mut r = Rng::new(seeds[producers + c]);
            s.spawn(move || {
                let mut mine = vec![0; producers];
                loop {
                    let over = done.load(SeqCst) == producers;
                    let mut get = |m: &mut T| led.receive(m, &mut mine);
                    let got = match r.below(3) {
                        0 => q.pop().map(|mut m| get(&mut m)).is_some(),
                        1 => q.pop_ref(&mut get),
                        _ => q.pop_with(&mut get),
                    };
                    if !got {
                        // others may hold the next element for a moment
                        if over && led.got.load(SeqCst) >= producers * per {
                            break;
                        }
                        if over && q.is_empty() {
                            break;
                        }
                        std::thread::yield_now();
                    }
                    jitter(&mut r);
                }
            });
        }
    });
    led.finish::<T>(true);
    if !q.is_empty() || q.len() != 0 || q.remaining() != cap {
        fail("len-lie", format!("a drained queue has len {} and remaining {}", q.len(), q.remaining()));
    }
    drop(q);
    count("thread_runs", 1);
    live_check::<T>(before);
}

fn channel_threads<T: Msg>(r: &mut Rng) {
    let before = LIVE.load(Relaxed);
    let fixed = !ALLOC || r.chance(1, 2);
    let blocking = STD && r.chance(1, 2);
    let cap = if r.chance(1, 2) { 1 + r.below(3) } else { pick_cap(r, fixed) };
    let producers = 1 + r.below(4);
    let per = if cfg!(miri) { 1 + r.below(3) } else { 10 + r.below(150) };
    // the receiver leaves early in some runs
    let leave = if r.chance(1, 4) { 1 + r.below(producers * per) } else { usize::MAX };
    let waits_only = r.chance(1, 3);
    scene(format!("threads, {}, {} channel static {fixed} capacity {cap}, {producers}x{per}, leave {leave}", T::NAME, if blocking { "blocking" } else { "async" }));
    let (o, tx, rx) = channel::<T>(fixed, blocking, cap);
    let led = Arc::new(Ledger::new(producers, per, false));
    let gone = Arc::new(AtomicBool::new(false));
    let leaving = Arc::new(AtomicBool::new(false));
    let seeds: Vec<u64> = (0..producers + 1).map(|_| r.next()).collect();
    std::thread::scope(|s| {
        for p in 0..producers {
            let tx = tx.dup();
            let (led, gone, leaving) = (led.clone(), gone.clone(), leaving.clone());
            let mut r = Rng::new(seeds[p]);
            s.spawn(move || {
                let mut tx = tx;
                'all: for n in 1..=per {
                    let id = (p as u64 + 1) << 32 | n as u64;
                    loop {
                        let was_gone = gone.load(SeqCst);
                        let mut used = false;
                        let mut put = |m: &mut T| {
                            fresh(m);
                            m.put(id);
                            used = true;
                        };
                        let res = match if waits_only { 2 + r.below(2) } else { r.below(5) } {
                            0 => tx.try_send(T::make(id)).map_err(|(e, m)| {
                                check(&m, id, "payload", "value returned by a failed send");
                                Some(e)
                            }),
                            1 => tx.try_send_ref(&mut put).map_err(Some),
                            2 => tx.send(T::make(id)).map_err(|m| {
                                check(&m, id, "payload", "value returned by a failed send");
                                Some(Err::Closed)
                            }),
                            3 => tx.send_ref(&mut put).map_err(|_| Some(Err::Closed)),
                            _ => tx.try_hard(&mut put, r.below(6) as u32),
                        };
                        if used && res.is_err() {
                            fail("closure", "a failed send lent an element".into());
                        }
                        match res {
                            Ok(()) => {
                                if was_gone {
                                    fail("not-closed", "a send succeeded after the receiver was dropped".into());
                                }
                                led.sent[p][n].store(true, Relaxed);
                                break;
                            }
                            Err(Some(Err::Closed)) => {
                                if !leaving.load(SeqCst) {
                                    fail("closed-lie", "a send reported closed while the receiver exists".into());
                                }
                                break 'all;
                            }
                            Err(_) => {
                                if was_gone {
                                    fail("not-closed", "a send did not report closed after the receiver was dropped".into());
                                }
                                std::thread::yield_now()
                            }
                        }
                    }
                    jitter(&mut r);
                    if r.chance(1, 40) {
                        tx = tx.dup();
                    }
                }
            });
        }
        drop(tx);
        let led = led.clone();
        let mut r = Rng::new(seeds[producers]);
        let (gone, leaving) = (gone.clone(), leaving.clone());
        s.spawn(move || {
            let mut mine = vec![0; producers];
            let mut n = 0;
            loop {
                if n >= leave {
                    leaving.store(true, SeqCst);
                    drop(rx);
                    gone.store(true, SeqCst);
                    return;
                }
                let mut get = |m: &mut T| led.receive(m, &mut mine);
                let res = match if waits_only { 2 + r.below(2) } else { r.below(5) } {
                    0 => rx.try_recv().map(|mut m| get(&mut m)).map_err(Some),
                    1 => rx.try_recv_ref(&mut get).map_err(Some),
                    2 => rx.recv().map(|mut m| get(&mut m)).ok_or(Some(Err::Closed)),
                    3 => if rx.recv_ref(&mut get) { Ok(()) } else { Err(Some(Err::Closed)) },
                    _ => match rx.recv_hard(&mut get, r.below(6) as u32) {
                        Ok(true) => Ok(()),
                        Ok(false) => Err(Some(Err::Closed)),
                        Err(()) => Err(None),
                    },
                };
                match res {
                    Ok(()) => n += 1,
                    Err(Some(Err::Closed)) => break,
                    Err(_) => std::thread::yield_now(),
                }
                jitter(&mut r);
            }
            if !rx.is_closed() {
                fail("is-closed", "is_closed is false after closed was reported".into());
            }
            if rx.recv().is_some() {
                fail("rx-closed-lie", "a message arrived after closed was reported".into());
            }
        });
    });
    led.finish::<T>(leave == usize::MAX || !gone.load(SeqCst));
    drop(o);
    count("thread_runs", 1);
    live_check::<T>(before);
}

// ---------------------------------------------- many waiting futures, one thread

struct Flag(AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// Random polls, drops and receives over a set of pending sends: the intrusive
/// wait list under the eyes of a sanitizer or Miri.
pub fn waiters(r: &mut Rng) {
    let fixed = !ALLOC || r.chance(1, 2);
    if fixed {
        waiters_static(r)
    } else {
        #[cfg(feature = "alloc")]
        waiters_heap(r)
    }
}

#[cfg(feature = "alloc")]
fn waiters_heap(r: &mut Rng) {
    let cap = 1 + r.below(3);
    scene(format!("waiting futures, heap channel of capacity {cap}"));
    let before = LIVE.load(Relaxed);
    let (tx, rx) = thingbuf::mpsc::channel::<Words<2>>(cap);
    let mk = || -> Fut<'_> { Box::pin(async { tx.send(Words::make(7)).await.map_err(|e| drop(e.into_inner())) }) };
    let mkr = || -> Fut<'_> {
        Box::pin(async {
            tx.send_ref().await.map(|mut m| m.put(7)).map_err(|_| ())
        })
    };
    wait_loop(r, cap, &mk, &mkr, Box::new(rx));
    drop(tx);
    live_check::<Words<2>>(before);
}

fn waiters_static(r: &mut Rng) {
    scene("waiting futures, static channel of capacity 2".into());
    let before = LIVE.load(Relaxed);
    let c: *mut thingbuf::mpsc::StaticChannel<Words<2>, 2> = Box::into_raw(Box::new(thingbuf::mpsc::StaticChannel::new()));
    let (tx, rx) = unsafe { &*c }.split();
    {
        let mk = || -> Fut<'_> { Box::pin(async { tx.send(Words::make(7)).await.map_err(|e| drop(e.into_inner())) }) };
        let mkr = || -> Fut<'_> {
            Box::pin(async {
                tx.send_ref().await.map(|mut m| m.put(7)).map_err(|_| ())
            })
        };
        wait_loop(r, 2, &mk, &mkr, Box::new(rx));
    }
    drop(tx);
    drop(unsafe { Box::from_raw(c) });
    live_check::<Words<2>>(before);
}

type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), ()>> + 'a>>;

fn wait_loop<'a>(r: &mut Rng, cap: usize, mk: &'a dyn Fn() -> Fut<'a>, mkr: &'a dyn Fn() -> Fut<'a>, rx: Box<dyn Rx<Words<2>>>) {
    let mut rx = Some(rx);
    struct P<'a> {
        f: Fut<'a>,
        flag: Arc<Flag>,
        seen: u64,
    }
    let mut pend: Vec<P> = Vec::new();
    let mut held = 0usize;
    let steps = if cfg!(miri) { 14 } else { 120 };
    for _ in 0..steps {
        match r.below(9) {
            0..=2 if pend.len() < 7 => {
                let mut f = if r.chance(1, 2) { mk() } else { mkr() };
                let flag = Arc::new(Flag(AtomicU64::new(0)));
                let wk: Waker = flag.clone().into();
                match f.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(Ok(())) => {
                        if rx.is_none() {
                            fail("not-closed", "a send succeeded without a receiver".into());
                        }
                        held += 1
                    }
                    Poll::Ready(Err(())) => {
                        if rx.is_some() {
                            fail("closed-lie", "a send reported closed while the receiver exists".into());
                        }
                    }
                    Poll::Pending => {
                        if rx.is_none() {
                            fail("tx-missed-close", "a send is pending without a receiver".into());
                        }
                        pend.push(P { f, flag, seen: 0 })
                    }
                }
            }
            3..=4 if !pend.is_empty() => {
                // poll one again, perhaps as another task
                let k = r.below(pend.len());
                let p = &mut pend[k];
                if r.chance(1, 2) {
                    p.flag = Arc::new(Flag(AtomicU64::new(0)));
                    p.seen = 0;
                }
                let wk: Waker = p.flag.clone().into();
                p.seen = p.flag.0.load(SeqCst);
                match p.f.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(x) => {
                        held += x.is_ok() as usize;
                        drop(pend.swap_remove(k));
                    }
                    Poll::Pending => {}
                }
            }
            5 if !pend.is_empty() => {
                let k = r.below(pend.len());
                drop(pend.remove(k));
                count("cancelled", 1);
            }
            6..=7 => {
                if let Some(rx) = &rx {
                    match rx.try_recv_ref(&mut |m| check(m, 7, "corrupt", "received")) {
                        Ok(()) => held -= 1,
                        Err(Err::Empty) if held == 0 => {}
                        Err(e) => fail("empty-lie", format!("try_recv_ref reported {e:?} with {held} messages")),
                    }
                }
            }
            _ => {
                if r.chance(1, 12) && rx.is_some() {
                    rx = None;
                    for p in &pend {
                        if p.flag.0.load(SeqCst) == p.seen {
                            fail("tx-missed-close", "a waiting send was not woken when the receiver was dropped".into());
                        }
                    }
                }
            }
        }
        if held > cap {
            fail("overfull", format!("{held} messages in a channel of capacity {cap}"));
        }
        // whoever waits is woken once the channel is empty: drain and look
        if r.chance(1, 25) {
            if let Some(rx) = &rx {
                let mut rounds = 0;
                loop {
                    while rx.try_recv_ref(&mut |_| ()).is_ok() {
                        held -= 1;
                    }
                    let mut progress = false;
                    let mut k = 0;
                    while k < pend.len() {
                        let p = &mut pend[k];
                        if p.flag.0.load(SeqCst) > p.seen {
                            p.seen = p.flag.0.load(SeqCst);
                            let wk: Waker = p.flag.clone().into();
                            if let Poll::Ready(x) = p.f.as_mut().poll(&mut Context::from_waker(&wk)) {
                                if x.is_err() {
                                    fail("closed-lie", "a send reported closed while the receiver exists".into());
                                }
                                held += 1;
                                drop(pend.remove(k));
                            } else {
                                k += 1;
                            }
                            progress = true;
                        } else {
                            k += 1;
                        }
                    }
                    if !progress && held == 0 {
                        break;
                    }
                    rounds += 1;
                    if rounds > 100 {
                        fail("livelock", "woken senders never get capacity".into());
                    }
                }
                if !pend.is_empty() {
                    fail("tx-lost-wakeup", format!("the channel is empty and {} senders are still asleep", pend.len()));
                }
            }
        }
    }
    if r.chance(1, 2) {
        drop(rx.take());
    }
    while !pend.is_empty() {
        let k = r.below(pend.len());
        drop(pend.remove(k));
    }
    drop(rx);
    count("waiter_runs", 1);
}

// ------------------------------------------------------------------- faults

static NEW_IN: AtomicUsize = AtomicUsize::new(0);
static RECYCLE_IN: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug)]
struct Bomb;
impl thingbuf::recycling::Recycle<Words<2>> for Bomb {
    fn new_element(&self) -> Words<2> {
        if NEW_IN.load(Relaxed) > 0 && NEW_IN.fetch_sub(1, Relaxed) == 1 {
            std::panic::panic_any(Injected);
        }
        Words::default()
    }
    fn recycle(&self, m: &mut Words<2>) {
        if RECYCLE_IN.load(Relaxed) > 0 && RECYCLE_IN.fetch_sub(1, Relaxed) == 1 {
            std::panic::panic_any(Injected);
        }
        m.clone_from(&Words::default());
    }
}

/// Panics in constructors, policies and closures; references and handles
/// dropped by unwinding; leaked references. Judged by element counts and by
/// whichever sanitizer runs this.
pub fn faults(r: &mut Rng) {
    let before = LIVE.load(Relaxed);
    let leak = r.chance(1, 5);
    let fault = r.below(4);
    NEW_IN.store(if fault == 1 { 1 + r.below(6) } else { 0 }, Relaxed);
    RECYCLE_IN.store(if fault == 2 { 1 + r.below(6) } else { 0 }, Relaxed);
    let cap = 1 + r.below(4);
    let fixed = !ALLOC || r.chance(1, 2);
    scene(format!("faults: kind {fault}, leak {leak}, capacity {cap}, static {fixed}"));
    let mut leaked = 0;
    if fixed {
        let q = thingbuf::StaticThingBuf::<Words<2>, 2, Bomb>::with_recycle(Bomb);
        fault_loop(r, &q, leak, &mut leaked);
    } else {
        #[cfg(feature = "alloc")]
        {
            let q = thingbuf::ThingBuf::<Words<2>, Bomb>::with_recycle(cap, Bomb);
            fault_loop(r, &q, leak, &mut leaked);
        }
    }
    #[cfg(feature = "alloc")]
    {
        NEW_IN.store(if fault == 1 { 1 + r.below(6) } else { 0 }, Relaxed);
        RECYCLE_IN.store(if fault == 2 { 1 + r.below(6) } else { 0 }, Relaxed);
        let (tx, rx) = thingbuf::mpsc::with_recycle::<Words<2>, Bomb>(cap, Bomb);
        let rx: Box<dyn Rx<Words<2>>> = Box::new(rx);
        let tx: Box<dyn Tx<Words<2>>> = Box::new(tx);
        for _ in 0..6 + r.below(14) {
            let boom = fault == 3 && r.chance(1, 3);
            let k = r.below(5);
            let patience = r.below(2) as u32;
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let mut f = |m: &mut Words<2>| {
                    let _ = m.get().map_err(|e| fail("corrupt", e));
                    if boom {
                        std::panic::panic_any(Injected)
                    }
                    m.put(3);
                };
                match k {
                    0 => drop(tx.try_send_ref(&mut f)),
                    1 => drop(tx.try_hard(&mut f, patience)),
                    2 => drop(rx.try_recv_ref(&mut f)),
                    3 => drop(rx.try_recv()),
                    _ => drop(tx.try_send(Words::make(3))),
                }
            }));
        }
        if r.chance(1, 2) {
            let mut o = Some(tx);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _tx = o.take();
                std::panic::panic_any(Injected);
            }));
            if !rx.is_closed() {
                fail("rx-not-closed", "the channel is not closed though its last sender was dropped by unwinding".into());
            }
        } else {
            let mut o = Some(rx);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _rx = o.take();
                std::panic::panic_any(Injected);
            }));
            match tx.try_send(Words::make(1)) {
                Err((Err::Closed, _)) => {}
                _ => fail("not-closed", "the channel is not closed though its receiver was dropped by unwinding".into()),
            }
        }
    }
    NEW_IN.store(0, Relaxed);
    RECYCLE_IN.store(0, Relaxed);
    count("fault_runs", 1);
    let n = LIVE.load(Relaxed) - before;
    if BAD_DROPS.load(Relaxed) != 0 || n < 0 {
        fail("lifecycle", format!("elements dropped twice or while not alive (balance {n})"));
    }
    if n > leaked {
        fail("leak", format!("{n} elements were never dropped, {leaked} references were leaked"));
    }
}

fn fault_loop<Q: Queue<Words<2>> + Leaky>(r: &mut Rng, q: &Q, leak: bool, leaked: &mut i64) {
    for _ in 0..8 + r.below(16) {
        let boom = r.chance(1, 4);
        let k = r.below(7);
        if k == 6 {
            if leak && r.chance(1, 2) {
                *leaked += q.leak(r.chance(1, 2)) as i64;
            }
            continue;
        }
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let mut f = |m: &mut Words<2>| {
                let _ = m.get().map_err(|e| fail("corrupt", e));
                if boom {
                    std::panic::panic_any(Injected)
                }
                m.put(3);
            };
            match k {
                0 => drop(q.push_ref(&mut f)),
                1 => drop(q.push_with(&mut f)),
                2 => drop(q.push(Words::make(5))),
                3 => drop(q.pop_ref(&mut f)),
                4 => drop(q.pop_with(&mut f)),
                _ => drop(q.pop()),
            }
        }));
        if q.len() > q.capacity() {
            fail("len-lie", format!("len {} > capacity {}", q.len(), q.capacity()));
        }
    }
}

trait Leaky {
    fn leak(&self, push: bool) -> bool;
}
#[cfg(feature = "alloc")]
impl Leaky for thingbuf::ThingBuf<Words<2>, Bomb> {
    fn leak(&self, push: bool) -> bool {
        leak_ref(&|| if push { self.push_ref().ok() } else { self.pop_ref() })
    }
}
impl<const N: usize> Leaky for thingbuf::StaticThingBuf<Words<2>, N, Bomb> {
    fn leak(&self, push: bool) -> bool {
        leak_ref(&|| if push { self.push_ref().ok() } else { self.pop_ref() })
    }
}
fn leak_ref<'a>(f: &dyn Fn() -> Option<thingbuf::Ref<'a, Words<2>>>) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Some(x)) => {
            std::mem::forget(x);
            true
        }
        _ => false,
    }
}
