//! Probes of single promises: recycling policies, thread-safety of the public
//! types, refused capacities, statics, real-time timeouts, errors, references.
use crate::msg::*;
use crate::rng::Rng;
use crate::{count, fail, scene, ALLOCS};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};
use thingbuf::{mpsc, StaticThingBuf};

pub static EXPECT_PANIC: AtomicBool = AtomicBool::new(false);

/// Does this panic (without output)?
fn panics(f: impl FnOnce()) -> bool {
    EXPECT_PANIC.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    EXPECT_PANIC.store(false, SeqCst);
    r
}

// ------------------------------------------------------------------ policies

trait Coll: 'static {
    const NAME: &'static str;
    fn cap(&self) -> usize;
    fn count(&self) -> usize;
    fn fill(&mut self, n: usize);
    fn with(n: usize) -> Self;
    /// what the documentation says about recycling
    fn reset(&mut self, max: usize);
    /// address of the allocation, if it can be known
    fn addr(&self) -> Option<usize>;
}
macro_rules! coll {
    ($t:ty, $name:literal, $with:expr, |$s:ident, $i:ident| $add:expr, |$a:ident| $addr:expr) => {
        impl Coll for $t {
            const NAME: &'static str = $name;
            fn cap(&self) -> usize {
                self.capacity()
            }
            fn count(&self) -> usize {
                self.len()
            }
            fn fill(&mut self, n: usize) {
                let $s = self;
                for $i in 0..n {
                    $add;
                }
            }
            fn with(n: usize) -> Self {
                $with(n)
            }
            fn reset(&mut self, max: usize) {
                self.clear();
                self.shrink_to(max);
            }
            fn addr(&self) -> Option<usize> {
                let $a = self;
                $addr
            }
        }
    };
}
#[cfg(feature = "alloc")]
mod colls {
    use super::*;
    use std::collections::*;
    coll!(Vec<u32>, "Vec", Self::with_capacity, |s, i| s.push(i as u32), |s| Some(s.as_ptr() as usize));
    coll!(String, "String", Self::with_capacity, |s, i| s.push((b'a' + (i % 26) as u8) as char), |s| Some(s.as_ptr() as usize));
    coll!(VecDeque<u16>, "VecDeque", Self::with_capacity, |s, i| if i % 3 == 0 { s.push_front(i as u16) } else { s.push_back(i as u16) }, |s| { let _ = s; None });
    coll!(BinaryHeap<u64>, "BinaryHeap", Self::with_capacity, |s, i| s.push((i as u64).wrapping_mul(2654435761)), |s| { let _ = s; None });
    #[cfg(feature = "std")]
    type H = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
    #[cfg(feature = "std")]
    coll!(HashMap<u32, u8, H>, "HashMap", (|n| Self::with_capacity_and_hasher(n, Default::default())), |s, i| { s.insert(i as u32, i as u8); }, |s| { let _ = s; None });
    #[cfg(feature = "std")]
    coll!(HashSet<u32, H>, "HashSet", (|n| Self::with_capacity_and_hasher(n, Default::default())), |s, i| { s.insert(i as u32); }, |s| { let _ = s; None });

    pub fn all(r: &mut Rng) {
        one::<Vec<u32>>(r);
        one::<String>(r);
        one::<VecDeque<u16>>(r);
        one::<BinaryHeap<u64>>(r);
        #[cfg(feature = "std")]
        {
            one::<HashMap<u32, u8, H>>(r);
            one::<HashSet<u32, H>>(r);
        }
    }
}

#[cfg(feature = "alloc")]
fn one<C: Coll>(r: &mut Rng)
where
    WithCapacity: Recycle<C>,
{
    let size = |r: &mut Rng| match r.below(4) {
        0 => 0,
        1 => r.below(5),
        2 => r.below(40),
        _ => r.below(300),
    };
    let (min, max) = (size(r), if r.chance(1, 4) { usize::MAX } else { size(r) });
    let p = match r.below(4) {
        0 => WithCapacity::new().with_min_capacity(min).with_max_capacity(max),
        1 => WithCapacity::default().with_max_capacity(max).with_min_capacity(min),
        2 => WithCapacity::new().with_min_capacity(9).with_max_capacity(11).with_min_capacity(min).with_max_capacity(max),
        _ => WithCapacity::new().with_max_capacity(max).with_min_capacity(min).clone(),
    };
    scene(format!("policy: {} min {min} max {max}", C::NAME));
    if (p.min_capacity(), p.max_capacity()) != (min, max) {
        fail("policy", format!("asked for {min}..{max}, the policy says {}..{}", p.min_capacity(), p.max_capacity()));
    }
    let p = std::sync::Arc::new(p);
    let mut e: C = if r.chance(1, 2) { p.new_element() } else { (*p).new_element() };
    if e.count() != 0 || e.cap() < min {
        fail("policy", format!("a new element has {} entries and capacity {}", e.count(), e.cap()));
    }
    if min == 0 && e.cap() != 0 {
        fail("policy", format!("a new element without a minimum has capacity {}", e.cap()));
    }
    // the same steps on a collection treated as documented
    let mut twin = C::with(min);
    if twin.cap() != e.cap() {
        fail("policy", format!("a new element has capacity {}, `with_capacity` gives {}", e.cap(), twin.cap()));
    }
    for _ in 0..1 + r.below(4) {
        let n = size(r);
        e.fill(n);
        twin.fill(n);
        let (cap, addr) = (e.cap(), e.addr());
        if r.chance(1, 2) {
            p.recycle(&mut e)
        } else {
            (*p).recycle(&mut e)
        }
        twin.reset(max);
        if e.count() != 0 {
            fail("dirty", format!("a recycled element has {} entries", e.count()));
        }
        if cap <= max && (e.cap() != cap || e.addr() != addr) {
            fail("policy", format!("recycling did not keep an allocation of capacity {cap} (now {}) though the maximum is {max}", e.cap()));
        }
        if cap > max && e.cap() < max {
            fail("policy", format!("recycling shrank capacity {cap} to {}, below the maximum of {max}", e.cap()));
        }
        if e.cap() != twin.cap() {
            fail("policy", format!("recycling left capacity {}, clearing and shrinking to the maximum leaves {}", e.cap(), twin.cap()));
        }
        count("recycled", 1);
    }
}

#[derive(Default)]
struct Tracked {
    v: Vec<u8>,
}
static CLONE_FROM: AtomicUsize = AtomicUsize::new(0);
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked { v: self.v.clone() }
    }
    fn clone_from(&mut self, o: &Self) {
        CLONE_FROM.fetch_add(1, Relaxed);
        self.v.clone_from(&o.v);
    }
}

pub fn policies(r: &mut Rng) {
    #[cfg(feature = "alloc")]
    colls::all(r);
    // the default policy: default value, by `clone_from`, keeping allocations
    scene("policy: default".into());
    let p = if r.chance(1, 2) { DefaultRecycle::new() } else { DefaultRecycle::default() };
    let mut s: String = p.new_element();
    if !s.is_empty() || s.capacity() != 0 {
        fail("policy", "a new element of the default policy is not the default".into());
    }
    for _ in 0..r.below(60) {
        s.push('x');
    }
    let (cap, at) = (s.capacity(), s.as_ptr());
    p.recycle(&mut s);
    if !s.is_empty() {
        fail("dirty", "the default policy left old contents".into());
    }
    if (s.capacity(), s.as_ptr()) != (cap, at) {
        fail("policy", "the default policy did not keep a string's allocation".into());
    }
    let mut t: Tracked = p.new_element();
    t.v = vec![1, 2, 3];
    let n = CLONE_FROM.load(Relaxed);
    p.recycle(&mut t);
    if CLONE_FROM.load(Relaxed) != n + 1 || !t.v.is_empty() {
        fail("policy", "the default policy does not use clone_from with the default value".into());
    }
    let mut n: u64 = p.new_element();
    n += r.next() | 1;
    p.recycle(&mut n);
    if n != 0 {
        fail("dirty", "the default policy left an old number".into());
    }
}

// ---------------------------------------------------------------------- pool

/// A pool of strings: capacities within the policy's limits, contents clean,
/// no element created or allocated once the pool is warm.
pub fn pool(r: &mut Rng) {
    #[cfg(feature = "alloc")]
    {
        static MADE: AtomicUsize = AtomicUsize::new(0);
        #[derive(Debug)]
        struct Counting(WithCapacity);
        impl Recycle<String> for Counting {
            fn new_element(&self) -> String {
                MADE.fetch_add(1, Relaxed);
                Recycle::<String>::new_element(&self.0)
            }
            fn recycle(&self, s: &mut String) {
                self.0.recycle(s)
            }
        }
        let (min, max) = (r.below(40), 20 + r.below(60));
        let cap = 1 + r.below(6);
        let policy = || Counting(WithCapacity::new().with_min_capacity(min).with_max_capacity(max));
        MADE.store(0, Relaxed);
        let which = r.below(if cfg!(feature = "std") { 5 } else { 4 });
        scene(format!("pool of strings {min}..{max}, capacity {cap}, kind {which}"));
        let heap;
        let fixed;
        let q: &dyn crate::api::Queue<String>;
        let mut chan: Option<(Box<dyn crate::api::Tx<String>>, Box<dyn crate::api::Rx<String>>)> = None;
        let cap = if which == 1 { 3 } else { cap };
        heap = thingbuf::ThingBuf::<String, Counting>::with_recycle(cap, policy());
        fixed = StaticThingBuf::<String, 3, Counting>::with_recycle(policy());
        q = if which == 1 { &fixed } else { &heap };
        match which {
            2 | 3 => {
                let (a, b) = mpsc::with_recycle::<String, Counting>(cap, policy());
                chan = Some((Box::new(a), Box::new(b)));
            }
            #[cfg(feature = "std")]
            4 => {
                let (a, b) = mpsc::blocking::with_recycle::<String, Counting>(cap, policy());
                chan = Some((Box::new(a), Box::new(b)));
            }
            _ => {}
        }
        let mut depth = 0;
        let mut total = 0;
        for step in 0..30 + r.below(60) {
            let warm = total >= 2 * cap;
            let small = r.below(20.min(max).max(1)).min(min.max(1));
            let n = if r.chance(1, 6) { r.below(200) } else { small };
            let a0 = ALLOCS.load(Relaxed);
            let m0 = MADE.load(Relaxed);
            let mut bad: Option<String> = None;
            let mut grew = false;
            let push = depth == 0 || depth < cap && r.chance(1, 2);
            if push {
                let mut f = |s: &mut String| {
                    if !s.is_empty() {
                        bad = Some("dirty".into());
                    }
                    if s.capacity() > max.max(min) {
                        bad = Some("big".into());
                    }
                    grew = s.capacity() < n;
                    for _ in 0..n {
                        s.push('y');
                    }
                };
                let ok = match &chan {
                    None if r.chance(1, 2) => q.push_ref(&mut f),
                    None => q.push_with(&mut f),
                    Some((tx, _)) => tx.try_send_ref(&mut f).is_ok(),
                };
                if !ok {
                    fail("full-lie", format!("refused with {depth} of {cap} elements"));
                }
                depth += 1;
                total += 1;
            } else {
                let ok = match &chan {
                    None => q.pop_ref(&mut |_| ()),
                    Some((_, rx)) => rx.try_recv_ref(&mut |_| ()).is_ok(),
                };
                if !ok {
                    fail("empty-lie", "refused though an element was there".into());
                }
                depth -= 1;
            }
            match bad.as_deref() {
                Some("dirty") => fail("dirty", format!("step {step}: a producer was handed old contents")),
                Some(_) => fail("policy", format!("step {step}: a producer was handed an element above the maximum of {max}")),
                None => {}
            }
            let made = MADE.load(Relaxed) - m0;
            if made > 1 || made == 1 && (!push || warm) {
                fail("churn", format!("step {step}: an element was created though by-reference operations reuse elements"));
            }
            let allocs = ALLOCS.load(Relaxed) - a0;
            // shrinking to the maximum may reallocate; growing does
            if warm && allocs > 0 && !grew && !push && !cfg!(miri) && quiet() {
                fail("alloc", format!("step {step}: {allocs} allocations by a receive"));
            }
            count("pool_steps", 1);
        }
        if MADE.load(Relaxed) > cap {
            fail("churn", format!("{} elements created for a pool of {cap}", MADE.load(Relaxed)));
        }
    }
    let _ = r;
}

/// No other thread allocates (the watchdog sleeps).
fn quiet() -> bool {
    true
}

// ------------------------------------------------------------ refused requests

pub fn zero() {
    scene("capacity 0".into());
    let mut bad = Vec::new();
    #[cfg(feature = "alloc")]
    {
        if !panics(|| drop(thingbuf::ThingBuf::<u8>::new(0))) {
            bad.push("ThingBuf::new")
        }
        if !panics(|| drop(thingbuf::ThingBuf::<u8, DefaultRecycle>::with_recycle(0, DefaultRecycle::new()))) {
            bad.push("ThingBuf::with_recycle")
        }
        if !panics(|| drop(mpsc::channel::<u8>(0))) {
            bad.push("mpsc::channel")
        }
        if !panics(|| drop(mpsc::with_recycle::<u8, _>(0, DefaultRecycle::new()))) {
            bad.push("mpsc::with_recycle")
        }
    }
    #[cfg(feature = "std")]
    {
        if !panics(|| drop(mpsc::blocking::channel::<u8>(0))) {
            bad.push("blocking::channel")
        }
        if !panics(|| drop(mpsc::blocking::with_recycle::<u8, _>(0, DefaultRecycle::new()))) {
            bad.push("blocking::with_recycle")
        }
        if !panics(|| drop(mpsc::blocking::StaticChannel::<u8, 0>::new())) {
            bad.push("blocking::StaticChannel::new")
        }
    }
    if !panics(|| drop(StaticThingBuf::<u8, 0>::new())) {
        bad.push("StaticThingBuf::new")
    }
    if !panics(|| drop(StaticThingBuf::<u8, 0, DefaultRecycle>::with_recycle(DefaultRecycle::new()))) {
        bad.push("StaticThingBuf::with_recycle")
    }
    if !panics(|| drop(mpsc::StaticChannel::<u8, 0>::new())) {
        bad.push("mpsc::StaticChannel::new")
    }
    count("zero_capacity", 10);
    if !bad.is_empty() {
        fail("zero", format!("a capacity of 0 is accepted by {}", bad.join(", ")));
    }
}

// --------------------------------------------------------------------- statics

static QUEUE: StaticThingBuf<u64, 5> = StaticThingBuf::new();

/// Queues and channels in `static` items, used by threads; no allocation.
pub fn statics(r: &mut Rng) {
    scene("static items".into());
    let n = if cfg!(miri) { 4 } else { 40 };
    let a0 = ALLOCS.load(Relaxed);
    for i in 1..=n {
        if QUEUE.push_ref().map(|mut x| *x = i).is_err() {
            fail("full-lie", "an empty static queue is full".into());
        }
        if r.chance(1, 2) {
            if QUEUE.pop() != Some(i) {
                fail("fifo", "wrong element from a static queue".into());
            }
        } else if QUEUE.pop_ref().map(|x| *x) != Some(i) {
            fail("fifo", "wrong element from a static queue".into());
        }
    }
    let a = ALLOCS.load(Relaxed) - a0;
    if a != 0 && !cfg!(miri) {
        fail("alloc", format!("{a} allocations by operations on a static queue"));
    }
    std::thread::scope(|s| {
        s.spawn(|| {
            for i in 1..=n {
                while QUEUE.push(i).is_err() {
                    std::thread::yield_now();
                }
            }
        });
        for i in 1..=n {
            loop {
                match QUEUE.pop() {
                    Some(x) if x == i => break,
                    Some(x) => fail("fifo", format!("expected {i}, got {x}")),
                    None => std::thread::yield_now(),
                }
            }
        }
    });
    count("static_runs", 1);
}

// ---------------------------------------------------------------- real time

#[cfg(feature = "std")]
pub fn clock(r: &mut Rng) {
    use std::time::{Duration, Instant};
    use thingbuf::mpsc::{blocking as b, errors::*};
    scene("timeouts in real time".into());
    let (tx, rx) = b::channel::<u64>(1);
    let ms = if r.chance(1, 4) { 0 } else { 1 + r.below(12) as u64 };
    let d = Duration::from_micros(ms * 1000 + r.below(900) as u64 * (ms > 0) as u64);
    let noise = AtomicBool::new(true);
    let me = std::thread::current();
    std::thread::scope(|s| {
        // somebody unparks the waiting thread for other reasons
        s.spawn(|| {
            while noise.load(Relaxed) {
                me.unpark();
                std::thread::sleep(Duration::from_micros(300));
            }
        });
        let t = Instant::now();
        let res = rx.recv_timeout(d);
        let took = t.elapsed();
        if res != Err(RecvTimeoutError::Timeout) {
            fail("timeout-missed", format!("recv_timeout on an idle channel: {res:?}"));
        }
        if took < d {
            fail("timeout-early", format!("recv_timeout({d:?}) gave up after {took:?}"));
        }
        if tx.send(1).is_err() {
            fail("closed-lie", "send failed".into());
        }
        let t = Instant::now();
        let res = tx.send_timeout(77, d);
        let took = t.elapsed();
        match res {
            Err(e) if e.is_timeout() && !e.is_closed() => {
                if e.into_inner() != 77 {
                    fail("payload", "another value came back".into());
                }
            }
            x => fail("timeout-missed", format!("send_timeout on a full channel: {x:?}")),
        }
        if took < d {
            fail("timeout-early", format!("send_timeout({d:?}) gave up after {took:?}"));
        }
        let t = Instant::now();
        if tx.send_ref_timeout(d).is_ok() {
            fail("overfull", "send_ref_timeout succeeded on a full channel".into());
        }
        if t.elapsed() < d {
            fail("timeout-early", format!("send_ref_timeout({d:?}) gave up after {:?}", t.elapsed()));
        }
        if rx.recv_timeout(d) != Ok(1) {
            fail("timeout-missed", "a message that was there was not received".into());
        }
        let t = Instant::now();
        match rx.recv_ref_timeout(d) {
            Err(RecvTimeoutError::Timeout) => {}
            x => fail("timeout-missed", format!("recv_ref_timeout on an idle channel: {:?}", x.map(|x| *x))),
        }
        if t.elapsed() < d {
            fail("timeout-early", format!("recv_ref_timeout({d:?}) gave up after {:?}", t.elapsed()));
        }
        noise.store(false, Relaxed);
    });
    // very long timeouts neither overflow nor delay anything
    for d in [Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(1 << 40)] {
        if tx.send_timeout(5, d).is_err() {
            fail("timeout-missed", "send_timeout with a long timeout failed".into());
        }
        std::thread::scope(|s| {
            s.spawn(|| {
                std::thread::sleep(Duration::from_millis(1));
                if rx.recv_timeout(d) != Ok(5) || rx.recv_timeout(d) != Ok(6) {
                    fail("timeout-missed", "recv_timeout with a long timeout failed".into());
                }
            });
            if tx.send_timeout(6, d).is_err() {
                fail("timeout-missed", "send_timeout with a long timeout failed".into());
            }
        });
    }
    count("clock_runs", 1);
}
#[cfg(not(feature = "std"))]
pub fn clock(_: &mut Rng) {}

// -------------------------------------------------------------------- errors

/// Every error: variant, queries, texts, payload.
pub fn errors(r: &mut Rng) {
    scene("errors".into());
    let v = r.next();
    fn texts(what: &str, want: &str, not: &[&str], texts: &[String]) {
        for t in texts {
            let t = t.to_lowercase();
            // the wording is free, but it must not name another cause
            let named = t.contains(want);
            if t.is_empty() || !named && not.iter().any(|n| t.contains(n)) {
                fail("error-report", format!("{what} is described as {t:?}"));
            }
        }
    }
    // only after the type's name, which may well contain "send" and so on
    fn dbg<E: std::fmt::Debug>(e: &E) -> String {
        let s = format!("{e:?}");
        s.rsplit("::").next().unwrap().to_string()
    }
    let q = StaticThingBuf::<u64, 1>::new();
    q.push(1).ok();
    let e = q.push(v).err().unwrap_or_else(|| fail("overfull", "push into a full queue".into()));
    texts("a full queue", "full", &["closed", "timed"], &[format!("{e}"), dbg(&e)]);
    if e.into_inner() != v {
        fail("payload", "another value came back from a full queue".into());
    }
    let c: &'static mpsc::StaticChannel<u64, 1> = Box::leak(Box::new(mpsc::StaticChannel::new()));
    let (tx, rx) = c.split();
    tx.try_send(1).ok();
    use thingbuf::mpsc::errors::*;
    fn full(e: TrySendError<u64>, v: u64) {
        if !e.is_full() || e.is_closed() || !matches!(e, TrySendError::Full(_)) {
            fail("error-report", format!("a full channel: is_full {} is_closed {}", e.is_full(), e.is_closed()));
        }
        texts("a full channel", "full", &["closed", "timed"], &[format!("{e}"), dbg(&e)]);
        if e.into_inner() != v {
            fail("payload", "another value came back from a full channel".into());
        }
    }
    fn closed(e: TrySendError<u64>, v: u64) {
        if e.is_full() || !e.is_closed() || !matches!(e, TrySendError::Closed(_)) {
            fail("error-report", format!("a closed channel: is_full {} is_closed {}", e.is_full(), e.is_closed()));
        }
        texts("a closed channel", "closed", &["full", "timed"], &[format!("{e}"), dbg(&e)]);
        if e.into_inner() != v {
            fail("payload", "another value came back from a closed channel".into());
        }
    }
    match tx.try_send(v) {
        Err(e) => full(e, v),
        Ok(()) => fail("overfull", "try_send into a full channel".into()),
    }
    match tx.try_send_ref() {
        Err(e) if e.is_full() && !e.is_closed() => texts("a full channel", "full", &["closed"], &[format!("{e}"), dbg(&e)]),
        _ => fail("error-report", "try_send_ref into a full channel".into()),
    }
    if rx.try_recv() != Ok(1) {
        fail("empty-lie", "try_recv".into());
    }
    match rx.try_recv() {
        Err(e @ TryRecvError::Empty) => texts("an empty channel", "empty", &["closed"], &[format!("{e}"), dbg(&e)]),
        x => fail("error-report", format!("try_recv on an empty channel: {x:?}")),
    }
    let keep = r.chance(1, 2);
    if keep {
        drop(tx);
        match rx.try_recv() {
            Err(e @ TryRecvError::Closed) => texts("a closed channel", "closed", &["empty"], &[format!("{e}"), dbg(&e)]),
            x => fail("error-report", format!("try_recv on a closed channel: {x:?}")),
        }
    } else {
        drop(rx);
        match tx.try_send(v) {
            Err(e) => closed(e, v),
            Ok(()) => fail("not-closed", "try_send into a closed channel".into()),
        }
        match crate::api::block_on(tx.send(v)) {
            Err(e) => {
                texts("a closed channel", "closed", &["full", "timed"], &[format!("{e}"), dbg(&e)]);
                if e.into_inner() != v {
                    fail("payload", "another value came back from a closed channel".into());
                }
            }
            Ok(()) => fail("not-closed", "send into a closed channel".into()),
        }
    }
    #[cfg(feature = "std")]
    {
        use std::time::Duration;
        use thingbuf::mpsc::blocking as b;
        fn is_error<E: std::error::Error>(_: &E) {}
        let (tx, rx) = b::channel::<u64>(1);
        match rx.recv_timeout(Duration::ZERO) {
            Err(e @ RecvTimeoutError::Timeout) => {
                is_error(&e);
                texts("a timeout", "time", &["closed"], &[format!("{e}"), dbg(&e)])
            }
            x => fail("error-report", format!("recv_timeout on an empty channel: {x:?}")),
        }
        tx.send(1).ok();
        match tx.try_send(v) {
            Err(e) => full(e, v),
            Ok(()) => fail("overfull", "try_send into a full channel".into()),
        }
        match tx.send_timeout(v, Duration::ZERO) {
            Err(e) => {
                is_error(&e);
                if !e.is_timeout() || e.is_closed() || !matches!(e, SendTimeoutError::Timeout(_)) {
                    fail("error-report", format!("a timeout: is_timeout {} is_closed {}", e.is_timeout(), e.is_closed()));
                }
                texts("a timeout", "time", &["closed", "full"], &[format!("{e}"), dbg(&e)]);
                if e.into_inner() != v {
                    fail("payload", "another value came back from a timeout".into());
                }
            }
            Ok(()) => fail("overfull", "send_timeout into a full channel".into()),
        }
        if keep {
            drop(rx);
            match tx.send_timeout(v, Duration::from_secs(1)) {
                Err(e) => {
                    if e.is_timeout() || !e.is_closed() || !matches!(e, SendTimeoutError::Closed(_)) {
                        fail("error-report", format!("closed: is_timeout {} is_closed {}", e.is_timeout(), e.is_closed()));
                    }
                    texts("a closed channel", "closed", &["timed", "full"], &[format!("{e}"), dbg(&e)]);
                    if e.into_inner() != v {
                        fail("payload", "another value came back from a closed channel".into());
                    }
                }
                Ok(()) => fail("not-closed", "send_timeout into a closed channel".into()),
            }
            match tx.send_ref_timeout(Duration::from_secs(1)) {
                Err(e) if e.is_closed() && !e.is_timeout() => {}
                _ => fail("error-report", "send_ref_timeout into a closed channel".into()),
            };
            match tx.try_send(v) {
                Err(e) => closed(e, v),
                Ok(()) => fail("not-closed", "try_send into a closed channel".into()),
            }
        } else {
            drop(tx);
            if rx.recv_timeout(Duration::from_secs(1)) != Ok(1) {
                fail("lost-at-close", "the message sent before closing was not received".into());
            }
            match rx.recv_timeout(Duration::from_secs(1)) {
                Err(e @ RecvTimeoutError::Closed) => texts("a closed channel", "closed", &["time"], &[format!("{e}"), dbg(&e)]),
                x => fail("error-report", format!("recv_timeout on a closed channel: {x:?}")),
            }
        }
    }
    count("error_runs", 1);
}

// ---------------------------------------------------------------- references

/// References show, format and write what their element holds.
pub fn refs(r: &mut Rng) {
    use std::fmt::Write;
    scene("references".into());
    let n = r.next();
    let want = format!("<{n}>");
    fn same(what: &str, want: &str, deref: &str, display: String, debug: String) {
        if deref != want || display != want || debug != format!("{want:?}") {
            fail("corrupt", format!("{what}: holds {deref:?}, displays {display:?}, debugs {debug:?}, written {want:?}"));
        }
    }
    /// Two shared borrows of one reference at once, then the same reference
    /// looked through from several threads.
    fn shared<X: std::ops::Deref<Target = String> + Sync>(what: &str, want: &str, x: &X, threads: u64) {
        let one: &String = &**x;
        let two: &String = &**x;
        if one != want || two != want || !std::ptr::eq(one, two) {
            fail("corrupt", format!("{what}: two borrows of it see {one:?} and {two:?}, written {want:?}"));
        }
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let three: &String = &**x;
                    std::thread::yield_now();
                    if three != want {
                        fail("corrupt", format!("{what}: seen from a second thread it holds {three:?}, written {want:?}"));
                    }
                });
            }
        });
        // The first borrows are still good.
        if one != want || two != want {
            fail("corrupt", format!("{what}: a borrow of it changed under its holder"));
        }
    }
    macro_rules! fill {
        ($x:expr, $what:literal) => {{
            let mut x = $x;
            match r.below(3) {
                0 => write!(x, "<{n}>").unwrap(),
                1 => {
                    x.write_char('<').unwrap();
                    x.write_str(&n.to_string()).unwrap();
                    x.write_char('>').unwrap();
                }
                _ => x.push_str(&want),
            }
            same($what, &want, &**x, format!("{x}"), format!("{x:?}"));
            shared($what, &want, &x, r.below(3) as u64);
        }};
    }
    macro_rules! see {
        ($x:expr, $what:literal) => {{
            let mut x = $x;
            same($what, &want, &**x, format!("{x}"), format!("{x:?}"));
            shared($what, &want, &x, r.below(3) as u64);
            if r.chance(1, 2) {
                match r.below(3) {
                    0 => write!(x, "ta{}", "il").unwrap(),
                    1 => x.write_str("tail").unwrap(),
                    _ => "tail".chars().for_each(|c| x.write_char(c).unwrap()),
                }
                if *x != format!("{want}tail") {
                    fail("corrupt", "a write through a reference went astray".into());
                }
            }
        }};
    }
    let q = StaticThingBuf::<String, 2>::new();
    fill!(q.push_ref().unwrap(), "push reference");
    see!(q.pop_ref().unwrap(), "pop reference");
    let c: *mut mpsc::StaticChannel<String, 2> = Box::into_raw(Box::new(mpsc::StaticChannel::new()));
    {
        let (tx, rx) = unsafe { &*c }.split();
        fill!(tx.try_send_ref().unwrap(), "async send reference");
        see!(rx.try_recv_ref().unwrap(), "async receive reference");
    }
    drop(unsafe { Box::from_raw(c) });
    #[cfg(feature = "std")]
    {
        let (tx, rx) = mpsc::blocking::channel::<String>(2);
        fill!(tx.send_ref().unwrap(), "blocking send reference");
        see!(rx.recv_ref().unwrap(), "blocking receive reference");
    }
    count("ref_runs", 1);
}

// --------------------------------------------------------------------- split

pub fn split(r: &mut Rng) {
    scene("splitting".into());
    let n = 2 + r.below(3);
    macro_rules! run {
        ($t:ty, $new:expr) => {{
            let c: *mut $t = Box::into_raw(Box::new($new));
            let p: &'static $t = unsafe { &*c };
            let wins = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..n {
                    s.spawn(|| {
                        if let Some((tx, rx)) = p.try_split() {
                            wins.fetch_add(1, SeqCst);
                            tx.try_send(1).ok();
                            drop(tx);
                            if rx.try_recv().is_err() {
                                fail("lost-at-close", "the message of the split channel is gone".into());
                            }
                        }
                    });
                }
            });
            if wins.load(SeqCst) != 1 {
                fail("split", format!("{n} attempts to split a channel: {} succeeded", wins.load(SeqCst)));
            }
            if p.try_split().is_some() {
                fail("split", "a channel was split again after its handles were dropped".into());
            }
            if !panics(|| drop(p.split())) {
                fail("split", "a second split did not panic".into());
            }
            drop(unsafe { Box::from_raw(c) });
        }};
    }
    run!(mpsc::StaticChannel<u64, 2>, mpsc::StaticChannel::new());
    #[cfg(feature = "std")]
    run!(mpsc::blocking::StaticChannel<u64, 2>, mpsc::blocking::StaticChannel::new());
    count("splits", n as u64);
}

// ---------------------------------------------------------------- big queues

pub fn big(r: &mut Rng) {
    #[cfg(feature = "alloc")]
    {
        let cap = match r.below(6) {
            0 => 255 + r.below(3),
            1 => 1023 + r.below(3),
            2 if !cfg!(miri) => 65535 + r.below(3),
            3 if !cfg!(miri) => 100_000 + r.below(100_000),
            4 if !cfg!(miri) => (1 << 20) - 1 + r.below(3),
            _ => 60 + r.below(80),
        };
        scene(format!("large queue of capacity {cap}"));
        let q = thingbuf::ThingBuf::<u32>::new(cap);
        if q.capacity() != cap {
            fail("len-lie", format!("capacity {} instead of {cap}", q.capacity()));
        }
        let (mut head, mut tail) = (0u32, 0u32);
        for lap in 0..3 {
            while q.push(tail).is_ok() {
                tail += 1;
                if (tail - head) as usize > cap {
                    fail("overfull", format!("more than {cap} elements"));
                }
            }
            if (tail - head) as usize != cap || q.len() != cap || q.remaining() != 0 {
                fail("full-lie", format!("lap {lap}: full with {} of {cap} elements (len {})", tail - head, q.len()));
            }
            let take = if lap == 2 { cap } else { 1 + r.below(cap) };
            for _ in 0..take {
                if q.pop() != Some(head) {
                    fail("fifo", format!("lap {lap}: expected {head}"));
                }
                head += 1;
            }
            if q.len() != cap - take {
                fail("len-lie", format!("lap {lap}: len {} instead of {}", q.len(), cap - take));
            }
        }
        if !q.is_empty() || q.pop().is_some() {
            fail("phantom", "elements left".into());
        }
        count("big_runs", 1);
    }
    let _ = r;
    let _ = LIVE.load(Relaxed);
}
