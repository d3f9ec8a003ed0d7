//! The same promises far from the small numbers: thousands of clones, of
//! waiting sends and of laps around the ring.
use crate::api::{self, Err, Queue, Rx};
use crate::msg::*;
use crate::rng::Rng;
use crate::{count, fail, scene};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

const ALLOC: bool = cfg!(feature = "alloc");
const STD: bool = cfg!(feature = "std");

pub fn many(r: &mut Rng) {
    match r.weighted(&[3, 4, 3, 2, if STD && !cfg!(miri) { 1 } else { 0 }]) {
        0 => clones(r),
        1 => crowd(r),
        2 => laps(r),
        3 => marathon(r),
        _ => {
            #[cfg(feature = "std")]
            sleepers(r)
        }
    }
}

fn amount(r: &mut Rng, sizes: &[usize]) -> usize {
    if cfg!(miri) {
        return 3 + r.below(20);
    }
    let n = *r.pick(sizes);
    n - n / 8 + r.below(n / 4 + 1)
}

/// Any number of senders: the channel closes with the last one, not earlier.
fn clones(r: &mut Rng) {
    let (fixed, blocking) = (!ALLOC || r.chance(1, 2), STD && r.chance(1, 2));
    let n = amount(r, &[30, 130, 256, 300, 1000, 40_000, 66_000]);
    scene(format!("{n} senders (static {fixed}, blocking {blocking})"));
    let (_owner, tx, rx) = api::channel::<u64>(fixed, blocking, 4);
    let mut txs = vec![tx];
    for _ in 1..n {
        let t = txs[r.below(txs.len())].dup();
        txs.push(t);
    }
    let mut check = |left: usize, rx: &dyn Rx<u64>| {
        if rx.is_closed() != (left == 0) {
            fail("is-closed", format!("is_closed() is {} with {left} of {n} senders", rx.is_closed()));
        }
        match (rx.try_recv(), left) {
            (Err(Err::Empty), 1..) | (Err(Err::Closed), 0) => {}
            (Err(Err::Closed), _) => fail("rx-closed-lie", format!("closed with {left} of {n} senders")),
            (Err(_), _) => fail("rx-not-closed", "not closed without senders".into()),
            (Ok(x), _) => fail("phantom", format!("received {x}")),
        }
    };
    check(n, &*rx);
    for left in (0..n).rev() {
        let k = r.below(txs.len());
        if left == 0 && txs[0].try_send(77).is_err() {
            fail("closed-lie", "the last sender cannot send".into());
        }
        drop(txs.swap_remove(k));
        if left == 0 && !matches!(rx.try_recv(), Ok(77)) {
            fail("lost-at-close", "the last message is gone".into());
        }
        if left < 3 || left % 61 == 0 {
            check(left, &*rx);
        }
    }
    count("clones", n as u64);
}

struct Flag(AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), ()>> + 'a>>;

/// Any number of waiting sends, some of which are given up.
fn crowd(r: &mut Rng) {
    let fixed = !ALLOC || r.chance(1, 2);
    let n = amount(r, &[20, 130, 300, 1500, 4000]);
    scene(format!("{n} waiting sends (static {fixed})"));
    if fixed {
        let c: *mut thingbuf::mpsc::StaticChannel<u64, 3> = Box::into_raw(Box::new(thingbuf::mpsc::StaticChannel::new()));
        {
            let (tx, rx) = unsafe { &*c }.split();
            let mk = |i: u64| -> Fut<'_> {
                let tx = &tx;
                Box::pin(async move { tx.send(i).await.map_err(drop) })
            };
            crowd_loop(r, 3, n, &mk, Box::new(rx));
        }
        drop(unsafe { Box::from_raw(c) });
    } else {
        #[cfg(feature = "alloc")]
        {
            let cap = *r.pick(&[1, 2, 17]);
            let (tx, rx) = thingbuf::mpsc::channel::<u64>(cap);
            let mk = |i: u64| -> Fut<'_> {
                let tx = &tx;
                Box::pin(async move {
                    tx.send_ref().await.map(|mut m| *m = i).map_err(drop)
                })
            };
            crowd_loop(r, cap, n, &mk, Box::new(rx));
        }
    }
    count("crowd", n as u64);
}

fn crowd_loop<'a>(r: &mut Rng, cap: usize, n: usize, mk: &'a dyn Fn(u64) -> Fut<'a>, rx: Box<dyn Rx<u64>>) {
    struct P<'a> {
        f: Fut<'a>,
        flag: Arc<Flag>,
        seen: u64,
        id: u64,
    }
    let mut sent = std::collections::HashSet::new();
    let mut next = 0u64;
    let mut start = |pend: &mut Vec<P<'a>>, sent: &mut std::collections::HashSet<u64>| {
        next += 1;
        let mut f = mk(next);
        let flag = Arc::new(Flag(AtomicU64::new(0)));
        match f.as_mut().poll(&mut Context::from_waker(&flag.clone().into())) {
            Poll::Pending => pend.push(P { f, flag, seen: 0, id: next }),
            Poll::Ready(Ok(())) => drop(sent.insert(next)),
            Poll::Ready(Err(())) => fail("closed-lie", "a send reports closed".into()),
        }
    };
    let mut pend: Vec<P> = Vec::new();
    for _ in 0..n {
        start(&mut pend, &mut sent);
    }
    if sent.len() != cap {
        fail("full-lie", format!("{} of {n} sends did not wait, capacity {cap}", sent.len()));
    }
    // give some up, in a random order
    let quit = match r.below(4) {
        0 => 0,
        1 => pend.len(),
        _ => r.below(pend.len() + 1),
    };
    for _ in 0..quit {
        let k = r.below(pend.len());
        drop(pend.swap_remove(k));
    }
    // receive everything
    let mut idle = 0;
    while idle < 2 {
        idle += 1;
        let take = 1 + r.below(cap + 1);
        for _ in 0..take {
            match rx.try_recv() {
                Ok(id) => {
                    if !sent.remove(&id) {
                        fail("phantom", format!("received {id} twice or unsent"));
                    }
                    idle = 0;
                }
                Err(Err::Empty) => {
                    if !sent.is_empty() {
                        fail("empty-lie", format!("empty with {} messages", sent.len()));
                    }
                    break;
                }
                Err(_) => fail("rx-closed-lie", "closed".into()),
            }
        }
        let mut k = 0;
        while k < pend.len() {
            let p = &mut pend[k];
            let now = p.flag.0.load(SeqCst);
            if now == p.seen {
                k += 1;
                continue;
            }
            p.seen = now;
            let wk: Waker = p.flag.clone().into();
            match p.f.as_mut().poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(Ok(())) => {
                    sent.insert(p.id);
                    drop(pend.swap_remove(k));
                    idle = 0;
                }
                Poll::Ready(Err(())) => fail("closed-lie", "a send reports closed".into()),
                Poll::Pending => k += 1,
            }
        }
    }
    if !pend.is_empty() {
        fail("tx-lost-wakeup", format!("{} of {n} senders are asleep and the channel is empty", pend.len()));
    }
    // again, and close
    let m = cap + 1 + r.below(n);
    for _ in 0..m {
        start(&mut pend, &mut sent);
    }
    drop(rx);
    for p in pend.iter_mut() {
        if p.flag.0.load(SeqCst) == p.seen {
            fail("tx-missed-close", format!("one of {} waiting sends was not woken by closing", m));
        }
        let wk: Waker = p.flag.clone().into();
        match p.f.as_mut().poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(Err(())) => {}
            Poll::Ready(Ok(())) => fail("not-closed", "a waiting send succeeded after closing".into()),
            Poll::Pending => fail("tx-missed-close", "a waiting send goes on waiting after closing".into()),
        }
    }
}

/// Very many laps around a small ring.
fn laps(r: &mut Rng) {
    let fixed = !ALLOC || r.chance(1, 2);
    let cap = *r.pick(&[1, 2, 3, 4, 7, 8]);
    let n = amount(r, &[1000, 70_000, 300_000, 600_000]);
    scene(format!("{n} operations on a ring of {cap}"));
    let q = api::queue::<u64>(fixed, cap);
    let mut model: VecDeque<u64> = VecDeque::new();
    let mut id = 0;
    let mut bias = 4;
    for i in 0..n {
        if i % 64 == 0 {
            bias = r.below(9);
        }
        if r.below(9) >= bias {
            id += 1;
            let ok = if id % 2 == 0 { q.push(id).is_ok() } else { q.push_ref(&mut |x| *x = id) };
            if ok != (model.len() < cap) {
                fail(if ok { "overfull" } else { "full-lie" }, format!("push number {i}: {ok} with {} of {cap}", model.len()));
            }
            if ok {
                model.push_back(id);
            }
        } else {
            let mut got = None;
            if i % 2 == 0 {
                got = q.pop();
            } else {
                q.pop_ref(&mut |x| got = Some(*x));
            }
            let want = model.pop_front();
            match (got, want) {
                (Some(a), Some(b)) if a == b => {}
                (None, None) => {}
                (None, _) => fail("empty-lie", format!("pop number {i}: nothing, expected {want:?}")),
                (_, None) => fail("phantom", format!("pop number {i}: {got:?} from an empty queue")),
                _ => fail("fifo", format!("pop number {i}: {got:?}, expected {want:?}")),
            }
        }
        if q.len() != model.len() {
            fail("len-lie", format!("operation {i}: len {} instead of {}", q.len(), model.len()));
        }
    }
    count("lap_ops", n as u64);
}

/// Laps, laps, laps: elements are reused, and none is made or lost on the way.
fn marathon(r: &mut Rng) {
    let fixed = !ALLOC || r.chance(1, 2);
    let cap = *r.pick(&[1, 1, 2, 3]);
    let far = !cfg!(debug_assertions) && r.chance(1, 8);
    let n = if far { 17_000_000 } else { amount(r, &[1000, 75_000, 150_000, 300_000]) };
    scene(format!("{n} pushes and pops on a ring of {cap}"));
    let before = LIVE.load(Relaxed);
    let q = api::queue::<Words<1>>(fixed, cap);
    let (mut pushed, mut popped) = (0u64, 0u64);
    while (popped as usize) < n {
        let depth = 1 + (popped as usize >> 9) % cap;
        while ((pushed - popped) as usize) < depth {
            pushed += 1;
            let mut clean = false;
            let ok = q.push_ref(&mut |x| {
                clean = x.is_default();
                x.put(pushed);
            });
            if !ok {
                fail("full-lie", format!("push number {pushed} reports full"));
            }
            if !clean {
                fail("dirty", format!("push number {pushed} was handed an element with earlier contents"));
            }
        }
        popped += 1;
        let mut got = Ok(0);
        if !q.pop_ref(&mut |x| got = x.get()) {
            fail("empty-lie", format!("pop number {popped} reports empty"));
        }
        match got {
            Ok(g) if g == popped => {}
            Ok(g) => fail("fifo", format!("pop number {popped} got {g}")),
            Err(e) => fail("corrupt", e),
        }
        if popped % 256 == 0 {
            let live = LIVE.load(Relaxed) - before;
            if live > cap as i64 {
                fail("leak", format!("{live} elements exist after {popped} messages through {cap} slots"));
            }
        }
    }
    if BAD_DROPS.load(Relaxed) != 0 {
        fail("lifecycle", "an element was used or dropped after its destruction".into());
    }
    drop(q);
    let left = LIVE.load(Relaxed) - before;
    if left != 0 {
        fail(if left > 0 { "leak" } else { "lifecycle" }, format!("{left} elements left after {n} messages"));
    }
    count("lap_ops", 2 * n as u64);
}

/// Many threads asleep in blocking sends.
#[cfg(feature = "std")]
fn sleepers(r: &mut Rng) {
    let n = 20 + r.below(50);
    let fixed = r.chance(1, 2);
    let close = r.chance(1, 4);
    scene(format!("{n} threads in blocking sends (static {fixed}, closed {close})"));
    let (_owner, tx, rx) = api::channel::<u64>(fixed, true, 2);
    let sent = AtomicU64::new(0);
    let seed = r.next();
    std::thread::scope(|s| {
        for i in 0..n {
            let tx = tx.dup();
            let sent = &sent;
            s.spawn(move || {
                for k in 0..3 {
                    match tx.send(1 + (i * 3 + k) as u64) {
                        Ok(()) => drop(sent.fetch_add(1, SeqCst)),
                        Err(_) if close => return,
                        Err(_) => fail("closed-lie", "a send reports closed".into()),
                    }
                }
            });
        }
        drop(tx);
        let mut r = Rng::new(seed);
        let mut seen = std::collections::HashSet::new();
        let stop = if close { r.below(n * 2) } else { usize::MAX };
        while seen.len() < stop {
            if r.chance(1, 20) {
                std::thread::yield_now();
            }
            match rx.recv() {
                Some(x) => {
                    if x == 0 || x > 3 * n as u64 || !seen.insert(x) {
                        fail("dup", format!("received {x} twice, or it was never sent"));
                    }
                }
                None => {
                    if seen.len() != n * 3 {
                        fail("lost-at-close", format!("closed after {} of {} messages", seen.len(), n * 3));
                    }
                    break;
                }
            }
        }
        drop(rx);
    });
    if !close && sent.load(SeqCst) != 3 * n as u64 {
        fail("lost", "not every send succeeded".into());
    }
    count("sleepers", n as u64);
}
