//! Long lives of queues and channels on a 32-bit machine: the position counters of the ring are one
//! word wide and wrap around after about 2^30 messages. Every message on the way is checked, the
//! operations near the wrap-around are compared with an exact model, and at the end every element must
//! have been created once and dropped once.
#![no_std]
#![no_main]
extern crate alloc;
mod rng;
mod sys;

use alloc::{boxed::Box, collections::VecDeque, sync::Arc, task::Wake, vec::Vec};
use core::fmt;
use core::future::Future;
use core::pin::Pin;
use core::sync::atomic::{AtomicU32, Ordering::*};
use core::task::{Context, Poll, Waker};
use rng::{mix, Rng};
use thingbuf::{mpsc, Recycle};

static INDEX: AtomicU32 = AtomicU32::new(0);
static CREATED: AtomicU32 = AtomicU32::new(0);
static DROPPED: AtomicU32 = AtomicU32::new(0);
static mut COUNTS: Counts = Counts { runs: 0, mops: 0, wraps: 0, model_ops: 0, held: 0, full: 0, empty: 0, waits: 0 };
#[derive(Clone, Copy)]
struct Counts {
    runs: u32,
    mops: u32,
    wraps: u32,
    model_ops: u32,
    held: u32,
    full: u32,
    empty: u32,
    waits: u32,
}
fn counts() -> &'static mut Counts {
    unsafe { &mut *(&raw mut COUNTS) }
}

fn summary() {
    let c = *counts();
    outln!(
        "SUMMARY {{\"runs\":{},\"million_messages\":{},\"counter_wraps\":{},\"model_ops\":{},\"references_held\":{},\"full\":{},\"empty\":{},\"waits\":{}}}",
        c.runs, c.mops, c.wraps, c.model_ops, c.held, c.full, c.empty, c.waits
    );
}

struct Esc;
impl fmt::Write for Esc {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for part in s.split_inclusive(['"', '\\', '\n']) {
            let (a, b) = part.split_at(part.len() - part.ends_with(['"', '\\', '\n']) as usize);
            sys::Out.write_str(a)?;
            if !b.is_empty() {
                sys::Out.write_str("'")?;
            }
        }
        Ok(())
    }
}

pub fn fail(kind: &str, msg: fmt::Arguments) -> ! {
    use core::fmt::Write;
    summary();
    let _ = write!(sys::Out, "FOUND {{\"kind\":\"{kind}\",\"index\":{},\"msg\":\"", INDEX.load(Relaxed));
    let _ = write!(Esc, "{msg}");
    outln!("\"}}");
    sys::exit(1)
}

macro_rules! check {
    ($c:expr, $k:expr, $($a:tt)*) => { if !$c { fail($k, format_args!($($a)*)) } };
}

/// Whatever a slot holds: who wrote it, and whether it is alive.
const ALIVE: u32 = 0x5EED_A11E;
struct E {
    alive: u32,
    v: u32,
}
impl E {
    fn new() -> E {
        CREATED.fetch_add(1, Relaxed);
        E { alive: ALIVE, v: 0 }
    }
    fn check(&self) {
        check!(self.alive == ALIVE, "lifecycle", "an element that was never created, or was dropped, is used");
    }
}
impl Drop for E {
    fn drop(&mut self) {
        self.check();
        self.alive = 0xDEAD;
        DROPPED.fetch_add(1, Relaxed);
    }
}

struct Policy;
impl Recycle<E> for Policy {
    fn new_element(&self) -> E {
        E::new()
    }
    fn recycle(&self, e: &mut E) {
        e.check();
        e.v = 0;
    }
}

/// The operations that every flavour has.
trait Q {
    type S<'a>: core::ops::DerefMut<Target = E>
    where
        Self: 'a;
    type R<'a>: core::ops::DerefMut<Target = E>
    where
        Self: 'a;
    fn push(&self) -> Option<Self::S<'_>>;
    fn pop(&self) -> Option<Self::R<'_>>;
    fn len(&self) -> Option<usize>;
    /// A send that may have to wait: returns the future, if the flavour has one.
    fn wait<'a>(&'a self, _v: u32) -> Option<Pin<Box<dyn Future<Output = bool> + 'a>>> {
        None
    }
}

impl Q for thingbuf::ThingBuf<E, Policy> {
    type S<'a> = thingbuf::Ref<'a, E>;
    type R<'a> = thingbuf::Ref<'a, E>;
    #[inline]
    fn push(&self) -> Option<Self::S<'_>> {
        self.push_ref().ok()
    }
    #[inline]
    fn pop(&self) -> Option<Self::R<'_>> {
        self.pop_ref()
    }
    fn len(&self) -> Option<usize> {
        Some(self.len())
    }
}
impl<const N: usize> Q for thingbuf::StaticThingBuf<E, N, Policy> {
    type S<'a> = thingbuf::Ref<'a, E>;
    type R<'a> = thingbuf::Ref<'a, E>;
    #[inline]
    fn push(&self) -> Option<Self::S<'_>> {
        self.push_ref().ok()
    }
    #[inline]
    fn pop(&self) -> Option<Self::R<'_>> {
        self.pop_ref()
    }
    fn len(&self) -> Option<usize> {
        Some(self.len())
    }
}
struct Chan(mpsc::Sender<E, Policy>, mpsc::Receiver<E, Policy>);
impl Q for Chan {
    type S<'a> = mpsc::SendRef<'a, E>;
    type R<'a> = mpsc::RecvRef<'a, E>;
    #[inline]
    fn push(&self) -> Option<Self::S<'_>> {
        match self.0.try_send_ref() {
            Ok(r) => Some(r),
            Err(mpsc::errors::TrySendError::Full(_)) => None,
            Err(_) => fail("closed-lie", format_args!("a send on an open channel: closed")),
        }
    }
    #[inline]
    fn pop(&self) -> Option<Self::R<'_>> {
        match self.1.try_recv_ref() {
            Ok(r) => Some(r),
            Err(mpsc::errors::TryRecvError::Empty) => None,
            Err(_) => fail("rx-closed-lie", format_args!("a receive on an open channel: closed")),
        }
    }
    fn len(&self) -> Option<usize> {
        None
    }
    fn wait<'a>(&'a self, v: u32) -> Option<Pin<Box<dyn Future<Output = bool> + 'a>>> {
        Some(Box::pin(async move {
            match self.0.send_ref().await {
                Ok(mut r) => {
                    r.check();
                    r.v = v;
                    true
                }
                Err(_) => false,
            }
        }))
    }
}

struct W(AtomicU32);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Relaxed);
    }
}

fn fill<S: core::ops::DerefMut<Target = E>>(mut s: S, v: u32) {
    s.check();
    check!(s.v == 0, "dirty", "a producer was handed an element that still holds {}", s.v);
    s.v = v;
}

#[inline(always)]
fn value(n: u32) -> u32 {
    n.wrapping_mul(0x9E37_79B1) | 1
}

/// Messages `from..` until `to` in bursts, each checked.
fn fast<Z: Q>(q: &Z, cap: usize, from: u64, to: u64, until: u64, rng: &mut Rng) -> u64 {
    let (mut n, mut at) = (from, from);
    let burst = cap.min(1 + rng.below(cap)) as u64;
    while n < to {
        let k = burst.min(to - n);
        for i in 0..k {
            match q.push() {
                Some(s) => fill(s, value((n + i) as u32)),
                None => fail("full-lie", format_args!("message {}: full although only {i} of {cap} places are taken", n + i)),
            }
        }
        for i in 0..k {
            match q.pop() {
                Some(r) => check!(r.v == value((n + i) as u32), "corrupt", "message {} came out as {:#x}", n + i, r.v),
                None => fail("empty-lie", format_args!("message {}: empty although it was sent", n + i)),
            }
        }
        n += k;
        if n - at > 1 << 20 {
            counts().mops += 1;
            at = n;
            if sys::now() > until {
                break;
            }
        }
    }
    n
}

/// Random operations against a model of the queue.
fn model<Z: Q>(q: &Z, cap: usize, from: u64, msgs: u64, rng: &mut Rng) -> u64 {
    let mut n = from; // next message
    let mut m: VecDeque<(u32, bool)> = VecDeque::new(); // value, completed
    let mut held: Vec<(Z::S<'_>, u32)> = Vec::new();
    let mut got: Vec<Z::R<'_>> = Vec::new();
    let wakes = Arc::new(W(AtomicU32::new(0)));
    let waker = Waker::from(wakes.clone());
    while n < from + msgs {
        counts().model_ops += 1;
        match rng.below(10) {
            0..=3 => {
                let v = value(n as u32);
                let s = q.push();
                // a place that is still being read is not free, although its element was taken
                let taken = m.len() == cap;
                match s {
                    Some(s) => {
                        check!(!taken, "overfull", "message {n}: accepted although {cap} of {cap} places are taken");
                        s.check();
                        check!(s.v == 0, "dirty", "message {n}: the producer was handed {:#x}", s.v);
                        let mut s = s;
                        s.v = v;
                        n += 1;
                        if rng.chance(1, 3) && held.len() < 3 {
                            counts().held += 1;
                            m.push_back((v, false));
                            held.push((s, v));
                        } else {
                            m.push_back((v, true));
                        }
                    }
                    None => {
                        counts().full += 1;
                        check!(taken || !got.is_empty(), "full-lie", "message {n}: full although only {} of {cap} places are taken", m.len());
                    }
                }
            }
            4..=6 => match q.pop() {
                Some(r) => {
                    let Some((v, done)) = m.pop_front() else {
                        fail("phantom", format_args!("near message {n}: something came out of an empty queue: {:#x}", r.v))
                    };
                    check!(done, "phantom", "near message {n}: a message came out before its reference was released");
                    r.check();
                    check!(r.v == v, if m.iter().any(|x| x.0 == r.v) { "fifo" } else { "corrupt" }, "near message {n}: {:#x} came out instead of {v:#x}", r.v);
                    if rng.chance(1, 4) && got.is_empty() {
                        counts().held += 1;
                        got.push(r);
                    }
                }
                None => {
                    counts().empty += 1;
                    check!(m.front().map_or(true, |x| !x.1), "empty-lie", "near message {n}: empty although {} are queued", m.len());
                }
            },
            7 => {
                if !held.is_empty() {
                    let (s, v) = held.swap_remove(rng.below(held.len()));
                    drop(s);
                    m.iter_mut().find(|x| x.0 == v).unwrap().1 = true;
                }
            }
            8 => {
                if rng.chance(1, 2) {
                    got.pop();
                }
                if let Some(l) = q.len() {
                    check!(l == m.len(), "len-lie", "near message {n}: the length is {l}, but {} are queued", m.len());
                }
            }
            _ => {
                // a send that may wait, with the queue full
                let v = value(n as u32);
                let full = m.len() == cap && held.is_empty() && got.is_empty();
                if let Some(mut f) = full.then(|| q.wait(v)).flatten() {
                    counts().waits += 1;
                    let cx = &mut Context::from_waker(&waker);
                    // a notification may be stored from an earlier receive, so it's polled twice
                    let mut pending = f.as_mut().poll(cx).is_pending();
                    if pending && rng.chance(1, 4) {
                        continue; // given up
                    }
                    let before = wakes.0.load(Relaxed);
                    let r = q.pop();
                    check!(r.as_ref().is_some_and(|r| r.v == m[0].0), "corrupt", "near message {n}: not the first message");
                    check!(pending, "overfull", "message {n}: sent although {cap} of {cap} places are taken");
                    m.pop_front();
                    drop(r);
                    check!(wakes.0.load(Relaxed) > before, "tx-lost-wakeup", "near message {n}: a waiting send was not woken");
                    pending = f.as_mut().poll(cx).is_pending();
                    check!(!pending, "tx-lost-wakeup", "near message {n}: a waiting send found no place, although there is one");
                    m.push_back((v, true));
                    n += 1;
                }
            }
        }
    }
    drop(held);
    drop(got);
    // what is left comes out, or stays in the queue for its destruction
    if rng.chance(1, 2) {
        while let Some((v, _)) = m.pop_front() {
            match q.pop() {
                Some(r) => check!(r.v == v, "corrupt", "near message {n}: {:#x} came out instead of {v:#x}", r.v),
                None => fail("empty-lie", format_args!("near message {n}: empty although {} are queued", m.len() + 1)),
            }
        }
    } else {
        counts().full += (m.len() == cap) as u32;
    }
    n
}

/// The number of messages after which the counters of a ring of this capacity start again.
fn period(cap: usize) -> u64 {
    let lap_bits = (cap + 1).next_power_of_two().trailing_zeros() + 1;
    cap as u64 * (1u64 << (usize::BITS - lap_bits))
}

fn life<Z: Q>(q: Z, cap: usize, name: &str, rng: &mut Rng, until: u64) {
    let p = period(cap);
    outln!("SAMPLE {{\"index\":{},\"scene\":\"{name} of capacity {cap}, counters wrap after {p} messages\"}}", INDEX.load(Relaxed));
    let mut n = model_empty(&q, cap, 0, rng);
    let near = p - 200 - rng.below(cap * 3) as u64;
    n = fast(&q, cap, n, near, until, rng);
    if n >= near {
        let over = p + 50 + rng.below(cap * 4) as u64;
        model(&q, cap, n, over - n, rng);
        counts().wraps += 1;
    }
    drop(q);
    let (c, d) = (CREATED.load(Relaxed), DROPPED.load(Relaxed));
    let lost = c != d && sys::judged(if d > c { "lifecycle" } else { "leak" });
    check!(c as usize <= cap || lost && !sys::judged("churn"), "churn", "{c} elements were created by a {name} of capacity {cap}");
    check!(c == d, if d > c { "lifecycle" } else { "leak" }, "{name} of capacity {cap}: {c} elements were created and {d} dropped");
}

/// A model run that ends with an empty queue.
fn model_empty<Z: Q>(q: &Z, cap: usize, from: u64, rng: &mut Rng) -> u64 {
    let n = model(q, cap, from, 100 + rng.below(100) as u64, rng);
    while q.pop().is_some() {}
    n
}

fn one(index: u32, seed: u64, until: u64) {
    let mut rng = Rng::new(mix(seed ^ mix(index as u64)));
    let r = &mut rng;
    CREATED.store(0, Relaxed);
    DROPPED.store(0, Relaxed);
    macro_rules! fixed {
        ($n:literal) => {
            life(thingbuf::StaticThingBuf::<E, $n, Policy>::with_recycle(Policy), $n, "StaticThingBuf", r, until)
        };
    }
    let cap = [1, 2, 3, 4, 5, 7, 8][r.below(7)];
    match index % 8 {
        0 => fixed!(1),
        1 => fixed!(2),
        2 => life(thingbuf::ThingBuf::with_recycle(1, Policy), 1, "ThingBuf", r, until),
        3 => life(thingbuf::ThingBuf::with_recycle(cap, Policy), cap, "ThingBuf", r, until),
        4 => chan(1, r, until),
        5 => chan(cap, r, until),
        6 => {
            let cap = 1000 << r.below(7);
            life(thingbuf::ThingBuf::with_recycle(cap, Policy), cap, "ThingBuf", r, until)
        }
        _ => fixed!(4),
    }
}

fn chan(cap: usize, r: &mut Rng, until: u64) {
    let (tx, rx) = mpsc::with_recycle(cap, Policy);
    life(Chan(tx, rx), cap, "channel", r, until);
}

fn main(args: sys::Args) -> u32 {
    let (seed, start, count, stride) = (args.num("--seed", 1), args.num("--start", 0), args.num("--count", 1), args.num("--stride", 1));
    let limit = args.num("--seconds", 0);
    let until = if limit == 0 { u64::MAX } else { sys::now() + limit * 1000 };
    for k in 0..count {
        if k > 0 && sys::now() > until {
            break;
        }
        let index = (start + k * stride) as u32;
        INDEX.store(index, Relaxed);
        one(index, seed, until);
        counts().runs += 1;
    }
    summary();
    0
}
