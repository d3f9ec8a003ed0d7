//! Single-threaded histories judged against an exact reference model of the
//! ring.
use crate::api::*;
use crate::elem::{self, Elem};
use crate::rng::Rng;
use crate::sched::fail;
use crate::work::{check_clean, check_show, garbage, may_panic, payload_back, Plan};
use crate::world::w;
use std::collections::VecDeque;
#[cfg(feature = "std")]
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Slot {
    Free,
    Writing,
    Ready(u64),
    Reading,
}

struct Model {
    slots: Vec<Slot>,
    head: usize,
    tail: usize,
    len: usize,
}

impl Model {
    fn new(cap: usize) -> Self {
        Model {
            slots: vec![Slot::Free; cap],
            head: 0,
            tail: 0,
            len: 0,
        }
    }
    fn can_push(&self) -> bool {
        self.slots[self.tail] == Slot::Free
    }
    fn push(&mut self, s: Slot) -> usize {
        let k = self.tail;
        self.slots[k] = s;
        self.tail = (k + 1) % self.slots.len();
        self.len += 1;
        k
    }
    fn can_pop(&self) -> Option<u64> {
        match self.slots[self.head] {
            Slot::Ready(m) if self.len > 0 => Some(m),
            _ => None,
        }
    }
    fn pop(&mut self, s: Slot) -> usize {
        let k = self.head;
        self.slots[k] = s;
        self.head = (k + 1) % self.slots.len();
        self.len -= 1;
        k
    }
}

enum Side {
    Q(Box<dyn Queue>),
    C(Vec<Box<dyn Tx>>, Option<Box<dyn Rx>>),
}

struct OpenRef {
    r: RefBox<'static>,
    slot: usize,
    id: u64,
}

fn st_ref(r: RefBox<'_>) -> RefBox<'static> {
    unsafe { std::mem::transmute(r) }
}

/// Returns false: the history checks of concurrent runs do not apply.
pub fn run(p: &Plan, r: &mut Rng) -> bool {
    let mut free = None;
    let mut side = if p.flavor.is_queue() {
        Side::Q(make_queue(p.flavor, p.cap, p.custom))
    } else {
        let (tx, rx, f) = make_channel(p.flavor, p.cap, p.custom);
        free = f;
        Side::C(vec![tx], Some(rx))
    };
    let mut m = Model::new(p.cap);
    let mut writing: Vec<OpenRef> = Vec::new();
    let mut reading: Vec<OpenRef> = Vec::new();
    let mut next = 0u64;
    let mut hist: VecDeque<String> = VecDeque::new();
    let faulty = p.faults.new_at + p.faults.recycle_at > 0;
    // faults: the model no longer applies after one was hit
    let hit = || elem::reg().faults_hit > 0;
    let long = if r.chance(1, 4) { 6 } else { 1 };
    let ops = (p.ops + 3) * 3 * long;
    let pushy = 2 + r.below(6) as u32;
    let mut rx_gone = false;
    for _ in 0..ops {
        let wo = w();
        wo.ev.ops += 1;
        wo.ev.checks += 1;
        if hist.len() > 12 {
            hist.pop_front();
        }
        let what = r.weighted(&[pushy, pushy, 5, 5, 2, 2, 2, 1, 1, 1]);
        let closed_tx = matches!(&side, Side::C(t, _) if t.is_empty());
        macro_rules! bad {
            ($k:expr, $($a:tt)*) => {
                fail($k, format!("{} (single thread; capacity {}, model {:?}, last operations: {:?})", format!($($a)*), p.cap,
                    (&m.slots, m.head, m.tail, m.len), hist))
            };
        }
        match what {
            // by value
            0 => {
                if closed_tx {
                    continue;
                }
                next += 1;
                let id = next;
                let e = Elem::message(id);
                let serial = e.serial;
                let want = if rx_gone {
                    Err(SErr::Closed)
                } else if m.can_push() {
                    Ok(())
                } else {
                    Err(SErr::Full)
                };
                let k = r.below(3);
                let name;
                let res = match &side {
                    Side::Q(q) => {
                        name = "push";
                        may_panic(|| q.push(e))
                    }
                    Side::C(t, _) => {
                        let t = &t[r.below(t.len())];
                        if k == 0 || want == Err(SErr::Full) && !p.flavor.is_blocking() {
                            name = "try_send";
                            may_panic(|| t.try_send(e))
                        } else if p.flavor.is_blocking() {
                            #[cfg(feature = "std")]
                            if k == 1 || want == Err(SErr::Full) {
                                name = "send_timeout";
                                may_panic(|| t.send_timeout(e, Duration::from_nanos(50)))
                            } else {
                                name = "send";
                                may_panic(|| t.send(e))
                            }
                            #[cfg(not(feature = "std"))]
                            unreachable!()
                        } else {
                            name = "send future";
                            let mut f = t.send_fut(e);
                            may_panic(|| poll_now(f.as_mut(), "send"))
                        }
                    }
                };
                let want = if name == "send_timeout" && want == Err(SErr::Full) {
                    Err(SErr::Timeout)
                } else {
                    want
                };
                hist.push_back(format!("{name} {id}"));
                match res {
                    None => {
                        if !hit() {
                            bad!("panic", "{name} panicked");
                        }
                        break;
                    }
                    Some(Ok(())) => {
                        if want != Ok(()) {
                            bad!(if rx_gone { "not-closed" } else { "overfull" }, "{name} succeeded, expected {want:?}");
                        }
                        wo.ev.sent += 1;
                        m.push(Slot::Ready(id));
                    }
                    Some(Err((e, el))) => {
                        payload_back(el, id, serial);
                        if want != Err(e) {
                            bad!(lie(e), "{name} reports {e:?}, expected {want:?}");
                        }
                        wo.ev.full += 1;
                    }
                }
            }
            // by reference / closure
            1 => {
                if closed_tx {
                    continue;
                }
                next += 1;
                let id = next;
                let want = if rx_gone {
                    Err(SErr::Closed)
                } else if m.can_push() {
                    Ok(())
                } else {
                    Err(SErr::Full)
                };
                let k = r.below(3);
                let name;
                let mut timed = false;
                let res: Option<Result<Option<RefBox<'static>>, SErr>> = match &side {
                    Side::Q(q) if k == 0 => {
                        name = "push_with";
                        let blow = p.unwind && r.chance(1, 4);
                        let mut done = false;
                        let x = may_panic(|| {
                            q.push_with(&mut |e| {
                                check_clean(e, "push_with");
                                e.write(id, "push_with");
                                done = true;
                                if blow {
                                    crate::sched::throw();
                                }
                            })
                        });
                        if done && x.is_none() {
                            Some(Ok(None))
                        } else {
                            x.map(|x| x.map(|_| None))
                        }
                    }
                    Side::Q(q) => {
                        name = "push_ref";
                        may_panic(|| q.push_ref().map(|x| Some(st_ref(x))))
                    }
                    Side::C(t, _) => {
                        let t = &t[r.below(t.len())];
                        if k == 0 || want == Err(SErr::Full) && !p.flavor.is_blocking() {
                            name = "try_send_ref";
                            may_panic(|| t.try_send_ref().map(|x| Some(st_ref(x))))
                        } else if p.flavor.is_blocking() {
                            #[cfg(feature = "std")]
                            if k == 1 || want == Err(SErr::Full) {
                                name = "send_ref_timeout";
                                timed = true;
                                may_panic(|| t.send_ref_timeout(Duration::from_nanos(50)).map(|x| Some(st_ref(x))))
                            } else {
                                name = "send_ref";
                                may_panic(|| t.send_ref().map(|x| Some(st_ref(x))))
                            }
                            #[cfg(not(feature = "std"))]
                            unreachable!()
                        } else {
                            name = "send_ref future";
                            let mut f = t.send_ref_fut();
                            let x = may_panic(|| poll_now(f.as_mut(), "send_ref").map(|x| Some(st_ref(x))));
                            drop(f);
                            x
                        }
                    }
                };
                let want = if timed && want == Err(SErr::Full) { Err(SErr::Timeout) } else { want };
                hist.push_back(format!("{name} {id}"));
                match res {
                    None => {
                        if !hit() {
                            bad!("panic", "{name} panicked");
                        }
                        break;
                    }
                    Some(Ok(x)) => {
                        if want != Ok(()) {
                            bad!(if rx_gone { "not-closed" } else { "overfull" }, "{name} succeeded, expected {want:?}");
                        }
                        wo.ev.sent += 1;
                        wo.ev.refs += 1;
                        match x {
                            None => {
                                m.push(Slot::Ready(id));
                            }
                            Some(rf) => {
                                rf.get().hold(name);
                                check_clean(rf.get(), name);
                                let slot = m.push(Slot::Writing);
                                writing.push(OpenRef { r: rf, slot, id });
                                if r.chance(2, 3) {
                                    let o = writing.pop().unwrap();
                                    finish_write(o, &mut m, r);
                                }
                            }
                        }
                    }
                    Some(Err(e)) => {
                        if want != Err(e) {
                            bad!(lie(e), "{name} reports {e:?}, expected {want:?}");
                        }
                        wo.ev.full += 1;
                    }
                }
            }
            2 | 3 => {
                if rx_gone {
                    continue;
                }
                let closed = closed_tx && m.len == 0;
                let want: Result<u64, RErr> = match m.can_pop() {
                    Some(x) => Ok(x),
                    None if closed => Err(RErr::Closed),
                    None => Err(RErr::Empty),
                };
                let k = r.below(3);
                let name;
                let mut timed = false;
                enum Out {
                    Val(Elem),
                    Ref(RefBox<'static>),
                    Done(u64),
                }
                // a pending or blocking receive is only possible if it can succeed
                let ready = want != Err(RErr::Empty);
                let res: Option<Result<Out, RErr>> = match &side {
                    Side::Q(q) => match (what, k) {
                        (2, _) => {
                            name = "pop";
                            may_panic(|| q.pop().map(Out::Val).ok_or(RErr::Empty))
                        }
                        (_, 0) => {
                            name = "pop_with";
                            let mut id = 0;
                            let blow = p.unwind && r.chance(1, 4);
                            let x = may_panic(|| {
                                q.pop_with(&mut |e| {
                                    id = e.read("pop_with");
                                    if blow {
                                        crate::sched::throw();
                                    }
                                })
                            });
                            match x {
                                None => Some(Ok(Out::Done(id))),
                                Some(None) => Some(Err(RErr::Empty)),
                                Some(Some(_)) => Some(Ok(Out::Done(id))),
                            }
                        }
                        _ => {
                            name = "pop_ref";
                            Some(q.pop_ref().map(|x| Out::Ref(st_ref(x))).ok_or(RErr::Empty))
                        }
                    },
                    Side::C(_, rx) => {
                        let rx = rx.as_ref().unwrap();
                        match (what, k) {
                            (2, 0) => {
                                name = "try_recv";
                                may_panic(|| rx.try_recv().map(Out::Val))
                            }
                            (3, 0) => {
                                name = "try_recv_ref";
                                Some(rx.try_recv_ref().map(|x| Out::Ref(st_ref(x))))
                            }
                            _ if p.flavor.is_blocking() => {
                                #[cfg(feature = "std")]
                                match (what, k) {
                                    (2, 1) if ready => {
                                        name = "recv";
                                        may_panic(|| rx.recv().map(Out::Val).ok_or(RErr::Closed))
                                    }
                                    (3, 1) if ready => {
                                        name = "recv_ref";
                                        Some(rx.recv_ref().map(|x| Out::Ref(st_ref(x))).ok_or(RErr::Closed))
                                    }
                                    (2, _) => {
                                        name = "recv_timeout";
                                        timed = true;
                                        may_panic(|| rx.recv_timeout(Duration::from_nanos(60)).map(Out::Val))
                                    }
                                    _ => {
                                        name = "recv_ref_timeout";
                                        timed = true;
                                        Some(rx.recv_ref_timeout(Duration::from_nanos(60)).map(|x| Out::Ref(st_ref(x))))
                                    }
                                }
                                #[cfg(not(feature = "std"))]
                                unreachable!()
                            }
                            (2, _) => {
                                name = "recv future";
                                let mut f = rx.recv_fut();
                                may_panic(|| poll_opt(f.as_mut()).map(|o| o.map(Out::Val).ok_or(RErr::Closed)))
                                    .map(|x| x.unwrap_or(Err(RErr::Empty)))
                            }
                            _ => {
                                name = "recv_ref future";
                                let mut f = rx.recv_ref_fut();
                                let x = poll_opt(f.as_mut()).map(|o| o.map(|x| Out::Ref(st_ref(x))).ok_or(RErr::Closed));
                                drop(f);
                                Some(x.unwrap_or(Err(RErr::Empty)))
                            }
                        }
                    }
                };
                let want = if timed && want == Err(RErr::Empty) { Err(RErr::Timeout) } else { want };
                hist.push_back(name.to_string());
                match res {
                    None => {
                        if !hit() {
                            bad!("panic", "{name} panicked");
                        }
                        break;
                    }
                    Some(Err(e)) => {
                        wo.ev.empty += 1;
                        if want != Err(e) {
                            bad!(rlie(e, want.is_ok()), "{name} reports {e:?}, expected {want:?}");
                        }
                    }
                    Some(Ok(o)) => {
                        wo.ev.received += 1;
                        let id = match &o {
                            Out::Val(e) => e.read(name),
                            Out::Ref(x) => x.get().read(name),
                            Out::Done(id) => *id,
                        };
                        if want != Ok(id) {
                            let kind = match want {
                                Ok(x) if x < id => "fifo",
                                Ok(_) => "dup",
                                Err(_) => "phantom",
                            };
                            bad!(kind, "{name} returns message {id}, expected {want:?}");
                        }
                        match o {
                            Out::Ref(x) => {
                                wo.ev.refs += 1;
                                x.get().hold(name);
                                let slot = m.pop(Slot::Reading);
                                reading.push(OpenRef { r: x, slot, id });
                                if r.chance(2, 3) {
                                    let o = reading.pop().unwrap();
                                    finish_read(o, &mut m, r);
                                }
                            }
                            _ => {
                                m.pop(Slot::Free);
                            }
                        }
                    }
                }
            }
            4 => {
                if !writing.is_empty() {
                    let k = r.below(writing.len());
                    hist.push_back("release write ref".into());
                    finish_write(writing.swap_remove(k), &mut m, r);
                }
            }
            5 => {
                if !reading.is_empty() {
                    let k = r.below(reading.len());
                    hist.push_back("release read ref".into());
                    finish_read(reading.swap_remove(k), &mut m, r);
                }
            }
            6 => {
                if let Side::Q(q) = &side {
                    wo.ev.lens += 1;
                    let got = (q.len(), q.remaining(), q.is_empty(), q.capacity());
                    let want = (m.len, p.cap - m.len, m.len == 0, p.cap);
                    if got != want {
                        bad!("len-lie", "(len, remaining, is_empty, capacity) = {got:?}, expected {want:?}");
                    }
                }
            }
            7 => {
                if let Side::C(t, rx) = &mut side {
                    if t.len() < 3 && !t.is_empty() {
                        let c = t[0].dup();
                        t.push(c);
                    }
                    if let Some(rx) = rx {
                        wo.ev.is_closed_calls += 1;
                        if rx.is_closed() != t.is_empty() {
                            bad!("is-closed", "is_closed() is {} with {} senders", rx.is_closed(), t.len());
                        }
                    }
                }
            }
            8 => {
                let busy = !writing.is_empty();
                if let Side::C(t, _) = &mut side {
                    if t.len() > 1 || t.len() == 1 && !busy && r.chance(1, 6) {
                        if !busy {
                            hist.push_back("drop sender".into());
                            let k = r.below(t.len());
                            drop(t.swap_remove(k));
                        }
                    }
                }
            }
            _ => {
                if let Side::C(_, rx) = &mut side {
                    if reading.is_empty() && r.chance(1, 8) && rx.is_some() {
                        hist.push_back("drop receiver".into());
                        *rx = None;
                        rx_gone = true;
                    }
                }
            }
        }
    }
    // destruction at an arbitrary fill level
    for o in writing {
        o.r.get().unhold("write reference");
        release(o.r);
    }
    for o in reading {
        o.r.get().unhold("read reference");
        release(o.r);
    }
    w().ev.destroyed_full += (m.len > 0) as u64;
    let _ = faulty;
    match side {
        Side::Q(q) => drop(q),
        Side::C(t, rx) => {
            if r.chance(1, 2) {
                drop(t);
                drop(rx);
            } else {
                drop(rx);
                drop(t);
            }
        }
    }
    if let Some(f) = free {
        f();
    }
    false
}

fn lie(e: SErr) -> &'static str {
    match e {
        SErr::Full | SErr::Timeout => "full-lie",
        SErr::Closed => "closed-lie",
    }
}
fn rlie(e: RErr, had: bool) -> &'static str {
    match (e, had) {
        (RErr::Closed, true) => "lost-at-close",
        (RErr::Closed, false) => "rx-closed-lie",
        (_, true) => "empty-lie",
        _ => "rx-not-closed",
    }
}

fn finish_write(mut o: OpenRef, m: &mut Model, r: &mut Rng) {
    o.r.get_mut().write(o.id, "write reference");
    if r.chance(1, 8) {
        check_show(&*o.r, o.id);
    }
    o.r.get().unhold("write reference");
    release(o.r);
    m.slots[o.slot] = Slot::Ready(o.id);
}

fn finish_read(mut o: OpenRef, m: &mut Model, r: &mut Rng) {
    if o.r.get().read("read reference") != o.id {
        fail("corrupt", format!("the element of message {} changed while its consumer held it", o.id));
    }
    if r.chance(1, 2) {
        let g = garbage(r);
        o.r.get_mut().write(g, "read reference");
    }
    o.r.get().unhold("read reference");
    release(o.r);
    m.slots[o.slot] = Slot::Free;
}

fn poll_now<T>(f: std::pin::Pin<&mut (dyn std::future::Future<Output = T> + '_)>, what: &str) -> T {
    match poll_opt(f) {
        Some(x) => x,
        None => fail("full-lie", format!("a {what} that can proceed at once waits")),
    }
}

fn poll_opt<T>(f: std::pin::Pin<&mut (dyn std::future::Future<Output = T> + '_)>) -> Option<T> {
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.poll(&mut cx) {
        std::task::Poll::Ready(x) => Some(x),
        std::task::Poll::Pending => None,
    }
}
