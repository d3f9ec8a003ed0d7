//! Erased view of every queue and channel flavour, so that one workload
//! interpreter drives all of them. Each adapter calls the public API directly,
//! inside a no-allocation window.
use crate::elem::{Elem, Rec};
use crate::sched::{fail, judge, NoAlloc};
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
#[cfg(feature = "std")]
use std::time::Duration;
#[cfg(feature = "std")]
use thingbuf::mpsc::blocking;
use thingbuf::mpsc::errors::{Closed, TryRecvError, TrySendError};
use thingbuf::recycling::Recycle;
use thingbuf::{mpsc, Full, Ref, StaticThingBuf};
#[cfg(feature = "alloc")]
use thingbuf::ThingBuf;

macro_rules! op {
    ($e:expr) => {{
        let g = NoAlloc::new();
        let r = $e;
        drop(g);
        r
    }};
}

/// Counts elements that leave the queue by value.
fn by_value(e: Elem) -> Elem {
    crate::elem::reg().by_value += 1;
    e
}

pub trait RefLike {
    fn get(&self) -> &Elem;
    fn get_mut(&mut self) -> &mut Elem;
    fn write_fmt_id(&mut self, id: u64);
    fn show(&self) -> (String, String);
}
pub type RefBox<'a> = Box<dyn RefLike + 'a>;

macro_rules! reflike {
    ($t:ty) => {
        impl RefLike for $t {
            fn get(&self) -> &Elem {
                &**self
            }
            fn get_mut(&mut self) -> &mut Elem {
                &mut **self
            }
            fn write_fmt_id(&mut self, id: u64) {
                write!(self, "{}", id).unwrap()
            }
            fn show(&self) -> (String, String) {
                (format!("{}", self), format!("{:?}", self))
            }
        }
    };
}
reflike!(Ref<'_, Elem>);
reflike!(mpsc::SendRef<'_, Elem>);
reflike!(mpsc::RecvRef<'_, Elem>);
#[cfg(feature = "std")]
reflike!(blocking::SendRef<'_, Elem>);
#[cfg(feature = "std")]
reflike!(blocking::RecvRef<'_, Elem>);

/// Releases a reference inside a no-allocation window.
pub fn release(r: RefBox<'_>) {
    // drop the reference in place, then free the box outside of the window
    unsafe {
        let raw = Box::into_raw(r);
        let layout = std::alloc::Layout::for_value(&*raw);
        let g = NoAlloc::new();
        std::ptr::drop_in_place(raw);
        drop(g);
        if layout.size() > 0 {
            std::alloc::dealloc(raw.cast(), layout);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SErr {
    Full,
    Closed,
    Timeout,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RErr {
    Empty,
    Closed,
    Timeout,
}

fn texts(display: String, debug: String, want: SErr) {
    // the text must name the cause, and no other one
    let is = |s: &str| {
        let l = s.to_lowercase();
        (l.contains("full") || l.contains("capacity") && !l.contains("timed"), l.contains("closed"), l.contains("time"))
    };
    for s in [&display, &debug] {
        let (f, c, t) = is(s.rsplit("::").next().unwrap());
        let ok = match want {
            SErr::Full => f && !c && !t,
            SErr::Closed => c && !f && !t,
            SErr::Timeout => t && !c,
        };
        if !ok {
            judge("error-report", format!("the error for {want:?} describes itself as {s:?}"));
        }
    }
}

fn try_err<T>(e: TrySendError<T>) -> (SErr, T) {
    let want = match &e {
        TrySendError::Full(_) => SErr::Full,
        TrySendError::Closed(_) => SErr::Closed,
        _ => fail("error-report", "unknown kind of send error".into()),
    };
    if e.is_full() != (want == SErr::Full) || e.is_closed() != (want == SErr::Closed) {
        judge(
            "error-report",
            format!("a {want:?} error says is_full={} is_closed={}", e.is_full(), e.is_closed()),
        );
    }
    texts(format!("{e}"), format!("{e:?}"), want);
    (want, e.into_inner())
}

fn closed_err<T>(e: Closed<T>) -> (SErr, T) {
    texts(format!("{e}"), format!("{e:?}"), SErr::Closed);
    (SErr::Closed, e.into_inner())
}

#[cfg(feature = "std")]
fn timeout_err<T>(e: thingbuf::mpsc::errors::SendTimeoutError<T>) -> (SErr, T) {
    use thingbuf::mpsc::errors::SendTimeoutError as E;
    let want = match &e {
        E::Timeout(_) => SErr::Timeout,
        E::Closed(_) => SErr::Closed,
        _ => fail("error-report", "unknown kind of send error".into()),
    };
    if e.is_timeout() != (want == SErr::Timeout) || e.is_closed() != (want == SErr::Closed) {
        judge(
            "error-report",
            format!("a {want:?} error says is_timeout={} is_closed={}", e.is_timeout(), e.is_closed()),
        );
    }
    texts(format!("{e}"), format!("{e:?}"), want);
    (want, e.into_inner())
}

fn full_err<T>(e: Full<T>) -> (SErr, T) {
    texts(format!("{e}"), format!("{e:?}"), SErr::Full);
    (SErr::Full, e.into_inner())
}

fn recv_text(d: String, g: String, want: RErr) -> RErr {
    for s in [d.to_lowercase(), g.to_lowercase()] {
        let s = s.rsplit("::").next().unwrap();
        let (e, c, t) = (s.contains("empty"), s.contains("closed"), s.contains("time"));
        let ok = match want {
            RErr::Empty => e && !c && !t,
            RErr::Closed => c && !e && !t,
            RErr::Timeout => t && !c && !e,
        };
        if !ok {
            judge("error-report", format!("the error for {want:?} describes itself as {s:?}"));
        }
    }
    want
}

fn rerr(e: TryRecvError) -> RErr {
    let want = match e {
        TryRecvError::Empty => RErr::Empty,
        TryRecvError::Closed => RErr::Closed,
        _ => fail("error-report", "unknown kind of receive error".into()),
    };
    recv_text(format!("{e}"), format!("{e:?}"), want)
}

#[cfg(feature = "std")]
fn rterr(e: thingbuf::mpsc::errors::RecvTimeoutError) -> RErr {
    use thingbuf::mpsc::errors::RecvTimeoutError as E;
    let want = match e {
        E::Timeout => RErr::Timeout,
        E::Closed => RErr::Closed,
        _ => fail("error-report", "unknown kind of receive error".into()),
    };
    recv_text(format!("{e}"), format!("{e:?}"), want)
}

// ---------------------------------------------------------------- queues

pub trait Queue {
    fn push(&self, e: Elem) -> Result<(), (SErr, Elem)>;
    fn push_ref(&self) -> Result<RefBox<'_>, SErr>;
    fn push_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Result<u32, SErr>;
    fn pop(&self) -> Option<Elem>;
    fn pop_ref(&self) -> Option<RefBox<'_>>;
    fn pop_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Option<u32>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn remaining(&self) -> usize;
    fn capacity(&self) -> usize;
    fn debug(&self) -> String;
}

macro_rules! impl_queue {
    ([$($gen:tt)*] $t:ty) => {
        impl<$($gen)*> Queue for $t {
            fn push(&self, e: Elem) -> Result<(), (SErr, Elem)> {
                op!(self.push(e)).map_err(full_err)
            }
            fn push_ref(&self) -> Result<RefBox<'_>, SErr> {
                match op!(self.push_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(full_err(e).0),
                }
            }
            fn push_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Result<u32, SErr> {
                op!(self.push_with(|e| { f(e); 7u32 })).map_err(|e| full_err(e).0)
            }
            fn pop(&self) -> Option<Elem> {
                op!(self.pop()).map(by_value)
            }
            fn pop_ref(&self) -> Option<RefBox<'_>> {
                let r = op!(self.pop_ref())?;
                Some(Box::new(r))
            }
            fn pop_with(&self, f: &mut dyn FnMut(&mut Elem)) -> Option<u32> {
                op!(self.pop_with(|e| { f(e); 7u32 }))
            }
            fn len(&self) -> usize {
                op!(self.len())
            }
            fn is_empty(&self) -> bool {
                op!(self.is_empty())
            }
            fn remaining(&self) -> usize {
                op!(self.remaining())
            }
            fn capacity(&self) -> usize {
                op!(self.capacity())
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }
    };
}
#[cfg(feature = "alloc")]
impl_queue!([R: Recycle<Elem> + std::fmt::Debug] ThingBuf<Elem, R>);
impl_queue!([R: Recycle<Elem> + std::fmt::Debug, const N: usize] StaticThingBuf<Elem, N, R>);

// ---------------------------------------------------------------- channels

pub type SendFut<'a> = Pin<Box<dyn Future<Output = Result<(), (SErr, Elem)>> + 'a>>;
pub type SendRefFut<'a> = Pin<Box<dyn Future<Output = Result<RefBox<'a>, SErr>> + 'a>>;
pub type RecvFut<'a> = Pin<Box<dyn Future<Output = Option<Elem>> + 'a>>;
pub type RecvRefFut<'a> = Pin<Box<dyn Future<Output = Option<RefBox<'a>>> + 'a>>;

#[allow(unused_variables)]
pub trait Tx {
    fn is_async(&self) -> bool;
    fn try_send(&self, e: Elem) -> Result<(), (SErr, Elem)>;
    fn try_send_ref(&self) -> Result<RefBox<'_>, SErr>;
    fn dup(&self) -> Box<dyn Tx>;
    fn debug(&self) -> String;
    fn send(&self, e: Elem) -> Result<(), (SErr, Elem)> {
        unreachable!()
    }
    fn send_ref(&self) -> Result<RefBox<'_>, SErr> {
        unreachable!()
    }
    #[cfg(feature = "std")]
    fn send_timeout(&self, e: Elem, d: Duration) -> Result<(), (SErr, Elem)> {
        unreachable!()
    }
    #[cfg(feature = "std")]
    fn send_ref_timeout(&self, d: Duration) -> Result<RefBox<'_>, SErr> {
        unreachable!()
    }
    fn send_fut(&self, e: Elem) -> SendFut<'_> {
        unreachable!()
    }
    fn send_ref_fut(&self) -> SendRefFut<'_> {
        unreachable!()
    }
}

#[allow(unused_variables)]
pub trait Rx {
    fn is_async(&self) -> bool;
    fn try_recv(&self) -> Result<Elem, RErr>;
    fn try_recv_ref(&self) -> Result<RefBox<'_>, RErr>;
    fn is_closed(&self) -> bool;
    fn debug(&self) -> String;
    fn recv(&self) -> Option<Elem> {
        unreachable!()
    }
    fn recv_ref(&self) -> Option<RefBox<'_>> {
        unreachable!()
    }
    fn iter_next(&self) -> Option<RefBox<'_>> {
        unreachable!()
    }
    #[cfg(feature = "std")]
    fn recv_timeout(&self, d: Duration) -> Result<Elem, RErr> {
        unreachable!()
    }
    #[cfg(feature = "std")]
    fn recv_ref_timeout(&self, d: Duration) -> Result<RefBox<'_>, RErr> {
        unreachable!()
    }
    fn recv_fut(&self) -> RecvFut<'_> {
        unreachable!()
    }
    fn recv_ref_fut(&self) -> RecvRefFut<'_> {
        unreachable!()
    }
    fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>> {
        unreachable!()
    }
    fn poll_recv_ref(&self, cx: &mut Context<'_>) -> Poll<Option<RefBox<'_>>> {
        unreachable!()
    }
}

/// Polls the inner future inside a no-allocation window and maps the result
/// outside of it. Dropping it drops the inner future inside a window, too.
pub struct Watched<F: Future, M> {
    fut: std::mem::ManuallyDrop<F>,
    map: M,
}

impl<F: Future, M> Watched<F, M> {
    fn new(fut: F, map: M) -> Self {
        Watched {
            fut: std::mem::ManuallyDrop::new(fut),
            map,
        }
    }
}

impl<F: Future, M, O> Future for Watched<F, M>
where
    M: FnMut(F::Output) -> O,
{
    type Output = O;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let this = unsafe { self.get_unchecked_mut() };
        let f: Pin<&mut F> = unsafe { Pin::new_unchecked(&mut *this.fut) };
        match op!(f.poll(cx)) {
            Poll::Ready(x) => Poll::Ready((this.map)(x)),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl<F: Future, M> Drop for Watched<F, M> {
    fn drop(&mut self) {
        op!(unsafe { std::mem::ManuallyDrop::drop(&mut self.fut) })
    }
}

fn boxed_recv<'a>(r: Option<mpsc::RecvRef<'a, Elem>>) -> Option<RefBox<'a>> {
    r.map(|r| Box::new(r) as RefBox<'a>)
}

macro_rules! impl_async {
    ([$($tg:tt)*] $tx:ty, [$($rg:tt)*] $rx:ty) => {
        impl<$($tg)*> Tx for $tx {
            fn is_async(&self) -> bool {
                true
            }
            fn try_send(&self, e: Elem) -> Result<(), (SErr, Elem)> {
                op!(self.try_send(e)).map_err(try_err)
            }
            fn try_send_ref(&self) -> Result<RefBox<'_>, SErr> {
                match op!(self.try_send_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(try_err(e).0),
                }
            }
            fn dup(&self) -> Box<dyn Tx> {
                let c = op!(self.clone());
                Box::new(c)
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
            fn send_fut(&self, e: Elem) -> SendFut<'_> {
                Box::pin(Watched::new(self.send(e), |r: Result<(), Closed<Elem>>| r.map_err(closed_err)))
            }
            fn send_ref_fut(&self) -> SendRefFut<'_> {
                Box::pin(Watched::new(self.send_ref(), |r| match r {
                    Ok(r) => Ok(Box::new(r) as RefBox<'_>),
                    Err(e) => Err(closed_err(e).0),
                }))
            }
        }
        impl<$($rg)*> Rx for $rx {
            fn is_async(&self) -> bool {
                true
            }
            fn try_recv(&self) -> Result<Elem, RErr> {
                op!(self.try_recv()).map(by_value).map_err(rerr)
            }
            fn try_recv_ref(&self) -> Result<RefBox<'_>, RErr> {
                match op!(self.try_recv_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(rerr(e)),
                }
            }
            fn is_closed(&self) -> bool {
                op!(self.is_closed())
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
            fn recv_fut(&self) -> RecvFut<'_> {
                Box::pin(Watched::new(self.recv(), |r: Option<Elem>| r.map(by_value)))
            }
            fn recv_ref_fut(&self) -> RecvRefFut<'_> {
                Box::pin(Watched::new(self.recv_ref(), boxed_recv))
            }
            fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Option<Elem>> {
                op!(self.poll_recv(cx)).map(|r| r.map(by_value))
            }
            fn poll_recv_ref(&self, cx: &mut Context<'_>) -> Poll<Option<RefBox<'_>>> {
                match op!(self.poll_recv_ref(cx)) {
                    Poll::Ready(r) => Poll::Ready(r.map(|r| Box::new(r) as RefBox<'_>)),
                    Poll::Pending => Poll::Pending,
                }
            }
        }
    };
}

#[cfg(feature = "alloc")]
impl_async!([R: Recycle<Elem> + std::fmt::Debug + 'static] mpsc::Sender<Elem, R>, [R: Recycle<Elem> + std::fmt::Debug] mpsc::Receiver<Elem, R>);
impl_async!([] mpsc::StaticSender<Elem>, [] mpsc::StaticReceiver<Elem>);

#[cfg(feature = "std")]
macro_rules! impl_blocking {
    ([$($tg:tt)*] $tx:ty, [$($rg:tt)*] $rx:ty) => {
        impl<$($tg)*> Tx for $tx {
            fn is_async(&self) -> bool {
                false
            }
            fn try_send(&self, e: Elem) -> Result<(), (SErr, Elem)> {
                op!(self.try_send(e)).map_err(try_err)
            }
            fn try_send_ref(&self) -> Result<RefBox<'_>, SErr> {
                match op!(self.try_send_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(try_err(e).0),
                }
            }
            fn dup(&self) -> Box<dyn Tx> {
                let c = op!(self.clone());
                Box::new(c)
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
            fn send(&self, e: Elem) -> Result<(), (SErr, Elem)> {
                op!(self.send(e)).map_err(closed_err)
            }
            fn send_ref(&self) -> Result<RefBox<'_>, SErr> {
                match op!(self.send_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(closed_err(e).0),
                }
            }
            fn send_timeout(&self, e: Elem, d: Duration) -> Result<(), (SErr, Elem)> {
                op!(self.send_timeout(e, d)).map_err(timeout_err)
            }
            fn send_ref_timeout(&self, d: Duration) -> Result<RefBox<'_>, SErr> {
                match op!(self.send_ref_timeout(d)) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(timeout_err(e).0),
                }
            }
        }
        impl<$($rg)*> Rx for $rx {
            fn is_async(&self) -> bool {
                false
            }
            fn try_recv(&self) -> Result<Elem, RErr> {
                op!(self.try_recv()).map(by_value).map_err(rerr)
            }
            fn try_recv_ref(&self) -> Result<RefBox<'_>, RErr> {
                match op!(self.try_recv_ref()) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(rerr(e)),
                }
            }
            fn is_closed(&self) -> bool {
                op!(self.is_closed())
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
            fn recv(&self) -> Option<Elem> {
                op!(self.recv()).map(by_value)
            }
            fn recv_ref(&self) -> Option<RefBox<'_>> {
                let r = op!(self.recv_ref())?;
                Some(Box::new(r))
            }
            fn iter_next(&self) -> Option<RefBox<'_>> {
                let mut it = self;
                let r = op!(Iterator::next(&mut it))?;
                Some(Box::new(r))
            }
            fn recv_timeout(&self, d: Duration) -> Result<Elem, RErr> {
                op!(self.recv_timeout(d)).map(by_value).map_err(rterr)
            }
            fn recv_ref_timeout(&self, d: Duration) -> Result<RefBox<'_>, RErr> {
                match op!(self.recv_ref_timeout(d)) {
                    Ok(r) => Ok(Box::new(r)),
                    Err(e) => Err(rterr(e)),
                }
            }
        }
    };
}
#[cfg(feature = "std")]
impl_blocking!([R: Recycle<Elem> + std::fmt::Debug + 'static] blocking::Sender<Elem, R>, [R: Recycle<Elem> + std::fmt::Debug] blocking::Receiver<Elem, R>);
#[cfg(feature = "std")]
impl_blocking!([] blocking::StaticSender<Elem>, [] blocking::StaticReceiver<Elem>);

// ---------------------------------------------------------------- construction

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Flavor {
    Queue,
    StaticQueue,
    Async,
    StaticAsync,
    Blocking,
    StaticBlocking,
}

impl Flavor {
    pub fn is_queue(self) -> bool {
        matches!(self, Flavor::Queue | Flavor::StaticQueue)
    }
    pub fn is_static(self) -> bool {
        matches!(self, Flavor::StaticQueue | Flavor::StaticAsync | Flavor::StaticBlocking)
    }
    pub fn is_async(self) -> bool {
        matches!(self, Flavor::Async | Flavor::StaticAsync)
    }
    pub fn is_blocking(self) -> bool {
        matches!(self, Flavor::Blocking | Flavor::StaticBlocking)
    }
    /// Flavours available in this build.
    pub fn all() -> &'static [Flavor] {
        if cfg!(feature = "std") {
            &[
                Flavor::Queue,
                Flavor::StaticQueue,
                Flavor::Async,
                Flavor::StaticAsync,
                Flavor::Blocking,
                Flavor::StaticBlocking,
            ]
        } else if cfg!(feature = "alloc") {
            &[Flavor::Queue, Flavor::StaticQueue, Flavor::Async, Flavor::StaticAsync]
        } else {
            &[Flavor::StaticQueue, Flavor::StaticAsync]
        }
    }
}

/// Capacities for which static flavours are instantiated.
pub const STATIC_CAPS: &[usize] = &[1, 2, 3, 4, 5, 7, 8];

macro_rules! with_cap {
    ($cap:expr, $N:ident, $body:expr) => {
        match $cap {
            1 => { const $N: usize = 1; $body }
            2 => { const $N: usize = 2; $body }
            3 => { const $N: usize = 3; $body }
            4 => { const $N: usize = 4; $body }
            5 => { const $N: usize = 5; $body }
            7 => { const $N: usize = 7; $body }
            8 => { const $N: usize = 8; $body }
            _ => unreachable!("no static flavour of this capacity"),
        }
    };
}

pub fn make_queue(f: Flavor, cap: usize, custom: bool) -> Box<dyn Queue> {
    match (f, custom) {
        #[cfg(feature = "alloc")]
        (Flavor::Queue, false) => Box::new(ThingBuf::<Elem>::new(cap)),
        #[cfg(feature = "alloc")]
        (Flavor::Queue, true) => Box::new(ThingBuf::<Elem, Rec>::with_recycle(cap, Rec)),
        (Flavor::StaticQueue, false) => with_cap!(cap, N, {
            let q = op!(StaticThingBuf::<Elem, N>::new());
            Box::new(q)
        }),
        (Flavor::StaticQueue, true) => with_cap!(cap, N, {
            let q = op!(StaticThingBuf::<Elem, N, Rec>::with_recycle(Rec));
            Box::new(q)
        }),
        _ => unreachable!(),
    }
}

/// Frees the storage of a static channel made for one run.
pub type Free = Box<dyn FnOnce()>;

/// Erased static channel, for tests of splitting.
pub trait StaticChan {
    /// `None`: refused.
    fn try_split(&self) -> Option<(Box<dyn Tx>, Box<dyn Rx>)>;
    fn split(&self) -> (Box<dyn Tx>, Box<dyn Rx>);
}

struct Leaked<C: 'static>(&'static C);

macro_rules! impl_static_chan {
    ($t:ty) => {
        impl<const N: usize> StaticChan for Leaked<$t> {
            fn try_split(&self) -> Option<(Box<dyn Tx>, Box<dyn Rx>)> {
                let r = op!(self.0.try_split());
                let (tx, rx) = r?;
                Some((Box::new(tx), Box::new(rx)))
            }
            fn split(&self) -> (Box<dyn Tx>, Box<dyn Rx>) {
                let (tx, rx) = self.0.split();
                (Box::new(tx), Box::new(rx))
            }
        }
    };
}
impl_static_chan!(mpsc::StaticChannel<Elem, N>);
#[cfg(feature = "std")]
impl_static_chan!(blocking::StaticChannel<Elem, N>);

pub fn make_static(f: Flavor, cap: usize) -> (Box<dyn StaticChan>, Free) {
    fn leak<C: 'static>(c: C) -> (&'static C, Free) {
        let p: *mut C = Box::into_raw(Box::new(c));
        (unsafe { &*p }, Box::new(move || drop(unsafe { Box::from_raw(p) })))
    }
    match f {
        Flavor::StaticAsync => with_cap!(cap, N, {
            let c = op!(mpsc::StaticChannel::<Elem, N>::new());
            let (c, free) = leak(c);
            (Box::new(Leaked(c)), free)
        }),
        #[cfg(feature = "std")]
        Flavor::StaticBlocking => with_cap!(cap, N, {
            let c = op!(blocking::StaticChannel::<Elem, N>::new());
            let (c, free) = leak(c);
            (Box::new(Leaked(c)), free)
        }),
        _ => unreachable!(),
    }
}

pub fn make_channel(f: Flavor, cap: usize, custom: bool) -> (Box<dyn Tx>, Box<dyn Rx>, Option<Free>) {
    fn pair<T: Tx + 'static, R: Rx + 'static>((t, r): (T, R)) -> (Box<dyn Tx>, Box<dyn Rx>, Option<Free>) {
        (Box::new(t), Box::new(r), None)
    }
    match (f, custom) {
        #[cfg(feature = "alloc")]
        (Flavor::Async, false) => pair(mpsc::channel::<Elem>(cap)),
        #[cfg(feature = "alloc")]
        (Flavor::Async, true) => pair(mpsc::with_recycle(cap, Rec)),
        #[cfg(feature = "std")]
        (Flavor::Blocking, false) => pair(blocking::channel::<Elem>(cap)),
        #[cfg(feature = "std")]
        (Flavor::Blocking, true) => pair(blocking::with_recycle(cap, Rec)),
        (Flavor::StaticAsync, _) | (Flavor::StaticBlocking, _) => {
            let (c, free) = make_static(f, cap);
            let (tx, rx) = c.split();
            (tx, rx, Some(free))
        }
        _ => unreachable!(),
    }
}

