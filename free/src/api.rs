//! One interface over all flavours, for messages of any type.
use crate::msg::Msg;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};
use thingbuf::recycling::Recycle;
use thingbuf::{mpsc, StaticThingBuf};
#[cfg(feature = "std")]
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Err {
    Full,
    Closed,
    Timeout,
    Empty,
}

/// What a closure may do with an element it was lent.
pub type Lend<'a, T> = &'a mut dyn FnMut(&mut T);

// ------------------------------------------------------------------ queues

pub trait Queue<T>: Sync {
    fn push(&self, v: T) -> Result<(), T>;
    fn push_ref(&self, f: Lend<T>) -> bool;
    fn push_with(&self, f: Lend<T>) -> bool;
    fn pop(&self) -> Option<T>;
    fn pop_ref(&self, f: Lend<T>) -> bool;
    fn pop_with(&self, f: Lend<T>) -> bool;
    fn len(&self) -> usize;
    fn capacity(&self) -> usize;
    fn remaining(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn debug(&self) -> String;
}

macro_rules! queue {
    ([$($g:tt)*] $t:ty) => {
        impl<T: Send + Sync, $($g)*> Queue<T> for $t {
            fn push(&self, v: T) -> Result<(), T> {
                self.push(v).map_err(|e| e.into_inner())
            }
            fn push_ref(&self, f: Lend<T>) -> bool {
                match self.push_ref() {
                    Ok(mut r) => {
                        f(&mut r);
                        true
                    }
                    Err(_) => false,
                }
            }
            fn push_with(&self, f: Lend<T>) -> bool {
                self.push_with(|x| f(x)).is_ok()
            }
            fn pop(&self) -> Option<T> {
                self.pop()
            }
            fn pop_ref(&self, f: Lend<T>) -> bool {
                match self.pop_ref() {
                    Some(mut r) => {
                        f(&mut r);
                        true
                    }
                    None => false,
                }
            }
            fn pop_with(&self, f: Lend<T>) -> bool {
                self.pop_with(|x| f(x)).is_some()
            }
            fn len(&self) -> usize {
                self.len()
            }
            fn capacity(&self) -> usize {
                self.capacity()
            }
            fn remaining(&self) -> usize {
                self.remaining()
            }
            fn is_empty(&self) -> bool {
                self.is_empty()
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }
    };
}
#[cfg(feature = "alloc")]
queue!([R: Recycle<T> + Sync + std::fmt::Debug] thingbuf::ThingBuf<T, R>);
queue!([R: Recycle<T> + Sync + std::fmt::Debug, const N: usize] StaticThingBuf<T, N, R>);

// ---------------------------------------------------------------- channels

pub trait Tx<T>: Send + Sync {
    fn try_send(&self, v: T) -> Result<(), (Err, T)>;
    fn try_send_ref(&self, f: Lend<T>) -> Result<(), Err>;
    fn send(&self, v: T) -> Result<(), T>;
    fn send_ref(&self, f: Lend<T>) -> Result<(), ()>;
    /// Starts sending and gives up after a while. `Err(None)`: given up.
    fn try_hard(&self, f: Lend<T>, patience: u32) -> Result<(), Option<Err>>;
    fn dup(&self) -> Box<dyn Tx<T>>;
    fn debug(&self) -> String;
}

pub trait Rx<T>: Send {
    fn try_recv(&self) -> Result<T, Err>;
    fn try_recv_ref(&self, f: Lend<T>) -> Result<(), Err>;
    fn recv(&self) -> Option<T>;
    fn recv_ref(&self, f: Lend<T>) -> bool;
    /// `Ok(false)`: closed; `Err`: given up
    fn recv_hard(&self, f: Lend<T>, patience: u32) -> Result<bool, ()>;
    fn is_closed(&self) -> bool;
    fn debug(&self) -> String;
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.unpark();
    }
}

fn waker() -> Waker {
    std::sync::Arc::new(Unpark(std::thread::current())).into()
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut polls = 0;
    loop {
        // a new waker now and then, as if the task had moved
        let wk = waker();
        let mut cx = Context::from_waker(&wk);
        for _ in 0..2 {
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return v;
            }
            std::thread::park();
            polls += 1;
            if polls % 3 == 0 {
                break;
            }
        }
    }
}

fn poll_some<F: Future>(f: Pin<&mut F>, patience: u32) -> Option<F::Output> {
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    let mut f = f;
    for i in 0..=patience {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if i % 2 == 1 {
            std::thread::yield_now();
        }
    }
    None
}

macro_rules! async_channel {
    ([$($g:tt)*] $tx:ty, $rx:ty) => {
        async_rx!([$($g)*] $rx);
        impl<T: std::fmt::Debug + Send + Sync + 'static, $($g)*> Tx<T> for $tx {
            fn dup(&self) -> Box<dyn Tx<T>> {
                Box::new(self.clone())
            }
            async_tx!();
        }
    };
}
macro_rules! async_tx {
    () => {
            fn try_send(&self, v: T) -> Result<(), (Err, T)> {
                self.try_send(v).map_err(|e| (if e.is_full() { Err::Full } else { Err::Closed }, e.into_inner()))
            }
            fn try_send_ref(&self, f: Lend<T>) -> Result<(), Err> {
                match self.try_send_ref() {
                    Ok(mut r) => {
                        f(&mut r);
                        Ok(())
                    }
                    Err(e) => Err(if e.is_full() { Err::Full } else { Err::Closed }),
                }
            }
            fn send(&self, v: T) -> Result<(), T> {
                block_on(self.send(v)).map_err(|e| e.into_inner())
            }
            fn send_ref(&self, f: Lend<T>) -> Result<(), ()> {
                let mut r = block_on(self.send_ref()).map_err(|_| ())?;
                f(&mut r);
                Ok(())
            }
            fn try_hard(&self, f: Lend<T>, patience: u32) -> Result<(), Option<Err>> {
                let mut fut = Box::pin(self.send_ref());
                match poll_some(fut.as_mut(), patience) {
                    None => Err(None),
                    Some(Err(_)) => Err(Some(Err::Closed)),
                    Some(Ok(mut r)) => {
                        f(&mut r);
                        Ok(())
                    }
                }
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
    };
}
macro_rules! async_rx {
    ([$($g:tt)*] $rx:ty) => {
        impl<T: std::fmt::Debug + Send + Sync + 'static, $($g)*> Rx<T> for $rx {
            fn try_recv(&self) -> Result<T, Err> {
                self.try_recv().map_err(rerr)
            }
            fn try_recv_ref(&self, f: Lend<T>) -> Result<(), Err> {
                let mut r = self.try_recv_ref().map_err(rerr)?;
                f(&mut r);
                Ok(())
            }
            fn recv(&self) -> Option<T> {
                block_on(self.recv())
            }
            fn recv_ref(&self, f: Lend<T>) -> bool {
                match block_on(self.recv_ref()) {
                    Some(mut r) => {
                        f(&mut r);
                        true
                    }
                    None => false,
                }
            }
            fn recv_hard(&self, f: Lend<T>, patience: u32) -> Result<bool, ()> {
                if patience % 2 == 0 {
                    let wk = waker();
                    let mut cx = Context::from_waker(&wk);
                    for _ in 0..=patience {
                        match self.poll_recv_ref(&mut cx) {
                            Poll::Ready(Some(mut r)) => {
                                f(&mut r);
                                return Ok(true);
                            }
                            Poll::Ready(None) => return Ok(false),
                            Poll::Pending => {}
                        }
                    }
                    return Err(());
                }
                let mut fut = Box::pin(self.recv_ref());
                match poll_some(fut.as_mut(), patience) {
                    None => Err(()),
                    Some(None) => Ok(false),
                    Some(Some(mut r)) => {
                        f(&mut r);
                        Ok(true)
                    }
                }
            }
            fn is_closed(&self) -> bool {
                self.is_closed()
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }
    };
}

fn rerr(e: mpsc::errors::TryRecvError) -> Err {
    match e {
        mpsc::errors::TryRecvError::Empty => Err::Empty,
        mpsc::errors::TryRecvError::Closed => Err::Closed,
        _ => panic!("unknown error"),
    }
}

#[cfg(feature = "alloc")]
async_channel!([R: Recycle<T> + Send + Sync + std::fmt::Debug + 'static] mpsc::Sender<T, R>, mpsc::Receiver<T, R>);
// (static senders are cloneable with the default policy only)
async_rx!([R: Recycle<T> + Send + Sync + std::fmt::Debug + 'static] mpsc::StaticReceiver<T, R>);
impl<T: std::fmt::Debug + Default + Clone + Send + Sync + 'static> Tx<T> for mpsc::StaticSender<T> {
    fn dup(&self) -> Box<dyn Tx<T>> {
        Box::new(self.clone())
    }
    async_tx!();
}

#[cfg(feature = "std")]
macro_rules! blocking_channel {
    ($tx:ty, $rx:ty) => {
        impl<T: std::fmt::Debug + Send + Sync + 'static, R: Recycle<T> + Send + Sync + std::fmt::Debug + 'static> Tx<T> for $tx {
            fn dup(&self) -> Box<dyn Tx<T>> {
                Box::new(self.clone())
            }
            fn try_send(&self, v: T) -> Result<(), (Err, T)> {
                self.try_send(v).map_err(|e| (if e.is_full() { Err::Full } else { Err::Closed }, e.into_inner()))
            }
            fn try_send_ref(&self, f: Lend<T>) -> Result<(), Err> {
                match self.try_send_ref() {
                    Ok(mut r) => {
                        f(&mut r);
                        Ok(())
                    }
                    Err(e) => Err(if e.is_full() { Err::Full } else { Err::Closed }),
                }
            }
            fn send(&self, v: T) -> Result<(), T> {
                self.send(v).map_err(|e| e.into_inner())
            }
            fn send_ref(&self, f: Lend<T>) -> Result<(), ()> {
                let mut r = self.send_ref().map_err(|_| ())?;
                f(&mut r);
                Ok(())
            }
            fn try_hard(&self, f: Lend<T>, patience: u32) -> Result<(), Option<Err>> {
                match self.send_ref_timeout(Duration::from_micros(patience as u64 * 7)) {
                    Ok(mut r) => {
                        f(&mut r);
                        Ok(())
                    }
                    Err(e) if e.is_timeout() => Err(None),
                    Err(_) => Err(Some(Err::Closed)),
                }
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }
        impl<T: std::fmt::Debug + Send + Sync + 'static, R: Recycle<T> + Send + Sync + std::fmt::Debug + 'static> Rx<T> for $rx {
            fn try_recv(&self) -> Result<T, Err> {
                self.try_recv().map_err(rerr)
            }
            fn try_recv_ref(&self, f: Lend<T>) -> Result<(), Err> {
                let mut r = self.try_recv_ref().map_err(rerr)?;
                f(&mut r);
                Ok(())
            }
            fn recv(&self) -> Option<T> {
                self.recv()
            }
            fn recv_ref(&self, f: Lend<T>) -> bool {
                let mut it = self;
                match it.next() {
                    Some(mut r) => {
                        f(&mut r);
                        true
                    }
                    None => false,
                }
            }
            fn recv_hard(&self, f: Lend<T>, patience: u32) -> Result<bool, ()> {
                match self.recv_ref_timeout(Duration::from_micros(patience as u64 * 7)) {
                    Ok(mut r) => {
                        f(&mut r);
                        Ok(true)
                    }
                    Err(mpsc::errors::RecvTimeoutError::Closed) => Ok(false),
                    Err(_) => Err(()),
                }
            }
            fn is_closed(&self) -> bool {
                self.is_closed()
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }
    };
}
#[cfg(feature = "std")]
blocking_channel!(mpsc::blocking::Sender<T, R>, mpsc::blocking::Receiver<T, R>);
#[cfg(feature = "std")]
blocking_channel!(mpsc::blocking::StaticSender<T, R>, mpsc::blocking::StaticReceiver<T, R>);

// --------------------------------------------------------------- construction

/// Frees what was leaked to get a `'static` reference.
pub struct Owner(Option<Box<dyn FnOnce() + Send>>);
impl Drop for Owner {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
impl Owner {
    fn none() -> Self {
        Owner(None)
    }
    fn of<X: 'static + Sync>(x: Box<X>) -> (&'static X, Self) {
        let p = Box::into_raw(x);
        let a = p as usize;
        (unsafe { &*p }, Owner(Some(Box::new(move || unsafe { drop(Box::from_raw(a as *mut X)) }))))
    }
}

pub const STATIC_CAPS: [usize; 7] = [1, 2, 3, 4, 7, 8, 33];
macro_rules! with_cap {
    ($cap:expr, $N:ident => $e:expr) => {
        match $cap {
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            4 => { const $N: usize = 4; $e }
            7 => { const $N: usize = 7; $e }
            8 => { const $N: usize = 8; $e }
            33 => { const $N: usize = 33; $e }
            _ => unreachable!(),
        }
    };
}

pub fn queue<T: Msg>(fixed: bool, cap: usize) -> Box<dyn Queue<T>> {
    if fixed {
        return with_cap!(cap, N => Box::new(StaticThingBuf::<T, N>::new()) as Box<dyn Queue<T>>);
    }
    #[cfg(feature = "alloc")]
    return Box::new(thingbuf::ThingBuf::<T>::new(cap));
    #[cfg(not(feature = "alloc"))]
    unreachable!()
}

/// The owner comes first, so that it is dropped last.
pub type Pair<T> = (Owner, Box<dyn Tx<T>>, Box<dyn Rx<T>>);

pub fn channel<T: Msg>(fixed: bool, blocking: bool, cap: usize) -> Pair<T> {
    match (fixed, blocking) {
        #[cfg(feature = "alloc")]
        (false, false) => {
            let (tx, rx) = mpsc::channel::<T>(cap);
            (Owner::none(), Box::new(tx), Box::new(rx))
        }
        (true, false) => with_cap!(cap, N => {
            let (c, o) = Owner::of(Box::new(mpsc::StaticChannel::<T, N>::new()));
            let (tx, rx) = c.split();
            (o, Box::new(tx) as Box<dyn Tx<T>>, Box::new(rx) as Box<dyn Rx<T>>)
        }),
        #[cfg(feature = "std")]
        (false, true) => {
            let (tx, rx) = mpsc::blocking::channel::<T>(cap);
            (Owner::none(), Box::new(tx), Box::new(rx))
        }
        #[cfg(feature = "std")]
        (true, true) => with_cap!(cap, N => {
            let (c, o) = Owner::of(Box::new(mpsc::blocking::StaticChannel::<T, N>::new()));
            let (tx, rx) = c.split();
            (o, Box::new(tx) as Box<dyn Tx<T>>, Box::new(rx) as Box<dyn Rx<T>>)
        }),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}
