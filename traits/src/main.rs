//! Which public types may be sent to or shared with another thread, observed
//! for every combination of element and policy thread-safety. A crate of its
//! own, so that it also builds where other harness code would not.
use std::cell::RefCell;
use std::marker::PhantomData;
use thingbuf::recycling::Recycle;
use thingbuf::{mpsc, StaticThingBuf};

thread_local! {
    static FACTS: RefCell<u64> = const { RefCell::new(0) };
    static SHOWN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn count(_: &str, n: u64) {
    FACTS.with(|f| *f.borrow_mut() += n)
}

fn summary() {
    SHOWN.with(|s| {
        for l in s.borrow().iter().take(6) {
            println!("SAMPLE {{\"fact\":\"{l}\"}}");
        }
    });
    FACTS.with(|f| println!("SUMMARY {{\"runs\":1,\"trait_facts\":{}}}", f.borrow()))
}

fn fail(kind: &str, msg: String) {
    summary();
    println!("FOUND {{\"kind\":\"{kind}\",\"msg\":\"{msg}\",\"index\":0}}");
    std::process::exit(1)
}

fn main() {
    traits();
    summary();
}

// ------------------------------------------------------------- thread safety

pub struct Yes;
/// may be moved, not shared
pub struct MoveOnly(PhantomData<std::cell::Cell<u8>>);
/// may be shared, not moved
pub struct ShareOnly(PhantomData<*mut u8>);
unsafe impl Sync for ShareOnly {}
/// neither
pub struct Neither(PhantomData<*mut u8>);

macro_rules! policy_for {
    ($($t:ty),*) => {$(
        impl<T: Default + Clone> Recycle<T> for $t {
            fn new_element(&self) -> T { T::default() }
            fn recycle(&self, e: &mut T) { *e = T::default() }
        }
        impl Default for $t { fn default() -> Self { unsafe { std::mem::zeroed() } } }
        impl Clone for $t { fn clone(&self) -> Self { unsafe { std::mem::zeroed() } } }
    )*};
}
policy_for!(Yes, MoveOnly, ShareOnly, Neither);

macro_rules! auto {
    ($t:ty) => {{
        trait No {
            fn send(&self) -> bool {
                false
            }
            fn sync(&self) -> bool {
                false
            }
        }
        struct Send_<T: ?Sized>(PhantomData<T>);
        impl<T: ?Sized> No for Send_<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Send> Send_<T> {
            fn send(&self) -> bool {
                true
            }
        }
        struct Sync_<T: ?Sized>(PhantomData<T>);
        impl<T: ?Sized> No for Sync_<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + Sync> Sync_<T> {
            fn sync(&self) -> bool {
                true
            }
        }
        (Send_::<$t>(PhantomData).send(), Sync_::<$t>(PhantomData).sync())
    }};
}

macro_rules! auto_of {
    ($e:expr) => {{
        fn never<T>(_: impl FnOnce() -> T) -> PhantomData<T> {
            PhantomData
        }
        trait No {
            fn send(&self) -> bool {
                false
            }
        }
        struct Send_<T>(PhantomData<T>);
        impl<T> No for Send_<T> {}
        #[allow(dead_code)]
        impl<T: Send> Send_<T> {
            fn send(&self) -> bool {
                true
            }
        }
        #[allow(unreachable_code)]
        let p = never(|| $e);
        Send_(p).send()
    }};
}

/// `need_send`/`need_sync`: what the type's thread safety requires of (element
/// is Send, element is Sync, policy is Send, policy is Sync).
fn judge(name: &str, elem: (bool, bool), pol: (bool, bool), is: (bool, bool), need: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool), must: (bool, bool)) {
    let ok = (need.0(elem.0, elem.1, pol.0, pol.1), need.1(elem.0, elem.1, pol.0, pol.1));
    count("trait_facts", 2);
    if elem.0 != elem.1 || pol.0 != pol.1 {
        SHOWN.with(|s| s.borrow_mut().push(format!("{name}: Send={} Sync={}", is.0, is.1)));
    }
    for (i, what) in ["sent to", "shared with"].iter().enumerate() {
        let (is, ok, must) = ([is.0, is.1][i], [ok.0, ok.1][i], [must.0, must.1][i]);
        if is && !ok {
            fail(
                "unsound",
                format!("{name} can be {what} another thread with an element that is Send={} Sync={} and a policy that is Send={} Sync={}", elem.0, elem.1, pol.0, pol.1),
            );
        }
        if !is && must && elem == (true, true) && pol == (true, true) {
            fail("too-strict", format!("{name} cannot be {what} another thread although its element and policy are thread-safe"));
        }
    }
}

fn traits() {
    macro_rules! row {
        ($T:ty, $te:expr) => {
            row!(@p $T, $te, Yes, (true, true));
            row!(@p $T, $te, MoveOnly, (true, false));
            row!(@p $T, $te, ShareOnly, (false, true));
            row!(@p $T, $te, Neither, (false, false));
        };
        (@p $T:ty, $te:expr, $R:ty, $re:expr) => {
            // a queue owns elements and policy; sharing it lets elements move
            // between threads and the policy be used by all of them
            let owner: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, p, _| e && p, |e, _, _, p| e && p);
            // a handle shares the queue and may be the one to destroy it
            let handle: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, ps, p| e && p && ps, |e, _, _, p| e && p);
            let static_handle: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, _, p| e && p, |e, _, _, p| e && p);
            // a reference lends the element
            let lend: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, _, _| e, |_, s, _, _| s);
            // a future uses the policy and yields an element or reference
            let fut: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, _, p| e && p, |_, _, _, _| true);
            let fut_ref: (fn(bool, bool, bool, bool) -> bool, fn(bool, bool, bool, bool) -> bool) =
                (|e, _, _, _| e, |_, _, _, _| true);
            let n = stringify!($T, $R);
            macro_rules! j {
                ($name:literal, $ty:ty, $need:expr, $must:expr) => {
                    judge(&format!("{} <{n}>", $name), $te, $re, auto!($ty), $need, $must)
                };
            }
            #[cfg(feature = "alloc")]
            {
                j!("ThingBuf", thingbuf::ThingBuf<$T, $R>, owner, (true, true));
                j!("mpsc::Sender", mpsc::Sender<$T, $R>, handle, (true, true));
                j!("mpsc::Receiver", mpsc::Receiver<$T, $R>, handle, (true, true));
            }
            j!("StaticThingBuf", StaticThingBuf<$T, 3, $R>, owner, (true, true));
            j!("Ref", thingbuf::Ref<'static, $T>, lend, (true, true));
            j!("mpsc::SendRef", mpsc::SendRef<'static, $T>, lend, (true, true));
            j!("mpsc::RecvRef", mpsc::RecvRef<'static, $T>, lend, (true, true));
            j!("mpsc::StaticChannel", mpsc::StaticChannel<$T, 3, $R>, owner, (true, true));
            j!("mpsc::StaticSender", mpsc::StaticSender<$T, $R>, static_handle, (true, true));
            j!("mpsc::StaticReceiver", mpsc::StaticReceiver<$T, $R>, static_handle, (true, true));
            j!("mpsc::RecvRefFuture", mpsc::RecvRefFuture<'static, $T>, fut_ref, (true, true));
            j!("mpsc::RecvFuture", mpsc::RecvFuture<'static, $T, $R>, fut, (true, true));
            #[cfg(feature = "std")]
            {
                use mpsc::blocking as b;
                j!("blocking::Sender", b::Sender<$T, $R>, handle, (true, true));
                j!("blocking::Receiver", b::Receiver<$T, $R>, handle, (true, true));
                j!("blocking::SendRef", b::SendRef<'static, $T>, lend, (true, true));
                j!("blocking::RecvRef", b::RecvRef<'static, $T>, lend, (true, true));
                j!("blocking::StaticChannel", b::StaticChannel<$T, 3, $R>, owner, (true, true));
                j!("blocking::StaticSender", b::StaticSender<$T, $R>, static_handle, (true, true));
                j!("blocking::StaticReceiver", b::StaticReceiver<$T, $R>, static_handle, (true, true));
            }
            // the anonymous futures of the senders
            {
                fn s() -> &'static mpsc::StaticSender<$T, $R> {
                    unreachable!()
                }
                let ok = $te.0 && $re.1;
                for (name, is) in [("StaticSender::send_ref", auto_of!(s().send_ref())), ("StaticSender::send", auto_of!(s().send(<$T>::default())))] {
                    count("trait_facts", 1);
                    if is && !ok {
                        fail("unsound", format!("the future of {name} <{n}> can be sent to another thread"));
                    }
                    if !is && $te == (true, true) && $re == (true, true) {
                        fail("too-strict", format!("the future of {name} <{n}> cannot be sent to another thread"));
                    }
                }
            }
            #[cfg(feature = "alloc")]
            {
                fn s() -> &'static mpsc::Sender<$T, $R> {
                    unreachable!()
                }
                let ok = $te.0 && $re.1;
                for (name, is) in [("Sender::send_ref", auto_of!(s().send_ref())), ("Sender::send", auto_of!(s().send(<$T>::default())))] {
                    count("trait_facts", 1);
                    if is && !ok {
                        fail("unsound", format!("the future of {name} <{n}> can be sent to another thread"));
                    }
                    if !is && $te == (true, true) && $re == (true, true) {
                        fail("too-strict", format!("the future of {name} <{n}> cannot be sent to another thread"));
                    }
                }
            }
        };
    }
    row!(Yes, (true, true));
    row!(MoveOnly, (true, false));
    row!(ShareOnly, (false, true));
    row!(Neither, (false, false));
}

