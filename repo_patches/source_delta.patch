From ac2014447ad38496b49c27d883216665571565d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 01/23] monitor: add runtime-monitoring hooks behind --cfg
 thingbuf_monitor

---
 src/lib.rs           |   3 +
 src/loom.rs          |   5 +-
 src/monitor.rs       | 742 +++++++++++++++++++++++++++++++++++++++++++
 src/mpsc/blocking.rs |   7 +-
 src/util/mutex.rs    |   6 +-
 5 files changed, 760 insertions(+), 3 deletions(-)
 create mode 100644 src/monitor.rs

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..3356b67 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,9 @@ use core::{cmp, fmt, mem::MaybeUninit, ops, ptr};
 mod macros;
 
 mod loom;
+#[cfg(thingbuf_monitor)]
+#[doc(hidden)]
+pub mod monitor;
 pub mod mpsc;
 pub mod recycling;
 mod util;
diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..76206c8 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -200,7 +200,10 @@ mod inner {
     }
 }
 
-#[cfg(not(all(loom, test)))]
+#[cfg(all(thingbuf_monitor, not(all(loom, test))))]
+use crate::monitor as inner;
+
+#[cfg(not(any(thingbuf_monitor, all(loom, test))))]
 mod inner {
     #![allow(dead_code)]
     pub(crate) mod sync {
diff --git a/src/monitor.rs b/src/monitor.rs
new file mode 100644
index 0000000..97ba1d1
--- /dev/null
+++ b/src/monitor.rs
@@ -0,0 +1,742 @@
+//! Runtime-monitoring hooks. Compiled only with `--cfg thingbuf_monitor`.
+//!
+//! With that cfg, this module takes the place of the plain `core`/`std` items
+//! in `crate::loom`: the same atomics, cells, locks, `Arc`, thread parking and
+//! clock, each of which reports to an installed [`Monitor`] (if there is one,
+//! and if the calling context is managed by it) and otherwise behaves exactly
+//! like the item it replaces.
+#![allow(dead_code, missing_docs, unused_imports, unreachable_pub)]
+use core::sync::atomic::{AtomicBool as CoreBool, AtomicU64 as CoreU64, Ordering};
+
+/// Identity of a monitored object; the value belongs to the monitor.
+#[derive(Debug)]
+pub struct Obj(pub CoreU64);
+
+impl Obj {
+    pub const fn new() -> Self {
+        Obj(CoreU64::new(0))
+    }
+}
+
+/// What is about to happen at a scheduling point.
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+pub enum Point {
+    Load,
+    Store,
+    Rmw,
+    Fence,
+    Cell,
+    Lock,
+    Unlock,
+    Unpark,
+    Arc,
+}
+
+/// Receives every monitored event. All methods are called by the thread (or
+/// fiber) that performs the event.
+pub trait Monitor: Sync {
+    /// Is the calling context under the monitor's control?
+    fn managed(&self) -> bool;
+    /// Called before an event; other threads may be run here.
+    fn point(&self, obj: &Obj, point: Point);
+    /// A load; `cur` is the newest value. Returns the value to be read.
+    fn load(&self, obj: &Obj, order: Ordering, cur: u64) -> u64;
+    fn store(&self, obj: &Obj, order: Ordering, old: u64, new: u64);
+    /// A successful read-modify-write.
+    fn rmw(&self, obj: &Obj, order: Ordering, old: u64, new: u64);
+    /// A failed compare-exchange; it read the newest value.
+    fn cas_failed(&self, obj: &Obj, order: Ordering, cur: u64);
+    /// Should this weak compare-exchange fail spuriously?
+    fn fail_weak(&self, obj: &Obj) -> bool;
+    fn fence(&self, order: Ordering);
+    fn cell(&self, obj: &Obj, write: bool);
+    /// The lock is held by another context: wait until it may be free.
+    fn lock_contended(&self, obj: &Obj);
+    fn locked(&self, obj: &Obj);
+    fn unlocked(&self, obj: &Obj);
+    fn arc_drop(&self, obj: &Obj, last: bool);
+    fn spin(&self);
+    fn yield_now(&self);
+    fn current(&self) -> u64;
+    fn park(&self, timeout: Option<core::time::Duration>);
+    fn unpark(&self, thread: u64);
+    fn now(&self) -> core::time::Duration;
+}
+
+static INSTALLED: CoreBool = CoreBool::new(false);
+static mut MONITOR: Option<&'static dyn Monitor> = None;
+
+/// Installs the monitor. Must be called once, before any monitored object is
+/// used by another thread.
+pub fn install(monitor: &'static dyn Monitor) {
+    assert!(!INSTALLED.load(Ordering::Acquire));
+    unsafe { MONITOR = Some(monitor) };
+    INSTALLED.store(true, Ordering::Release);
+}
+
+#[inline]
+fn installed() -> Option<&'static dyn Monitor> {
+    if INSTALLED.load(Ordering::Acquire) {
+        unsafe { MONITOR }
+    } else {
+        None
+    }
+}
+
+#[inline]
+fn enter() -> Option<&'static dyn Monitor> {
+    installed().filter(|m| m.managed())
+}
+
+pub(crate) mod sync {
+    pub(crate) use super::atomic;
+    pub use core::sync::*;
+
+    #[cfg(feature = "alloc")]
+    pub use alloc::sync::*;
+
+    #[cfg(feature = "alloc")]
+    pub(crate) use super::arc::Arc;
+}
+
+pub(crate) mod atomic {
+    use super::{enter, Obj, Point};
+    pub use core::sync::atomic::*;
+    use core::{fmt, sync::atomic as real};
+
+    pub fn fence(order: Ordering) {
+        real::fence(order);
+        if let Some(m) = enter() {
+            static FENCE: Obj = Obj::new();
+            m.point(&FENCE, Point::Fence);
+            m.fence(order);
+        }
+    }
+
+    macro_rules! atomic_base {
+        ($name:ident, $val:ty, |$v:ident| $to:expr, |$w:ident| $from:expr) => {
+            pub struct $name {
+                v: real::$name,
+                obj: Obj,
+            }
+
+            impl $name {
+                #[inline]
+                pub const fn new(v: $val) -> Self {
+                    Self {
+                        v: real::$name::new(v),
+                        obj: Obj::new(),
+                    }
+                }
+
+                #[inline]
+                fn to($v: $val) -> u64 {
+                    $to
+                }
+
+                #[inline]
+                fn from($w: u64) -> $val {
+                    $from
+                }
+
+                pub fn load(&self, order: Ordering) -> $val {
+                    match enter() {
+                        None => self.v.load(order),
+                        Some(m) => {
+                            m.point(&self.obj, Point::Load);
+                            let cur = self.v.load(order);
+                            Self::from(m.load(&self.obj, order, Self::to(cur)))
+                        }
+                    }
+                }
+
+                pub fn store(&self, new: $val, order: Ordering) {
+                    match enter() {
+                        None => self.v.store(new, order),
+                        Some(m) => {
+                            m.point(&self.obj, Point::Store);
+                            let old = self.v.load(Ordering::SeqCst);
+                            self.v.store(new, order);
+                            m.store(&self.obj, order, Self::to(old), Self::to(new));
+                        }
+                    }
+                }
+
+                #[inline]
+                fn rmw(&self, order: Ordering, f: impl FnOnce(&real::$name) -> $val) -> $val {
+                    match enter() {
+                        None => f(&self.v),
+                        Some(m) => {
+                            m.point(&self.obj, Point::Rmw);
+                            let old = f(&self.v);
+                            let new = self.v.load(Ordering::SeqCst);
+                            m.rmw(&self.obj, order, Self::to(old), Self::to(new));
+                            old
+                        }
+                    }
+                }
+
+                pub fn swap(&self, new: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.swap(new, order))
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    cur: $val,
+                    new: $val,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$val, $val> {
+                    match enter() {
+                        None => self.v.compare_exchange(cur, new, ok, err),
+                        Some(m) => {
+                            m.point(&self.obj, Point::Rmw);
+                            let res = self.v.compare_exchange(cur, new, ok, err);
+                            match res {
+                                Ok(old) => m.rmw(&self.obj, ok, Self::to(old), Self::to(new)),
+                                Err(act) => m.cas_failed(&self.obj, err, Self::to(act)),
+                            }
+                            res
+                        }
+                    }
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    cur: $val,
+                    new: $val,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$val, $val> {
+                    match enter() {
+                        None => self.v.compare_exchange_weak(cur, new, ok, err),
+                        Some(m) => {
+                            if m.fail_weak(&self.obj) {
+                                m.point(&self.obj, Point::Rmw);
+                                let act = self.v.load(Ordering::SeqCst);
+                                m.cas_failed(&self.obj, err, Self::to(act));
+                                return Err(act);
+                            }
+                            self.compare_exchange(cur, new, ok, err)
+                        }
+                    }
+                }
+
+                pub fn fetch_update(
+                    &self,
+                    set: Ordering,
+                    fetch: Ordering,
+                    mut f: impl FnMut($val) -> Option<$val>,
+                ) -> Result<$val, $val> {
+                    let mut prev = self.load(fetch);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set, fetch) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $val {
+                    self.v.get_mut()
+                }
+
+                pub fn into_inner(self) -> $val {
+                    self.v.into_inner()
+                }
+            }
+
+            impl fmt::Debug for $name {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    self.v.fmt(f)
+                }
+            }
+
+            impl From<$val> for $name {
+                fn from(v: $val) -> Self {
+                    Self::new(v)
+                }
+            }
+        };
+    }
+
+    macro_rules! atomic_int {
+        ($name:ident, $val:ty) => {
+            atomic_base!($name, $val, |v| v as u64, |w| w as $val);
+
+            impl $name {
+                pub fn fetch_add(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_add(x, order))
+                }
+                pub fn fetch_sub(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_sub(x, order))
+                }
+                pub fn fetch_and(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_and(x, order))
+                }
+                pub fn fetch_nand(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_nand(x, order))
+                }
+                pub fn fetch_or(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_or(x, order))
+                }
+                pub fn fetch_xor(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_xor(x, order))
+                }
+                pub fn fetch_max(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_max(x, order))
+                }
+                pub fn fetch_min(&self, x: $val, order: Ordering) -> $val {
+                    self.rmw(order, |v| v.fetch_min(x, order))
+                }
+            }
+
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(0)
+                }
+            }
+        };
+    }
+
+    atomic_int!(AtomicUsize, usize);
+    atomic_int!(AtomicIsize, isize);
+    atomic_int!(AtomicU8, u8);
+    atomic_int!(AtomicU16, u16);
+    atomic_int!(AtomicU32, u32);
+    atomic_int!(AtomicU64, u64);
+    atomic_int!(AtomicI32, i32);
+    atomic_int!(AtomicI64, i64);
+    atomic_base!(AtomicBool, bool, |v| v as u64, |w| w != 0);
+
+    impl AtomicBool {
+        pub fn fetch_and(&self, x: bool, order: Ordering) -> bool {
+            self.rmw(order, |v| v.fetch_and(x, order))
+        }
+        pub fn fetch_nand(&self, x: bool, order: Ordering) -> bool {
+            self.rmw(order, |v| v.fetch_nand(x, order))
+        }
+        pub fn fetch_or(&self, x: bool, order: Ordering) -> bool {
+            self.rmw(order, |v| v.fetch_or(x, order))
+        }
+        pub fn fetch_xor(&self, x: bool, order: Ordering) -> bool {
+            self.rmw(order, |v| v.fetch_xor(x, order))
+        }
+    }
+
+    impl Default for AtomicBool {
+        fn default() -> Self {
+            Self::new(false)
+        }
+    }
+}
+
+pub(crate) mod hint {
+    #[inline]
+    pub(crate) fn spin_loop() {
+        match super::enter() {
+            None => core::hint::spin_loop(),
+            Some(m) => m.spin(),
+        }
+    }
+}
+
+pub(crate) mod cell {
+    use super::{enter, Obj, Point};
+
+    #[derive(Debug)]
+    pub(crate) struct UnsafeCell<T> {
+        obj: Obj,
+        data: core::cell::UnsafeCell<T>,
+    }
+
+    fn access(obj: &Obj, write: bool) {
+        if let Some(m) = enter() {
+            m.point(obj, Point::Cell);
+            m.cell(obj, write);
+        }
+    }
+
+    impl<T> UnsafeCell<T> {
+        pub const fn new(data: T) -> UnsafeCell<T> {
+            UnsafeCell {
+                obj: Obj::new(),
+                data: core::cell::UnsafeCell::new(data),
+            }
+        }
+
+        #[inline]
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*const T) -> R,
+        {
+            access(&self.obj, false);
+            f(self.data.get())
+        }
+
+        #[inline]
+        pub fn with_mut<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            access(&self.obj, true);
+            f(self.data.get())
+        }
+
+        #[inline]
+        pub(crate) fn get_mut(&self) -> MutPtr<T> {
+            MutPtr {
+                obj: &self.obj,
+                ptr: self.data.get(),
+            }
+        }
+    }
+
+    #[derive(Debug)]
+    pub(crate) struct MutPtr<T: ?Sized> {
+        obj: *const Obj,
+        ptr: *mut T,
+    }
+
+    impl<T: ?Sized> MutPtr<T> {
+        #[allow(clippy::mut_from_ref)]
+        #[inline]
+        pub(crate) unsafe fn deref(&self) -> &mut T {
+            access(&*self.obj, true);
+            &mut *self.ptr
+        }
+
+        #[inline]
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            access(unsafe { &*self.obj }, true);
+            f(self.ptr)
+        }
+    }
+}
+
+#[cfg(feature = "alloc")]
+mod arc {
+    use super::{enter, Obj, Point};
+    use alloc::sync::Arc as Real;
+    use core::{fmt, ops};
+
+    pub(crate) struct Arc<T>(Real<(Obj, T)>);
+
+    impl<T> Arc<T> {
+        pub(crate) fn new(value: T) -> Self {
+            Self(Real::new((Obj::new(), value)))
+        }
+
+        pub(crate) fn ptr_eq(this: &Self, other: &Self) -> bool {
+            Real::ptr_eq(&this.0, &other.0)
+        }
+
+        pub(crate) fn strong_count(this: &Self) -> usize {
+            Real::strong_count(&this.0)
+        }
+
+        pub(crate) fn as_ptr(this: &Self) -> *const T {
+            &**this
+        }
+    }
+
+    impl<T> Clone for Arc<T> {
+        fn clone(&self) -> Self {
+            if let Some(m) = enter() {
+                m.point(&self.0 .0, Point::Arc);
+            }
+            Self(self.0.clone())
+        }
+    }
+
+    impl<T> Drop for Arc<T> {
+        fn drop(&mut self) {
+            if let Some(m) = enter() {
+                m.point(&self.0 .0, Point::Arc);
+                m.arc_drop(&self.0 .0, Real::strong_count(&self.0) == 1);
+            }
+        }
+    }
+
+    impl<T> ops::Deref for Arc<T> {
+        type Target = T;
+
+        #[inline]
+        fn deref(&self) -> &T {
+            &self.0 .1
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for Arc<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod mutex {
+    use super::{cell, enter, CoreBool, Obj, Ordering, Point};
+    use core::{fmt, ops};
+
+    /// Takes the place of `parking_lot::Mutex`.
+    pub(crate) struct Mutex<T> {
+        obj: Obj,
+        locked: CoreBool,
+        data: cell::UnsafeCell<T>,
+    }
+
+    pub(crate) struct MutexGuard<'a, T> {
+        lock: &'a Mutex<T>,
+        _not_send: core::marker::PhantomData<*mut ()>,
+    }
+
+    pub(crate) const fn const_mutex<T>(data: T) -> Mutex<T> {
+        Mutex::new(data)
+    }
+
+    impl<T> Mutex<T> {
+        pub(crate) const fn new(data: T) -> Self {
+            Self {
+                obj: Obj::new(),
+                locked: CoreBool::new(false),
+                data: cell::UnsafeCell::new(data),
+            }
+        }
+
+        pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            let m = enter();
+            if let Some(m) = m {
+                m.point(&self.obj, Point::Lock);
+            }
+            self.acquire(m)
+        }
+
+        fn acquire(&self, m: Option<&'static dyn super::Monitor>) -> Option<MutexGuard<'_, T>> {
+            self.locked
+                .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
+                .ok()?;
+            if let Some(m) = m {
+                m.locked(&self.obj);
+            }
+            Some(MutexGuard {
+                lock: self,
+                _not_send: core::marker::PhantomData,
+            })
+        }
+
+        pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
+            let m = enter();
+            if let Some(m) = m {
+                m.point(&self.obj, Point::Lock);
+            }
+            loop {
+                if let Some(guard) = self.acquire(m) {
+                    return guard;
+                }
+                match m {
+                    Some(m) => m.lock_contended(&self.obj),
+                    None => std::thread::yield_now(),
+                }
+            }
+        }
+    }
+
+    impl<T> ops::Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.lock.data.with(|data| unsafe { &*data })
+        }
+    }
+
+    impl<T> ops::DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.lock.data.with_mut(|data| unsafe { &mut *data })
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            let m = enter();
+            if let Some(m) = m {
+                m.point(&self.lock.obj, Point::Unlock);
+                m.unlocked(&self.lock.obj);
+            }
+            self.lock.locked.store(false, Ordering::Release);
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Mutex(..)")
+        }
+    }
+
+    unsafe impl<T: Send> Send for Mutex<T> {}
+    unsafe impl<T: Send> Sync for Mutex<T> {}
+    unsafe impl<T: Sync> Sync for MutexGuard<'_, T> {}
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod thread {
+    use super::{enter, installed, Obj, Point};
+    pub use std::thread::*;
+    use std::{thread as real, time::Duration};
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(Inner);
+
+    #[derive(Clone, Debug)]
+    enum Inner {
+        Managed(u64),
+        Real(real::Thread),
+    }
+
+    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
+    pub enum ThreadId {
+        Managed(u64),
+        Real(real::ThreadId),
+    }
+
+    impl Thread {
+        pub fn unpark(&self) {
+            match &self.0 {
+                Inner::Real(t) => t.unpark(),
+                Inner::Managed(id) => {
+                    if let Some(m) = enter() {
+                        static UNPARK: Obj = Obj::new();
+                        m.point(&UNPARK, Point::Unpark);
+                    }
+                    if let Some(m) = installed() {
+                        m.unpark(*id);
+                    }
+                }
+            }
+        }
+
+        pub fn id(&self) -> ThreadId {
+            match &self.0 {
+                Inner::Real(t) => ThreadId::Real(t.id()),
+                Inner::Managed(id) => ThreadId::Managed(*id),
+            }
+        }
+
+        pub fn name(&self) -> Option<&str> {
+            None
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(match enter() {
+            None => Inner::Real(real::current()),
+            Some(m) => Inner::Managed(m.current()),
+        })
+    }
+
+    pub fn park() {
+        match enter() {
+            None => real::park(),
+            Some(m) => m.park(None),
+        }
+    }
+
+    pub fn park_timeout(dur: Duration) {
+        match enter() {
+            None => real::park_timeout(dur),
+            Some(m) => m.park(Some(dur)),
+        }
+    }
+
+    pub fn yield_now() {
+        match enter() {
+            None => real::yield_now(),
+            Some(m) => m.yield_now(),
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod time {
+    use super::enter;
+    use core::ops;
+    pub use std::time::Duration;
+
+    /// Virtual time in managed contexts, real time elsewhere.
+    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            use std::sync::OnceLock;
+            static START: OnceLock<std::time::Instant> = OnceLock::new();
+            Self(match enter() {
+                Some(m) => m.now(),
+                None => START.get_or_init(std::time::Instant::now).elapsed(),
+            })
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, dur: Duration) -> Option<Self> {
+            self.0.checked_add(dur).map(Self)
+        }
+
+        pub fn checked_sub(&self, dur: Duration) -> Option<Self> {
+            self.0.checked_sub(dur).map(Self)
+        }
+    }
+
+    impl ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, dur: Duration) -> Self {
+            Self(self.0 + dur)
+        }
+    }
+
+    impl ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, dur: Duration) {
+            self.0 += dur;
+        }
+    }
+
+    impl ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, dur: Duration) -> Self {
+            Self(self.0 - dur)
+        }
+    }
+
+    impl ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, other: Instant) -> Duration {
+            self.duration_since(other)
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) fn traceln(args: std::fmt::Arguments<'_>) {
+    eprintln!("{}", args);
+}
+
+#[cfg(not(feature = "std"))]
+pub(crate) fn traceln(_: core::fmt::Arguments<'_>) {}
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..106a444 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -16,7 +16,12 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+
+#[cfg(thingbuf_monitor)]
+use crate::loom::time::Instant;
+#[cfg(not(thingbuf_monitor))]
+use std::time::Instant;
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
 /// channel with  the provided capacity.
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..773f0af 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -5,11 +5,15 @@ pub(crate) use self::spin_impl::*;
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", not(thingbuf_monitor), not(all(loom, test)))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
 
+#[cfg(all(feature = "std", thingbuf_monitor, not(all(loom, test))))]
+#[allow(unused_imports)]
+pub(crate) use crate::monitor::mutex::{const_mutex, Mutex, MutexGuard};
+
 feature! {
     #![all(loom, test)]
     mod loom_impl;
-- 
2.43.0


From 31e382b7637e656a09867526a8fb7f0aafb41e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 02/23] fix: is_closed on TrySendError and SendTimeoutError
 matches Closed

Both methods tested for the other variant, so a full channel was
reported as closed and a closed one as open.
---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From 7e1a6fb46fab0e5f4746620afebecc2776422833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 03/23] fix: Receiver::is_closed is true only once all senders
 are dropped

`tx_count` counts the live senders, so a channel with one sender left is
not closed.
---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 106a444..e79fa14 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -878,7 +878,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1564,7 +1564,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From 222b45a174c9369eaaa207865f17c16f03ec6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 04/23] fix: close the channel when a handle is dropped during
 a panic

Core::close did nothing while the thread was panicking, so the other
side of the channel was never told and could wait forever.
---
 src/lib.rs        | 4 ++++
 src/util/panic.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3356b67..682df4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,6 +170,10 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
+        // Loom cannot be entered again while it is unwinding. Otherwise, the
+        // channel must be closed even when its handle is dropped by a panic, or
+        // the other side would wait forever.
+        #[cfg(all(loom, test))]
         if crate::util::panic::panicking() {
             return false;
         }
diff --git a/src/util/panic.rs b/src/util/panic.rs
index 0a51a08..d82f919 100644
--- a/src/util/panic.rs
+++ b/src/util/panic.rs
@@ -3,6 +3,7 @@ pub(crate) use core::panic::*;
 
 #[cfg(feature = "std")]
 mod inner {
+    #[allow(dead_code)] // only used by tests
     pub(crate) fn panicking() -> bool {
         std::thread::panicking()
     }
@@ -13,6 +14,7 @@ mod inner {
 #[cfg(not(feature = "std"))]
 mod inner {
     use super::*;
+    #[allow(dead_code)] // only used by tests
     pub(crate) fn panicking() -> bool {
         false
     }
-- 
2.43.0


From 17464af5c5b7789516075205c9ee6721e66c5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 05/23] fix: don't spin forever on a slot that is in use by
 another Ref

A push to a full queue whose next slot was still being written, a push
to a slot whose reader has not dropped its Ref, and a pop from an empty
queue whose next slot is still borrowed all looped until that other Ref
was dropped, which never happens if the same thread holds it.
---
 src/lib.rs | 69 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 682df4c..7ed3715 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -264,17 +264,25 @@ impl Core {
                 }
             }
 
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let head = test_dbg!(self.head.fetch_or(0, SeqCst));
+            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+                test_println!("channel full");
+                return Err(TrySendError::Full(()));
+            }
+
             if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-                let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-                if test_dbg!(head.wrapping_add(self.gen) == tail) {
-                    test_println!("channel full");
+                // The element that was in this slot has been popped, but the
+                // slot is still in use by a reader. The reader may hold on to
+                // it for as long as it likes, so don't wait for it forever:
+                // until it's done, there is no slot to push to.
+                if test_dbg!(backoff.done_spinning()) {
                     return Err(TrySendError::Full(()));
                 }
 
@@ -341,26 +349,29 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-
-                let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
-
-                if test_dbg!(tail & !self.closed == head) {
-                    return if test_dbg!(tail & self.closed != 0) {
-                        Err(TryRecvError::Closed)
-                    } else {
-                        test_println!("--> channel empty!");
-                        Err(TryRecvError::Empty)
-                    };
-                }
+            // If nothing was pushed since the head was last advanced, the queue is
+            // empty, even if the slot is still in use by the reader that popped
+            // it one lap ago.
+            //
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
+
+            if test_dbg!(tail & !self.closed == head) {
+                return if test_dbg!(tail & self.closed != 0) {
+                    Err(TryRecvError::Closed)
+                } else {
+                    test_println!("--> channel empty!");
+                    Err(TryRecvError::Empty)
+                };
+            }
 
+            if test_dbg!(state == head) {
                 if test_dbg!(backoff.done_spinning()) {
                     return Err(TryRecvError::Empty);
                 }
-- 
2.43.0


From ad4f2f62b7a23cbee2029d37f6e7cf5a23c7d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 06/23] fix: refuse static queues and channels with a capacity
 of zero

The dynamically-sized constructors already assert this; without it, the
first push accessed a slot beyond the end of the empty array.
---
 src/mpsc/async_impl.rs | 1 +
 src/mpsc/blocking.rs   | 1 +
 src/static_thingbuf.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..d177e36 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -705,6 +705,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index e79fa14..3f7d3d1 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -194,6 +194,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/static_thingbuf.rs b/src/static_thingbuf.rs
index 2635bc6..5c7990d 100644
--- a/src/static_thingbuf.rs
+++ b/src/static_thingbuf.rs
@@ -220,6 +220,7 @@ impl<T, const CAP: usize, R> StaticThingBuf<T, CAP, R> {
     /// [recycling policy]: crate::recycling::Recycle
     #[must_use]
     pub const fn with_recycle(recycle: R) -> Self {
+        assert!(CAP > 0);
         StaticThingBuf {
             core: Core::new(CAP),
             recycle,
-- 
2.43.0


From 11ece541e00e95b6d478a36a9591c2d08a1667cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 07/23] fix: drop the elements of a StaticChannel when it is
 dropped

The elements were leaked, and with debug assertions enabled, dropping
the channel panicked because its slots had not been dropped.
---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index d177e36..2d2b03c 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -757,6 +757,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 3f7d3d1..ffdc74b 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -246,6 +246,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From d99a69fbd99a445c6c290d8615a948b1a9127ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 08/23] fix: require T: Sync to share a Ref, and T: Send to
 share a queue

Sharing a Ref hands out &T, which needs T: Sync. A shared queue or
static channel moves elements from one thread to another, which needs
T: Send.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ed3715..02c5aaa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -528,7 +528,7 @@ impl<T: fmt::Write> fmt::Write for Ref<'_, T> {
 }
 
 unsafe impl<T: Send> Send for Ref<'_, T> {}
-unsafe impl<T: Send> Sync for Ref<'_, T> {}
+unsafe impl<T: Sync> Sync for Ref<'_, T> {}
 
 // === impl Slot ===
 
@@ -572,7 +572,7 @@ impl<T> Slot<T> {
     }
 }
 
-unsafe impl<T: Sync> Sync for Slot<T> {}
+unsafe impl<T: Send + Sync> Sync for Slot<T> {}
 
 // === impl Full ===
 
-- 
2.43.0


From 081dfd9c0ed1886ff2987cdc2c60242d9840c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 09/23] fix: don't drop an element whose constructor panicked

If Recycle::new_element panicked in push_ref, the slot had been claimed
but remained uninitialized, and dropping the queue dropped it anyway.
---
 src/lib.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02c5aaa..27a847f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,7 +2,11 @@
 #![cfg_attr(docsrs, feature(doc_cfg, doc_auto_cfg))]
 #![doc = include_str!("../README.md")]
 #![warn(missing_docs)]
-use core::{cmp, fmt, mem::MaybeUninit, ops, ptr};
+use core::{
+    cmp, fmt,
+    mem::{self, MaybeUninit},
+    ops, ptr,
+};
 #[macro_use]
 mod macros;
 
@@ -106,6 +110,13 @@ struct Slot<T> {
     state: AtomicUsize,
 }
 
+/// The state of a slot that was claimed, but has no element because its
+/// constructor panicked. No other slot state has the "closed" bit set.
+const POISONED: usize = usize::MAX;
+
+/// Marks a slot as having no element if it is dropped by a panic.
+struct PoisonOnUnwind<'slot>(&'slot AtomicUsize);
+
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
@@ -238,7 +249,11 @@ impl Core {
                             // this slot.
                             let ptr = ptr.deref();
                             if gen == 0 {
+                                // If constructing the element panics, the slot
+                                // remains uninitialized.
+                                let poison = PoisonOnUnwind(&slot.state);
                                 ptr.write(recycle.new_element());
+                                mem::forget(poison);
                                 test_println!("-> initialized");
                             } else {
                                 // Safety: if the generation is > 0, then the
@@ -371,7 +386,7 @@ impl Core {
                 };
             }
 
-            if test_dbg!(state == head) {
+            if test_dbg!(state == head || state == POISONED) {
                 if test_dbg!(backoff.done_spinning()) {
                     return Err(TryRecvError::Empty);
                 }
@@ -417,6 +432,10 @@ impl Core {
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
         for slot in &mut slots[..num_initialized] {
+            if slot.state.load(SeqCst) == POISONED {
+                continue;
+            }
+
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
@@ -437,6 +456,14 @@ impl Drop for Core {
     }
 }
 
+// === impl PoisonOnUnwind ===
+
+impl Drop for PoisonOnUnwind<'_> {
+    fn drop(&mut self) {
+        self.0.store(POISONED, Release);
+    }
+}
+
 // === impl Ref ===
 
 impl<T> Ref<'_, T> {
-- 
2.43.0


From 7466672415cb4479c5fc12eb0289c9b79572061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:29 +0000
Subject: [PATCH 10/23] fix: don't touch a dequeued waiter after setting its
 state

As soon as the state is set, the waiting task or thread may return and
free the node, so unlinking it afterwards was a use after free.
---
 src/wait/queue.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..d1511f4 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -578,9 +578,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
@@ -595,6 +592,12 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // Setting the node's state must be the last thing we do with the node:
+        // once its owner sees the new state, it may free the node without
+        // locking the list.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From 4c9961768222958421654c039a07b8da53328e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:29 +0000
Subject: [PATCH 11/23] fix: WaitQueue::notify must not act on a stale queue
 state

The queue's state was loaded before locking the list. If the last waiter
was cancelled in between, the notification was lost; if the queue was
closed in between, its state was reset.
---
 src/wait/queue.rs | 85 ++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index d1511f4..7dc97a4 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,55 +388,72 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
-                }
-            }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
+        // Reload the queue's state, as it may have changed while we were
+        // waiting to lock the linked list.
+        let mut state = self.state.load(Acquire);
 
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
+        loop {
+            match test_dbg!(state) {
+                // The last waiter left the queue while we were waiting to
+                // acquire the lock; assign the notification to the queue.
+                EMPTY | WAKING => {
+                    match test_dbg!(self
+                        .state
+                        .compare_exchange_weak(state, WAKING, SeqCst, SeqCst))
+                    {
+                        Ok(_) => return false,
+                        Err(actual) => state = actual,
+                    }
                 }
+                WAITING => {
+                    let waiter = list.dequeue(WAKING);
+                    debug_assert!(
+                        waiter.is_some(),
+                        "if we were in the `WAITING` state, there must be a waiter in the queue!"
+                    );
+
+                    // If we popped the last node, transition back to the empty
+                    // state, unless the queue is being closed.
+                    if test_dbg!(list.is_empty()) {
+                        let _ = test_dbg!(self
+                            .state
+                            .compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
+                    }
 
-                // drop the lock
-                drop(list);
+                    // drop the lock
+                    drop(list);
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
+                    // wake the waiter
+                    return match waiter {
+                        Some(waiter) => {
+                            waiter.notify();
+                            true
+                        }
+                        None => false,
+                    };
+                }
+                // The queue was closed, which notifies all of its waiters.
+                _state => {
+                    debug_assert_eq!(
+                        _state, CLOSED,
+                        "notify_slow: unexpected state value {:?}",
+                        _state
+                    );
+                    return false;
                 }
-            }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
             }
         }
-        false
     }
 
     /// Close the queue, notifying all waiting tasks.
-- 
2.43.0


From 83775aabfe32da65c9035afc1e04dd95a43e7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:56 +0000
Subject: [PATCH 12/23] fix: pass on the notification of a send that is
 cancelled

A SendRefFuture that was dropped after it had been notified, or while it
was being notified, took the notification with it: another sender that
was waiting for capacity was not woken, although there was capacity.
---
 src/mpsc/async_impl.rs |  2 +-
 src/wait/queue.rs      | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 2d2b03c..f913038 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1502,7 +1502,7 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
+        if test_dbg!(*this.state) == State::Waiting {
             this.waiter.remove(&this.core.tx_wait)
         }
     }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 7dc97a4..9e57b2f 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -485,10 +485,28 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Stop waiting.
+    ///
+    /// If this waiter was already notified, it will not make use of the
+    /// notification, so the notification is passed on to another waiter.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>)
+    where
+        T: Unpin,
+    {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        // The waiter may have been notified while we were waiting to acquire
+        // the lock. If so, it's no longer linked.
+        let state = test_dbg!(self.state.load(Acquire));
+        if state != WAITING {
+            drop(list);
+            if state == WAKING {
+                q.notify();
+            }
+            return;
+        }
+
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -502,7 +520,7 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
-    #[inline]
+    #[cfg(test)]
     pub(crate) fn is_linked(&self) -> bool {
         test_dbg!(self.state.load(Acquire)) == WAITING
     }
-- 
2.43.0


From 925735316a9d97fb5ed29de12240cf9b8b7a3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:56 +0000
Subject: [PATCH 13/23] fix: don't hold the lock while waking tasks in
 WaitQueue::close

A waker that drops or polls another waiting send future deadlocked.
---
 src/wait/queue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 9e57b2f..b610a5f 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -464,7 +464,11 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         let mut list = self.list.lock();
         while !list.is_empty() {
             if let Some(waiter) = list.dequeue(CLOSED) {
+                // Waking a task may run arbitrary code, which may need to lock
+                // the list itself (e.g. by dropping another waiting future).
+                drop(list);
                 waiter.notify();
+                list = self.list.lock();
             }
         }
     }
-- 
2.43.0


From e81906af35da3867228494fb4043cd6ac6158c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:56 +0000
Subject: [PATCH 14/23] fix: blocking sends must wait again if another sender
 was faster

A notified sender whose slot was taken by another sender kept asking its
old waiter whether it had been notified, so it spun without ever going
back to sleep.
---
 src/mpsc/blocking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index ffdc74b..ab22b24 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1698,7 +1698,8 @@ fn send_ref<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
-                    _ => {}
+                    // another sender was faster; wait again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
@@ -1751,7 +1752,8 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-                    _ => {}
+                    // another sender was faster; wait again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
-- 
2.43.0


From aefa199e98a6eeaf33a17336c66ff36a4ac2c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:25 +0000
Subject: [PATCH 15/23] fix: remove the waiter from the queue when a send times
 out

send_timeout and send_ref_timeout returned with their waiter, which is on
the stack, still linked into the wait queue.
---
 src/mpsc/blocking.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index ab22b24..3da3a80 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1761,6 +1761,13 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // The waiter is about to be deallocated, so it must not
+                    // remain in the queue.
+                    let node = unsafe {
+                        // Safety: as above, the waiter is never moved.
+                        Pin::new_unchecked(&mut waiter)
+                    };
+                    node.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
             }
-- 
2.43.0


From dede4de9debbe7d1c8be986179a2f3182631f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:25 +0000
Subject: [PATCH 16/23] fix: timed sends and receives must not outlast their
 timeout

After a spurious wakeup they parked for the whole timeout again, instead
of for what was left of it, and a send that kept losing its slot to
other senders never checked the time.
---
 src/mpsc/blocking.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 3da3a80..f05b85a 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1649,7 +1649,7 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
@@ -1752,13 +1752,16 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
+                    _ if beginning_park.elapsed() >= timeout => {
+                        return Err(SendTimeoutError::Timeout(()));
+                    }
                     // another sender was faster; wait again.
                     _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     // The waiter is about to be deallocated, so it must not
-- 
2.43.0


From 0131ce12ad88b7e63c577e88a3825586585c76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:45 +0000
Subject: [PATCH 17/23] monitor: tell the monitor which context holds the spin
 lock

---
 src/monitor.rs              | 9 +++++++++
 src/util/mutex/spin_impl.rs | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/monitor.rs b/src/monitor.rs
index 97ba1d1..bc07dec 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -54,6 +54,9 @@ pub trait Monitor: Sync {
     fn lock_contended(&self, obj: &Obj);
     fn locked(&self, obj: &Obj);
     fn unlocked(&self, obj: &Obj);
+    /// The calling context now holds, or is about to release, a spin lock.
+    /// (Only a hint: the lock's atomics are reported like all others.)
+    fn spin_lock(&self, addr: usize, held: bool);
     fn arc_drop(&self, obj: &Obj, last: bool);
     fn spin(&self);
     fn yield_now(&self);
@@ -88,6 +91,12 @@ fn enter() -> Option<&'static dyn Monitor> {
     installed().filter(|m| m.managed())
 }
 
+pub(crate) fn spin_lock<T>(lock: &T, held: bool) {
+    if let Some(m) = enter() {
+        m.spin_lock(lock as *const T as usize, held);
+    }
+}
+
 pub(crate) mod sync {
     pub(crate) use super::atomic;
     pub use core::sync::*;
diff --git a/src/util/mutex/spin_impl.rs b/src/util/mutex/spin_impl.rs
index 69f5a04..984b6de 100644
--- a/src/util/mutex/spin_impl.rs
+++ b/src/util/mutex/spin_impl.rs
@@ -47,6 +47,8 @@ impl<T> Mutex<T> {
         }
 
         test_println!("-> locked {}!", core::any::type_name::<T>());
+        #[cfg(thingbuf_monitor)]
+        crate::monitor::spin_lock(&self.locked, true);
         MutexGuard {
             locked: &self.locked,
             data: self.data.get_mut(),
@@ -91,6 +93,8 @@ impl<T> ops::DerefMut for MutexGuard<'_, T> {
 impl<T> Drop for MutexGuard<'_, T> {
     fn drop(&mut self) {
         test_dbg!(self.locked.store(false, Release));
+        #[cfg(thingbuf_monitor)]
+        crate::monitor::spin_lock(self.locked, false);
         test_println!("unlocked!");
     }
 }
-- 
2.43.0


From acc9fe2741c16fe62474a5014e78763880e6e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:45 +0000
Subject: [PATCH 18/23] fix: a waiter may still be registered when registering
 another one panics

---
 src/wait/cell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..d8c79e7 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -130,7 +130,8 @@ impl<T: Notify> WaitCell<T> {
                 }
 
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
+                    // If the new waiter's constructor panicked, this is a
+                    // waiter that was registered previously.
                     waiter.notify();
                 }
 
-- 
2.43.0


From 42dfa5ad348ca1b22bff99ac25ec3d3e10f3d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:08 +0000
Subject: [PATCH 19/23] fix: clone and drop a waiting sender's waker outside
 the wait list lock

Cloning the waker after the queue's state was already WAITING left the
queue in that state with no waiter when the clone panicked, and a waker
that uses the channel when it is cloned or dropped deadlocked.
---
 src/wait/queue.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index b610a5f..bf1e2f2 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -7,7 +7,7 @@ use crate::{
     wait::{Notify, WaitResult},
 };
 
-use core::{fmt, marker::PhantomPinned, pin::Pin, ptr::NonNull};
+use core::{fmt, marker::PhantomPinned, mem, pin::Pin, ptr::NonNull};
 
 /// A queue of waiters ([`core::task::Waker`]s or [`std::thread::Thread`]s)
 /// implemented as a doubly-linked intrusive list.
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Cloning the waiter may run arbitrary code, which may panic or need to
+        // lock the list itself, so do that before changing anything.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +274,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
@@ -326,6 +330,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
     fn continue_wait_slow(&self, node: Pin<&mut Waiter<T>>, my_waiter: &T) -> WaitResult {
         test_println!("WaitQueue::continue_wait_slow({:p})", node);
 
+        // As in `start_wait_slow`, clone the new waiter (and drop the one it
+        // replaces) while the list is not locked.
+        let mut new_waiter = my_waiter.clone();
+
         // If the waiting task/thread was woken but no wakeup was assigned to
         // the node, we may need to update the node with a new waiter.
         // Therefore, lock the queue in order to modify the node.
@@ -350,7 +358,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         node.with_node(&mut *list, |node| {
             if let Some(ref mut waiter) = node.waiter {
                 if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
+                    mem::swap(waiter, &mut new_waiter);
                 }
             } else {
                 // XXX(eliza): This branch should _probably_ never occur...
-- 
2.43.0


From 6e4a39fc33d5999e16220520ad3cb7057f513baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:08 +0000
Subject: [PATCH 20/23] monitor: more of Arc's and Mutex's methods

Guarded by --cfg thingbuf_monitor.
---
 src/monitor.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/monitor.rs b/src/monitor.rs
index bc07dec..b00bc8b 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -451,6 +451,25 @@ mod arc {
         pub(crate) fn as_ptr(this: &Self) -> *const T {
             &**this
         }
+
+        pub(crate) fn get_mut(this: &mut Self) -> Option<&mut T> {
+            if let Some(m) = enter() {
+                m.point(&this.0 .0, Point::Arc);
+            }
+            Real::get_mut(&mut this.0).map(|(_, value)| value)
+        }
+    }
+
+    impl<T> From<T> for Arc<T> {
+        fn from(value: T) -> Self {
+            Self::new(value)
+        }
+    }
+
+    impl<T> AsRef<T> for Arc<T> {
+        fn as_ref(&self) -> &T {
+            self
+        }
     }
 
     impl<T> Clone for Arc<T> {
@@ -517,6 +536,17 @@ pub(crate) mod mutex {
             }
         }
 
+        pub(crate) fn get_mut(&mut self) -> &mut T {
+            self.data.with_mut(|data| unsafe { &mut *data })
+        }
+
+        pub(crate) fn is_locked(&self) -> bool {
+            if let Some(m) = enter() {
+                m.point(&self.obj, Point::Lock);
+            }
+            self.locked.load(Ordering::Relaxed)
+        }
+
         pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
             let m = enter();
             if let Some(m) = m {
-- 
2.43.0


From bbe6653c5897f98ebf9aaca817045c58fcabdd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:52 +0000
Subject: [PATCH 21/23] monitor: report the destruction of monitored objects

Guarded by --cfg thingbuf_monitor.
---
 src/lib.rs     |  8 +++++++-
 src/monitor.rs | 13 +++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27a847f..3764233 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -574,7 +574,13 @@ impl<T> Slot<T> {
             let mut array = [Self::EMPTY; CAPACITY];
             let mut i = 0;
             while i < CAPACITY {
-                array[i] = Self::new(i);
+                #[cfg(not(thingbuf_monitor))]
+                {
+                    array[i] = Self::new(i);
+                }
+                // monitored objects report their destruction, which a `const fn` can't
+                #[cfg(thingbuf_monitor)]
+                mem::forget(mem::replace(&mut array[i], Self::new(i)));
                 i += 1;
             }
 
diff --git a/src/monitor.rs b/src/monitor.rs
index b00bc8b..782862a 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -18,6 +18,17 @@ impl Obj {
     }
 }
 
+#[cfg(not(thingbuf_monitor_nodrop))]
+impl Drop for Obj {
+    fn drop(&mut self) {
+        if *self.0.get_mut() != 0 {
+            if let Some(m) = enter() {
+                m.destroyed(self);
+            }
+        }
+    }
+}
+
 /// What is about to happen at a scheduling point.
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum Point {
@@ -50,6 +61,8 @@ pub trait Monitor: Sync {
     fn fail_weak(&self, obj: &Obj) -> bool;
     fn fence(&self, order: Ordering);
     fn cell(&self, obj: &Obj, write: bool);
+    /// An object's memory is about to be given up.
+    fn destroyed(&self, obj: &Obj);
     /// The lock is held by another context: wait until it may be free.
     fn lock_contended(&self, obj: &Obj);
     fn locked(&self, obj: &Obj);
-- 
2.43.0


From 318a28607c466ee3fc3c1cd0b5189b532da818c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:21 +0000
Subject: [PATCH 22/23] fix: dereferencing a Ref twice created aliasing mutable
 references

Deref for Ref went through a mutable reference to the element, which is
undefined behaviour when another shared borrow of the same Ref (possibly on
another thread) is still in use. Use the raw pointer instead.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3764233..1c0c5dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,12 +496,14 @@ impl<T> ops::Deref for Ref<'_, T> {
 
     #[inline]
     fn deref(&self) -> &Self::Target {
-        unsafe {
+        // This must not create a mutable reference to the element: the borrows
+        // returned by other calls to `deref` may still be in use.
+        self.ptr.with(|value| unsafe {
             // Safety: if a `Ref` exists, we have exclusive ownership of the
             // slot. A `Ref` is only created if the slot has already been
             // initialized.
-            &*self.ptr.deref().as_ptr()
-        }
+            &*(*value).as_ptr()
+        })
     }
 }
 
-- 
2.43.0


From b19636342f40a1ce7d71505a054271cc8159fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:01 +0000
Subject: [PATCH 23/23] fix: elements were created again and leaked when the
 lap counter wrapped

On 32-bit targets the generation of the ring wraps around after 2^30 messages
(on 16-bit ones after 2^14), and then every slot was taken for one that was
never initialized: its element was overwritten without being dropped, and not
all elements were dropped with the queue.
---
 src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c0c5dd..bd0a9b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,7 +170,21 @@ impl Core {
         } else {
             // We've reached the end of the current lap, wrap the index around
             // to 0.
-            gen.wrapping_add(self.gen)
+            self.next_lap(gen)
+        }
+    }
+
+    /// Returns the same index in the next generation.
+    ///
+    /// Generation 0, in which the slots are not initialized yet, is only ever
+    /// used once: when the generation wraps around, it is skipped.
+    #[inline]
+    fn next_lap(&self, val: usize) -> usize {
+        let next = val.wrapping_add(self.gen);
+        if next & self.gen_mask == 0 {
+            next + self.gen
+        } else {
+            next
         }
     }
 
@@ -287,12 +301,12 @@ impl Core {
             // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
             // load it gets reordered differently in the model checker lmao...
             let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+            if test_dbg!(self.next_lap(head) == tail) {
                 test_println!("channel full");
                 return Err(TrySendError::Full(()));
             }
 
-            if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
+            if test_dbg!(self.next_lap(state) == tail + 1) {
                 // The element that was in this slot has been popped, but the
                 // slot is still in use by a reader. The reader may hold on to
                 // it for as long as it likes, so don't wait for it forever:
@@ -351,7 +365,7 @@ impl Core {
                     Ok(_) => {
                         test_println!("claimed head slot [{}]", idx);
                         return Ok(Ref {
-                            new_state: head.wrapping_add(self.gen),
+                            new_state: self.next_lap(head),
                             ptr: slot.value.get_mut(),
                             slot,
                         });
-- 
2.43.0

