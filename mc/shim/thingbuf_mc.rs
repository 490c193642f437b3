// Included into thingbuf as `mod mc` when it is built with `--cfg thingbuf_mc`.
//
// Drop-in replacements for the synchronisation primitives thingbuf uses. Every operation is
// forwarded to the model checker (functions defined by the crate that links thingbuf).

use core::panic::Location;

extern "Rust" {
    fn __mc_load(v: *mut u64, meta: *mut u64, ord: u8, at: &'static Location<'static>) -> u64;
    fn __mc_store(v: *mut u64, meta: *mut u64, val: u64, ord: u8, at: &'static Location<'static>);
    fn __mc_rmw(v: *mut u64, meta: *mut u64, op: u8, val: u64, mask: u64, ord: u8, at: &'static Location<'static>) -> u64;
    fn __mc_cas(v: *mut u64, meta: *mut u64, cur: u64, new: u64, ok: u8, fail: u8, weak: bool, at: &'static Location<'static>) -> (u64, bool);
    fn __mc_excl(v: *mut u64, meta: *mut u64, at: &'static Location<'static>);
    fn __mc_fence(ord: u8, at: &'static Location<'static>);
    fn __mc_cell(meta: *mut u64, write: bool, at: &'static Location<'static>);
    fn __mc_lock(meta: *mut u64, block: bool, at: &'static Location<'static>) -> bool;
    fn __mc_unlock(meta: *mut u64, at: &'static Location<'static>);
    fn __mc_spin(yielding: bool, at: &'static Location<'static>);
    fn __mc_current() -> u64;
    fn __mc_park(timeout_ns: u64, at: &'static Location<'static>);
    fn __mc_unpark(id: u64, at: &'static Location<'static>);
    fn __mc_now() -> u64;
    fn __mc_panicking() -> bool;
    fn __mc_set_panicking(p: bool);
    fn __mc_retire(addr: *const u8, size: usize);
}

fn ord(o: core::sync::atomic::Ordering) -> u8 {
    use core::sync::atomic::Ordering::*;
    match o {
        Relaxed => 0,
        Acquire => 1,
        Release => 2,
        AcqRel => 3,
        _ => 4,
    }
}

/// The object is about to stop existing at this address.
pub(crate) fn retire<T>(t: &T) {
    unsafe { __mc_retire(t as *const T as *const u8, core::mem::size_of::<T>()) }
}

pub(crate) mod atomic {
    use super::*;
    use core::cell::UnsafeCell as Raw;
    pub use core::sync::atomic::Ordering;

    #[track_caller]
    pub fn fence(o: Ordering) {
        assert!(o != Ordering::Relaxed, "there is no such thing as a relaxed fence");
        unsafe { __mc_fence(ord(o), Location::caller()) }
    }

    pub fn compiler_fence(_: Ordering) {}

    #[track_caller]
    pub fn spin_loop_hint() {
        unsafe { __mc_spin(false, Location::caller()) }
    }

    macro_rules! common {
        ($name:ident [$($g:tt)*], $t:ty, $to:expr, $from:expr) => {
            impl $($g)* $name $($g)* {
                pub const fn new_raw(v: u64) -> Self {
                    Self { v: Raw::new(v), meta: Raw::new(0), _p: core::marker::PhantomData }
                }
                #[inline]
                #[track_caller]
                pub fn load(&self, o: Ordering) -> $t {
                    assert!(o != Ordering::Release && o != Ordering::AcqRel, "invalid load ordering");
                    ($from)(unsafe { __mc_load(self.v.get(), self.meta.get(), ord(o), Location::caller()) })
                }
                #[inline]
                #[track_caller]
                pub fn store(&self, val: $t, o: Ordering) {
                    assert!(o != Ordering::Acquire && o != Ordering::AcqRel, "invalid store ordering");
                    unsafe { __mc_store(self.v.get(), self.meta.get(), ($to)(val), ord(o), Location::caller()) }
                }
                #[inline]
                #[track_caller]
                pub fn swap(&self, val: $t, o: Ordering) -> $t {
                    ($from)(unsafe { __mc_rmw(self.v.get(), self.meta.get(), 0, ($to)(val), u64::MAX, ord(o), Location::caller()) })
                }
                #[inline]
                #[track_caller]
                pub fn compare_exchange(&self, cur: $t, new: $t, ok: Ordering, fail: Ordering) -> Result<$t, $t> {
                    assert!(fail != Ordering::Release && fail != Ordering::AcqRel, "invalid failure ordering");
                    let (v, b) = unsafe { __mc_cas(self.v.get(), self.meta.get(), ($to)(cur), ($to)(new), ord(ok), ord(fail), false, Location::caller()) };
                    if b { Ok(($from)(v)) } else { Err(($from)(v)) }
                }
                #[inline]
                #[track_caller]
                pub fn compare_exchange_weak(&self, cur: $t, new: $t, ok: Ordering, fail: Ordering) -> Result<$t, $t> {
                    assert!(fail != Ordering::Release && fail != Ordering::AcqRel, "invalid failure ordering");
                    let (v, b) = unsafe { __mc_cas(self.v.get(), self.meta.get(), ($to)(cur), ($to)(new), ord(ok), ord(fail), true, Location::caller()) };
                    if b { Ok(($from)(v)) } else { Err(($from)(v)) }
                }
                #[inline]
                #[track_caller]
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                #[inline]
                #[track_caller]
                pub fn get_mut(&mut self) -> &mut $t {
                    unsafe {
                        __mc_excl(self.v.get(), self.meta.get(), Location::caller());
                        &mut *(self.v.get() as *mut $t)
                    }
                }
                #[inline]
                #[track_caller]
                pub fn into_inner(mut self) -> $t {
                    *self.get_mut()
                }
            }
            unsafe impl $($g)* Sync for $name $($g)* {}
            unsafe impl $($g)* Send for $name $($g)* {}
            impl $($g)* core::panic::RefUnwindSafe for $name $($g)* {}
            impl $($g)* core::panic::UnwindSafe for $name $($g)* {}
            impl $($g)* core::fmt::Debug for $name $($g)* {
                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                    // not an operation of the program: reads the newest value without a scheduling point
                    core::fmt::Debug::fmt(&unsafe { *self.v.get() }, f)
                }
            }
        };
    }

    macro_rules! int {
        ($name:ident, $t:ty, $bits:expr) => {
            #[repr(C)]
            pub struct $name { v: Raw<u64>, meta: Raw<u64>, _p: core::marker::PhantomData<()> }
            common!($name [], $t, |v: $t| (v as u64) & $bits, |v: u64| v as $t);
            impl $name {
                pub const fn new(v: $t) -> Self { Self::new_raw((v as u64) & $bits) }
                int!(@ops $t, $bits, fetch_add 1, fetch_sub 2, fetch_and 3, fetch_or 4, fetch_xor 5, fetch_nand 6, fetch_max 7, fetch_min 8);
            }
            impl Default for $name { fn default() -> Self { Self::new(0) } }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        };
        (@ops $t:ty, $bits:expr, $($f:ident $n:expr),*) => {
            $(
                #[inline]
                #[track_caller]
                pub fn $f(&self, val: $t, o: Ordering) -> $t {
                    (unsafe { __mc_rmw(self.v.get(), self.meta.get(), $n, (val as u64) & $bits, $bits, ord(o), Location::caller()) }) as $t
                }
            )*
        };
    }
    int!(AtomicUsize, usize, u64::MAX);
    int!(AtomicIsize, isize, u64::MAX);
    int!(AtomicU64, u64, u64::MAX);
    int!(AtomicI64, i64, u64::MAX);
    int!(AtomicU32, u32, u32::MAX as u64);
    int!(AtomicI32, i32, u32::MAX as u64);
    int!(AtomicU16, u16, u16::MAX as u64);
    int!(AtomicU8, u8, u8::MAX as u64);

    #[repr(C)]
    pub struct AtomicBool { v: Raw<u64>, meta: Raw<u64>, _p: core::marker::PhantomData<()> }
    common!(AtomicBool [], bool, |v: bool| v as u64, |v: u64| v & 1 == 1);
    impl AtomicBool {
        pub const fn new(v: bool) -> Self { Self::new_raw(v as u64) }
        #[track_caller]
        fn rmw(&self, op: u8, val: bool, o: Ordering) -> bool {
            (unsafe { __mc_rmw(self.v.get(), self.meta.get(), op, val as u64, 1, ord(o), Location::caller()) }) & 1 == 1
        }
        #[inline]
        #[track_caller]
        pub fn fetch_and(&self, val: bool, o: Ordering) -> bool { self.rmw(3, val, o) }
        #[inline]
        #[track_caller]
        pub fn fetch_or(&self, val: bool, o: Ordering) -> bool { self.rmw(4, val, o) }
        #[inline]
        #[track_caller]
        pub fn fetch_xor(&self, val: bool, o: Ordering) -> bool { self.rmw(5, val, o) }
        #[inline]
        #[track_caller]
        pub fn fetch_nand(&self, val: bool, o: Ordering) -> bool { self.rmw(6, val, o) }
        #[inline]
        #[track_caller]
        pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(5, true, o) }
    }
    impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }

    #[repr(C)]
    pub struct AtomicPtr<T> { v: Raw<u64>, meta: Raw<u64>, _p: core::marker::PhantomData<*mut T> }
    common!(AtomicPtr [<T>], *mut T, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T);
    impl<T> AtomicPtr<T> {
        pub fn new(v: *mut T) -> Self { Self::new_raw(v as usize as u64) }
    }
}

pub(crate) mod hint {
    use super::*;
    #[inline]
    #[track_caller]
    pub(crate) fn spin_loop() {
        unsafe { __mc_spin(false, Location::caller()) }
    }
}

pub(crate) mod cell {
    use super::*;
    use core::cell::UnsafeCell as Raw;

    #[repr(C)]
    pub(crate) struct UnsafeCell<T> {
        meta: Raw<u64>,
        data: Raw<T>,
    }

    impl<T> core::fmt::Debug for UnsafeCell<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("UnsafeCell(..)")
        }
    }

    impl<T> UnsafeCell<T> {
        pub const fn new(data: T) -> UnsafeCell<T> {
            UnsafeCell { meta: Raw::new(0), data: Raw::new(data) }
        }

        #[inline]
        #[track_caller]
        pub fn with<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*const T) -> R,
        {
            unsafe { __mc_cell(self.meta.get(), false, Location::caller()) };
            f(self.data.get())
        }

        #[inline]
        #[track_caller]
        pub fn with_mut<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*mut T) -> R,
        {
            unsafe { __mc_cell(self.meta.get(), true, Location::caller()) };
            f(self.data.get())
        }

        #[inline]
        pub(crate) fn get_mut(&self) -> MutPtr<T> {
            MutPtr(self.data.get(), self.meta.get())
        }
    }

    #[derive(Debug)]
    pub(crate) struct MutPtr<T: ?Sized>(*mut T, *mut u64);

    impl<T: ?Sized> MutPtr<T> {
        #[inline]
        #[track_caller]
        pub(crate) unsafe fn deref(&self) -> &mut T {
            __mc_cell(self.1, true, Location::caller());
            &mut *self.0
        }

        #[inline]
        #[track_caller]
        pub fn with<F, R>(&self, f: F) -> R
        where
            F: FnOnce(*mut T) -> R,
        {
            unsafe { __mc_cell(self.1, true, Location::caller()) };
            f(self.0)
        }
    }
}

pub(crate) mod mutex {
    use super::*;
    use core::cell::UnsafeCell as Raw;

    /// Stands for `parking_lot::Mutex`.
    pub(crate) struct Mutex<T> {
        meta: Raw<u64>,
        data: cell::UnsafeCell<T>,
    }

    pub(crate) struct MutexGuard<'a, T> {
        lock: &'a Mutex<T>,
    }

    #[allow(dead_code)]
    pub(crate) const fn const_mutex<T>(data: T) -> Mutex<T> {
        Mutex { meta: Raw::new(0), data: cell::UnsafeCell::new(data) }
    }

    impl<T> Mutex<T> {
        pub(crate) const fn new(data: T) -> Self {
            const_mutex(data)
        }
        #[track_caller]
        pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
            unsafe { __mc_lock(self.meta.get(), true, Location::caller()) };
            MutexGuard { lock: self }
        }
        #[track_caller]
        pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
            if unsafe { __mc_lock(self.meta.get(), false, Location::caller()) } {
                Some(MutexGuard { lock: self })
            } else {
                None
            }
        }
        #[allow(dead_code)]
        pub(crate) fn get_mut(&mut self) -> &mut T {
            unsafe { self.data.with_mut(|p| &mut *p) }
        }
        #[allow(dead_code)]
        pub(crate) fn is_locked(&self) -> bool {
            self.try_lock().is_none()
        }
    }

    impl<T> core::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        #[track_caller]
        fn deref(&self) -> &T {
            unsafe { self.lock.data.with(|p| &*p) }
        }
    }
    impl<T> core::ops::DerefMut for MutexGuard<'_, T> {
        #[track_caller]
        fn deref_mut(&mut self) -> &mut T {
            unsafe { self.lock.data.with_mut(|p| &mut *p) }
        }
    }
    impl<T> Drop for MutexGuard<'_, T> {
        #[track_caller]
        fn drop(&mut self) {
            unsafe { __mc_unlock(self.lock.meta.get(), Location::caller()) }
        }
    }
    impl<T: core::fmt::Debug> core::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Mutex(..)")
        }
    }
    impl<T: core::fmt::Debug> core::fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("MutexGuard(..)")
        }
    }
    unsafe impl<T: Send> Send for Mutex<T> {}
    unsafe impl<T: Send> Sync for Mutex<T> {}
    impl<T> core::panic::RefUnwindSafe for Mutex<T> {}
    impl<T> core::panic::UnwindSafe for Mutex<T> {}
}

pub(crate) mod sync {
    pub use core::sync::*;

    #[cfg(feature = "alloc")]
    pub use alloc::sync::*;

    pub(crate) use super::atomic;
    #[cfg(feature = "alloc")]
    pub use super::arc::Arc;
}

#[cfg(feature = "alloc")]
pub(crate) mod arc {
    use super::atomic::{fence, AtomicUsize, Ordering::*};
    use alloc::boxed::Box;
    use core::{marker::PhantomData, ptr::NonNull};

    struct Inner<T> {
        count: AtomicUsize,
        data: T,
    }

    /// `std::sync::Arc` with its reference count visible to the checker.
    pub struct Arc<T> {
        p: NonNull<Inner<T>>,
        _p: PhantomData<Inner<T>>,
    }

    impl<T> Arc<T> {
        pub fn new(data: T) -> Self {
            let b = Box::new(Inner { count: AtomicUsize::new(1), data });
            Self { p: unsafe { NonNull::new_unchecked(Box::into_raw(b)) }, _p: PhantomData }
        }
        fn inner(&self) -> &Inner<T> {
            unsafe { self.p.as_ref() }
        }
        pub fn strong_count(this: &Self) -> usize {
            this.inner().count.load(Relaxed)
        }
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            a.p == b.p
        }
        pub fn as_ptr(this: &Self) -> *const T {
            &this.inner().data
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            if this.inner().count.load(Acquire) == 1 {
                Some(unsafe { &mut this.p.as_mut().data })
            } else {
                None
            }
        }
        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            if this.inner().count.compare_exchange(1, 0, Relaxed, Relaxed).is_err() {
                return Err(this);
            }
            fence(Acquire);
            let b = unsafe { Box::from_raw(this.p.as_ptr()) };
            core::mem::forget(this);
            Ok(b.data)
        }
        pub fn into_inner(this: Self) -> Option<T> {
            Self::try_unwrap(this).ok()
        }
    }
    impl<T> From<T> for Arc<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    impl<T> Clone for Arc<T> {
        fn clone(&self) -> Self {
            self.inner().count.fetch_add(1, Relaxed);
            Self { p: self.p, _p: PhantomData }
        }
    }

    impl<T> Drop for Arc<T> {
        fn drop(&mut self) {
            if self.inner().count.fetch_sub(1, Release) != 1 {
                return;
            }
            fence(Acquire);
            unsafe { drop(Box::from_raw(self.p.as_ptr())) }
        }
    }

    impl<T> core::ops::Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.inner().data
        }
    }
    impl<T> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            &**self
        }
    }
    impl<T: core::fmt::Debug> core::fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            core::fmt::Debug::fmt(&**self, f)
        }
    }
    unsafe impl<T: Sync + Send> Send for Arc<T> {}
    unsafe impl<T: Sync + Send> Sync for Arc<T> {}
    impl<T: core::panic::RefUnwindSafe> core::panic::UnwindSafe for Arc<T> {}
}

#[cfg(feature = "std")]
pub(crate) mod thread {
    use super::*;
    use std::time::Duration;

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct ThreadId(u64);

    #[derive(Clone, Debug)]
    pub struct Thread(u64);

    impl Thread {
        #[track_caller]
        pub fn unpark(&self) {
            unsafe { __mc_unpark(self.0, Location::caller()) }
        }
        pub fn id(&self) -> ThreadId {
            ThreadId(self.0)
        }
        pub fn name(&self) -> Option<&str> {
            None
        }
    }

    pub fn current() -> Thread {
        Thread(unsafe { __mc_current() })
    }
    #[track_caller]
    pub fn park() {
        unsafe { __mc_park(u64::MAX, Location::caller()) }
    }
    #[track_caller]
    pub fn park_timeout(d: Duration) {
        let ns = d.as_nanos();
        let ns = if ns >= u64::MAX as u128 { u64::MAX - 1 } else { ns as u64 };
        unsafe { __mc_park(ns, Location::caller()) }
    }
    #[track_caller]
    pub fn yield_now() {
        unsafe { __mc_spin(true, Location::caller()) }
    }
    pub fn panicking() -> bool {
        unsafe { __mc_panicking() }
    }
}

#[cfg(feature = "std")]
pub(crate) mod time {
    use super::*;
    use std::time::Duration;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct Instant(u64);

    impl Instant {
        pub fn now() -> Self {
            Instant(unsafe { __mc_now() })
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(Self::now().0.saturating_sub(self.0))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.duration_since(o)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0).map(Duration::from_nanos)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_add(d)).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_sub(d)).map(Instant)
        }
    }
    impl core::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl core::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl core::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            self.checked_sub(d).expect("overflow when subtracting duration from instant")
        }
    }
    impl core::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
}

#[cfg(feature = "std")]
pub(crate) mod panic {
    use super::*;
    use std::any::Any;
    use std::panic::UnwindSafe;

    pub(crate) fn panicking() -> bool {
        unsafe { __mc_panicking() }
    }
    pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> std::thread::Result<R> {
        let before = unsafe { __mc_panicking() };
        let r = std::panic::catch_unwind(f);
        unsafe { __mc_set_panicking(before) };
        r
    }
    pub fn resume_unwind(p: Box<dyn Any + Send>) -> ! {
        unsafe { __mc_set_panicking(true) };
        std::panic::resume_unwind(p)
    }
}

pub(crate) mod alloc_track {
    #[derive(Debug, Default)]
    pub struct Track<T> {
        value: T,
    }
    impl<T> Track<T> {
        pub fn new(value: T) -> Track<T> {
            Track { value }
        }
        pub fn get_ref(&self) -> &T {
            &self.value
        }
        pub fn get_mut(&mut self) -> &mut T {
            &mut self.value
        }
        pub fn into_inner(self) -> T {
            self.value
        }
    }
}

pub(crate) fn traceln(_: core::fmt::Arguments<'_>) {}
