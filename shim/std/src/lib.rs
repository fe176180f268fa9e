//! std, with scheduling points in its locks and atomics.
//!
//! Everything is re-exported from the real std, except `sync::Mutex`, `sync::RwLock` and the
//! atomics, which wrap the real ones and call the hook of shim/tokio: before every acquisition
//! attempt, right after every acquisition (while the lock is held), and before every access of
//! an atomic. With no hook installed they behave as std's own.
//! (A crate that needs more of them than is wrapped is built with `--cfg vp_plain`.)
#![allow(unexpected_cfgs)]
pub use ::std::*;

#[cfg(not(vp_plain))]
pub mod sync {
    pub use ::std::sync::*;

    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use vp_tokio::vp_hook::{active, point};

    /// Take a lock without blocking the thread while others have to run for it to become free.
    fn take<G>(what: &'static str, attempt: impl Fn() -> TryLockResult<G>, block: impl FnOnce() -> LockResult<G>) -> LockResult<G> {
        point(what);
        if !active() {
            return block();
        }
        let g = loop {
            match attempt() {
                Ok(g) => break Ok(g),
                Err(TryLockError::Poisoned(e)) => break Err(e),
                Err(TryLockError::WouldBlock) => point("std.retry"),
            }
        };
        point("std.held");
        g
    }

    fn attempt<G>(what: &'static str, attempt: impl FnOnce() -> TryLockResult<G>) -> TryLockResult<G> {
        point(what);
        let g = attempt();
        if !matches!(g, Err(TryLockError::WouldBlock)) {
            point("std.held");
        }
        g
    }

    macro_rules! guard {
        ($name:ident) => {
            pub struct $name<'a, T: ?Sized>(::std::sync::$name<'a, T>);
            impl<'a, T: ?Sized> $name<'a, T> {
                fn of(r: LockResult<::std::sync::$name<'a, T>>) -> LockResult<Self> {
                    r.map($name).map_err(|e| PoisonError::new($name(e.into_inner())))
                }
                fn of_try(r: TryLockResult<::std::sync::$name<'a, T>>) -> TryLockResult<Self> {
                    r.map($name).map_err(|e| match e {
                        TryLockError::Poisoned(e) => TryLockError::Poisoned(PoisonError::new($name(e.into_inner()))),
                        TryLockError::WouldBlock => TryLockError::WouldBlock,
                    })
                }
            }
            impl<'a, T: ?Sized> Deref for $name<'a, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.0
                }
            }
            impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $name<'a, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<'a, T: ?Sized + fmt::Display> fmt::Display for $name<'a, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(MutexGuard);
    guard!(RwLockReadGuard);
    guard!(RwLockWriteGuard);
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }

    macro_rules! lock {
        ($name:ident) => {
            #[derive(Default)]
            pub struct $name<T: ?Sized> {
                inner: ::std::sync::$name<T>,
            }
            impl<T> $name<T> {
                pub const fn new(t: T) -> Self {
                    Self { inner: ::std::sync::$name::new(t) }
                }
                pub fn into_inner(self) -> LockResult<T> {
                    self.inner.into_inner()
                }
            }
            impl<T: ?Sized> $name<T> {
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    self.inner.get_mut()
                }
                pub fn is_poisoned(&self) -> bool {
                    self.inner.is_poisoned()
                }
                pub fn clear_poison(&self) {
                    self.inner.clear_poison()
                }
            }
            impl<T> From<T> for $name<T> {
                fn from(t: T) -> Self {
                    Self::new(t)
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.inner.fmt(f)
                }
            }
        };
    }
    lock!(Mutex);
    lock!(RwLock);

    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            MutexGuard::of(take("std.mutex.lock", || self.inner.try_lock(), || self.inner.lock()))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            MutexGuard::of_try(attempt("std.mutex.try_lock", || self.inner.try_lock()))
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            RwLockReadGuard::of(take("std.rwlock.read", || self.inner.try_read(), || self.inner.read()))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            RwLockWriteGuard::of(take("std.rwlock.write", || self.inner.try_write(), || self.inner.write()))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            RwLockReadGuard::of_try(attempt("std.rwlock.try_read", || self.inner.try_read()))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            RwLockWriteGuard::of_try(attempt("std.rwlock.try_write", || self.inner.try_write()))
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;

        use ::std::fmt;
        use ::std::ops::{Deref, DerefMut};
        use vp_tokio::vp_hook::point;

        macro_rules! atomic {
            ($($name:ident $t:ty),*) => {$(
                #[derive(Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(t: $t) -> Self {
                        Self(::std::sync::atomic::$name::new(t))
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl From<$t> for $name {
                    fn from(t: $t) -> Self {
                        Self::new(t)
                    }
                }
                // Every access goes through here.
                impl Deref for $name {
                    type Target = ::std::sync::atomic::$name;
                    fn deref(&self) -> &Self::Target {
                        point("std.atomic");
                        &self.0
                    }
                }
                impl DerefMut for $name {
                    fn deref_mut(&mut self) -> &mut Self::Target {
                        &mut self.0
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            )*};
        }
        atomic!(AtomicBool bool, AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicU8 u8, AtomicI8 i8, AtomicI16 i16);
    }
}
