//! tokio, with scheduling points in its async locks.
//!
//! Everything is re-exported from the real crate, except `sync::Mutex` and `sync::RwLock`, which
//! wrap the real ones and call a thread-local hook before every acquisition attempt and right
//! after every acquisition, while the lock is held. With no hook installed they behave exactly as tokio's own.
//! With `--cfg vp_plain` they are tokio's own.
#![allow(unexpected_cfgs)]
pub use tokio::*;

/// The seam the explorer uses.
pub mod vp_hook {
    use std::cell::RefCell;
    use std::rc::Rc;

    type Hook = Rc<dyn Fn(&'static str)>;
    thread_local! {
        static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    }

    /// Install (or remove) this thread's hook.
    pub fn set(hook: Option<Hook>) {
        HOOK.with(|h| *h.borrow_mut() = hook);
    }

    /// Is there a hook?
    pub fn active() -> bool {
        !std::thread::panicking() && HOOK.try_with(|h| h.borrow().is_some()).unwrap_or(false)
    }

    /// A scheduling point.
    pub fn point(what: &'static str) {
        // During a panic's unwinding nothing may be scheduled any more.
        if std::thread::panicking() {
            return;
        }
        let hook = HOOK.try_with(|h| h.borrow().clone()).ok().flatten();
        if let Some(hook) = hook {
            hook(what)
        }
    }
}

#[cfg(not(vp_plain))]
pub mod sync {
    pub use tokio::sync::*;

    use super::vp_hook::point;
    use std::fmt;
    use std::ops::{Deref, DerefMut};
    use std::sync::Arc;

    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        inner: tokio::sync::Mutex<T>,
    }

    pub struct MutexGuard<'a, T: ?Sized>(Option<tokio::sync::MutexGuard<'a, T>>);

    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Self {
                inner: tokio::sync::Mutex::new(t),
            }
        }
        pub const fn const_new(t: T) -> Self {
            Self {
                inner: tokio::sync::Mutex::const_new(t),
            }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }

    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            point("mutex.lock");
            let g = MutexGuard(Some(self.inner.lock().await));
            point("mutex.held");
            g
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            point("mutex.try_lock");
            let g = MutexGuard(Some(self.inner.try_lock()?));
            point("mutex.held");
            Ok(g)
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            point("mutex.blocking_lock");
            loop {
                if let Ok(g) = self.inner.try_lock() {
                    let g = MutexGuard(Some(g));
                    point("mutex.held");
                    return g;
                }
                point("mutex.blocking_lock.retry");
                std::thread::yield_now();
            }
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }

    impl<T: ?Sized + 'static> Mutex<T> {
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            point("mutex.lock_owned");
            let guard = self.inner.lock().await;
            // SAFETY: `_owner` keeps the mutex alive for as long as the guard, which is dropped
            // first (see OwnedMutexGuard::drop).
            let guard: tokio::sync::MutexGuard<'static, T> = unsafe { std::mem::transmute(guard) };
            let g = OwnedMutexGuard {
                guard: Some(guard),
                _owner: self.clone(),
            };
            point("mutex.held");
            g
        }
        pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
            point("mutex.try_lock_owned");
            let guard = self.inner.try_lock()?;
            // SAFETY: as above.
            let guard: tokio::sync::MutexGuard<'static, T> = unsafe { std::mem::transmute(guard) };
            let g = OwnedMutexGuard {
                guard: Some(guard),
                _owner: self.clone(),
            };
            point("mutex.held");
            Ok(g)
        }
    }

    pub struct OwnedMutexGuard<T: ?Sized + 'static> {
        guard: Option<tokio::sync::MutexGuard<'static, T>>,
        _owner: Arc<Mutex<T>>,
    }

    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        inner: tokio::sync::RwLock<T>,
    }

    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<tokio::sync::RwLockReadGuard<'a, T>>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<tokio::sync::RwLockWriteGuard<'a, T>>);

    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            Self {
                inner: tokio::sync::RwLock::new(t),
            }
        }
        pub const fn const_new(t: T) -> Self {
            Self {
                inner: tokio::sync::RwLock::const_new(t),
            }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }

    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            point("rwlock.read");
            let g = RwLockReadGuard(Some(self.inner.read().await));
            point("rwlock.held");
            g
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            point("rwlock.write");
            let g = RwLockWriteGuard(Some(self.inner.write().await));
            point("rwlock.held");
            g
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            point("rwlock.try_read");
            let g = RwLockReadGuard(Some(self.inner.try_read()?));
            point("rwlock.held");
            Ok(g)
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            point("rwlock.try_write");
            let g = RwLockWriteGuard(Some(self.inner.try_write()?));
            point("rwlock.held");
            Ok(g)
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }

    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized> MutexGuard<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(mut this: Self, f: F) -> MappedMutexGuard<'a, U> {
            tokio::sync::MutexGuard::map(this.0.take().unwrap(), f)
        }
        pub fn try_map<U: ?Sized, F: FnOnce(&mut T) -> Option<&mut U>>(mut this: Self, f: F) -> Result<MappedMutexGuard<'a, U>, Self> {
            tokio::sync::MutexGuard::try_map(this.0.take().unwrap(), f).map_err(|g| MutexGuard(Some(g)))
        }
    }
    impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(mut this: Self, f: F) -> RwLockReadGuard<'a, U> {
            RwLockReadGuard(Some(tokio::sync::RwLockReadGuard::map(this.0.take().unwrap(), f)))
        }
        pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(mut this: Self, f: F) -> Result<RwLockReadGuard<'a, U>, Self> {
            tokio::sync::RwLockReadGuard::try_map(this.0.take().unwrap(), f).map(|g| RwLockReadGuard(Some(g))).map_err(|g| RwLockReadGuard(Some(g)))
        }
    }
    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(mut self) -> RwLockReadGuard<'a, T> {
            RwLockReadGuard(Some(self.0.take().unwrap().downgrade()))
        }
        pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(mut this: Self, f: F) -> RwLockMappedWriteGuard<'a, U> {
            tokio::sync::RwLockWriteGuard::map(this.0.take().unwrap(), f)
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            drop(self.0.take());
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + 'static> Deref for OwnedMutexGuard<T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.guard.as_ref().unwrap()
        }
    }
    impl<T: ?Sized + 'static> DerefMut for OwnedMutexGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            self.guard.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + 'static> Drop for OwnedMutexGuard<T> {
        fn drop(&mut self) {
            drop(self.guard.take());
        }
    }
    impl<T: ?Sized + 'static + fmt::Debug> fmt::Debug for OwnedMutexGuard<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
        fn drop(&mut self) {
            drop(self.0.take());
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
        fn drop(&mut self) {
            drop(self.0.take());
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
}
