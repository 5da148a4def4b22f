//! Locks of tokio with a point before each acquisition where the task may be held back:
//! between two critical sections a thread may stop for any time.
pub use real_tokio::sync::*;
use real_tokio::sync as real;
use std::fmt;
use std::sync::Arc;

async fn point() {
    if simrt::lock_points() {
        simrt::SendFut(simrt::point("lock")).await
    }
}

pub struct Mutex<T>(Arc<real::Mutex<T>>);
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Self(Arc::new(real::Mutex::new(t)))
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        point().await;
        self.0.lock().await
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        point().await;
        self.0.clone().lock_owned().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        self.0.try_lock()
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        self.0.clone().try_lock_owned()
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.0).expect("the lock is held").get_mut()
    }
    pub fn into_inner(self) -> T {
        Arc::try_unwrap(self.0).ok().expect("the lock is held").into_inner()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub struct RwLock<T>(Arc<real::RwLock<T>>);
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        Self(Arc::new(real::RwLock::new(t)))
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        point().await;
        self.0.read().await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        point().await;
        self.0.write().await
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        point().await;
        self.0.clone().read_owned().await
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        point().await;
        self.0.clone().write_owned().await
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        self.0.try_write()
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.0).expect("the lock is held").get_mut()
    }
    pub fn into_inner(self) -> T {
        Arc::try_unwrap(self.0).ok().expect("the lock is held").into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
