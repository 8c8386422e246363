//! The real primitives, with a schedule point before every acquisition.
pub use real::sync::*;
use std::{
    fmt::{Debug, Formatter},
    sync::Arc,
};

#[repr(transparent)]
pub struct Mutex<T: ?Sized>(real::sync::Mutex<T>);
impl<T: ?Sized> Mutex<T> {
    pub fn new(t: T) -> Self
    where
        T: Sized,
    {
        Self(real::sync::Mutex::new(t))
    }
    pub const fn const_new(t: T) -> Self
    where
        T: Sized,
    {
        Self(real::sync::Mutex::const_new(t))
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        vsched::point("lock");
        self.0.lock().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        vsched::point("try lock");
        self.0.try_lock()
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        vsched::point("lock");
        vsched::block_on(self.0.lock())
    }
    fn real(self: Arc<Self>) -> Arc<real::sync::Mutex<T>> {
        //the same layout
        unsafe { Arc::from_raw(Arc::into_raw(self) as *const real::sync::Mutex<T>) }
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        vsched::point("lock");
        self.real().lock_owned().await
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        vsched::point("try lock");
        self.real().try_lock_owned()
    }
    pub fn blocking_lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        vsched::point("lock");
        vsched::block_on(self.real().lock_owned())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T
    where
        T: Sized,
    {
        self.0.into_inner()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized + Debug> Debug for Mutex<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

#[repr(transparent)]
pub struct RwLock<T: ?Sized>(real::sync::RwLock<T>);
impl<T: ?Sized> RwLock<T> {
    pub fn new(t: T) -> Self
    where
        T: Sized,
    {
        Self(real::sync::RwLock::new(t))
    }
    pub const fn const_new(t: T) -> Self
    where
        T: Sized,
    {
        Self(real::sync::RwLock::const_new(t))
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        vsched::point("read lock");
        self.0.read().await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        vsched::point("write lock");
        self.0.write().await
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        vsched::point("try read lock");
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        vsched::point("try write lock");
        self.0.try_write()
    }
    pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
        vsched::point("read lock");
        vsched::block_on(self.0.read())
    }
    pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
        vsched::point("write lock");
        vsched::block_on(self.0.write())
    }
    fn real(self: Arc<Self>) -> Arc<real::sync::RwLock<T>> {
        unsafe { Arc::from_raw(Arc::into_raw(self) as *const real::sync::RwLock<T>) }
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        vsched::point("read lock");
        self.real().read_owned().await
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        vsched::point("write lock");
        self.real().write_owned().await
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T
    where
        T: Sized,
    {
        self.0.into_inner()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized + Debug> Debug for RwLock<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

#[repr(transparent)]
pub struct Semaphore(real::sync::Semaphore);
impl Semaphore {
    pub const MAX_PERMITS: usize = real::sync::Semaphore::MAX_PERMITS;
    pub fn new(n: usize) -> Self {
        Self(real::sync::Semaphore::new(n))
    }
    pub const fn const_new(n: usize) -> Self {
        Self(real::sync::Semaphore::const_new(n))
    }
    pub fn available_permits(&self) -> usize {
        self.0.available_permits()
    }
    pub fn add_permits(&self, n: usize) {
        self.0.add_permits(n);
    }
    pub fn close(&self) {
        self.0.close();
    }
    pub fn is_closed(&self) -> bool {
        self.0.is_closed()
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        vsched::point("semaphore");
        self.0.acquire().await
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        vsched::point("semaphore");
        self.0.acquire_many(n).await
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        vsched::point("semaphore");
        self.0.try_acquire()
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        vsched::point("semaphore");
        let r = unsafe { Arc::from_raw(Arc::into_raw(self) as *const real::sync::Semaphore) };
        r.acquire_owned().await
    }
}
impl Debug for Semaphore {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
