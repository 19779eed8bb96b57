//! Sequential stand-in for parking_lot's locks: a request that would block forever in a
//! single thread panics.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
#[derive(Default)]
pub struct RwLock<T> { n: Cell<i32>, v: UnsafeCell<T> }
unsafe impl<T> Sync for RwLock<T> {}
unsafe impl<T> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { n: Cell::new(0), v: UnsafeCell::new(v) } }
    pub fn read(&self) -> RwLockReadGuard<'_, T> { if self.n.get() < 0 { panic!("deadlock: read of a lock held for writing"); } self.n.set(self.n.get() + 1); RwLockReadGuard(self) }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { if self.n.get() != 0 { panic!("deadlock: write of a held lock"); } self.n.set(-1); RwLockWriteGuard(self) }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> { if self.n.get() < 0 { None } else { Some(self.read()) } }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> { if self.n.get() != 0 { None } else { Some(self.write()) } }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    pub fn into_inner(self) -> T { self.v.into_inner() }
    pub fn is_locked(&self) -> bool { self.n.get() != 0 }
}
impl<'a, T> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<'a, T> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { self.0.n.set(self.0.n.get() - 1); } }
impl<'a, T> Drop for RwLockWriteGuard<'a, T> { fn drop(&mut self) { self.0.n.set(0); } }
/// exclusive lock with the same rules
#[derive(Default)]
pub struct Mutex<T>(RwLock<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex(RwLock::new(v)) }
    pub fn lock(&self) -> RwLockWriteGuard<'_, T> { self.0.write() }
    pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
    pub fn into_inner(self) -> T { self.0.into_inner() }
}
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
