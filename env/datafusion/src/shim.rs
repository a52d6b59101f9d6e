//! `parking_lot`-style locks of the single-threaded model.
use std::cell::UnsafeCell; use std::ops::{Deref, DerefMut};
#[derive(Default)] pub struct Mutex<T>(UnsafeCell<T>);
unsafe impl<T: Send> Send for Mutex<T> {} unsafe impl<T: Send> Sync for Mutex<T> {}
impl<T> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
impl<T> Mutex<T> { pub fn new(t: T) -> Self { Self(UnsafeCell::new(t)) } pub fn lock(&self) -> &mut T { unsafe { &mut *self.0.get() } } pub fn into_inner(self) -> T { self.0.into_inner() } }
#[derive(Default)] pub struct RwLock<T>(UnsafeCell<T>);
unsafe impl<T: Send> Send for RwLock<T> {} unsafe impl<T: Send> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(UnsafeCell::new(t)) } pub fn write(&self) -> &mut T { unsafe { &mut *self.0.get() } } pub fn read(&self) -> &T { unsafe { &*self.0.get() } } }
