//! Source of nondeterminism shared by the environment models and the harnesses.
//!
//! In a symbolic build (cfg symex) every call is one symbolic variable. In a native build (replay) the
//! same calls read, in order, the byte vectors of the solver's assignment.
#![allow(unused, clippy::all)]
#[cfg(not(symex))]
mod imp {
    use std::collections::VecDeque;
    use std::sync::Mutex;
    pub static VALS: Mutex<VecDeque<Vec<u8>>> = Mutex::new(VecDeque::new());
    pub fn next(n: usize) -> Vec<u8> {
        let mut v = VALS.lock().unwrap().pop_front().unwrap_or_else(|| vec![0; n]);
        v.resize(n, 0);
        v
    }
    /// Loads the assignment: one value per line, comma-separated bytes, little endian.
    pub fn load(text: &str) {
        let mut q = VALS.lock().unwrap();
        q.clear();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            q.push_back(l.split(',').filter_map(|x| x.trim().parse().ok()).collect());
        }
    }
}
#[cfg(not(symex))]
pub use imp::load;
#[cfg(symex)]
mod ext { unsafe extern "C" { pub fn __nd_u8() -> u8; pub fn __nd_u16() -> u16; pub fn __nd_u32() -> u32; pub fn __nd_u64() -> u64; pub fn __nd_assume(c: bool); pub fn __nd_range8(lo: u64, hi: u64) -> u8; pub fn __nd_range64(lo: u64, hi: u64) -> u64; pub fn __nd_cover(p: *const u8, n: usize); pub fn __nd_concrete(x: u64) -> u64; } }
macro_rules! prim { ($($f:ident : $t:ty = $e:ident),*) => { $(
    #[cfg(symex)] #[inline(always)] pub fn $f() -> $t { let x = unsafe { ext::$e() }; <$t>::from_le_bytes(x.to_le_bytes()) }
    #[cfg(not(symex))] pub fn $f() -> $t { let v = imp::next(std::mem::size_of::<$t>()); let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(&v); <$t>::from_le_bytes(a) }
)* } }
prim!(u8: u8 = __nd_u8, u16: u16 = __nd_u16, u32: u32 = __nd_u32, u64: u64 = __nd_u64, usize: usize = __nd_u64, i8: i8 = __nd_u8, i32: i32 = __nd_u32, i64: i64 = __nd_u64, f32: f32 = __nd_u32, f64: f64 = __nd_u64);
pub fn bool() -> bool { pick(0, 1) == 1 }
#[cfg(symex)] #[inline(always)] pub fn assume(c: bool) { unsafe { ext::__nd_assume(c) } }
/// A violated assumption means the assignment does not describe a run of this build.
#[cfg(not(symex))] pub fn assume(c: bool) { if !c { eprintln!("ND-ASSUME-VIOLATED"); std::process::exit(3); } }
/// Reachability witness: some explored execution reaches this point.
#[cfg(symex)] pub fn cover(m: &'static str) { unsafe { ext::__nd_cover(m.as_ptr(), m.len()) } }
#[cfg(not(symex))] pub fn cover(_m: &'static str) {}
/// `lo <= x <= hi`
#[cfg(symex)] #[inline(always)] pub fn range(lo: usize, hi: usize) -> usize { if hi < 256 { unsafe { ext::__nd_range8(lo as u64, hi as u64) as usize } } else { unsafe { ext::__nd_range64(lo as u64, hi as u64) as usize } } }
#[cfg(not(symex))] pub fn range(lo: usize, hi: usize) -> usize { let x = if hi < 256 { u8() as usize } else { usize() }; assume(x >= lo && x <= hi); x }
/// One of `0..n`, as a small symbolic integer.
pub fn below(n: usize) -> usize { assume(n > 0); range(0, n - 1) }
/// Fresh identifier (contract of a random UUID: never repeats).
pub fn fresh() -> u128 { static mut N: u128 = 0x5000; unsafe { N += 1; N } }
pub fn opt<T>(v: T) -> Option<T> { if bool() { Some(v) } else { None } }
pub static mut CLOCK: u64 = 0;
pub static mut CLOCK_SYMBOLIC: bool = false;
/// Arbitrary non-decreasing clock (nanoseconds). Constant unless a harness makes it symbolic.
pub fn clock_ns() -> u64 { unsafe { if CLOCK_SYMBOLIC { let d = u32() as u64; CLOCK = CLOCK.saturating_add(d); } CLOCK } }
/// Finite, non-NaN f32 in [0, max].
pub fn f32_in(lo: f32, hi: f32) -> f32 { let x = f32(); assume(x >= lo && x <= hi); x }
pub mod sync {
    //! `std::sync` locks for the single-threaded model (re-entrant locking is a reported deadlock).
    use std::cell::{Cell, UnsafeCell}; use std::ops::{Deref, DerefMut};
    #[derive(Debug)] pub struct PoisonError; 
    impl std::fmt::Display for PoisonError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("poisoned") } } impl std::error::Error for PoisonError {}
    pub type LockResult<T> = Result<T, PoisonError>;
    pub struct Mutex<T: ?Sized> { held: Cell<bool>, v: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {} unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
    impl<T: ?Sized> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> { pub const fn new(t: T) -> Self { Self { held: Cell::new(false), v: UnsafeCell::new(t) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) } }
    impl<T: ?Sized> Mutex<T> { pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { assert!(!self.held.get(), "deadlock: mutex locked while already held"); self.held.set(true); Ok(MutexGuard(self)) } pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
        pub fn try_lock(&self) -> LockResult<MutexGuard<'_, T>> { if self.held.get() { return Err(PoisonError); } self.held.set(true); Ok(MutexGuard(self)) } }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.0.held.set(false) } }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
    pub struct RwLock<T>(Mutex<T>);
    impl<T> std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
    impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock(Mutex::default()) } }
    impl<T> RwLock<T> { pub const fn new(t: T) -> Self { RwLock(Mutex::new(t)) } pub fn read(&self) -> LockResult<MutexGuard<'_, T>> { self.0.lock() } pub fn write(&self) -> LockResult<MutexGuard<'_, T>> { self.0.lock() } }
    pub struct OnceLock<T>(UnsafeCell<Option<T>>);
    unsafe impl<T: Send> Send for OnceLock<T> {} unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
    impl<T> std::fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OnceLock") } }
    impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { OnceLock(UnsafeCell::new(self.get().cloned())) } }
    impl<T> From<T> for OnceLock<T> { fn from(t: T) -> Self { OnceLock(UnsafeCell::new(Some(t))) } }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self { OnceLock(UnsafeCell::new(None)) }
        pub fn get(&self) -> Option<&T> { unsafe { (*self.0.get()).as_ref() } } pub fn get_mut(&mut self) -> Option<&mut T> { self.0.get_mut().as_mut() }
        pub fn set(&self, t: T) -> Result<(), T> { if self.get().is_some() { return Err(t); } unsafe { *self.0.get() = Some(t); } Ok(()) }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T { if self.get().is_none() { let v = f(); assert!(self.get().is_none(), "reentrant initialisation"); unsafe { *self.0.get() = Some(v); } } self.get().unwrap() }
        pub fn take(&mut self) -> Option<T> { self.0.get_mut().take() } pub fn into_inner(self) -> Option<T> { self.0.into_inner() }
    }
    pub struct LazyLock<T, F = fn() -> T> { v: OnceLock<T>, f: Cell<Option<F>> }
    unsafe impl<T: Send, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> { pub const fn new(f: F) -> Self { Self { v: OnceLock::new(), f: Cell::new(Some(f)) } } pub fn force(this: &Self) -> &T { this } }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { self.v.get_or_init(|| (self.f.take().expect("LazyLock poisoned"))()) } }
}
pub mod time {
    //! Model clock.
    use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct SystemTime(Duration);
    pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
    #[derive(Debug)] pub struct SystemTimeError; impl std::fmt::Display for SystemTimeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("time") } } impl std::error::Error for SystemTimeError {}
    impl SystemTime { pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH; pub fn now() -> Self { SystemTime(Duration::from_nanos(crate::clock_ns())) } pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> { self.0.checked_sub(o.0).ok_or(SystemTimeError) } pub fn elapsed(&self) -> Result<Duration, SystemTimeError> { Self::now().duration_since(*self) } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct Instant(Duration);
    impl Instant { pub fn now() -> Self { Instant(Duration::from_nanos(crate::clock_ns())) } pub fn elapsed(&self) -> Duration { Self::now().0.saturating_sub(self.0) } pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) } pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) } pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) } pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) } }
    impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
    impl std::ops::Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
    impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.0.saturating_sub(o.0) } }
    impl std::ops::Add<Duration> for SystemTime { type Output = SystemTime; fn add(self, d: Duration) -> SystemTime { SystemTime(self.0 + d) } }
    impl std::ops::Sub<Duration> for SystemTime { type Output = SystemTime; fn sub(self, d: Duration) -> SystemTime { SystemTime(self.0 - d) } }
}
/// Like `range`, but the execution splits at once into one case per value.
#[cfg(symex)] pub fn pick(lo: usize, hi: usize) -> usize { unsafe { ext::__nd_concrete(range(lo, hi) as u64) as usize } }
#[cfg(not(symex))] pub fn pick(lo: usize, hi: usize) -> usize { range(lo, hi) }
