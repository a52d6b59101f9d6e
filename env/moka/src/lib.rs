//! Cache model: entries expire only when the harness says that enough time has passed.
#![allow(unused, clippy::all)]
use datafusion::common::HashMap; use std::borrow::Borrow; use std::cell::UnsafeCell; use std::sync::Arc; use std::time::Duration;
struct In<K, V>(UnsafeCell<HashMap<K, V>>, bool);
unsafe impl<K: Send, V: Send> Send for In<K, V> {} unsafe impl<K: Send, V: Send> Sync for In<K, V> {}
macro_rules! cache { ($b:ident) => {
    pub struct Cache<K, V>(std::sync::Arc<super::In<K, V>>);
    impl<K, V> Clone for Cache<K, V> { fn clone(&self) -> Self { Cache(std::sync::Arc::clone(&self.0)) } }
    pub struct $b<K, V>(std::marker::PhantomData<(K, V)>, bool);
    impl<K, V> $b<K, V> { pub fn max_capacity(self, _: u64) -> Self { self } pub fn time_to_idle(self, _: std::time::Duration) -> Self { $b(self.0, true) } pub fn time_to_live(self, _: std::time::Duration) -> Self { $b(self.0, true) } pub fn build(self) -> Cache<K, V> { Cache(std::sync::Arc::new(super::In(std::cell::UnsafeCell::new(datafusion::common::HashMap::new()), self.1))) } }
    impl<K: Eq, V: Clone> Cache<K, V> { pub fn builder() -> $b<K, V> { $b(std::marker::PhantomData, false) } pub(crate) fn g(&self) -> &mut datafusion::common::HashMap<K, V> { unsafe { &mut *self.0.0.get() } } /// Lets entries that have a time to live or to idle reach it.
 pub fn expire(&self) { if self.0.1 { self.g().clear(); } } pub fn entry_count(&self) -> u64 { self.g().len() as u64 } }
} }
pub mod sync { cache!(CacheBuilder); impl<K: Eq, V: Clone> Cache<K, V> { pub fn get_with(&self, k: K, f: impl FnOnce() -> V) -> V { self.g().entry(k).or_insert_with(f).clone() } pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<V> where K: std::borrow::Borrow<Q> { self.g().get(k).cloned() } } }
pub mod future { cache!(CacheBuilder); impl<K: Eq, V: Clone> Cache<K, V> {
    pub async fn get_with(&self, k: K, f: impl std::future::Future<Output = V>) -> V { if let Some(v) = self.g().get(&k) { return v.clone(); } let v = f.await; self.g().insert(k, v.clone()); v }
    pub async fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<V> where K: std::borrow::Borrow<Q> { self.g().get(k).cloned() }
    pub async fn insert(&self, k: K, v: V) { self.g().insert(k, v); }
    pub async fn invalidate<Q: ?Sized + Eq>(&self, k: &Q) where K: std::borrow::Borrow<Q> { self.g().remove(k); }
    pub async fn run_pending_tasks(&self) {}
} }
