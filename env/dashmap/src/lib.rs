//! Single-threaded model of DashMap.
#![allow(unused, clippy::all)]
use datafusion::common::HashMap; use std::cell::UnsafeCell; use std::borrow::Borrow;
pub struct DashMap<K, V>(UnsafeCell<HashMap<K, V>>);
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {} unsafe impl<K: Send, V: Send> Sync for DashMap<K, V> {}
impl<K, V> Default for DashMap<K, V> { fn default() -> Self { DashMap(UnsafeCell::new(HashMap::new())) } }
impl<K, V> std::fmt::Debug for DashMap<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("DashMap") } }
pub struct Ref<'a, K, V>(&'a K, &'a V);
impl<'a, K, V> std::ops::Deref for Ref<'a, K, V> { type Target = V; fn deref(&self) -> &V { self.1 } }
impl<'a, K, V> Ref<'a, K, V> { pub fn key(&self) -> &K { self.0 } pub fn value(&self) -> &V { self.1 } }
impl<K: Eq, V> DashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    fn g(&self) -> &mut HashMap<K, V> { unsafe { &mut *self.0.get() } }
    pub fn insert(&self, k: K, v: V) -> Option<V> { self.g().insert(k, v) }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<Ref<'_, K, V>> where K: Borrow<Q> { for (a, b) in self.g().iter() { if a.borrow() == k { return Some(Ref(a, b)); } } None }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.g().contains_key(k) }
    pub fn remove<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.g().remove_entry(k) }
    pub fn len(&self) -> usize { self.g().len() } pub fn is_empty(&self) -> bool { self.g().is_empty() }
}
