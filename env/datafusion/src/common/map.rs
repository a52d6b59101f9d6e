//! Insertion-ordered association list with the HashMap/HashSet API. Iteration order is the
//! insertion order; hashing is not modelled.
use std::borrow::Borrow;
#[derive(Clone)]
pub struct HashMap<K, V, S = ()> { v: Vec<(K, V)>, s: std::marker::PhantomData<S> }
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("HashMap") } }
impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { Self { v: Vec::new(), s: std::marker::PhantomData } } }
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_: usize) -> Self { Self::default() }
}
impl<K: Eq, V, S> HashMap<K, V, S> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.v.len() { if self.v[i].0.borrow() == k { return Some(i); } i += 1; }
        None
    }
    pub fn insert(&mut self, k: K, val: V) -> Option<V> {
        match self.pos(&k) { Some(i) => Some(std::mem::replace(&mut self.v[i].1, val)), None => { self.v.push((k, val)); None } }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.v[i].1), None => None } }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.v[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.v.remove(i).1), None => None } }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.v.remove(i)), None => None } }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) { Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i, k }), None => Entry::Vacant(VacantEntry { v: &mut self.v, k }) }
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) { self.v.retain_mut(|e| f(&e.0, &mut e.1)) }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.v.iter()) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.v.iter_mut().map(|e| (&e.0, &mut e.1)) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.v.iter().map(|e| &e.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.v.iter().map(|e| &e.1) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.v.iter_mut().map(|e| &mut e.1) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.v.into_iter().map(|e| e.1) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.v.into_iter().map(|e| e.0) }
    pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> { self.v.drain(..) }
    pub fn reserve(&mut self, _: usize) {}
}
pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(e) => Some((&e.0, &e.1)), None => None } } }
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.v.into_iter() } }
impl<K: Eq, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.v.iter().all(|(k, v)| o.get(k).is_some_and(|x| x == v)) } }
impl<K: Eq, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: Eq + Borrow<Q>, Q: Eq + ?Sized, V, S> std::ops::Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { v: &'a mut Vec<(K, V)>, i: usize, k: K }
pub struct VacantEntry<'a, K, V> { v: &'a mut Vec<(K, V)>, k: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.v[self.i].1 } pub fn get_mut(&mut self) -> &mut V { &mut self.v[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.v[self.i].1 } pub fn insert(&mut self, x: V) -> V { std::mem::replace(&mut self.v[self.i].1, x) }
    pub fn remove(self) -> V { self.v.remove(self.i).1 } pub fn key(&self) -> &K { &self.k }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, x: V) -> &'a mut V { self.v.push((self.k, x)); let n = self.v.len() - 1; &mut self.v[n].1 }
    pub fn key(&self) -> &K { &self.k } pub fn into_key(self) -> K { self.k }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, x: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(x) } }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
}
#[derive(Clone)]
pub struct HashSet<K, S = ()> { m: HashMap<K, (), S> }
impl<K, S> std::fmt::Debug for HashSet<K, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("HashSet") } }
impl<K, S> Default for HashSet<K, S> { fn default() -> Self { Self { m: HashMap::default() } } }
impl<K> HashSet<K> { pub fn new() -> Self { Self::default() } pub fn with_capacity(_: usize) -> Self { Self::default() } }
impl<K: Eq, S> HashSet<K, S> {
    pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { false } else { self.m.insert(k, ()); true } }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
}
impl<K, S> HashSet<K, S> {
    pub fn len(&self) -> usize { self.m.len() } pub fn is_empty(&self) -> bool { self.m.is_empty() } pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> impl Iterator<Item = &K> { self.m.keys() }
}
impl<K: Eq, S> FromIterator<K> for HashSet<K, S> { fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = Self::default(); for k in it { m.insert(k); } m } }
impl<K: Eq, S> Extend<K> for HashSet<K, S> { fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } } }
impl<K, S> IntoIterator for HashSet<K, S> { type Item = K; type IntoIter = std::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { let v: Vec<K> = self.m.v.into_iter().map(|e| e.0).collect(); v.into_iter() } }
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> { type Item = &'a K; type IntoIter = SetIter<'a, K>; fn into_iter(self) -> SetIter<'a, K> { SetIter(self.m.v.iter()) } }
pub struct SetIter<'a, K>(std::slice::Iter<'a, (K, ())>);
impl<'a, K> Iterator for SetIter<'a, K> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { match self.0.next() { Some(e) => Some(&e.0), None => None } } }
impl<K: Eq, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
