//! HTTP header model: names are lower-cased tokens, values are bytes without control characters,
//! the map keeps one value per inserted name in insertion order.
#![allow(unused, clippy::all)]
use std::fmt; use std::str::FromStr;
macro_rules! er { ($t:ident) => { #[derive(Debug, Clone)] pub struct $t; impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid header") } } impl std::error::Error for $t {} } }
pub mod header { pub use super::*; }
er!(InvalidHeaderName); er!(InvalidHeaderValue); er!(ToStrError);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct HeaderName(String);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct HeaderValue(Vec<u8>);
fn token(b: u8) -> bool { b.is_ascii_alphanumeric() || matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~') }
impl HeaderName {
    pub fn from_bytes(b: &[u8]) -> Result<Self, InvalidHeaderName> { if b.is_empty() { return Err(InvalidHeaderName); } let mut o = Vec::with_capacity(b.len()); let mut i = 0; while i < b.len() { if !token(b[i]) { return Err(InvalidHeaderName); } o.push(b[i].to_ascii_lowercase()); i += 1; } Ok(HeaderName(unsafe { String::from_utf8_unchecked(o) })) }
    pub fn from_static(s: &'static str) -> Self { Self::from_bytes(s.as_bytes()).unwrap() }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl FromStr for HeaderName { type Err = InvalidHeaderName; fn from_str(s: &str) -> Result<Self, InvalidHeaderName> { Self::from_bytes(s.as_bytes()) } }
impl AsRef<str> for HeaderName { fn as_ref(&self) -> &str { &self.0 } }
impl fmt::Display for HeaderName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl PartialEq<str> for HeaderName { fn eq(&self, o: &str) -> bool { self.0.as_str() == o } }
impl PartialEq<&str> for HeaderName { fn eq(&self, o: &&str) -> bool { self.0.as_str() == *o } }
impl TryFrom<&str> for HeaderName { type Error = InvalidHeaderName; fn try_from(s: &str) -> Result<Self, InvalidHeaderName> { s.parse() } }
impl TryFrom<String> for HeaderName { type Error = InvalidHeaderName; fn try_from(s: String) -> Result<Self, InvalidHeaderName> { s.parse() } }
impl HeaderValue {
    pub fn from_bytes(b: &[u8]) -> Result<Self, InvalidHeaderValue> { let mut i = 0; while i < b.len() { if !(b[i] >= 32 && b[i] != 127 || b[i] == b'\t') { return Err(InvalidHeaderValue); } i += 1; } Ok(HeaderValue(b.to_vec())) }
    pub fn from_str(s: &str) -> Result<Self, InvalidHeaderValue> { Self::from_bytes(s.as_bytes()) } pub fn from_static(s: &'static str) -> Self { Self::from_str(s).unwrap() }
    pub fn to_str(&self) -> Result<&str, ToStrError> { let mut i = 0; while i < self.0.len() { let b = self.0[i]; if !(b >= 32 && b < 127 || b == b'\t') { return Err(ToStrError); } i += 1; } Ok(unsafe { std::str::from_utf8_unchecked(&self.0) }) }
    pub fn as_bytes(&self) -> &[u8] { &self.0 } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl FromStr for HeaderValue { type Err = InvalidHeaderValue; fn from_str(s: &str) -> Result<Self, InvalidHeaderValue> { HeaderValue::from_str(s) } }
impl PartialEq<str> for HeaderValue { fn eq(&self, o: &str) -> bool { self.0.as_slice() == o.as_bytes() } }
impl PartialEq<&str> for HeaderValue { fn eq(&self, o: &&str) -> bool { self.0.as_slice() == o.as_bytes() } }
impl TryFrom<&str> for HeaderValue { type Error = InvalidHeaderValue; fn try_from(s: &str) -> Result<Self, InvalidHeaderValue> { s.parse() } }
impl TryFrom<String> for HeaderValue { type Error = InvalidHeaderValue; fn try_from(s: String) -> Result<Self, InvalidHeaderValue> { s.parse() } }
#[derive(Debug, Clone)] pub struct HeaderMap<T = HeaderValue> { v: Vec<(HeaderName, T)> }
impl<T> Default for HeaderMap<T> { fn default() -> Self { Self { v: Vec::new() } } }
impl<T: PartialEq> PartialEq for HeaderMap<T> { fn eq(&self, o: &Self) -> bool { self.v.len() == o.v.len() && self.v.iter().all(|(k, v)| o.v.iter().any(|(a, b)| a == k && b == v)) } }
pub trait IntoName { fn name(self) -> HeaderName; } impl IntoName for HeaderName { fn name(self) -> HeaderName { self } } impl IntoName for &'static str { fn name(self) -> HeaderName { HeaderName::from_static(self) } } impl IntoName for &HeaderName { fn name(self) -> HeaderName { self.clone() } }
impl HeaderMap { pub fn new() -> Self { Self::default() } pub fn with_capacity(_: usize) -> Self { Self::default() } }
impl<T> HeaderMap<T> {
    pub fn insert(&mut self, k: impl IntoName, v: T) -> Option<T> { let k = k.name(); let mut i = 0; while i < self.v.len() { if self.v[i].0 == k { return Some(std::mem::replace(&mut self.v[i].1, v)); } i += 1; } self.v.push((k, v)); None }
    pub fn append(&mut self, k: impl IntoName, v: T) -> bool { let k = k.name(); let had = self.v.iter().any(|e| e.0 == k); self.v.push((k, v)); had }
    pub fn get(&self, k: impl AsRef<str>) -> Option<&T> { let k = k.as_ref(); let mut i = 0; while i < self.v.len() { if self.v[i].0.as_str() == k { return Some(&self.v[i].1); } i += 1; } None }
    pub fn contains_key(&self, k: impl AsRef<str>) -> bool { self.get(k).is_some() }
    pub fn remove(&mut self, k: impl AsRef<str>) -> Option<T> { let k = k.as_ref(); let mut i = 0; while i < self.v.len() { if self.v[i].0.as_str() == k { return Some(self.v.remove(i).1); } i += 1; } None }
    pub fn len(&self) -> usize { self.v.len() } pub fn is_empty(&self) -> bool { self.v.is_empty() } pub fn keys_len(&self) -> usize { self.v.len() } pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> impl Iterator<Item = (&HeaderName, &T)> { self.v.iter().map(|e| (&e.0, &e.1)) } pub fn keys(&self) -> impl Iterator<Item = &HeaderName> { self.v.iter().map(|e| &e.0) } pub fn values(&self) -> impl Iterator<Item = &T> { self.v.iter().map(|e| &e.1) }
}
impl<T> IntoIterator for HeaderMap<T> { type Item = (Option<HeaderName>, T); type IntoIter = std::vec::IntoIter<(Option<HeaderName>, T)>; fn into_iter(self) -> Self::IntoIter { self.v.into_iter().map(|e| (Some(e.0), e.1)).collect::<Vec<_>>().into_iter() } }
impl<T> Extend<(HeaderName, T)> for HeaderMap<T> { fn extend<I: IntoIterator<Item = (HeaderName, T)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
impl<T> Extend<(Option<HeaderName>, T)> for HeaderMap<T> { fn extend<I: IntoIterator<Item = (Option<HeaderName>, T)>>(&mut self, i: I) { for (k, v) in i { if let Some(k) = k { self.insert(k, v); } } } }
impl<T> FromIterator<(HeaderName, T)> for HeaderMap<T> { fn from_iter<I: IntoIterator<Item = (HeaderName, T)>>(i: I) -> Self { let mut m = Self::default(); m.extend(i); m } }
impl<T> std::ops::Index<&str> for HeaderMap<T> { type Output = T; fn index(&self, k: &str) -> &T { self.get(k).unwrap() } }
