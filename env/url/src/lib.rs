//! URL model: an opaque identifier (two URLs are equal iff they denote the same worker).
#![allow(unused, clippy::all)]
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Url { pub id: usize }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct ParseError;
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("url") } } impl std::error::Error for ParseError {}
impl fmt::Debug for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("url") } }
const NAMES: [&str; 16] = ["u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9", "u10", "u11", "u12", "u13", "u14", "u15"];
impl fmt::Display for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.as_str()) } }
const HOSTS: [&str; 8] = ["h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"];
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub enum Host<S = String> { Domain(S), Ipv4(std::net::Ipv4Addr), Ipv6(std::net::Ipv6Addr) }
impl<S: AsRef<str>> fmt::Display for Host<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Host::Domain(s) => f.write_str(s.as_ref()), _ => f.write_str("ip") } } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Origin(usize);
impl AsRef<str> for Url { fn as_ref(&self) -> &str { self.as_str() } }
impl From<Url> for String { fn from(u: Url) -> String { u.into_string() } }
impl TryFrom<&str> for Url { type Error = ParseError; fn try_from(s: &str) -> Result<Self, ParseError> { Self::parse(s) } }
impl Url {
    pub fn n(id: usize) -> Self { Url { id } }
    /// `u<digits>`; anything else is rejected.
    pub fn parse(s: &str) -> Result<Self, ParseError> { let b = s.as_bytes(); if b.len() < 2 || b[0] != b'u' { return Err(ParseError); } let mut id = 0usize; let mut i = 1; while i < b.len() { if !b[i].is_ascii_digit() { return Err(ParseError); } id = id * 10 + (b[i] - b'0') as usize; i += 1; } Ok(Url { id }) }
    pub fn as_str(&self) -> &str { NAMES[self.id] } pub fn into_string(self) -> String { NAMES[self.id].to_string() }
    /// Workers come in pairs that share a host and port and differ in the path, and in fours that share a host.
    pub fn host_str(&self) -> Option<&str> { Some(HOSTS[self.id / 4]) } pub fn host(&self) -> Option<Host<&str>> { Some(Host::Domain(HOSTS[self.id / 4])) } pub fn domain(&self) -> Option<&str> { self.host_str() } pub fn has_host(&self) -> bool { true }
    pub fn port(&self) -> Option<u16> { Some(8000 + (self.id / 2 % 2) as u16) } pub fn port_or_known_default(&self) -> Option<u16> { self.port() } pub fn scheme(&self) -> &str { "http" } pub fn authority(&self) -> &str { NAMES[self.id / 2] }
    pub fn username(&self) -> &str { "" } pub fn password(&self) -> Option<&str> { None } pub fn path(&self) -> &str { if self.id % 2 == 0 { "/" } else { "/b" } } pub fn query(&self) -> Option<&str> { None } pub fn fragment(&self) -> Option<&str> { None } pub fn cannot_be_a_base(&self) -> bool { false }
    pub fn origin(&self) -> Origin { Origin(self.id / 2) }
}
impl std::str::FromStr for Url { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { Self::parse(s) } }
