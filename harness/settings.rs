//! C15: what a session is configured with is what every worker of its queries is configured with.
use super::e2e::*;
use super::util::*;
use crate::*;
use crate::config_extension_ext::{get_config_extension_propagation_headers, set_distributed_option_extension, set_distributed_option_extension_from_headers};
use datafusion::common::Result;
use datafusion::config::{ConfigEntry, ConfigExtension, ExtensionOptions};
use datafusion::execution::config::SessionConfig;
use datafusion::execution::{SessionState, SessionStateBuilder, TaskContext};
use http::{HeaderMap, HeaderName, HeaderValue};
use std::any::Any;
use std::str::FromStr;
use std::sync::Arc;

/// Extension of two options, the names of which are any.
const NAMES: [&str; 7] = ["x", "app.x", "app.app.x", "x.app.", "X", "y_1.Z", "x-datafusion-distributed-config-x"];
static mut KEYS: [usize; 2] = [0, 1];
fn key(i: usize) -> &'static str { NAMES[unsafe { KEYS[i] }] }
macro_rules! extension { ($t:ident, $p:literal) => {
    #[derive(Clone)] pub struct $t { v: [Option<String>; 2] }
    impl Default for $t { fn default() -> Self { $t { v: [None, Some(String::from("d"))] } } }
    impl ExtensionOptions for $t {
        fn as_any(&self) -> &dyn Any { self } fn as_any_mut(&mut self) -> &mut dyn Any { self } fn cloned(&self) -> Box<dyn ExtensionOptions> { Box::new(self.clone()) }
        fn set(&mut self, k: &str, v: &str) -> Result<()> { let mut i = 0; while i < 2 { if k == key(i) { self.v[i] = Some(v.to_string()); return Ok(()); } i += 1; } datafusion::exec_err!("no such option") }
        fn entries(&self) -> Vec<ConfigEntry> { let mut o = Vec::new(); let mut i = 0; while i < 2 { o.push(ConfigEntry { key: key(i).to_string(), value: self.v[i].clone(), description: "" }); i += 1; } o }
    }
    impl ConfigExtension for $t { const PREFIX: &'static str = $p; }
} }
extension!(App, "app"); extension!(Own, "Own.app"); extension!(Other, "application");
/// Text of `n` characters, every ASCII one.
fn text(n: usize) -> String { let mut b = Vec::new(); let mut i = 0; while i < n { let c = nd::u8(); nd::assume(c < 128); b.push(c); i += 1; } unsafe { String::from_utf8_unchecked(b) } }
/// Every plain text of `n` characters.
fn plain_text(n: usize) -> String { let mut b = Vec::new(); let mut i = 0; while i < n { let c = nd::u8(); nd::assume((c >= 32) & (c < 127)); b.push(c); i += 1; } unsafe { String::from_utf8_unchecked(b) } }
fn plain(s: &Option<String>) -> bool { let Some(s) = s else { return true }; for b in s.as_bytes() { if !(*b >= 32 && *b < 127 || *b == b'\t') { return false; } } true }
fn options(n: usize) -> [Option<String>; 2] { let mut v = [None, None]; let mut i = 0; while i < 2 { v[i] = match nd::pick(0, 2 + n) { 0 => None, 1 => Some(String::from("é")), k => Some(text(k - 2)) }; i += 1; } v }
fn eq(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.as_bytes() == b.as_bytes(), _ => false } }
/// The options an extension has on a worker given those it has in the session and those it had there.
fn arrive<T: ConfigExtension + Default>(sent: [Option<String>; 2], had: Option<T>, before: [Option<String>; 2], mk: impl Fn([Option<String>; 2]) -> T, get: impl Fn(&T) -> &[Option<String>; 2], extra: Option<(&str, &str)>) {
    let fits = plain(&sent[0]) && plain(&sent[1]);
    let mut cfg = SessionConfig::new(); set_distributed_option_extension(&mut cfg, mk(sent.clone()));
    cfg.options_mut().extensions.insert(Other { v: [Some(String::from("o")), None] });
    let h = get_config_extension_propagation_headers(&cfg);
    let Ok(mut h) = h else { assert!(!fits, "options of any plain text are sent"); return };
    for (k, _) in h.iter() { assert!(!k.as_str().contains("application"), "extensions not registered stay where they are"); }
    if let Some((k, v)) = extra { h.insert(HeaderName::from_str(k).unwrap(), HeaderValue::from_str(v).unwrap()); }
    let mut w = SessionConfig::new(); if let Some(t) = had { w.options_mut().extensions.insert(t); }
    match set_distributed_option_extension_from_headers::<T>(&mut w, &h) {
        Err(_) => assert!(!fits, "options of any plain text are read"),
        Ok(t) => {
            let got = get(t); let mut i = 0;
            while i < 2 { if sent[i].is_some() { assert!(eq(&got[i], &sent[i]), "an option has on the worker the value it has in the session"); nd::cover("arrives"); } else { assert!(eq(&got[i], &before[i]), "an option that is not set stays as it is on the worker"); nd::cover("unset"); } i += 1; }
            assert!(w.options().extensions.get::<Other>().is_none());
            // From there it travels on to the next worker.
            if fits { let Ok(n) = get_config_extension_propagation_headers(&w) else { panic!("options that arrived can be sent on") }; let mut z = SessionConfig::new(); let Ok(t) = set_distributed_option_extension_from_headers::<T>(&mut z, &n) else { panic!("options that arrived can be read again") }; let got = get(t); let mut i = 0; while i < 2 { if sent[i].is_some() { assert!(eq(&got[i], &sent[i]), "options travel from worker to worker"); } i += 1; } }
        }
    }
}
fn keys() { let a = nd::pick(0, NAMES.len() - 1); let b = (a + nd::pick(1, NAMES.len() - 1)) % NAMES.len(); unsafe { KEYS = [a, b]; } nd::assume(!NAMES[a].eq_ignore_ascii_case(NAMES[b])); }
//# prop=C15 tier=quick bounds="extensions of 2 options named any of 7 ways (dotted, mixed case, repeating a prefix), unset or of every ASCII text of 0..2 characters or not ASCII; worker with its own values or none; a foreign header named like an option; two hops" covers="arrives,unset" shards=8
#[unsafe(no_mangle)] pub extern "C" fn h_c15_options() {
    keys(); let sent = options(2);
    let mut before = [None, Some(String::from("d"))]; let had = nd::bool(); if had { before = [Some(String::from("w")), None]; }
    let extra = match nd::pick(0, 3) { 0 => None, 1 => Some(("app.x", "z")), 2 => Some(("own.app.x", "z")), _ => Some(("x-datafusion-distributed-config-app.unknown", "z")) };
    if nd::bool() { let b = before.clone(); arrive::<App>(sent, had.then(|| App { v: b }), before, |v| App { v }, |t| &t.v, extra) }
    else { let b = before.clone(); arrive::<Own>(sent, had.then(|| Own { v: b }), before, |v| Own { v }, |t| &t.v, extra) }
}
/// What the session of a query is set up with: extension, batch size, headers.
static mut WANT: Option<([Option<String>; 2], usize, Option<String>)> = None;
fn want() -> &'static ([Option<String>; 2], usize, Option<String>) { unsafe { (*std::ptr::addr_of!(WANT)).as_ref().unwrap() } }
fn setup(c: &mut SessionConfig) {
    let (v, n, t) = want(); c.set_distributed_option_extension(App { v: v.clone() });
    if *n > 0 { c.set_distributed_shuffle_batch_size(*n).unwrap(); }
    if let Some(t) = t { let mut h = HeaderMap::new(); h.insert(HeaderName::from_static("x-tenant"), HeaderValue::from_str(t).unwrap()); c.set_distributed_passthrough_headers(h).unwrap(); }
}
/// Every request to a worker carries the headers passed through.
pub fn seen(h: &HeaderMap) {
    if unsafe { (*std::ptr::addr_of!(WANT)).is_none() } { return; }
    match &want().2 { None => assert!(h.get("x-tenant").is_none()), Some(t) => { let Some(v) = h.get("x-tenant") else { panic!("headers are passed through to every worker") }; assert!(v.as_bytes() == t.as_bytes(), "headers are passed through as they are"); nd::cover("passed through"); } }
}
/// Sessions of workers that read the extension, pass the header on, and are what the query's session is.
struct Reading;
#[async_trait::async_trait]
impl WorkerSessionBuilder for Reading { async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<SessionState> {
    seen(&ctx.headers); let (v, n, t) = want(); let mut b = ctx.builder;
    if let Some(t) = t { let mut h = HeaderMap::new(); h.insert(HeaderName::from_static("x-tenant"), ctx.headers.get("x-tenant").unwrap().clone()); b = b.with_distributed_passthrough_headers(h)?; }
    b = b.with_distributed_option_extension_from_headers::<App>(&ctx.headers)?;
    let cfg = b.config().get_or_insert_default(); crate::protocol::set_distributed_channel_resolver(cfg, ClusterResolver); cfg.set_distributed_user_codec(Leaves);
    let d = DistributedConfig::from_config_options(cfg.options())?; assert!(d.shuffle_batch_size == *n, "the library's own options reach the workers"); if *n > 0 { assert!(cfg.options().execution.batch_size == *n); }
    let Some(a) = cfg.options().extensions.get::<App>() else { panic!("extensions read from the headers are there") };
    let mut i = 0; while i < 2 { if v[i].is_some() { assert!(eq(&a.v[i], &v[i]), "an option has on every worker the value it has in the session"); nd::cover("arrives"); } i += 1; }
    Ok(b.build())
} }
//# prop=C15 tier=quick bounds="an extension of 2 options, unset or of every plain text of 2 characters; a header passed through or not; a shuffle batch size set or not; scan, group, group of groups, broadcast join and union of 2 partitions over 2 tasks on 2 workers; task counts decided before or while the query runs; coordinator a worker or not" covers="arrives,passed through,distributed,rows returned" shards=7
#[unsafe(no_mangle)] pub extern "C" fn h_c15_workers() {
    let mut v = [None, None]; let mut i = 0; while i < 2 { if nd::bool() { v[i] = Some(plain_text(2)); } i += 1; }
    let h = nd::bool(); unsafe { WANT = Some((v, if nd::bool() { 100 } else { 0 }, if h { Some(plain_text(2)) } else { None })); SETUP = Some(setup); }
    let mut i = 0; while i < 2 { workers().push(Worker::from_session_builder(Reading)); i += 1; }
    let mut id = 0; let t = table(&mut id, 2, 1, 0); let c = Cfg { dynamic: nd::bool(), local: nd::bool(), ..Cfg::default() };
    match nd::pick(0, 4) {
        0 => check(c, || data(&t), None, Cmp::Rows), 1 => check(c, || group(data(&t), 2), None, Cmp::Rows), 2 => check(c, || group(group(data(&t), 2), 3), None, Cmp::Rows),
        3 => check(c, || collect_join(data(&t), group(data(&t), 2), join_type(0), false), None, Cmp::Rows), _ => check(c, || datafusion::physical_plan::union::UnionExec::try_new(vec![data(&t), group(data(&t), 2)]).unwrap(), None, Cmp::Rows),
    }
}
//# prop=C15 tier=quick bounds="headers to pass through of every name of a reserved prefix, part of it, or more of it, and any other" covers="rejected,accepted"
#[unsafe(no_mangle)] pub extern "C" fn h_c15_reserved() {
    let full = "x-datafusion-distributed-config-"; let n = nd::pick(1, full.len()); let mut s = full[..n].to_string(); if nd::bool() { s.make_ascii_uppercase(); } let k = nd::pick(0, 2); if k > 0 { let c = nd::u8(); nd::assume(c.is_ascii_lowercase()); s.push(c as char); } if k > 1 { s = format!("y{s}"); }
    let mut h = HeaderMap::new(); h.insert(HeaderName::from_static("x-first"), HeaderValue::from_static("1")); h.insert(HeaderName::from_str(&s).unwrap(), HeaderValue::from_static("1"));
    let mut c = SessionConfig::new(); let r = c.set_distributed_passthrough_headers(h.clone());
    let reserved = k < 2 && n == full.len();
    if reserved { assert!(r.is_err(), "names of the reserved prefix are rejected"); assert!(crate::passthrough_headers::get_passthrough_headers(&c).is_empty()); nd::cover("rejected"); }
    else { assert!(r.is_ok()); assert!(crate::passthrough_headers::get_passthrough_headers(&c) == h); nd::cover("accepted"); }
}
