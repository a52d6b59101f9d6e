//! C03: the broadcast queue under every poll order.
use super::util::*;
use crate::*;
use datafusion::execution::SendableRecordBatchStream;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use std::sync::Arc;
use std::task::{Context, Poll};

/// Arbitrary script of at most `n` events; a failure ends it. Batches are tagged 1, 2, …
pub fn script(n: usize, fail: bool) -> (Vec<Ev>, usize, bool) {
    let len = nd::pick(0, n); let mut v = Vec::new(); let mut batches = 0; let mut i = 0;
    while i < len {
        let k = nd::pick(0, if fail { 2 } else { 1 });
        if k == 0 { batches += 1; v.push(Ev::Batch(batches)); } else if k == 1 { v.push(Ev::Wait); } else { v.push(Ev::Fail); return (v, batches, true); }
        i += 1;
    }
    (v, batches, false)
}
struct Reader { s: Option<SendableRecordBatchStream>, got: usize, err: bool, done: bool, dropped: bool, pending: bool }
impl Reader {
    fn poll(&mut self, slot: usize) -> bool {
        let Some(s) = self.s.as_mut() else { return false };
        unsafe { rt::WOKEN[slot] = false; }
        let w = rt::waker(slot); let mut cx = Context::from_waker(&w);
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => { assert!(!self.err && !self.done && b.tag as usize == self.got + 1, "batches arrive once each, in order"); self.got += 1; self.pending = false; true }
            Poll::Ready(Some(Err(_))) => { assert!(!self.err && !self.done, "one error ends the stream"); self.err = true; self.pending = false; true }
            Poll::Ready(None) => { self.done = true; self.pending = false; false }
            Poll::Pending => { self.pending = true; false }
        }
    }
}
fn schedules(max_m: usize, events: usize, steps: usize, drops: bool) {
    let m = nd::pick(1, max_m);
    let (sc, batches, fails) = script(events, true);
    let ctx = consumer_ctx(0, 1);
    let plan = BroadcastExec::new(Arc::new(Leaf::sized(0, vec![sc], 10)), m);
    let mut r = Vec::new(); let mut i = 0;
    while i < m { r.push(Reader { s: Some(plan.execute(i, Arc::clone(&ctx)).unwrap()), got: 0, err: false, done: false, dropped: false, pending: false }); i += 1; }
    // the node itself may go away once its streams are open
    let mut plan = Some(plan);
    if nd::bool() { plan = None; nd::cover("node dropped first"); }
    let mut k = 0;
    while k < steps {
        // poll a consumer, advance the producer, or drop a consumer
        let a = nd::pick(0, if drops { 2 * m } else { m });
        if a == 0 { rt::step(0); } else if a <= m { r[a - 1].poll(a); } else { r[a - m - 1].s = None; r[a - m - 1].dropped = true; }
        k += 1;
    }
    // then everything runs until nothing moves; a consumer left pending is polled again only when woken
    let mut idle = 0;
    while idle < 3 + events {
        let mut moved = false;
        let before = rt::step(0);
        let mut i = 0; while i < m { if !r[i].done && (!r[i].pending || rt::woken(i + 1)) && r[i].poll(i + 1) { moved = true; } i += 1; }
        if moved || !before { if moved { idle = 0; } else { idle += 1; } } else { idle += 1; }
    }
    let mut i = 0;
    while i < m { if !r[i].dropped { assert!(r[i].done && r[i].got == batches && r[i].err == fails, "every remaining consumer gets every batch and the outcome of the producer"); } else { nd::cover("dropped consumer"); } i += 1; }
    assert!(executed(0, 0) == 1, "the input partition is executed once");
    if fails { nd::cover("failing input"); }
    if batches > 1 && m > 1 { nd::cover("several batches and consumers"); }
    r.clear(); drop(plan); rt::clear();
    assert!(ctx.memory_pool().reserved() == 0, "memory is released once the consumers are gone");
}
//# prop=C03 tier=quick bounds="1..2 consumers of one input partition, up to 2 events (batch, wait, error), 5 scheduling steps: poll any consumer, advance the producer, drop any consumer" covers="dropped consumer,failing input,node dropped first,several batches and consumers" weight=9
#[unsafe(no_mangle)] pub extern "C" fn h_c03_schedules() { schedules(2, 2, 5, true) }
//# prop=C03 tier=thorough bounds="1..3 consumers, up to 3 events, 5 scheduling steps" covers="dropped consumer,failing input,node dropped first,several batches and consumers"
#[unsafe(no_mangle)] pub extern "C" fn h_c03_schedules_deep() { schedules(3, 3, 5, true) }
//# prop=C03 tier=thorough bounds="1..2 consumers, up to 2 events, 7 scheduling steps" covers="dropped consumer,failing input,node dropped first,several batches and consumers"
#[unsafe(no_mangle)] pub extern "C" fn h_c03_schedules_long() { schedules(2, 2, 7, true) }

/// Virtual partition `i` is input partition `i % P`; each is readable once per consumer task, one more
/// is an error, whatever the order in which they are opened.
//# prop=C03 tier=quick bounds="1..3 input partitions, 1..3 consumers, partitions opened from any starting point, forwards or backwards" covers="one too many"
#[unsafe(no_mangle)] pub extern "C" fn h_c03_mapping() {
    let (p, m) = (nd::pick(1, 3), nd::pick(1, 3));
    let mut s = Vec::new(); let mut j = 0; while j < p { s.push(vec![Ev::Batch(100 + j)]); j += 1; }
    let plan = BroadcastExec::new(Leaf::new(0, s), m);
    assert!(plan.properties().output_partitioning().partition_count() == p * m, "input partitions times consumers");
    let ctx = consumer_ctx(0, 1);
    let (start, back) = (nd::pick(0, p * m - 1), nd::bool());
    let mut k = 0; let mut streams = Vec::new();
    while k < p * m { let q = if back { (start + p * m - k) % (p * m) } else { (start + k) % (p * m) }; streams.push((q, plan.execute(q, Arc::clone(&ctx)).unwrap())); k += 1; }
    for (q, mut s) in streams { let t = tags(&mut s); assert!(t.len() == 1 && t[0] == 100 + q % p, "a virtual partition carries its input partition"); }
    let mut j = 0; while j < p { assert!(executed(0, j) == 1, "executed once"); j += 1; }
    let extra = nd::pick(0, p * m - 1);
    assert!(plan.execute(extra, ctx).is_err(), "more consumers than declared are refused"); nd::cover("one too many");
}
