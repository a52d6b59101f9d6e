//! What the plan nodes compute, over rows that are one-row batches tagged `id << 8 | key`. Hash
//! partitioning, grouping and joins go by the key, sorting by the whole tag.
use super::*; use crate::common::JoinType; use super::nodes::AggregateMode; use std::cell::UnsafeCell; use std::collections::VecDeque; use std::pin::Pin; use std::task::{Context, Poll, Waker}; use futures::Stream;
type S = SendableRecordBatchStream; type Rows = Vec<RecordBatch>;
/// Ids that have outgrown their bits are folded.
fn fold(id: u64, bits: u32) -> u64 { if id >> bits == 0 { id } else { id.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - bits) } }
/// Row with a column `n` added.
fn mark(tag: u64, n: u64) -> u64 { (fold(tag >> 8, 32) | n << 32) << 8 | tag & 0xff }
pub fn key(b: &RecordBatch) -> u64 { b.tag & 0xff }
pub fn row(schema: &SchemaRef, tag: u64) -> RecordBatch { RecordBatch::model(Arc::clone(schema), 1, 8, tag) }
/// Reads every input to its end, then emits `f` of them.
pub struct Block { pub schema: SchemaRef, pub ins: Vec<Option<S>>, pub got: Vec<Rows>, pub f: Option<Box<dyn FnOnce(Vec<Rows>) -> Result<Rows> + Send>>, pub out: VecDeque<RecordBatch> }
impl Block { pub fn new(schema: SchemaRef, ins: Vec<S>, f: impl FnOnce(Vec<Rows>) -> Result<Rows> + Send + 'static) -> S { let mut got = Vec::new(); let mut v = Vec::new(); for s in ins { got.push(Vec::new()); v.push(Some(s)); } Box::pin(Block { schema, ins: v, got, f: Some(Box::new(f)), out: VecDeque::new() }) } }
impl Stream for Block { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let t = &mut *self;
    if t.f.is_some() {
        let (mut i, mut pending) = (0, false);
        while i < t.ins.len() {
            while let Some(s) = t.ins[i].as_mut() { match s.as_mut().poll_next(cx) { Poll::Ready(Some(Ok(b))) => t.got[i].push(b), Poll::Ready(Some(Err(e))) => { t.ins.clear(); t.f = None; return Poll::Ready(Some(Err(e))); } Poll::Ready(None) => t.ins[i] = None, Poll::Pending => { pending = true; break; } } }
            i += 1;
        }
        if pending { return Poll::Pending; }
        let f = t.f.take().unwrap(); match f(std::mem::take(&mut t.got)) { Ok(v) => for b in v { t.out.push_back(b); }, Err(e) => return Poll::Ready(Some(Err(e))) }
    }
    Poll::Ready(t.out.pop_front().map(Ok))
} }
impl RecordBatchStream for Block { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
/// First `skip` rows dropped, at most `n` of the others kept; the input is dropped once that is reached.
pub struct Limit { pub schema: SchemaRef, pub s: Option<S>, pub skip: usize, pub n: usize }
impl Limit { pub fn new(schema: SchemaRef, s: S, skip: usize, n: Option<usize>) -> S { match n { None if skip == 0 => s, _ => Box::pin(Limit { schema, s: Some(s), skip, n: n.unwrap_or(usize::MAX) }) } } }
impl Stream for Limit { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let t = &mut *self;
    loop {
        if t.n == 0 { t.s = None; }
        let Some(s) = t.s.as_mut() else { return Poll::Ready(None) };
        match s.as_mut().poll_next(cx) { Poll::Ready(Some(Ok(b))) => { if t.skip > 0 { t.skip -= 1; continue; } t.n -= 1; if t.n == 0 { t.s = None; } return Poll::Ready(Some(Ok(b))); } Poll::Ready(Some(Err(e))) => { t.s = None; return Poll::Ready(Some(Err(e))); } Poll::Ready(None) => { t.s = None; return Poll::Ready(None); } Poll::Pending => return Poll::Pending }
    }
} }
impl RecordBatchStream for Limit { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
/// Pairs with their sides exchanged.
pub struct Swap(pub S);
impl Stream for Swap { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { match self.0.as_mut().poll_next(cx) { Poll::Ready(Some(Ok(mut b))) => { let (k, v) = (b.tag & 0xff, b.tag >> 8); b.tag = ((v & 0xff_ffff) << 24 | v >> 24) << 8 | k; Poll::Ready(Some(Ok(b))) } o => o } } }
impl RecordBatchStream for Swap { fn schema(&self) -> SchemaRef { self.0.schema() } }
pub fn all(input: &Arc<dyn ExecutionPlan>, c: &Arc<TaskContext>) -> Result<Vec<S>> { let n = input.output_partitioning().partition_count(); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(input.execute(i, Arc::clone(c))?); i += 1; } Ok(v) }
pub fn sorted(mut v: Rows) -> Rows { let mut i = 1; while i < v.len() { let mut j = i; while j > 0 && v[j].tag < v[j - 1].tag { v.swap(j, j - 1); j -= 1; } i += 1; } v }
/// Merge of inputs that are taken to be sorted (an input that is not shows in the output).
pub fn merge(ins: Vec<Rows>) -> Rows {
    let mut q: Vec<VecDeque<RecordBatch>> = ins.into_iter().map(VecDeque::from).collect(); let mut o = Vec::new();
    loop { let mut best = None; let mut i = 0; while i < q.len() { if let Some(b) = q[i].front() { match best { None => best = Some((i, b.tag)), Some((_, t)) if b.tag < t => best = Some((i, b.tag)), _ => {} } } i += 1; } match best { Some((i, _)) => o.push(q[i].pop_front().unwrap()), None => return o } }
}
/// One row per grouping set, its key the number of the set and, if the set keeps it, the key.
pub fn expand(sets: Option<Vec<bool>>, ins: Rows) -> Rows { let Some(sets) = sets else { return ins }; let mut o = Vec::new(); for b in ins { let mut i = 0; while i < sets.len() { let mut r = b.clone(); r.tag = (b.tag & !0xff) | (i as u64 + 1) << 4 | if sets[i] { b.tag & 0xf } else { 0 }; o.push(r); i += 1; } } o }
/// Rows per key: `count << 8 | key`. Partial results are marked; they are no rows, nor rows them.
const STATE: u64 = 1 << 60;
pub fn aggregate(mode: AggregateMode, grouped: bool, ins: Rows, schema: &SchemaRef) -> Result<Rows> {
    let raw = matches!(mode, AggregateMode::Partial | AggregateMode::Single | AggregateMode::SinglePartitioned);
    let mut g: Vec<(u64, u64)> = Vec::new();
    if !grouped { g.push((0, 0)); }
    let partial = matches!(mode, AggregateMode::Partial | AggregateMode::PartialReduce);
    for b in ins { if raw == (b.tag & STATE > 0) { return crate::internal_err!("states and rows are different"); } let (k, n) = (if grouped { key(&b) } else { 0 }, if raw { 1 } else { (b.tag & !STATE) >> 8 }); let mut i = 0; while i < g.len() && g[i].0 != k { i += 1; } if i < g.len() { g[i].1 += n; } else { g.push((k, n)); } }
    Ok(g.into_iter().map(|(k, n)| row(schema, n << 8 | k | if partial { STATE } else { 0 })).collect())
}
/// Each row with the number of rows of its key in the partition.
pub fn window(ins: Rows) -> Rows { let mut o = Vec::new(); for b in &ins { let mut n = 0; for x in &ins { if key(x) == key(b) { n += 1; } } let mut r = b.clone(); r.tag = mark(b.tag, n); o.push(r); } o }

/// Build side of a join: rows, which of them matched, probe streams still running.
pub struct Build { s: Option<Vec<Option<S>>>, rows: Rows, matched: Vec<bool>, err: Option<Arc<DataFusionError>>, probes: usize, w: Vec<Waker> }
#[derive(Clone)] pub struct BuildRef(Arc<UnsafeCell<Build>>); unsafe impl Send for BuildRef {} unsafe impl Sync for BuildRef {}
impl BuildRef { pub fn new(s: Vec<S>, probes: usize) -> Self { BuildRef(Arc::new(UnsafeCell::new(Build { s: Some(s.into_iter().map(Some).collect()), rows: Vec::new(), matched: Vec::new(), err: None, probes, w: Vec::new() }))) } fn get(&self) -> &mut Build { unsafe { &mut *self.0.get() } } }
/// Shared build side of a `CollectLeft` join (or of any other join that reads its left input once).
#[derive(Default)] pub struct JoinCell(UnsafeCell<Option<BuildRef>>); unsafe impl Send for JoinCell {} unsafe impl Sync for JoinCell {}
impl std::fmt::Debug for JoinCell { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("JoinCell") } }
impl Clone for JoinCell { fn clone(&self) -> Self { Self::default() } }
impl JoinCell { pub fn get(&self, mk: impl FnOnce() -> Result<BuildRef>) -> Result<BuildRef> { let s = unsafe { &mut *self.0.get() }; if s.is_none() { *s = Some(mk()?); } Ok(s.as_ref().unwrap().clone()) } }
pub struct Join { schema: SchemaRef, b: BuildRef, right: Option<S>, t: JoinType, cross: bool, out: VecDeque<RecordBatch>, done: bool }
impl Join { pub fn new(schema: SchemaRef, b: BuildRef, right: S, t: JoinType, cross: bool) -> S { Box::pin(Join { schema, b, right: Some(right), t, cross, out: VecDeque::new(), done: false }) }
    fn pair(&self, l: u64, r: u64) -> u64 { let k = if l != 0 { l & 0xff } else { r & 0xff }; (fold(l >> 8, 24) << 24 | fold(r >> 8, 24)) << 8 | k } }
impl Drop for Join { fn drop(&mut self) { let b = self.b.get(); while let Some(w) = b.w.pop() { w.wake(); } } }
impl Stream for Join { type Item = Result<RecordBatch>; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let b = self.b.clone(); let b = b.get(); let t = &mut *self;
    if t.done { return Poll::Ready(None); }
    if let Some(ins) = b.s.as_mut() {
        let (mut i, mut pending) = (0, false);
        while i < ins.len() && b.err.is_none() { while let Some(s) = ins[i].as_mut() { match s.as_mut().poll_next(cx) { Poll::Ready(Some(Ok(x))) => { b.rows.push(x); b.matched.push(false); } Poll::Ready(Some(Err(e))) => { b.err = Some(Arc::new(e)); break; } Poll::Ready(None) => ins[i] = None, Poll::Pending => { pending = true; break; } } } i += 1; }
        if pending && b.err.is_none() { b.w.push(cx.waker().clone()); return Poll::Pending; }
        b.s = None; while let Some(w) = b.w.pop() { w.wake(); }
    }
    if let Some(e) = &b.err { t.done = true; t.right = None; return Poll::Ready(Some(Err(DataFusionError::Shared(Arc::clone(e))))); }
    loop {
        if let Some(x) = t.out.pop_front() { return Poll::Ready(Some(Ok(x))); }
        let Some(r) = t.right.as_mut() else { t.done = true; return Poll::Ready(None) };
        match r.as_mut().poll_next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Some(Err(e))) => { t.done = true; t.right = None; return Poll::Ready(Some(Err(e))); }
            Poll::Ready(Some(Ok(x))) => {
                let mut any = false; let mut i = 0;
                while i < b.rows.len() { if t.cross || key(&b.rows[i]) == key(&x) { any = true; b.matched[i] = true; if matches!(t.t, JoinType::Inner | JoinType::Left | JoinType::Right | JoinType::Full) { let v = t.pair(b.rows[i].tag, x.tag); t.out.push_back(row(&t.schema, v)); } } i += 1; }
                match t.t { JoinType::Right | JoinType::Full if !any => { let v = t.pair(0, x.tag); t.out.push_back(row(&t.schema, v)) } JoinType::RightSemi if any => t.out.push_back(x), JoinType::RightAnti if !any => t.out.push_back(x), JoinType::RightMark => t.out.push_back(row(&t.schema, mark(x.tag, any as u64))), _ => {} }
            }
            Poll::Ready(None) => {
                t.right = None; b.probes -= 1;
                // the last probe knows which build rows matched nothing
                if b.probes == 0 { let mut i = 0; while i < b.rows.len() { let (l, m) = (b.rows[i].tag, b.matched[i]); match t.t { JoinType::Left | JoinType::Full if !m => { let v = t.pair(l, 0); t.out.push_back(row(&t.schema, v)) } JoinType::LeftSemi if m => t.out.push_back(row(&t.schema, l)), JoinType::LeftAnti if !m => t.out.push_back(row(&t.schema, l)), JoinType::LeftMark => t.out.push_back(row(&t.schema, mark(l, m as u64))), _ => {} } i += 1; } }
            }
        }
    }
} }
impl RecordBatchStream for Join { fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } }
/// Left input read whole once per node, right input by partition.
pub fn collect_left(cell: &JoinCell, schema: SchemaRef, left: &Arc<dyn ExecutionPlan>, right: &Arc<dyn ExecutionPlan>, t: JoinType, cross: bool, p: usize, c: Arc<TaskContext>) -> Result<S> {
    let n = right.output_partitioning().partition_count();
    if left.output_partitioning().partition_count() != 1 || p >= n { return crate::internal_err!("invalid partitions of a join"); }
    let b = cell.get(|| Ok(BuildRef::new(vec![left.execute(0, Arc::clone(&c))?], n)))?;
    Ok(Join::new(schema, b, right.execute(p, c)?, t, cross))
}
/// Partition `p` of both sides.
pub fn partitioned(schema: SchemaRef, left: &Arc<dyn ExecutionPlan>, right: &Arc<dyn ExecutionPlan>, t: JoinType, p: usize, c: Arc<TaskContext>) -> Result<S> {
    let n = right.output_partitioning().partition_count();
    if left.output_partitioning().partition_count() != n || p >= n { return crate::internal_err!("invalid partitions of a join"); }
    let b = BuildRef::new(vec![left.execute(p, Arc::clone(&c))?], 1);
    Ok(Join::new(schema, b, right.execute(p, c)?, t, false))
}
