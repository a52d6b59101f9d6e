//! Environment model of datafusion-proto. Extension nodes are encoded by the codecs under test;
//! schemas and partitionings keep only what the codecs of this repository read back.
#![allow(unused, clippy::all)]
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef}; use datafusion::error::{DataFusionError, Result};
use datafusion::execution::TaskContext; use datafusion::physical_expr::{Partitioning, PhysicalExpr, expressions::Column}; use datafusion::physical_plan::ExecutionPlan; use std::sync::Arc;
pub mod protobuf {
    use super::*;
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct Schema { #[prost(uint64, tag = "1")] pub columns: u64 }
    #[derive(Clone, PartialEq, ::prost::Message)] pub struct Partitioning { #[prost(uint64, tag = "1")] pub kind: u64, #[prost(uint64, tag = "2")] pub count: u64, #[prost(uint64, repeated, tag = "3")] pub cols: Vec<u64> }
    #[track_caller] pub fn proto_error<S: Into<String>>(_m: S) -> DataFusionError { #[cfg(not(symex))] { let l = std::panic::Location::caller(); let m = _m.into(); datafusion::error::note(&|| m.clone(), l.file(), l.line()); } DataFusionError::Internal(String::new()) }
    impl TryFrom<SchemaRef> for Schema { type Error = DataFusionError; fn try_from(s: SchemaRef) -> Result<Self> { Ok(Self { columns: s.fields().len() as u64 }) } }
    impl TryFrom<&Schema> for super::Schema { type Error = DataFusionError; fn try_from(s: &Schema) -> Result<Self> { let mut v = Vec::new(); for _ in 0..s.columns { v.push(Field::new("c", DataType::UInt64, true)); } Ok(super::Schema::new(v)) } }
}
pub mod physical_plan {
    use super::*;
    pub trait PhysicalProtoConverterExtension {}
    #[derive(Default, Debug)] pub struct DeduplicatingProtoConverter; impl PhysicalProtoConverterExtension for DeduplicatingProtoConverter {}
    pub trait PhysicalExtensionCodec: std::fmt::Debug + Send + Sync {
        fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], ctx: &TaskContext, p: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>>;
        fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, p: &dyn PhysicalProtoConverterExtension) -> Result<()>;
    }
    #[derive(Debug)] pub struct ComposedPhysicalExtensionCodec { codecs: Vec<Arc<dyn PhysicalExtensionCodec>> }
    impl ComposedPhysicalExtensionCodec { pub fn new(codecs: Vec<Arc<dyn PhysicalExtensionCodec>>) -> Self { Self { codecs } } }
    impl PhysicalExtensionCodec for ComposedPhysicalExtensionCodec {
        fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], ctx: &TaskContext, p: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> { let (pos, rest) = buf.split_first().ok_or_else(|| protobuf::proto_error(""))?; self.codecs.get(*pos as usize).ok_or_else(|| protobuf::proto_error(""))?.try_decode(rest, inputs, ctx, p) }
        fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, p: &dyn PhysicalProtoConverterExtension) -> Result<()> { let mut i = 0; for c in self.codecs.iter() { let mut b = Vec::new(); if c.try_encode(Arc::clone(&node), &mut b, p).is_ok() { buf.push(i); buf.extend(b); return Ok(()); } i += 1; } Err(protobuf::proto_error("")) }
    }
    pub struct PhysicalPlanDecodeContext<'a>(&'a TaskContext); impl<'a> PhysicalPlanDecodeContext<'a> { pub fn new(c: &'a TaskContext, _: &'a dyn PhysicalExtensionCodec) -> Self { Self(c) } }
    pub mod from_proto { use super::*;
        pub fn parse_protobuf_partitioning(p: Option<&protobuf::Partitioning>, _: &PhysicalPlanDecodeContext<'_>, _s: &Schema, _: &dyn PhysicalProtoConverterExtension) -> Result<Option<Partitioning>> {
            let Some(p) = p else { return Ok(None) }; let n = p.count as usize;
            Ok(Some(match p.kind { 1 => Partitioning::RoundRobinBatch(n), 2 => Partitioning::Hash(p.cols.iter().map(|c| Arc::new(Column::new("", *c as usize)) as Arc<dyn PhysicalExpr>).collect(), n), 3 => Partitioning::UnknownPartitioning(n), _ => return Ok(None) }))
        } }
    pub mod to_proto { use super::*;
        pub fn serialize_partitioning(p: &Partitioning, _: &dyn PhysicalExtensionCodec, _: &dyn PhysicalProtoConverterExtension) -> Result<protobuf::Partitioning> {
            Ok(match p { Partitioning::RoundRobinBatch(n) => protobuf::Partitioning { kind: 1, count: *n as u64, cols: vec![] }, Partitioning::Hash(e, n) => protobuf::Partitioning { kind: 2, count: *n as u64, cols: e.iter().map(|e| e.downcast_ref::<Column>().map(|c| c.index() as u64).unwrap_or(0)).collect() }, Partitioning::UnknownPartitioning(n) => protobuf::Partitioning { kind: 3, count: *n as u64, cols: vec![] }, Partitioning::Range(_) => return Err(protobuf::proto_error("")) })
        } }
}
pub mod bytes {
    use super::*; use physical_plan::*;
    /// Nodes of DataFusion itself are kept aside and referred to by number; decoding gives a new node of
    /// the same kind over the decoded children. Every other node is encoded by the codecs under test.
    static mut NODES: Vec<Arc<dyn ExecutionPlan>> = Vec::new();
    fn nodes() -> &'static mut Vec<Arc<dyn ExecutionPlan>> { unsafe { &mut *std::ptr::addr_of_mut!(NODES) } }
    fn put(b: &mut Vec<u8>, n: usize) { b.push(n as u8); b.push((n >> 8) as u8); }
    fn encode(plan: &Arc<dyn ExecutionPlan>, codec: &dyn PhysicalExtensionCodec, c: &dyn PhysicalProtoConverterExtension, b: &mut Vec<u8>) -> Result<()> {
        if plan.model_builtin() { nodes().push(Arc::clone(plan)); b.push(0); put(b, nodes().len() - 1); } else { let mut e = Vec::new(); codec.try_encode(Arc::clone(plan), &mut e, c)?; b.push(1); put(b, e.len()); b.extend_from_slice(&e); }
        let ch = plan.children(); put(b, ch.len()); for p in ch { encode(p, codec, c, b)?; } Ok(())
    }
    fn decode(b: &[u8], i: &mut usize, ctx: &TaskContext, codec: &dyn PhysicalExtensionCodec, c: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        if b.len() < *i + 5 { return Err(protobuf::proto_error("")); }
        let kind = b[*i]; let n = b[*i + 1] as usize | (b[*i + 2] as usize) << 8; *i += 3;
        let at = *i; if kind == 1 { *i += n; }
        let k = b[*i] as usize | (b[*i + 1] as usize) << 8; *i += 2;
        let mut ch = Vec::new(); while ch.len() < k { ch.push(decode(b, i, ctx, codec, c)?); }
        if kind == 1 { codec.try_decode(&b[at..at + n], &ch, ctx, c) } else { Arc::clone(&nodes()[n]).with_new_children(ch) }
    }
    pub fn physical_plan_to_bytes_with_proto_converter(plan: Arc<dyn ExecutionPlan>, codec: &dyn PhysicalExtensionCodec, c: &dyn PhysicalProtoConverterExtension) -> Result<Vec<u8>> { let mut b = Vec::new(); encode(&plan, codec, c, &mut b)?; Ok(b) }
    pub fn physical_plan_from_bytes_with_proto_converter(b: &[u8], ctx: &TaskContext, codec: &dyn PhysicalExtensionCodec, c: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> { let mut i = 0; decode(b, &mut i, ctx, codec, c) }
    pub fn physical_plan_to_bytes_with_extension_codec(plan: Arc<dyn ExecutionPlan>, codec: &dyn PhysicalExtensionCodec) -> Result<Vec<u8>> { physical_plan_to_bytes_with_proto_converter(plan, codec, &DeduplicatingProtoConverter) }
    pub fn physical_plan_from_bytes_with_extension_codec(b: &[u8], ctx: &TaskContext, codec: &dyn PhysicalExtensionCodec) -> Result<Arc<dyn ExecutionPlan>> { physical_plan_from_bytes_with_proto_converter(b, ctx, codec, &DeduplicatingProtoConverter) }
}
