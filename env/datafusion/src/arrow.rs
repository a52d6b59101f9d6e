use std::sync::Arc;
pub mod error { pub use crate::error::ArrowError; pub type Result<T> = std::result::Result<T, ArrowError>; }
pub mod record_batch { pub use super::array::{RecordBatch, RecordBatchOptions}; }
pub mod util { pub mod pretty {} }
pub mod ipc { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum CompressionType { LZ4_FRAME, ZSTD } }
pub mod datatypes {
    use std::sync::Arc;
    pub type SchemaRef = Arc<Schema>; pub type FieldRef = Arc<Field>;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum IntervalUnit { YearMonth, DayTime, MonthDayNano }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum UnionMode { Sparse, Dense }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct UnionFields(pub Vec<(i8, FieldRef)>);
    impl UnionFields { pub fn iter(&self) -> impl Iterator<Item = (i8, &FieldRef)> { self.0.iter().map(|e| (e.0, &e.1)) } pub fn len(&self) -> usize { self.0.len() } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct Fields(pub Vec<FieldRef>);
    impl std::ops::Deref for Fields { type Target = [FieldRef]; fn deref(&self) -> &[FieldRef] { &self.0 } }
    impl Fields { pub fn empty() -> Self { Fields(vec![]) } }
    impl<'a> IntoIterator for &'a Fields { type Item = &'a FieldRef; type IntoIter = std::slice::Iter<'a, FieldRef>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl From<Vec<Field>> for Fields { fn from(v: Vec<Field>) -> Self { Fields(v.into_iter().map(Arc::new).collect()) } }
    impl From<Vec<FieldRef>> for Fields { fn from(v: Vec<FieldRef>) -> Self { Fields(v) } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum DataType { Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64,
        Timestamp(TimeUnit, Option<Arc<str>>), Date32, Date64, Time32(TimeUnit), Time64(TimeUnit), Duration(TimeUnit), Interval(IntervalUnit),
        Binary, FixedSizeBinary(i32), LargeBinary, BinaryView, Utf8, LargeUtf8, Utf8View, List(FieldRef), ListView(FieldRef),
        FixedSizeList(FieldRef, i32), LargeList(FieldRef), LargeListView(FieldRef), Struct(Fields), Union(UnionFields, UnionMode),
        Dictionary(Box<DataType>, Box<DataType>), Decimal32(u8, i8), Decimal64(u8, i8), Decimal128(u8, i8), Decimal256(u8, i8), Map(FieldRef, bool), RunEndEncoded(FieldRef, FieldRef) }
    impl std::fmt::Display for DataType { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("DataType") } }
    impl DataType {
        pub fn primitive_width(&self) -> Option<usize> { use DataType::*; match self { Int8 | UInt8 => Some(1), Int16 | UInt16 | Float16 => Some(2),
            Int32 | UInt32 | Float32 | Date32 | Time32(_) | Decimal32(_, _) => Some(4), Int64 | UInt64 | Float64 | Date64 | Time64(_) | Timestamp(_, _) | Duration(_) | Decimal64(_, _) => Some(8),
            Interval(IntervalUnit::YearMonth) => Some(4), Interval(IntervalUnit::DayTime) => Some(8), Interval(IntervalUnit::MonthDayNano) => Some(16), Decimal128(_, _) => Some(16), Decimal256(_, _) => Some(32), _ => None } }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Field { pub name: String, pub data_type: DataType, pub nullable: bool }
    impl Field { pub fn new(n: impl Into<String>, d: DataType, nullable: bool) -> Self { Self { name: n.into(), data_type: d, nullable } }
        pub fn name(&self) -> &String { &self.name } pub fn data_type(&self) -> &DataType { &self.data_type } pub fn is_nullable(&self) -> bool { self.nullable } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)] pub struct Schema { pub fields: Fields }
    impl Schema { pub fn new(f: impl Into<Fields>) -> Self { Self { fields: f.into() } } pub fn empty() -> Self { Self { fields: Fields(Vec::new()) } }
        pub fn fields(&self) -> &Fields { &self.fields } pub fn field(&self, i: usize) -> &Field { &self.fields.0[i] } }
}
pub mod buffer { pub struct NullBuffer; }
pub mod array {
    use std::sync::Arc; use super::datatypes::*; use crate::error::ArrowError; use std::any::Any;
    pub type ArrayRef = Arc<dyn Array>;
    pub struct ArrayData(pub usize);
    impl ArrayData { pub fn get_slice_memory_size(&self) -> Result<usize, ArrowError> { Ok(self.0) } }
    /// Column model: a length, a byte size, a null count and (optionally) the values.
    pub trait Array: Send + Sync + std::fmt::Debug + 'static {
        fn as_any(&self) -> &dyn Any; fn len(&self) -> usize; fn is_empty(&self) -> bool { self.len() == 0 }
        fn null_count(&self) -> usize { 0 } fn is_null(&self, _: usize) -> bool { false } fn is_valid(&self, i: usize) -> bool { !self.is_null(i) }
        fn data_type(&self) -> &DataType { &DataType::UInt64 }
        fn get_array_memory_size(&self) -> usize { self.bytes() } fn to_data(&self) -> ArrayData { ArrayData(self.bytes()) }
        fn bytes(&self) -> usize; fn value_at(&self, i: usize) -> Option<u64>; fn nulls(&self) -> Option<&super::buffer::NullBuffer> { None }
        fn logical_null_count(&self) -> usize { self.null_count() }
        fn slice(&self, _o: usize, _l: usize) -> ArrayRef { unimplemented!() }
    }
    impl Array for ArrayRef { fn as_any(&self) -> &dyn Any { (**self).as_any() } fn len(&self) -> usize { (**self).len() } fn bytes(&self) -> usize { (**self).bytes() } fn value_at(&self, i: usize) -> Option<u64> { (**self).value_at(i) } fn null_count(&self) -> usize { (**self).null_count() } fn data_type(&self) -> &DataType { (**self).data_type() } }
    #[derive(Debug, Clone)] pub struct ModelArray { pub len: usize, pub bytes: usize, pub nulls: usize }
    impl Array for ModelArray { fn as_any(&self) -> &dyn Any { self } fn len(&self) -> usize { self.len } fn bytes(&self) -> usize { self.bytes } fn null_count(&self) -> usize { self.nulls } fn value_at(&self, i: usize) -> Option<u64> { Some(i as u64) } }
    #[derive(Debug, Clone)] pub struct StringArray;
    impl Array for StringArray { fn as_any(&self) -> &dyn Any { self } fn len(&self) -> usize { 0 } fn bytes(&self) -> usize { 0 } fn value_at(&self, _: usize) -> Option<u64> { None } }
    #[derive(Debug, Default)] pub struct StringBuilder { n: usize }
    impl StringBuilder { pub fn new() -> Self { Self::default() } pub fn with_capacity(_: usize, _: usize) -> Self { Self::default() } pub fn append_value(&mut self, _: impl AsRef<str>) { self.n += 1 } pub fn finish(&mut self) -> StringArray { StringArray } }
    pub trait AsArray {}
    #[derive(Debug, Default, Clone)] pub struct RecordBatchOptions { pub row_count: Option<usize> }
    impl RecordBatchOptions { pub fn new() -> Self { Self::default() } pub fn with_row_count(mut self, r: Option<usize>) -> Self { self.row_count = r; self } }
    /// Batch model. `tag` identifies the batch so that harnesses can track which one was delivered.
    #[derive(Debug, Clone)]
    pub struct RecordBatch { pub schema: SchemaRef, pub columns: Vec<ArrayRef>, pub rows: usize, pub bytes: usize, pub tag: u64 }
    impl PartialEq for RecordBatch { fn eq(&self, o: &Self) -> bool { self.tag == o.tag && self.rows == o.rows } }
    impl RecordBatch {
        pub fn model(schema: SchemaRef, rows: usize, bytes: usize, tag: u64) -> Self { let mut columns: Vec<ArrayRef> = Vec::new(); while columns.len() < schema.fields().len() { columns.push(Arc::new(ModelArray { len: rows, bytes, nulls: 0 })); } Self { schema, columns, rows, bytes, tag } }
        pub fn new_empty(schema: SchemaRef) -> Self { Self::model(schema, 0, 0, 0) }
        pub fn try_new(schema: SchemaRef, columns: Vec<ArrayRef>) -> Result<Self, ArrowError> { let rows = columns.first().map(|c| c.len()).unwrap_or(0); Ok(Self { schema, columns, rows, bytes: 0, tag: 0 }) }
        pub fn try_new_with_options(schema: SchemaRef, columns: Vec<ArrayRef>, o: &RecordBatchOptions) -> Result<Self, ArrowError> { let rows = o.row_count.or(columns.first().map(|c| c.len())).unwrap_or(0); Ok(Self { schema, columns, rows, bytes: 0, tag: 0 }) }
        pub fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) } pub fn schema_ref(&self) -> &SchemaRef { &self.schema } pub fn num_rows(&self) -> usize { self.rows } pub fn num_columns(&self) -> usize { self.columns.len() }
        pub fn columns(&self) -> &[ArrayRef] { &self.columns } pub fn column(&self, i: usize) -> &ArrayRef { &self.columns[i] }
        pub fn get_array_memory_size(&self) -> usize { self.bytes }
        pub fn slice(&self, _o: usize, l: usize) -> Self { let mut s = self.clone(); s.rows = l; s }
    }
}
