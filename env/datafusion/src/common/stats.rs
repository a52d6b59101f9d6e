//! Precision / Statistics with DataFusion 55's arithmetic.
use std::fmt::{self, Debug};
use super::ScalarValue;
use crate::arrow::datatypes::Schema;
#[derive(Clone, PartialEq, Eq, Default, Copy)]
pub enum Precision<T: Debug + Clone + PartialEq + Eq + PartialOrd> { Exact(T), Inexact(T), #[default] Absent }
impl<T: Debug + Clone + PartialEq + Eq + PartialOrd> Debug for Precision<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Precision") } }
impl<T: Debug + Clone + PartialEq + Eq + PartialOrd> fmt::Display for Precision<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Precision") } }
impl<T: Debug + Clone + PartialEq + Eq + PartialOrd> Precision<T> {
    pub fn get_value(&self) -> Option<&T> { match self { Precision::Exact(v) | Precision::Inexact(v) => Some(v), Precision::Absent => None } }
    pub fn map<U, F>(self, f: F) -> Precision<U> where F: Fn(T) -> U, U: Debug + Clone + PartialEq + Eq + PartialOrd {
        match self { Precision::Exact(v) => Precision::Exact(f(v)), Precision::Inexact(v) => Precision::Inexact(f(v)), _ => Precision::Absent }
    }
    pub fn is_exact(&self) -> Option<bool> { match self { Precision::Exact(_) => Some(true), Precision::Inexact(_) => Some(false), _ => None } }
    pub fn to_inexact(self) -> Self { match self { Precision::Exact(v) => Precision::Inexact(v), _ => self } }
    pub fn max(&self, o: &Precision<T>) -> Precision<T> {
        match (self, o) {
            (Precision::Exact(a), Precision::Exact(b)) => Precision::Exact(if a >= b { a.clone() } else { b.clone() }),
            (Precision::Inexact(a), Precision::Exact(b)) | (Precision::Exact(a), Precision::Inexact(b)) | (Precision::Inexact(a), Precision::Inexact(b)) => Precision::Inexact(if a >= b { a.clone() } else { b.clone() }),
            (_, _) => Precision::Absent,
        }
    }
    pub fn min(&self, o: &Precision<T>) -> Precision<T> {
        match (self, o) {
            (Precision::Exact(a), Precision::Exact(b)) => Precision::Exact(if a >= b { b.clone() } else { a.clone() }),
            (Precision::Inexact(a), Precision::Exact(b)) | (Precision::Exact(a), Precision::Inexact(b)) | (Precision::Inexact(a), Precision::Inexact(b)) => Precision::Inexact(if a >= b { b.clone() } else { a.clone() }),
            (_, _) => Precision::Absent,
        }
    }
}
impl<T: Debug + Clone + PartialEq + Eq + PartialOrd> From<Option<T>> for Precision<T> { fn from(o: Option<T>) -> Self { match o { Some(v) => Precision::Exact(v), None => Precision::Absent } } }
impl Precision<usize> {
    pub fn add(&self, o: &Precision<usize>) -> Precision<usize> {
        match (self, o) {
            (Precision::Exact(a), Precision::Exact(b)) => a.checked_add(*b).map_or_else(|| Precision::Inexact(a.saturating_add(*b)), Precision::Exact),
            (Precision::Inexact(a), Precision::Exact(b)) | (Precision::Exact(a), Precision::Inexact(b)) | (Precision::Inexact(a), Precision::Inexact(b)) => Precision::Inexact(a.saturating_add(*b)),
            (_, _) => Precision::Absent,
        }
    }
    pub fn sub(&self, o: &Precision<usize>) -> Precision<usize> {
        match (self, o) {
            (Precision::Exact(a), Precision::Exact(b)) => a.checked_sub(*b).map_or_else(|| Precision::Inexact(a.saturating_sub(*b)), Precision::Exact),
            (Precision::Inexact(a), Precision::Exact(b)) | (Precision::Exact(a), Precision::Inexact(b)) | (Precision::Inexact(a), Precision::Inexact(b)) => Precision::Inexact(a.saturating_sub(*b)),
            (_, _) => Precision::Absent,
        }
    }
    pub fn multiply(&self, o: &Precision<usize>) -> Precision<usize> {
        match (self, o) {
            (Precision::Exact(a), Precision::Exact(b)) => a.checked_mul(*b).map_or_else(|| Precision::Inexact(a.saturating_mul(*b)), Precision::Exact),
            (Precision::Inexact(a), Precision::Exact(b)) | (Precision::Exact(a), Precision::Inexact(b)) | (Precision::Inexact(a), Precision::Inexact(b)) => Precision::Inexact(a.saturating_mul(*b)),
            (_, _) => Precision::Absent,
        }
    }
    pub fn with_estimated_selectivity(self, s: f64) -> Self { if self == Precision::Exact(0) { return self; } self.map(|v| ((v as f64 * s).ceil()) as usize).to_inexact() }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Statistics { pub num_rows: Precision<usize>, pub total_byte_size: Precision<usize>, pub column_statistics: Vec<ColumnStatistics> }
impl Default for Statistics { fn default() -> Self { Self { num_rows: Precision::Absent, total_byte_size: Precision::Absent, column_statistics: vec![] } } }
impl Statistics {
    pub fn new_unknown(schema: &Schema) -> Self { Self { num_rows: Precision::Absent, total_byte_size: Precision::Absent, column_statistics: Self::unknown_column(schema) } }
    pub fn unknown_column(schema: &Schema) -> Vec<ColumnStatistics> { schema.fields().iter().map(|_| ColumnStatistics::new_unknown()).collect() }
    pub fn to_inexact(self) -> Self { Self { num_rows: self.num_rows.to_inexact(), total_byte_size: self.total_byte_size.to_inexact(), column_statistics: self.column_statistics } }
    pub fn with_num_rows(mut self, n: Precision<usize>) -> Self { self.num_rows = n; self }
    pub fn with_total_byte_size(mut self, n: Precision<usize>) -> Self { self.total_byte_size = n; self }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ColumnStatistics {
    pub null_count: Precision<usize>, pub max_value: Precision<ScalarValue>, pub min_value: Precision<ScalarValue>,
    pub sum_value: Precision<ScalarValue>, pub distinct_count: Precision<usize>, pub byte_size: Precision<usize>,
}
impl ColumnStatistics { pub fn new_unknown() -> Self { Self::default() } }
