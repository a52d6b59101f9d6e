use std::sync::Arc;
#[derive(Debug, Clone, Default)]
pub struct ScalarUDF; 
#[derive(Debug, Clone, Default)]
pub struct AggregateUDF;
#[derive(Debug, Clone, Default)]
pub struct WindowUDF;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or,
  IsDistinctFrom, IsNotDistinctFrom, RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, LikeMatch, ILikeMatch,
  NotLikeMatch, NotILikeMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight, BitwiseShiftLeft, StringConcat,
  AtArrow, ArrowAt }
#[derive(Debug, Clone)]
pub enum LogicalPlan { EmptyRelation(()), Explain(()), Analyze(()), Other }
impl LogicalPlan { pub fn schema(&self) -> () {} }
