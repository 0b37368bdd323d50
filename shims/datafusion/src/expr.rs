use std::collections::HashMap;
use std::fmt::{self, Display};
use std::sync::Arc;
use arrow::datatypes::*;
use crate::error::{DataFusionError, Result};
use crate::misc::table_ref::OwnedTableReference;
use crate::scalar::ScalarValue;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column { pub relation: Option<OwnedTableReference>, pub name: String }
impl Column {
    pub fn new(r: Option<impl Into<OwnedTableReference>>, name: impl Into<String>) -> Self { Self { relation: r.map(Into::into), name: name.into() } }
    pub fn from_name(name: impl Into<String>) -> Self { Self { relation: None, name: name.into() } }
    pub fn new_unqualified(name: impl Into<String>) -> Self { Self::from_name(name) }
    pub fn from_qualified_name(s: impl Into<String>) -> Self {
        let s = s.into();
        match s.rsplit_once('.') { Some((r, n)) => Self { relation: Some(OwnedTableReference::from(r.to_string())), name: n.to_string() }, None => Self::from_name(s) }
    }
    pub fn flat_name(&self) -> String { match &self.relation { Some(r) => format!("{r}.{}", self.name), None => self.name.clone() } }
}
impl Display for Column { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.flat_name()) } }
impl From<&str> for Column { fn from(s: &str) -> Self { Self::from_qualified_name(s) } }
impl From<String> for Column { fn from(s: String) -> Self { Self::from_qualified_name(s) } }

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct DFField { qualifier: Option<OwnedTableReference>, field: FieldRef }
impl DFField {
    pub fn from_qualified<'a>(q: impl Into<crate::misc::table_ref::TableReference<'a>>, f: impl Into<FieldRef>) -> Self { Self { qualifier: Some(q.into().to_owned_reference()), field: f.into() } }
    pub fn name(&self) -> &String { self.field.name() }
    pub fn field(&self) -> &FieldRef { &self.field }
    pub fn data_type(&self) -> &DataType { self.field.data_type() }
    pub fn qualifier(&self) -> Option<&OwnedTableReference> { self.qualifier.as_ref() }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFSchema { fields: Vec<DFField>, metadata: HashMap<String, String> }
pub type DFSchemaRef = Arc<DFSchema>;
impl DFSchema {
    pub fn empty() -> Self { Self { fields: vec![], metadata: HashMap::new() } }
    pub fn new_with_metadata(fields: Vec<DFField>, metadata: HashMap<String, String>) -> Result<Self> {
        let mut seen = std::collections::HashSet::new();
        for f in &fields { if !seen.insert((f.qualifier.clone(), f.name().clone())) { return Err(DataFusionError::Plan(format!("Schema contains duplicate qualified field name {}", f.name()))); } }
        Ok(Self { fields, metadata })
    }
    pub fn fields(&self) -> &Vec<DFField> { &self.fields }
    pub fn index_of_column(&self, c: &Column) -> Result<usize> {
        self.fields.iter().position(|f| f.name() == &c.name && (c.relation.is_none() || f.qualifier == c.relation))
            .ok_or_else(|| DataFusionError::SchemaError(crate::error::SchemaError::FieldNotFound { field: c.flat_name() }))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Operator {
    Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom,
    RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight, BitwiseShiftLeft, StringConcat,
}
impl Operator {
    pub fn swap(self) -> Option<Operator> {
        Some(match self { Self::Eq => Self::Eq, Self::NotEq => Self::NotEq, Self::Lt => Self::Gt, Self::LtEq => Self::GtEq, Self::Gt => Self::Lt, Self::GtEq => Self::LtEq, _ => return None })
    }
}
impl Display for Operator {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self { Self::Eq => "=", Self::NotEq => "!=", Self::Lt => "<", Self::LtEq => "<=", Self::Gt => ">", Self::GtEq => ">=", Self::Plus => "+", Self::Minus => "-",
            Self::Multiply => "*", Self::Divide => "/", Self::Modulo => "%", Self::And => "AND", Self::Or => "OR", Self::RegexMatch => "~", Self::RegexIMatch => "~*", Self::RegexNotMatch => "!~",
            Self::RegexNotIMatch => "!~*", Self::IsDistinctFrom => "IS DISTINCT FROM", Self::IsNotDistinctFrom => "IS NOT DISTINCT FROM", Self::BitwiseAnd => "&", Self::BitwiseOr => "|",
            Self::BitwiseXor => "BIT_XOR", Self::BitwiseShiftRight => ">>", Self::BitwiseShiftLeft => "<<", Self::StringConcat => "||" })
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct BinaryExpr { pub left: Box<Expr>, pub op: Operator, pub right: Box<Expr> }
impl BinaryExpr { pub fn new(left: Box<Expr>, op: Operator, right: Box<Expr>) -> Self { Self { left, op, right } } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Like { pub negated: bool, pub expr: Box<Expr>, pub pattern: Box<Expr>, pub escape_char: Option<char> }
impl Like { pub fn new(negated: bool, expr: Box<Expr>, pattern: Box<Expr>, escape_char: Option<char>) -> Self { Self { negated, expr, pattern, escape_char } } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Between { pub expr: Box<Expr>, pub negated: bool, pub low: Box<Expr>, pub high: Box<Expr> }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct InList { pub expr: Box<Expr>, pub list: Vec<Expr>, pub negated: bool }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Cast { pub expr: Box<Expr>, pub data_type: DataType }
impl Cast { pub fn new(expr: Box<Expr>, data_type: DataType) -> Self { Self { expr, data_type } } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct TryCast { pub expr: Box<Expr>, pub data_type: DataType }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Alias { pub expr: Box<Expr>, pub name: String }
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct ScalarFunction { pub fun: String, pub args: Vec<Expr> }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Expr {
    Alias(Box<Expr>, String), Column(Column), ScalarVariable(DataType, Vec<String>), Literal(ScalarValue), BinaryExpr(BinaryExpr), Like(Like), ILike(Like), SimilarTo(Like),
    Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>), IsUnknown(Box<Expr>), IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>),
    Negative(Box<Expr>), Between(Between), InList(InList), Cast(Cast), TryCast(TryCast), ScalarFunction(ScalarFunction), Wildcard,
}
impl Expr {
    pub fn children(&self) -> Vec<&Expr> {
        match self {
            Expr::Alias(e, _) | Expr::Not(e) | Expr::IsNotNull(e) | Expr::IsNull(e) | Expr::IsTrue(e) | Expr::IsFalse(e) | Expr::IsUnknown(e) | Expr::IsNotTrue(e) | Expr::IsNotFalse(e) | Expr::IsNotUnknown(e) | Expr::Negative(e) => vec![e],
            Expr::Cast(c) => vec![&c.expr], Expr::TryCast(c) => vec![&c.expr],
            Expr::BinaryExpr(b) => vec![&b.left, &b.right],
            Expr::Like(l) | Expr::ILike(l) | Expr::SimilarTo(l) => vec![&l.expr, &l.pattern],
            Expr::Between(b) => vec![&b.expr, &b.low, &b.high],
            Expr::InList(i) => std::iter::once(i.expr.as_ref()).chain(i.list.iter()).collect(),
            Expr::ScalarFunction(s) => s.args.iter().collect(),
            Expr::Column(_) | Expr::Literal(_) | Expr::ScalarVariable(..) | Expr::Wildcard => vec![],
        }
    }
    pub fn eq(self, o: Expr) -> Expr { binary_expr(self, Operator::Eq, o) }
    pub fn not_eq(self, o: Expr) -> Expr { binary_expr(self, Operator::NotEq, o) }
    pub fn gt(self, o: Expr) -> Expr { binary_expr(self, Operator::Gt, o) }
    pub fn gt_eq(self, o: Expr) -> Expr { binary_expr(self, Operator::GtEq, o) }
    pub fn lt(self, o: Expr) -> Expr { binary_expr(self, Operator::Lt, o) }
    pub fn lt_eq(self, o: Expr) -> Expr { binary_expr(self, Operator::LtEq, o) }
    pub fn and(self, o: Expr) -> Expr { binary_expr(self, Operator::And, o) }
    pub fn or(self, o: Expr) -> Expr { binary_expr(self, Operator::Or, o) }
}
impl Display for Expr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self { Expr::Column(c) => write!(f, "{c}"), Expr::Literal(v) => write!(f, "{v:?}"), Expr::BinaryExpr(b) => write!(f, "{} {} {}", b.left, b.op, b.right), o => write!(f, "{o:?}") } } }
pub fn binary_expr(l: Expr, op: Operator, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r))) }
pub mod expr_fn {
    use super::*;
    pub use super::binary_expr;
    pub fn col(s: impl Into<Column>) -> Expr { Expr::Column(s.into()) }
    pub fn and(l: Expr, r: Expr) -> Expr { binary_expr(l, Operator::And, r) }
    pub fn or(l: Expr, r: Expr) -> Expr { binary_expr(l, Operator::Or, r) }
    pub fn in_list(expr: Expr, list: Vec<Expr>, negated: bool) -> Expr { Expr::InList(InList { expr: Box::new(expr), list, negated }) }
    pub fn random() -> Expr { Expr::ScalarFunction(ScalarFunction { fun: "random".into(), args: vec![] }) }
    pub trait Literal { fn lit(&self) -> Expr; }
    impl<T: Clone + Into<ScalarValue>> Literal for T { fn lit(&self) -> Expr { Expr::Literal(self.clone().into()) } }
    pub fn lit<T: Literal>(t: T) -> Expr { t.lit() }
}
pub use expr_fn::{and, col, in_list, lit, or};

pub mod tree {
    use crate::error::Result;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum VisitRecursion { Continue, Skip, Stop }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum RewriteRecursion { Continue, Mutate, Stop, Skip }
    pub trait TreeNodeVisitor: Sized { type N: TreeNode;
        fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>;
        fn post_visit(&mut self, _node: &Self::N) -> Result<VisitRecursion> { Ok(VisitRecursion::Continue) } }
    pub trait TreeNodeRewriter: Sized { type N: TreeNode;
        fn pre_visit(&mut self, _node: &Self::N) -> Result<RewriteRecursion> { Ok(RewriteRecursion::Continue) }
        fn mutate(&mut self, node: Self::N) -> Result<Self::N>; }
    pub trait TreeNode: Sized + Clone {
        fn kids(&self) -> Vec<Self>;
        fn with_kids(self, kids: Vec<Self>) -> Result<Self>;
        fn visit<V: TreeNodeVisitor<N = Self>>(&self, v: &mut V) -> Result<VisitRecursion> {
            match v.pre_visit(self)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            for k in self.kids() {
                match k.visit(v)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) }
            }
            v.post_visit(self)
        }
        fn rewrite<R: TreeNodeRewriter<N = Self>>(self, r: &mut R) -> Result<Self> {
            let need = match r.pre_visit(&self)? { RewriteRecursion::Mutate => return r.mutate(self), RewriteRecursion::Stop => return Ok(self), RewriteRecursion::Continue => true, RewriteRecursion::Skip => false };
            let kids = self.kids();
            let me = if kids.is_empty() { self } else { let k = kids.into_iter().map(|k| k.rewrite(r)).collect::<Result<Vec<_>>>()?; self.with_kids(k)? };
            if need { r.mutate(me) } else { Ok(me) }
        }
    }
    impl TreeNode for super::Expr {
        fn kids(&self) -> Vec<Self> { self.children().into_iter().cloned().collect() }
        fn with_kids(self, _k: Vec<Self>) -> Result<Self> { unimplemented!("logical rewrite") }
    }
    impl TreeNode for std::sync::Arc<dyn crate::physical::PhysicalExpr> {
        fn kids(&self) -> Vec<Self> { self.children() }
        fn with_kids(self, k: Vec<Self>) -> Result<Self> { self.with_new_children(k) }
    }
}
