//! Stand-in for `aisle`: predicate IR, a sound parquet pruner (row-group
//! statistics, page statistics, bloom filters) and a row filter with SQL
//! three-valued semantics.  Pruning is conservative: a row group or page is
//! dropped only when the statistics show that no row in it can match.
use std::{cmp::Ordering, collections::HashMap};

use arrow_array::{Array, BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::{
    arrow::{
        arrow_reader::{
            statistics::StatisticsConverter, ArrowPredicate, RowSelection, RowSelector,
        },
        ProjectionMask,
    },
    bloom_filter::Sbbf,
    file::metadata::ParquetMetaData,
    schema::types::SchemaDescriptor,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

#[derive(Clone, Debug, PartialEq)]
#[non_exhaustive]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

macro_rules! cmp_ctor {
    ($($name:ident => $op:ident),*) => {$(
        pub fn $name(column: impl Into<String>, value: ScalarValue) -> Self {
            Expr::Cmp { column: column.into(), op: CmpOp::$op, value }
        }
    )*};
}

#[allow(clippy::should_implement_trait)]
impl Expr {
    cmp_ctor!(eq => Eq, not_eq => NotEq, lt => Lt, lt_eq => LtEq, gt => Gt, gt_eq => GtEq);
    pub fn between(column: impl Into<String>, low: ScalarValue, high: ScalarValue, inclusive: bool) -> Self {
        Expr::Between { column: column.into(), low, high, inclusive }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList { column: column.into(), values }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith { column: column.into(), prefix: prefix.into() }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: false }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: true }
    }
    pub fn and(children: Vec<Expr>) -> Self {
        Expr::And(children)
    }
    pub fn or(children: Vec<Expr>) -> Self {
        Expr::Or(children)
    }
    pub fn not(child: Expr) -> Self {
        Expr::Not(Box::new(child))
    }

    fn columns(&self, out: &mut Vec<String>) {
        match self {
            Expr::True | Expr::False => {}
            Expr::Cmp { column, .. }
            | Expr::Between { column, .. }
            | Expr::InList { column, .. }
            | Expr::BloomFilterEq { column, .. }
            | Expr::BloomFilterInList { column, .. }
            | Expr::StartsWith { column, .. }
            | Expr::IsNull { column, .. } => {
                if !out.contains(column) {
                    out.push(column.clone())
                }
            }
            Expr::And(c) | Expr::Or(c) => c.iter().for_each(|e| e.columns(out)),
            Expr::Not(c) => c.columns(out),
        }
    }
}

fn cmp_holds(op: CmpOp, ord: Ordering) -> bool {
    match op {
        CmpOp::Eq => ord == Ordering::Equal,
        CmpOp::NotEq => ord != Ordering::Equal,
        CmpOp::Lt => ord == Ordering::Less,
        CmpOp::LtEq => ord != Ordering::Greater,
        CmpOp::Gt => ord == Ordering::Greater,
        CmpOp::GtEq => ord != Ordering::Less,
    }
}

fn eval_cmp(lhs: &ScalarValue, op: CmpOp, rhs: &ScalarValue) -> Option<bool> {
    if lhs.is_null() || rhs.is_null() {
        return None;
    }
    lhs.partial_cmp(rhs).map(|o| cmp_holds(op, o))
}

/// SQL three-valued evaluation; `None` is UNKNOWN.
fn eval(expr: &Expr, get: &dyn Fn(&str) -> Option<ScalarValue>) -> Option<bool> {
    match expr {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value } => eval_cmp(&get(column)?, *op, value),
        Expr::Between { column, low, high, inclusive } => {
            let v = get(column)?;
            let (lo, hi) = if *inclusive { (CmpOp::GtEq, CmpOp::LtEq) } else { (CmpOp::Gt, CmpOp::Lt) };
            kleene_and(eval_cmp(&v, lo, low), eval_cmp(&v, hi, high))
        }
        Expr::InList { column, values } | Expr::BloomFilterInList { column, values } => {
            let v = get(column)?;
            let mut acc = Some(false);
            for x in values {
                acc = kleene_or(acc, eval_cmp(&v, CmpOp::Eq, x));
            }
            if v.is_null() { None } else { acc }
        }
        Expr::BloomFilterEq { column, value } => eval_cmp(&get(column)?, CmpOp::Eq, value),
        Expr::StartsWith { column, prefix } => match get(column)? {
            ScalarValue::Utf8(Some(s)) | ScalarValue::LargeUtf8(Some(s)) | ScalarValue::Utf8View(Some(s)) => {
                Some(s.starts_with(prefix.as_str()))
            }
            _ => None,
        },
        Expr::IsNull { column, negated } => {
            let null = get(column).map_or(true, |v| v.is_null());
            Some(null != *negated)
        }
        Expr::And(c) => c.iter().fold(Some(true), |a, e| kleene_and(a, eval(e, get))),
        Expr::Or(c) => c.iter().fold(Some(false), |a, e| kleene_or(a, eval(e, get))),
        Expr::Not(c) => eval(c, get).map(|b| !b),
    }
}

fn kleene_and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn kleene_or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

/// Row filter evaluated while decoding a parquet file.
pub struct RowFilter {
    expr: Expr,
    projection: ProjectionMask,
}

impl RowFilter {
    pub fn new(expr: Expr, schema: &SchemaDescriptor) -> Self {
        let mut cols = Vec::new();
        expr.columns(&mut cols);
        let roots: Vec<usize> = schema
            .root_schema()
            .get_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| cols.iter().any(|c| c == f.name()))
            .map(|(i, _)| i)
            .collect();
        let projection = ProjectionMask::roots(schema, roots);
        Self { expr, projection }
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.projection
    }
    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        let mut out = Vec::with_capacity(batch.num_rows());
        for row in 0..batch.num_rows() {
            let get = |name: &str| {
                batch
                    .column_by_name(name)
                    .and_then(|a| ScalarValue::try_from_array(a.as_ref(), row).ok())
            };
            out.push(eval(&self.expr, &get) == Some(true));
        }
        Ok(BooleanArray::from(out))
    }
}

#[allow(async_fn_in_trait)]
pub trait AsyncBloomFilterProvider {
    fn bloom_filter(
        &mut self,
        row_group_idx: usize,
        column_idx: usize,
    ) -> impl std::future::Future<Output = Option<Sbbf>>;

    fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> impl std::future::Future<Output = HashMap<(usize, usize), Sbbf>> + 'a;
}

#[derive(Debug, Clone)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    row_selection: Option<RowSelection>,
}

impl PruneResult {
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.row_selection.as_ref()
    }
}

#[derive(Debug)]
pub struct Pruner {
    schema: SchemaRef,
}

#[derive(Debug)]
pub struct PrunerError;
impl std::fmt::Display for PrunerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pruner error")
    }
}
impl std::error::Error for PrunerError {}

impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, PrunerError> {
        Ok(Self { schema })
    }

    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        predicates: &[Expr],
        provider: &mut P,
    ) -> PruneResult {
        prune(metadata, &self.schema, &Expr::And(predicates.to_vec()), true, true, provider).await
    }
}

pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
    schema: &'a Schema,
    predicate: Option<&'a Expr>,
    page_index: bool,
    bloom: bool,
}

impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self {
        Self { metadata, schema, predicate: None, page_index: false, bloom: false }
    }
    pub fn with_predicate(mut self, p: &'a Expr) -> Self {
        self.predicate = Some(p);
        self
    }
    pub fn enable_page_index(mut self, on: bool) -> Self {
        self.page_index = on;
        self
    }
    pub fn enable_bloom_filter(mut self, on: bool) -> Self {
        self.bloom = on;
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, provider: &mut P) -> PruneResult {
        let e = self.predicate.cloned().unwrap_or(Expr::True);
        prune(self.metadata, self.schema, &e, self.page_index, self.bloom, provider).await
    }
}

/// Inclusive value range of a group of rows; `None` bound = unknown.
struct Range {
    min: Option<ScalarValue>,
    max: Option<ScalarValue>,
    nulls: Option<u64>,
}

fn range_may_match(r: &Range, op: CmpOp, v: &ScalarValue) -> bool {
    if v.is_null() {
        return false;
    }
    let lt = |a: &Option<ScalarValue>, b: &ScalarValue| a.as_ref().and_then(|a| a.partial_cmp(b));
    match op {
        CmpOp::Eq => lt(&r.min, v) != Some(Ordering::Greater) && lt(&r.max, v) != Some(Ordering::Less),
        CmpOp::NotEq => true,
        CmpOp::Lt => !matches!(lt(&r.min, v), Some(Ordering::Greater | Ordering::Equal)),
        CmpOp::LtEq => lt(&r.min, v) != Some(Ordering::Greater),
        CmpOp::Gt => !matches!(lt(&r.max, v), Some(Ordering::Less | Ordering::Equal)),
        CmpOp::GtEq => lt(&r.max, v) != Some(Ordering::Less),
    }
}

/// May some row in the range satisfy the leaf?  Negations and anything unknown: yes.
fn may_match(expr: &Expr, range: &dyn Fn(&str) -> Option<Range>) -> bool {
    match expr {
        Expr::False => false,
        Expr::Cmp { column, op, value } => range(column).map_or(true, |r| range_may_match(&r, *op, value)),
        Expr::Between { column, low, high, inclusive } => {
            let (lo, hi) = if *inclusive { (CmpOp::GtEq, CmpOp::LtEq) } else { (CmpOp::Gt, CmpOp::Lt) };
            range(column).map_or(true, |r| range_may_match(&r, lo, low) && range_may_match(&r, hi, high))
        }
        Expr::InList { column, values } => range(column)
            .map_or(true, |r| values.iter().any(|v| range_may_match(&r, CmpOp::Eq, v))),
        Expr::IsNull { column, negated: false } => range(column).map_or(true, |r| r.nulls != Some(0)),
        Expr::And(c) => c.iter().all(|e| may_match(e, range)),
        Expr::Or(c) => c.iter().any(|e| may_match(e, range)),
        _ => true,
    }
}

fn scalar_at(a: &dyn Array, i: usize) -> Option<ScalarValue> {
    ScalarValue::try_from_array(a, i).ok().filter(|v| !v.is_null())
}

/// Statistics are trusted only for types without surprising orderings.
fn stats_ok(schema: &Schema, column: &str) -> bool {
    use arrow_schema::DataType::*;
    schema.field_with_name(column).is_ok_and(|f| {
        matches!(
            f.data_type(),
            Boolean | Int8 | Int16 | Int32 | Int64 | UInt8 | UInt16 | UInt32 | UInt64 | Utf8 | LargeUtf8 | Binary | LargeBinary
        )
    })
}

fn rg_range(meta: &ParquetMetaData, schema: &Schema, rg: usize, column: &str) -> Option<Range> {
    if !stats_ok(schema, column) {
        return None;
    }
    let conv = StatisticsConverter::try_new(column, schema, meta.file_metadata().schema_descr()).ok()?;
    let groups = std::iter::once(meta.row_group(rg));
    let mins = conv.row_group_mins(groups.clone()).ok()?;
    let maxes = conv.row_group_maxes(groups.clone()).ok()?;
    let nulls = conv.row_group_null_counts(groups).ok()?;
    let n = if nulls.is_null(0) { None } else { Some(nulls.value(0)) };
    Some(Range { min: scalar_at(&mins, 0), max: scalar_at(&maxes, 0), nulls: n })
}

/// Row ranges (within the row group) whose pages may match.
fn page_ranges(meta: &ParquetMetaData, schema: &Schema, rg: usize, expr: &Expr) -> Option<Vec<(usize, usize)>> {
    let total = usize::try_from(meta.row_group(rg).num_rows()).ok()?;
    match expr {
        Expr::And(c) => {
            let mut acc: Option<Vec<(usize, usize)>> = None;
            for e in c {
                if let Some(r) = page_ranges(meta, schema, rg, e) {
                    acc = Some(match acc {
                        None => r,
                        Some(a) => intersect(&a, &r),
                    });
                }
            }
            acc
        }
        Expr::Cmp { column, .. } | Expr::Between { column, .. } | Expr::InList { column, .. } => {
            if !stats_ok(schema, column) {
                return None;
            }
            let descr = meta.file_metadata().schema_descr();
            let conv = StatisticsConverter::try_new(column, schema, descr).ok()?;
            let col = conv.parquet_column_index()?;
            let ci = meta.column_index()?;
            let oi = meta.offset_index()?;
            let rgi = [rg];
            let mins = conv.data_page_mins(ci, oi, rgi.iter()).ok()?;
            let maxes = conv.data_page_maxes(ci, oi, rgi.iter()).ok()?;
            let pages = oi.get(rg)?.get(col)?.page_locations();
            if mins.len() != pages.len() || maxes.len() != pages.len() {
                return None;
            }
            let mut out = Vec::new();
            for (i, p) in pages.iter().enumerate() {
                let start = usize::try_from(p.first_row_index).ok()?;
                let end = match pages.get(i + 1) {
                    Some(n) => usize::try_from(n.first_row_index).ok()?,
                    None => total,
                };
                let get = |_: &str| {
                    Some(Range { min: scalar_at(&mins, i), max: scalar_at(&maxes, i), nulls: None })
                };
                if may_match(expr, &get) {
                    out.push((start, end));
                }
            }
            Some(out)
        }
        _ => None,
    }
}

fn intersect(a: &[(usize, usize)], b: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    for &(s, e) in a {
        for &(s2, e2) in b {
            let (x, y) = (s.max(s2), e.min(e2));
            if x < y {
                out.push((x, y));
            }
        }
    }
    out
}

/// Equality conjuncts usable with a bloom filter.
fn eq_conjuncts<'a>(expr: &'a Expr, out: &mut Vec<(&'a str, &'a ScalarValue)>) {
    match expr {
        Expr::And(c) => c.iter().for_each(|e| eq_conjuncts(e, out)),
        Expr::Cmp { column, op: CmpOp::Eq, value } => out.push((column, value)),
        _ => {}
    }
}

fn bloom_check(schema: &Schema, column: &str, f: &Sbbf, v: &ScalarValue) -> bool {
    // The probe has to use the physical representation of the column's own type.
    let Ok(field) = schema.field_with_name(column) else { return true };
    if &v.data_type() != field.data_type() {
        return true;
    }
    match v {
        ScalarValue::Int32(Some(x)) => f.check(x),
        ScalarValue::Int64(Some(x)) => f.check(x),
        ScalarValue::UInt64(Some(x)) => f.check(&(*x as i64)),
        ScalarValue::UInt32(Some(x)) => f.check(&(*x as i32)),
        ScalarValue::Utf8(Some(s)) | ScalarValue::LargeUtf8(Some(s)) => f.check(&s.as_str()),
        ScalarValue::Binary(Some(b)) | ScalarValue::LargeBinary(Some(b)) => f.check(b),
        _ => true,
    }
}

async fn prune<P: AsyncBloomFilterProvider>(
    meta: &ParquetMetaData,
    schema: &Schema,
    expr: &Expr,
    page_index: bool,
    bloom: bool,
    provider: &mut P,
) -> PruneResult {
    let mut keep: Vec<usize> = (0..meta.num_row_groups())
        .filter(|&rg| may_match(expr, &|c: &str| rg_range(meta, schema, rg, c)))
        .collect();
    if bloom && !keep.is_empty() {
        let mut eqs = Vec::new();
        eq_conjuncts(expr, &mut eqs);
        for (column, value) in eqs {
            let descr = meta.file_metadata().schema_descr();
            let Some(col) = StatisticsConverter::try_new(column, schema, descr)
                .ok()
                .and_then(|c| c.parquet_column_index())
            else {
                continue;
            };
            let reqs: Vec<(usize, usize)> = keep.iter().map(|&rg| (rg, col)).collect();
            let filters = provider.bloom_filters_batch(&reqs).await;
            keep.retain(|&rg| filters.get(&(rg, col)).map_or(true, |f| bloom_check(schema, column, f, value)));
        }
    }
    let mut row_selection = None;
    if page_index && !keep.is_empty() {
        let mut selectors: Vec<RowSelector> = Vec::new();
        let mut any = false;
        for &rg in &keep {
            let total = meta.row_group(rg).num_rows() as usize;
            match page_ranges(meta, schema, rg, expr) {
                None => selectors.push(RowSelector::select(total)),
                Some(ranges) => {
                    any = true;
                    let mut at = 0;
                    for (s, e) in ranges {
                        if s > at {
                            selectors.push(RowSelector::skip(s - at));
                        }
                        selectors.push(RowSelector::select(e - s));
                        at = e;
                    }
                    if at < total {
                        selectors.push(RowSelector::skip(total - at));
                    }
                }
            }
        }
        if any {
            row_selection = Some(RowSelection::from(selectors));
        }
    }
    PruneResult { row_groups: keep, row_selection }
}
