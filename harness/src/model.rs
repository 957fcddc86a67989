//! Reference model: logical table states, schemas, value generation and conversion.
use std::{collections::BTreeMap, sync::Arc};

use arrow_array::{
    Array, ArrayRef, BooleanArray, Int32Array, Int64Array, RecordBatch, StringArray, UInt64Array,
    cast::AsArray, types as at,
};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use tonbo::verif::report::Rng;
use typed_arrow_dyn::{DynCell, DynRow};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cell {
    B(bool),
    I(i64),
    U(u64),
    S(String),
}
pub type K = Vec<Cell>;

/// Non-key columns of a row. `v` is unique per write so a read names its writer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Row {
    pub v: i64,
    pub s: Option<String>,
    pub g: Option<i32>,
}
pub type State = BTreeMap<K, Row>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Utf8,
    I64,
    I32,
    U64,
    Utf8I64,
    I64Utf8,
}
pub const KINDS: [Kind; 6] =
    [Kind::Utf8, Kind::I64, Kind::I32, Kind::U64, Kind::Utf8I64, Kind::I64Utf8];

impl Kind {
    pub fn cols(self) -> Vec<(&'static str, DataType)> {
        match self {
            Kind::Utf8 => vec![("id", DataType::Utf8)],
            Kind::I64 => vec![("id", DataType::Int64)],
            Kind::I32 => vec![("id", DataType::Int32)],
            Kind::U64 => vec![("id", DataType::UInt64)],
            Kind::Utf8I64 => vec![("a", DataType::Utf8), ("b", DataType::Int64)],
            Kind::I64Utf8 => vec![("a", DataType::Int64), ("b", DataType::Utf8)],
        }
    }
    pub fn key_names(self) -> Vec<String> {
        self.cols().iter().map(|c| c.0.to_string()).collect()
    }
    pub fn schema(self) -> SchemaRef {
        let mut f: Vec<Field> =
            self.cols().into_iter().map(|(n, t)| Field::new(n, t, false)).collect();
        f.push(Field::new("v", DataType::Int64, false));
        f.push(Field::new("s", DataType::Utf8, true));
        f.push(Field::new("g", DataType::Int32, true));
        Arc::new(Schema::new(f))
    }
    /// The `i`-th key of this kind's pool; the pool holds ordering-hostile values.
    pub fn key(self, i: usize) -> K {
        const STR: [&str; 24] = [
            "", "a", "aa", "ab", "b", "\u{0}", "a\u{0}", "a\u{0}b", "Z", "z", "é", "\u{10ffff}",
            "k1", "k10", "k2", "k02", "long-key-long-key-long-key-long-key-long-key-long-key-long-key-0000000001",
            "long-key-long-key-long-key-long-key-long-key-long-key-long-key-0000000002", "m", "mm",
            "~", " ", "0", "00",
        ];
        const INT: [i64; 16] = [
            0, 1, -1, i64::MIN, i64::MAX, 2, -2, 10, 255, 256, -256, 65536, i64::MIN + 1,
            i64::MAX - 1, 9, 100,
        ];
        let s = |i: usize| {
            let base = STR[i % STR.len()];
            if i < STR.len() { base.to_string() } else { format!("{base}#{:04}", i / STR.len()) }
        };
        let n = |i: usize| {
            if i < INT.len() { INT[i] } else { (i as i64) * if i % 2 == 0 { 37 } else { -41 } }
        };
        match self {
            Kind::Utf8 => vec![Cell::S(s(i))],
            Kind::I64 => vec![Cell::I(n(i))],
            Kind::I32 => {
                const I: [i64; 8] = [0, 1, -1, i32::MIN as i64, i32::MAX as i64, 7, -7, 256];
                vec![Cell::I(if i < 8 { I[i] } else { (i as i64) * if i % 2 == 0 { 11 } else { -13 } })]
            }
            Kind::U64 => {
                const U: [u64; 6] = [0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 2];
                vec![Cell::U(if i < 6 { U[i] } else { i as u64 * 17 })]
            }
            Kind::Utf8I64 => vec![Cell::S(s(i % 5)), Cell::I(n(i / 5))],
            Kind::I64Utf8 => vec![Cell::I(n(i % 5)), Cell::S(s(i / 5))],
        }
    }
    pub fn dyn_row(self, k: &K, r: &Row) -> DynRow {
        let mut out: Vec<Option<DynCell>> = self.dyn_key(k).into_iter().map(Some).collect();
        out.push(Some(DynCell::I64(r.v)));
        out.push(r.s.clone().map(DynCell::Str));
        out.push(r.g.map(DynCell::I32));
        DynRow(out)
    }
    pub fn dyn_key(self, k: &K) -> Vec<DynCell> {
        k.iter()
            .zip(self.cols())
            .map(|(c, (_, t))| match (c, t) {
                (Cell::S(s), _) => DynCell::Str(s.clone()),
                (Cell::I(i), DataType::Int32) => DynCell::I32(*i as i32),
                (Cell::I(i), _) => DynCell::I64(*i),
                (Cell::U(u), _) => DynCell::U64(*u),
                (Cell::B(b), _) => DynCell::Bool(*b),
            })
            .collect()
    }
    pub fn batch(self, rows: &[(K, Row)]) -> RecordBatch {
        let mut cols: Vec<ArrayRef> = Vec::new();
        for (i, (_, t)) in self.cols().into_iter().enumerate() {
            cols.push(match t {
                DataType::Utf8 => Arc::new(StringArray::from_iter_values(rows.iter().map(|(k, _)| {
                    match &k[i] {
                        Cell::S(s) => s.clone(),
                        _ => unreachable!(),
                    }
                }))),
                DataType::Int64 => Arc::new(Int64Array::from_iter_values(rows.iter().map(
                    |(k, _)| match &k[i] {
                        Cell::I(v) => *v,
                        _ => unreachable!(),
                    },
                ))),
                DataType::Int32 => Arc::new(Int32Array::from_iter_values(rows.iter().map(
                    |(k, _)| match &k[i] {
                        Cell::I(v) => *v as i32,
                        _ => unreachable!(),
                    },
                ))),
                DataType::UInt64 => Arc::new(UInt64Array::from_iter_values(rows.iter().map(
                    |(k, _)| match &k[i] {
                        Cell::U(v) => *v,
                        _ => unreachable!(),
                    },
                ))),
                _ => unreachable!(),
            });
        }
        cols.push(Arc::new(Int64Array::from_iter_values(rows.iter().map(|r| r.1.v))));
        cols.push(Arc::new(StringArray::from_iter(rows.iter().map(|r| r.1.s.clone()))));
        cols.push(Arc::new(Int32Array::from_iter(rows.iter().map(|r| r.1.g))));
        RecordBatch::try_new(self.schema(), cols).expect("model batch")
    }
}

pub fn cell_at(col: &ArrayRef, i: usize) -> Option<Cell> {
    if col.is_null(i) {
        return None;
    }
    Some(match col.data_type() {
        DataType::Utf8 => Cell::S(col.as_string::<i32>().value(i).to_string()),
        DataType::Int64 => Cell::I(col.as_primitive::<at::Int64Type>().value(i)),
        DataType::Int32 => Cell::I(col.as_primitive::<at::Int32Type>().value(i) as i64),
        DataType::UInt64 => Cell::U(col.as_primitive::<at::UInt64Type>().value(i)),
        DataType::Boolean => {
            Cell::B(col.as_any().downcast_ref::<BooleanArray>().expect("bool").value(i))
        }
        other => panic!("unexpected column type {other}"),
    })
}

/// Decode scan output into rows of (column name -> cell) in output order.
pub fn decode(batches: &[RecordBatch]) -> Vec<Vec<(String, Option<Cell>)>> {
    let mut out = Vec::new();
    for b in batches {
        let schema = b.schema();
        for i in 0..b.num_rows() {
            out.push(
                schema
                    .fields()
                    .iter()
                    .enumerate()
                    .map(|(c, f)| (f.name().clone(), cell_at(b.column(c), i)))
                    .collect(),
            );
        }
    }
    out
}

/// Full-row reference encoding of one logical row.
pub fn encode(kind: Kind, k: &K, r: &Row) -> Vec<(String, Option<Cell>)> {
    let mut out: Vec<(String, Option<Cell>)> =
        kind.key_names().into_iter().zip(k.iter().cloned().map(Some)).collect();
    out.push(("v".into(), Some(Cell::I(r.v))));
    out.push(("s".into(), r.s.clone().map(Cell::S)));
    out.push(("g".into(), r.g.map(|g| Cell::I(g as i64))));
    out
}

pub fn encode_state(kind: Kind, st: &State) -> Vec<Vec<(String, Option<Cell>)>> {
    st.iter().map(|(k, r)| encode(kind, k, r)).collect()
}

pub fn gen_row(rng: &mut Rng, next_v: &mut i64) -> Row {
    *next_v += 1;
    Row {
        v: *next_v,
        s: match rng.below(5) {
            0 => None,
            1 => Some(String::new()),
            2 => Some("x".repeat(rng.idx(200))),
            _ => Some(format!("s{}", rng.below(6))),
        },
        g: if rng.chance(1, 4) { None } else { Some(rng.range(-3, 3) as i32) },
    }
}

pub fn short(rows: &[Vec<(String, Option<Cell>)>]) -> String {
    let mut s = String::new();
    for r in rows.iter().take(12) {
        s.push_str(&format!(
            "[{}] ",
            r.iter()
                .map(|(n, c)| format!("{n}={}", match c {
                    None => "null".to_string(),
                    Some(Cell::S(x)) if x.len() > 12 => format!("{:?}..", &x.chars().take(8).collect::<String>()),
                    Some(Cell::S(x)) => format!("{x:?}"),
                    Some(Cell::I(x)) => x.to_string(),
                    Some(Cell::U(x)) => x.to_string(),
                    Some(Cell::B(x)) => x.to_string(),
                }))
                .collect::<Vec<_>>()
                .join(",")
        ));
    }
    if rows.len() > 12 {
        s.push_str(&format!("... {} rows", rows.len()));
    }
    s
}

/// First difference between expected and observed rows.
pub fn diff(
    want: &[Vec<(String, Option<Cell>)>],
    got: &[Vec<(String, Option<Cell>)>],
) -> Option<String> {
    if want == got {
        return None;
    }
    let missing: Vec<_> = want.iter().filter(|r| !got.contains(r)).cloned().collect();
    let extra: Vec<_> = got.iter().filter(|r| !want.contains(r)).cloned().collect();
    Some(if missing.is_empty() && extra.is_empty() {
        format!("same rows, different order or multiplicity: want {} got {}", short(want), short(got))
    } else {
        format!(
            "want {} rows, got {}; missing: {} | unexpected: {}",
            want.len(),
            got.len(),
            short(&missing),
            short(&extra)
        )
    })
}
