// Typed values with an independent reference order, and their Arrow / dynamic forms.
use std::{cmp::Ordering, sync::Arc};

use arrow_array::{
    Array, ArrayRef, BinaryArray, BooleanArray, FixedSizeBinaryArray, Float32Array, Float64Array,
    Int32Array, Int64Array, LargeBinaryArray, LargeStringArray, RecordBatch, StringArray,
    UInt32Array, UInt64Array,
};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::DynCell;

use crate::verif::report::{Report, Rng};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    I32,
    I64,
    U32,
    U64,
    F32,
    F64,
    Utf8,
    LUtf8,
    Bin,
    LBin,
    FBin,
}
pub const ALL: [Ty; 12] = [
    Ty::Bool, Ty::I32, Ty::I64, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Utf8, Ty::LUtf8, Ty::Bin,
    Ty::LBin, Ty::FBin,
];
/// Types whose rows `row_from_batch` materialises.
pub const ROWABLE: [Ty; 9] =
    [Ty::Bool, Ty::I32, Ty::I64, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Utf8, Ty::Bin];

#[derive(Clone, Debug)]
pub enum Val {
    B(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    Y(Vec<u8>),
}

impl Val {
    pub fn rank(&self, o: &Val) -> Ordering {
        match (self, o) {
            (Val::B(a), Val::B(b)) => a.cmp(b),
            (Val::I(a), Val::I(b)) => a.cmp(b),
            (Val::U(a), Val::U(b)) => a.cmp(b),
            (Val::F(a), Val::F(b)) => match (a.is_nan(), b.is_nan()) {
                (true, true) => Ordering::Equal,
                (true, false) => Ordering::Greater,
                (false, true) => Ordering::Less,
                _ => a.partial_cmp(b).unwrap(),
            },
            (Val::S(a), Val::S(b)) => a.as_bytes().cmp(b.as_bytes()),
            (Val::Y(a), Val::Y(b)) => a.cmp(b),
            _ => panic!("mixed value types"),
        }
    }
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::F(a), Val::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => self.rank(o) == Ordering::Equal,
        }
    }
}

/// A key of the reference model; ordered by the column values.
#[derive(Clone, Debug)]
pub struct MKey(pub Vec<Val>);
impl PartialEq for MKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for MKey {}
impl PartialOrd for MKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for MKey {
    fn cmp(&self, o: &Self) -> Ordering {
        for (a, b) in self.0.iter().zip(&o.0) {
            let c = a.rank(b);
            if c != Ordering::Equal {
                return c;
            }
        }
        self.0.len().cmp(&o.0.len())
    }
}

impl Ty {
    pub fn data_type(self) -> DataType {
        match self {
            Ty::Bool => DataType::Boolean,
            Ty::I32 => DataType::Int32,
            Ty::I64 => DataType::Int64,
            Ty::U32 => DataType::UInt32,
            Ty::U64 => DataType::UInt64,
            Ty::F32 => DataType::Float32,
            Ty::F64 => DataType::Float64,
            Ty::Utf8 => DataType::Utf8,
            Ty::LUtf8 => DataType::LargeUtf8,
            Ty::Bin => DataType::Binary,
            Ty::LBin => DataType::LargeBinary,
            Ty::FBin => DataType::FixedSizeBinary(3),
        }
    }
    pub fn gen_val(self, rng: &mut Rng) -> Val {
        const I: [i64; 14] = [
            0, 1, -1, 2, -2, 9, 10, 11, 255, 256, i32::MAX as i64, i32::MIN as i64, 100, -100,
        ];
        match self {
            Ty::Bool => Val::B(rng.chance(1, 2)),
            Ty::I32 => Val::I(*rng.pick(&I)),
            Ty::I64 => Val::I(if rng.chance(1, 4) {
                *rng.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, 1 << 32, -(1 << 32)])
            } else {
                *rng.pick(&I)
            }),
            Ty::U32 => Val::U(*rng.pick(&[0, 1, 2, 10, 255, 256, u32::MAX as u64, 1 << 31, (1 << 31) - 1])),
            Ty::U64 => Val::U(*rng.pick(&[
                0, 1, 2, 10, 255, 256, u64::MAX, 1 << 63, (1 << 63) - 1, u32::MAX as u64, 1 << 32,
            ])),
            Ty::F32 if rng.chance(1, 8) => Val::F(f32::from_bits(0x3f80_0000 | (rng.next() as u32 & 0x000f_ffff)) as f64),
            Ty::F64 if rng.chance(1, 8) => Val::F(f64::from_bits(0x3ff0_0000_0000_0000 | (rng.next() >> 12)) * 1e17),
            Ty::F32 => Val::F(*rng.pick(&[
                0.0f64, -0.0, 1.0, -1.0, 1.5, f32::MAX as f64, f32::MIN as f64,
                f32::MIN_POSITIVE as f64, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.25, 2.0,
            ])),
            Ty::F64 => Val::F(*rng.pick(&[
                0.0, -0.0, 1.0, -1.0, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY,
                f64::NEG_INFINITY, f64::NAN, 1e-300, 2.0, -1e300,
            ])),
            Ty::Utf8 | Ty::LUtf8 => Val::S(
                rng.pick(&[
                    "", "a", "aa", "ab", "b", "\u{0}", "a\u{0}", "a\u{0}b", "Z", "z", "é", "\u{10ffff}",
                    "k1", "k10", "k2", "k02", "\u{7f}", "\u{80}", "\u{d7ff}", "\u{e000}",
                    "prefix-prefix-prefix-prefix-prefix-1", "prefix-prefix-prefix-prefix-prefix-2",
                    "prefix-prefix-prefix-prefix-prefix-", "12345678", "123456789",
                ])
                .to_string(),
            ),
            Ty::Bin | Ty::LBin => {
                let n = rng.idx(6);
                Val::Y((0..n).map(|_| *rng.pick(&[0u8, 1, 127, 128, 255])).collect())
            }
            Ty::FBin => Val::Y((0..3).map(|_| *rng.pick(&[0u8, 1, 127, 128, 255])).collect()),
        }
    }
    pub fn cell(self, v: &Val) -> DynCell {
        match (self, v) {
            (Ty::Bool, Val::B(b)) => DynCell::Bool(*b),
            (Ty::I32, Val::I(i)) => DynCell::I32(*i as i32),
            (Ty::I64, Val::I(i)) => DynCell::I64(*i),
            (Ty::U32, Val::U(u)) => DynCell::U32(*u as u32),
            (Ty::U64, Val::U(u)) => DynCell::U64(*u),
            (Ty::F32, Val::F(f)) => DynCell::F32(*f as f32),
            (Ty::F64, Val::F(f)) => DynCell::F64(*f),
            (_, Val::S(s)) => DynCell::Str(s.clone()),
            (_, Val::Y(b)) => DynCell::Bin(b.clone()),
            _ => panic!("value does not fit the type"),
        }
    }
    pub fn from_cell(self, c: &DynCell) -> Option<Val> {
        Some(match (self, c) {
            (Ty::Bool, DynCell::Bool(b)) => Val::B(*b),
            (Ty::I32, DynCell::I32(i)) => Val::I(*i as i64),
            (Ty::I64, DynCell::I64(i)) => Val::I(*i),
            (Ty::U32, DynCell::U32(u)) => Val::U(*u as u64),
            (Ty::U64, DynCell::U64(u)) => Val::U(*u),
            (Ty::F32, DynCell::F32(f)) => Val::F(*f as f64),
            (Ty::F64, DynCell::F64(f)) => Val::F(*f),
            (Ty::Utf8 | Ty::LUtf8, DynCell::Str(s)) => Val::S(s.clone()),
            (Ty::Bin | Ty::LBin | Ty::FBin, DynCell::Bin(b)) => Val::Y(b.clone()),
            _ => return None,
        })
    }
    pub fn array(self, vals: &[Option<Val>]) -> ArrayRef {
        macro_rules! col {
            ($arr:ty, $pat:pat => $e:expr) => {
                Arc::new(
                    vals.iter()
                        .map(|v| v.as_ref().map(|v| match v { $pat => $e, _ => panic!("type") }))
                        .collect::<$arr>(),
                ) as ArrayRef
            };
        }
        match self {
            Ty::Bool => col!(BooleanArray, Val::B(b) => *b),
            Ty::I32 => col!(Int32Array, Val::I(i) => *i as i32),
            Ty::I64 => col!(Int64Array, Val::I(i) => *i),
            Ty::U32 => col!(UInt32Array, Val::U(i) => *i as u32),
            Ty::U64 => col!(UInt64Array, Val::U(i) => *i),
            Ty::F32 => col!(Float32Array, Val::F(i) => *i as f32),
            Ty::F64 => col!(Float64Array, Val::F(i) => *i),
            Ty::Utf8 => col!(StringArray, Val::S(s) => s.clone()),
            Ty::LUtf8 => col!(LargeStringArray, Val::S(s) => s.clone()),
            Ty::Bin => col!(BinaryArray, Val::Y(s) => s.clone()),
            Ty::LBin => col!(LargeBinaryArray, Val::Y(s) => s.clone()),
            Ty::FBin => Arc::new(
                FixedSizeBinaryArray::try_from_sparse_iter_with_size(
                    vals.iter().map(|v| v.as_ref().map(|v| match v { Val::Y(b) => b.clone(), _ => panic!("type") })),
                    3,
                )
                .expect("fixed"),
            ),
        }
    }
}

/// Read one column value back, independently of the code under test.
pub fn read(ty: Ty, a: &ArrayRef, i: usize) -> Option<Val> {
    use arrow_array::cast::AsArray;
    use arrow_array::types as t;
    if a.is_null(i) {
        return None;
    }
    Some(match ty {
        Ty::Bool => Val::B(a.as_boolean().value(i)),
        Ty::I32 => Val::I(a.as_primitive::<t::Int32Type>().value(i) as i64),
        Ty::I64 => Val::I(a.as_primitive::<t::Int64Type>().value(i)),
        Ty::U32 => Val::U(a.as_primitive::<t::UInt32Type>().value(i) as u64),
        Ty::U64 => Val::U(a.as_primitive::<t::UInt64Type>().value(i)),
        Ty::F32 => Val::F(a.as_primitive::<t::Float32Type>().value(i) as f64),
        Ty::F64 => Val::F(a.as_primitive::<t::Float64Type>().value(i)),
        Ty::Utf8 => Val::S(a.as_string::<i32>().value(i).to_string()),
        Ty::LUtf8 => Val::S(a.as_string::<i64>().value(i).to_string()),
        Ty::Bin => Val::Y(a.as_binary::<i32>().value(i).to_vec()),
        Ty::LBin => Val::Y(a.as_binary::<i64>().value(i).to_vec()),
        Ty::FBin => Val::Y(a.as_fixed_size_binary().value(i).to_vec()),
    })
}

/// A table layout: column types, nullability and key positions (in key order).
#[derive(Clone, Debug)]
pub struct Layout {
    pub cols: Vec<(String, Ty, bool)>,
    pub keys: Vec<usize>,
}

impl Layout {
    pub fn random(rng: &mut Rng, tys: &[Ty], max_key: usize) -> Layout {
        let nk = 1 + rng.idx(max_key);
        let nv = 1 + rng.idx(3);
        let mut cols: Vec<(String, Ty, bool)> = Vec::new();
        let mut is_key: Vec<bool> = (0..nk).map(|_| true).chain((0..nv).map(|_| false)).collect();
        rng.shuffle(&mut is_key);
        for (i, k) in is_key.iter().enumerate() {
            // A key column may be declared nullable; its values still may not be null.
            cols.push((format!("c{i}"), *rng.pick(tys), if *k { rng.chance(1, 4) } else { rng.chance(2, 3) }));
        }
        let mut keys: Vec<usize> = (0..cols.len()).filter(|i| is_key[*i]).collect();
        rng.shuffle(&mut keys);
        Layout { cols, keys }
    }
    pub fn schema(&self) -> SchemaRef {
        Arc::new(Schema::new(
            self.cols.iter().map(|(n, t, null)| Field::new(n, t.data_type(), *null)).collect::<Vec<_>>(),
        ))
    }
    pub fn gen_row(&self, rng: &mut Rng) -> Vec<Option<Val>> {
        self.cols
            .iter()
            .enumerate()
            .map(|(i, (_, t, null))| if *null && !self.keys.contains(&i) && rng.chance(1, 3) { None } else { Some(t.gen_val(rng)) })
            .collect()
    }
    pub fn key_of(&self, row: &[Option<Val>]) -> MKey {
        MKey(self.keys.iter().map(|i| row[*i].clone().expect("key value")).collect())
    }
    pub fn key_tys(&self) -> Vec<Ty> {
        self.keys.iter().map(|i| self.cols[*i].1).collect()
    }
    pub fn batch(&self, rows: &[Vec<Option<Val>>]) -> RecordBatch {
        let cols = self
            .cols
            .iter()
            .enumerate()
            .map(|(i, (_, t, _))| t.array(&rows.iter().map(|r| r[i].clone()).collect::<Vec<_>>()))
            .collect();
        RecordBatch::try_new_with_options(
            self.schema(),
            cols,
            &arrow_array::RecordBatchOptions::new().with_row_count(Some(rows.len())),
        )
        .expect("batch")
    }
    /// Batch holding `rows` as an offset slice of a larger one, so views start mid-buffer.
    pub fn sliced_batch(&self, rng: &mut Rng, rows: &[Vec<Option<Val>>]) -> RecordBatch {
        let pre = rng.idx(3);
        let post = rng.idx(3);
        let mut all: Vec<Vec<Option<Val>>> = (0..pre).map(|_| self.gen_row(rng)).collect();
        all.extend(rows.iter().cloned());
        all.extend((0..post).map(|_| self.gen_row(rng)));
        self.batch(&all).slice(pre, rows.len())
    }
    pub fn key_cells(&self, k: &MKey) -> Vec<DynCell> {
        k.0.iter().zip(self.key_tys()).map(|(v, t)| t.cell(v)).collect()
    }
    pub fn owned_key(&self, k: &MKey) -> crate::key::KeyOwned {
        crate::verif::keys_pub::key_from_cells(self.key_cells(k))
    }
    pub fn key_back(&self, k: &crate::key::KeyOwned) -> Option<MKey> {
        let cells = k.as_row().cells();
        if cells.len() != self.keys.len() {
            return None;
        }
        let mut out = Vec::new();
        for (c, t) in cells.iter().zip(self.key_tys()) {
            out.push(t.from_cell(c.as_ref()?)?);
        }
        Some(MKey(out))
    }
}

pub fn rows_same(a: &[Option<Val>], b: &[Option<Val>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => x.same(y),
            _ => false,
        })
}
