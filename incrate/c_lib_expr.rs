// P11/P12: key bounds derived from predicates never exclude a key that may satisfy them.
use std::{ops::Bound, sync::Arc};

use arrow_schema::{Field, Schema};

use crate::{
    query::{
        Expr, ScalarValue,
        scan::{key_bounds_for_predicate, key_range_for_predicate},
    },
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("qry_bounds", qry_bounds)];

fn plain(v: &Val) -> bool {
    // Predicate order and key order need not agree on NaN and the sign of zero.
    !matches!(v, Val::F(f) if f.is_nan() || (*f == 0.0 && f.is_sign_negative()))
}
fn val(rng: &mut Rng, t: Ty) -> Val {
    loop {
        let v = t.gen_val(rng);
        if plain(&v) {
            return v;
        }
    }
}
/// A literal equal to `v`, possibly of another type the column compares with.
fn scalar(rng: &mut Rng, t: Ty, v: &Val) -> ScalarValue {
    match (t, v) {
        (_, Val::B(b)) => ScalarValue::Boolean(Some(*b)),
        (_, Val::I(i)) => match rng.below(5) {
            0 => ScalarValue::Int64(Some(*i)),
            1 if i32::try_from(*i).is_ok() => ScalarValue::Int32(Some(*i as i32)),
            2 if u32::try_from(*i).is_ok() => ScalarValue::UInt32(Some(*i as u32)),
            3 if i8::try_from(*i).is_ok() => ScalarValue::Int8(Some(*i as i8)),
            4 if *i >= 0 => ScalarValue::UInt64(Some(*i as u64)),
            _ => ScalarValue::Int64(Some(*i)),
        },
        (_, Val::U(u)) => match rng.below(4) {
            0 if i64::try_from(*u).is_ok() => ScalarValue::Int64(Some(*u as i64)),
            1 if u32::try_from(*u).is_ok() => ScalarValue::UInt32(Some(*u as u32)),
            2 if i32::try_from(*u).is_ok() => ScalarValue::Int32(Some(*u as i32)),
            _ => ScalarValue::UInt64(Some(*u)),
        },
        (Ty::F32, Val::F(f)) => ScalarValue::Float32(Some(*f as f32)),
        (_, Val::F(f)) => ScalarValue::Float64(Some(*f)),
        (_, Val::S(s)) => match rng.below(3) {
            0 => ScalarValue::LargeUtf8(Some(s.clone())),
            1 => ScalarValue::Utf8View(Some(s.clone())),
            _ => ScalarValue::Utf8(Some(s.clone())),
        },
        (_, Val::Y(b)) => match rng.below(3) {
            0 => ScalarValue::LargeBinary(Some(b.clone())),
            1 => ScalarValue::BinaryView(Some(b.clone())),
            _ => ScalarValue::Binary(Some(b.clone())),
        },
    }
}

/// A literal for comparing with: mostly one of the column's own values, now and then a number of
/// another type, which may lie outside the column's range or between two of its values.
fn literal(rng: &mut Rng, t: Ty) -> (ScalarValue, Val) {
    let v = val(rng, t);
    if !matches!(v, Val::I(_) | Val::U(_) | Val::F(_)) || rng.chance(2, 3) {
        return (scalar(rng, t, &v), v);
    }
    let base: i128 = match &v {
        Val::I(i) => *i as i128,
        Val::U(u) => *u as i128,
        Val::F(f) => f.clamp(-1e18, 1e18) as i128,
        _ => unreachable!(),
    };
    let n = base + *rng.pick(&[0i128, 1, -1, 1 << 32, -(1 << 32), 1 << 31, 1 << 53, 1 << 63, -(1 << 63)]);
    match rng.below(4) {
        0 => match i64::try_from(n) {
            Ok(i) => (ScalarValue::Int64(Some(i)), Val::I(i)),
            Err(_) => (ScalarValue::Int64(Some(i64::MIN)), Val::I(i64::MIN)),
        },
        1 => match u64::try_from(n) {
            Ok(u) => (ScalarValue::UInt64(Some(u)), Val::U(u)),
            Err(_) => (ScalarValue::UInt64(Some(u64::MAX)), Val::U(u64::MAX)),
        },
        2 => {
            let f = n as f64 + *rng.pick(&[0.0, 0.5, -0.25, 1e-3]) + if n == 0 { 0.125 } else { 0.0 };
            (ScalarValue::Float64(Some(f)), Val::F(f))
        }
        _ => {
            let f = match &v {
                Val::F(f) if *f != 0.0 => f * *rng.pick(&[1.0, 1.0 + 1e-12, 1.0 - 1e-12]),
                _ => n as f64 + 1.5,
            };
            (ScalarValue::Float64(Some(f)), Val::F(f))
        }
    }
}
/// Numbers of different types compare by value.
fn order(a: &Val, b: &Val) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let int = |v: &Val| match v {
        Val::I(i) => Some(*i as i128),
        Val::U(u) => Some(*u as i128),
        _ => None,
    };
    let mixed = |i: i128, f: f64| {
        if f > 1e30 {
            return Less;
        }
        if f < -1e30 {
            return Greater;
        }
        let floor = f.floor();
        i.cmp(&(floor as i128)).then(if f > floor { Less } else { Equal })
    };
    match (int(a), int(b), a, b) {
        (Some(x), Some(y), ..) => x.cmp(&y),
        (Some(x), None, _, Val::F(f)) => mixed(x, *f),
        (None, Some(y), Val::F(f), _) => mixed(y, *f).reverse(),
        _ => a.rank(b),
    }
}

/// A predicate next to its own meaning: can a row with this key satisfy it, and can it fail it?
enum P {
    Const(bool),
    Cmp(u8, Val),
    Between(Val, Val, bool),
    In(Vec<Val>),
    Prefix(String),
    /// About another column, or a null literal: either way is possible.
    Open,
    And(Vec<P>),
    Or(Vec<P>),
    Not(Box<P>),
}
impl P {
    /// (may be true, may be not true)
    fn may(&self, k: &Val) -> (bool, bool) {
        use std::cmp::Ordering::*;
        let b = |x: bool| (x, !x);
        match self {
            P::Const(c) => b(*c),
            P::Cmp(op, v) => {
                let o = order(k, v);
                b(match op {
                    0 => o == Equal,
                    1 => o != Equal,
                    2 => o == Less,
                    3 => o != Greater,
                    4 => o == Greater,
                    _ => o != Less,
                })
            }
            P::Between(lo, hi, inc) => {
                let (a, z) = (order(k, lo), order(k, hi));
                b(if *inc { a != Less && z != Greater } else { a == Greater && z == Less })
            }
            P::In(vs) => b(vs.iter().any(|v| order(k, v) == Equal)),
            P::Prefix(p) => b(matches!(k, Val::S(s) if s.starts_with(p.as_str()))),
            P::Open => (true, true),
            P::And(c) => {
                let m: Vec<_> = c.iter().map(|x| x.may(k)).collect();
                (m.iter().all(|x| x.0), m.iter().any(|x| x.1))
            }
            P::Or(c) => {
                let m: Vec<_> = c.iter().map(|x| x.may(k)).collect();
                (m.iter().any(|x| x.0), m.iter().all(|x| x.1))
            }
            P::Not(c) => {
                let (t, f) = c.may(k);
                (f, t)
            }
        }
    }
}
fn pred(rng: &mut Rng, t: Ty, depth: usize) -> (Expr, P) {
    let col = "k";
    match rng.below(if depth == 0 { 11 } else { 15 }) {
        0 => (Expr::True, P::Const(true)),
        1 if rng.chance(1, 3) => (Expr::False, P::Const(false)),
        2 | 3 if matches!(t, Ty::Utf8 | Ty::LUtf8) => {
            let v = val(rng, t);
            let Val::S(s) = v else { unreachable!() };
            let n = rng.idx(s.chars().count() + 1);
            let p: String = s.chars().take(n).collect();
            (Expr::starts_with(col, p.clone()), P::Prefix(p))
        }
        4 => {
            let (a, z) = (literal(rng, t), literal(rng, t));
            let (a, z) = if rng.chance(5, 6) && order(&a.1, &z.1).is_gt() { (z, a) } else { (a, z) };
            let inc = rng.chance(1, 2);
            (Expr::between(col, a.0, z.0, inc), P::Between(a.1, z.1, inc))
        }
        5 => {
            let (sv, vs) = (0..rng.idx(4)).map(|_| literal(rng, t)).unzip();
            (Expr::in_list(col, sv), P::In(vs))
        }
        6 => (Expr::gt("x", ScalarValue::Int64(Some(3))), P::Open),
        7 => (Expr::is_null("x"), P::Open),
        11 | 12 => {
            let c: Vec<_> = (0..1 + rng.idx(3)).map(|_| pred(rng, t, depth - 1)).collect();
            let (e, p): (Vec<_>, Vec<_>) = c.into_iter().unzip();
            (Expr::And(e), P::And(p))
        }
        13 => {
            let c: Vec<_> = (0..1 + rng.idx(3)).map(|_| pred(rng, t, depth - 1)).collect();
            let (e, p): (Vec<_>, Vec<_>) = c.into_iter().unzip();
            (Expr::Or(e), P::Or(p))
        }
        14 => {
            let (e, p) = pred(rng, t, depth - 1);
            (Expr::not(e), P::Not(Box::new(p)))
        }
        _ => {
            let (s, v) = literal(rng, t);
            let op = rng.below(6) as u8;
            let e = match op {
                0 => Expr::eq(col, s),
                1 => Expr::not_eq(col, s),
                2 => Expr::lt(col, s),
                3 => Expr::lt_eq(col, s),
                4 => Expr::gt(col, s),
                _ => Expr::gt_eq(col, s),
            };
            (e, P::Cmp(op, v))
        }
    }
}

fn qry_bounds(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let t = *rng.pick(&ROWABLE);
    let schema = Arc::new(Schema::new(vec![Field::new("k", t.data_type(), false)]));
    let mut keys: Vec<Val> = (0..24).map(|_| val(&mut rng, t)).collect();
    keys.sort_by(|a, b| a.rank(b));
    let own = |v: &Val| crate::verif::keys_pub::key_from_cells(vec![t.cell(v)]);
    let (mut bounded, mut skipped) = (0, 0);
    for _ in 0..12 {
        let (e, p) = pred(&mut rng, t, 3);
        let hit: Vec<bool> = keys.iter().map(|k| p.may(k).0).collect();
        let hits = hit.iter().filter(|x| **x).count() as u64;
        let Some(b) = key_bounds_for_predicate(&e, &schema) else {
            if !rep.check(fpn(&[1, hits]), key_range_for_predicate(&e, &schema).is_none(), || format!("a key range without key bounds for {e:?}")) {
                return;
            }
            continue;
        };
        bounded += 1;
        if !rep.check(fpn(&[2, fps(&format!("{t:?}")), hits]), !b.is_empty() || hits == 0, || {
            format!("{e:?} has empty key bounds but key {:?} may satisfy it", keys.iter().zip(&hit).find(|x| *x.1).map(|x| x.0))
        }) {
            return;
        }
        for _ in 0..6 {
            let (mut i, mut j) = (rng.idx(keys.len()), rng.idx(keys.len()));
            if i > j {
                std::mem::swap(&mut i, &mut j);
            }
            let ov = b.overlaps(&own(&keys[i]), &own(&keys[j]));
            skipped += u64::from(!ov);
            let any = (i..=j).find(|x| hit[*x]);
            if !rep.check(fpn(&[3, fps(&format!("{t:?}")), (j - i) as u64, any.is_some() as u64, ov as u64]), ov || any.is_none(), || {
                format!("a source spanning keys {:?}..{:?} would be skipped for {e:?}, but its key {:?} may satisfy it (bounds {b:?})", keys[i], keys[j], keys[any.unwrap()])
            }) {
                return;
            }
        }
        if let Some(r) = key_range_for_predicate(&e, &schema) {
            for (k, h) in keys.iter().zip(&hit) {
                let o = own(k);
                let inside = (match &r.start {
                    Bound::Included(x) => &o >= x,
                    Bound::Excluded(x) => &o > x,
                    Bound::Unbounded => true,
                }) && (match &r.end {
                    Bound::Included(x) => &o <= x,
                    Bound::Excluded(x) => &o < x,
                    Bound::Unbounded => true,
                });
                if !rep.check(fpn(&[4, fps(&format!("{t:?}")), inside as u64, *h as u64]), inside || !*h, || format!("key {k:?} may satisfy {e:?} but lies outside the scanned range {r:?}")) {
                    return;
                }
            }
        }
        if rng.chance(1, 4) {
            // Composite keys: no bounds may be derived from one column.
            let two = Arc::new(Schema::new(vec![Field::new("k", t.data_type(), false), Field::new("j", t.data_type(), false)]));
            if let Some(b2) = key_bounds_for_predicate(&e, &two) {
                let ok = !b2.is_empty() || hits == 0;
                if !rep.check(fpn(&[5, hits]), ok, || format!("{e:?} has empty bounds on a composite key")) {
                    return;
                }
            }
        }
    }
    rep.count("bounded_predicates", bounded);
    rep.count("sources_skipped", skipped);
}
