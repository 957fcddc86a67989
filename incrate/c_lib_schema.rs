// P17: key declarations, table definitions and value extraction.
use std::{collections::HashMap, sync::Arc};

use arrow_array::{ArrayRef, RecordBatch};
use arrow_schema::{DataType, Field, Schema, SchemaRef, TimeUnit};
use typed_arrow_dyn::DynCell;

use crate::{
    extractor::{projection_for_columns, row_from_batch},
    mode::{DynModeConfig, fingerprint_schema, table_definition},
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    schema::SchemaBuilder,
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] =
    &[("schema_keys", schema_keys), ("schema_print", schema_print), ("row_values", row_values)];

const NAMES: [&str; 14] =
    ["id", "ts", "a", "b", "ab", "a,b", "a\"b", "[a]", " a", "a ", "é", "A", "tonbo", "x\\y"];

fn fields(rng: &mut Rng) -> Vec<(String, Ty, bool)> {
    let n = 1 + rng.idx(5);
    let mut names: Vec<&str> = NAMES.to_vec();
    rng.shuffle(&mut names);
    names.truncate(n);
    names.into_iter().map(|n| (n.to_string(), *rng.pick(&ALL), rng.chance(1, 3))).collect()
}
fn schema_of(f: &[(String, Ty, bool)]) -> SchemaRef {
    Arc::new(Schema::new(f.iter().map(|(n, t, z)| Field::new(n, t.data_type(), *z)).collect::<Vec<_>>()))
}
fn judge(rep: &mut Report, what: &str, r: Result<DynModeConfig, crate::extractor::KeyExtractError>, f: &[(String, Ty, bool)], want: &[usize]) -> bool {
    let fp = fpn(&[fps(what), want.len() as u64, f.len() as u64]);
    let c = match r {
        Ok(c) => c,
        Err(e) => {
            rep.violate(format!("{what}: keys {:?} of {:?} refused: {e}", want, f));
            return false;
        }
    };
    let names: Vec<String> = want.iter().map(|i| f[*i].0.clone()).collect();
    let def = table_definition(&c, "t");
    let ks = c.extractor.key_schema();
    let kn: Vec<(String, DataType)> = ks.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect();
    let wn: Vec<(String, DataType)> = want.iter().map(|i| (f[*i].0.clone(), f[*i].1.data_type())).collect();
    let sch = c.schema();
    let same_fields = sch.fields().len() == f.len() && sch.fields().iter().zip(f).all(|(a, b)| a.name() == &b.0 && a.data_type() == &b.1.data_type() && a.is_nullable() == b.2);
    let ok = c.extractor.key_indices() == want && def.primary_key_columns == names && kn == wn && same_fields && def.name == "t" && def.schema_fingerprint == fingerprint_schema(&sch);
    if !rep.check(fp, ok, || format!("{what}: key columns {:?} (recorded {:?}) of {f:?}, want {want:?}", c.extractor.key_indices(), def.primary_key_columns)) {
        return false;
    }
    // The tables built from the configuration take rows and deletes of exactly these shapes.
    let ds_want: Vec<(String, DataType)> = wn.into_iter().chain([(MVCC_COMMIT_COL.to_string(), DataType::UInt64)]).collect();
    match c.build() {
        Err(e) => {
            rep.violate(format!("{what}: table refused: {e}"));
            false
        }
        Ok((s, ds, _, _)) => {
            let got: Vec<(String, DataType)> = ds.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect();
            rep.check(fpn(&[fp, 1]), got == ds_want && s.fields().len() == f.len(), || format!("{what}: delete schema {got:?}, want {ds_want:?}"))
        }
    }
}

fn schema_keys(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    for _ in 0..4 {
        let f = fields(&mut rng);
        let s = schema_of(&f);
        let mut want: Vec<usize> = (0..f.len()).collect();
        rng.shuffle(&mut want);
        want.truncate(1 + rng.idx(3));
        let names: Vec<String> = want.iter().map(|i| f[*i].0.clone()).collect();
        rep.log(format!("fields {f:?} keys {want:?}"));
        // Programmatic declarations.
        let mut b = SchemaBuilder::from_schema(s.clone());
        b = match rng.below(3) {
            0 => b.primary_key("nope").composite_key(names.clone()),
            1 if names.len() == 1 => b.composite_key(["x", "y"]).primary_key(names[0].clone()),
            _ => names.iter().fold(b, |b, n| b.add_key_part(n.clone())),
        };
        let md = rng.chance(1, 2);
        if md {
            b = b.with_metadata();
        }
        let built = b.build();
        let tagged = built.as_ref().ok().map(|c| c.schema());
        if !judge(rep, "schema builder", built, &f, &want) {
            return;
        }
        // What the builder wrote into the metadata declares the same key.
        if let (true, Some(t)) = (md, tagged) {
            if !judge(rep, "metadata written by the builder", DynModeConfig::from_metadata(t.clone()), &f, &want) {
                return;
            }
            if !judge(rep, "schema written by the builder", DynModeConfig::from_schema(t), &f, &want) {
                return;
            }
        }
        if want.len() == 1 {
            if !judge(rep, "key column", DynModeConfig::from_key_col(s.clone(), want[0]), &f, &want) || !judge(rep, "key name", DynModeConfig::from_key_name(s.clone(), &names[0]), &f, &want) {
                return;
            }
        }
        // Field markers with ordinals, in any numbering.
        let mut ord = 0u32;
        let ords: Vec<u32> = want.iter().map(|_| { ord += 1 + rng.below(3) as u32; ord - 1 }).collect();
        let marked = Arc::new(Schema::new(
            f.iter()
                .enumerate()
                .map(|(i, (n, t, z))| {
                    let fl = Field::new(n, t.data_type(), *z);
                    match want.iter().position(|w| *w == i) {
                        Some(p) => {
                            let v = if want.len() == 1 && rng.chance(1, 2) { rng.pick(&["true", "yes", "TRUE"]).to_string() } else { format!("{}{}", ords[p], if rng.chance(1, 5) { " " } else { "" }) };
                            fl.with_metadata(HashMap::from([("tonbo.key".to_string(), v)]))
                        }
                        None if rng.chance(1, 4) => fl.with_metadata(HashMap::from([("tonbo.key".to_string(), rng.pick(&["false", "no", ""]).to_string())])),
                        None => fl,
                    }
                })
                .collect::<Vec<_>>(),
        ));
        if !judge(rep, "field markers", DynModeConfig::from_metadata(marked.clone()), &f, &want) {
            return;
        }
        if want.len() > 1 {
            // Two unordered markers do not say which column comes first.
            let amb = Arc::new(Schema::new(
                marked.fields().iter().enumerate().map(|(i, fl)| if want.contains(&i) { fl.as_ref().clone().with_metadata(HashMap::from([("tonbo.key".to_string(), "true".to_string())])) } else { fl.as_ref().clone() }).collect::<Vec<_>>(),
            ));
            if !rep.check(fpn(&[11, want.len() as u64]), DynModeConfig::from_metadata(amb).is_err(), || "several unordered key markers were accepted".into()) {
                return;
            }
        }
        // Invalid declarations.
        let bad: Vec<(&str, bool)> = vec![
            ("an empty key", SchemaBuilder::from_schema(s.clone()).build().is_err()),
            ("an unknown key field", SchemaBuilder::from_schema(s.clone()).primary_key("no such field").build().is_err()),
            ("an unknown field in a composite key", SchemaBuilder::from_schema(s.clone()).composite_key([names[0].as_str(), "no such field"]).build().is_err()),
            ("a key column out of range", DynModeConfig::from_key_col(s.clone(), f.len() + rng.idx(3)).is_err()),
            ("an unknown key name", DynModeConfig::from_key_name(s.clone(), "no such field").is_err()),
            ("no declaration", DynModeConfig::from_metadata(s.clone()).is_err()),
            ("an empty key list", DynModeConfig::from_metadata(Arc::new(Schema::new_with_metadata(s.fields().clone(), HashMap::from([("tonbo.keys".to_string(), "[]".to_string())])))).is_err()),
            ("an unknown listed key", DynModeConfig::from_metadata(Arc::new(Schema::new_with_metadata(s.fields().clone(), HashMap::from([("tonbo.keys".to_string(), "[\"no such\",\"id\"]".to_string())])))).is_err()),
            ("no key columns", projection_for_columns(s.clone(), vec![]).is_err()),
            ("key columns out of range", projection_for_columns(s.clone(), vec![0, f.len()]).is_err()),
        ];
        for (w, ok) in bad {
            if !rep.check(fpn(&[12, fps(w), f.len() as u64]), ok, || format!("{w} was accepted for {f:?}")) {
                return;
            }
        }
        let uns = *rng.pick(&[0usize, 1, 2, 3]);
        let dt = [DataType::Int8, DataType::Date32, DataType::Timestamp(TimeUnit::Millisecond, None), DataType::Decimal128(10, 2)][uns].clone();
        let mut fl: Vec<Field> = s.fields().iter().map(|x| x.as_ref().clone()).collect();
        fl.push(Field::new("odd", dt.clone(), false));
        let odd = Arc::new(Schema::new(fl));
        if !rep.check(fpn(&[13, uns as u64]), DynModeConfig::from_key_name(odd.clone(), "odd").is_err() && projection_for_columns(odd.clone(), vec![want[0], f.len()]).is_err(), || format!("a key of unsupported type {dt} was accepted")) {
            return;
        }
        rep.count("declarations", 1);
    }
}

/// Fingerprints separate different schemas and nothing else.
fn schema_print(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    for _ in 0..4 {
        let f = fields(&mut rng);
        let kv: Vec<(String, String)> = (0..rng.idx(5)).map(|i| (format!("k{i}"), format!("{}", rng.below(3)))).collect();
        let mk = |f: &[(String, Ty, bool)], kv: Vec<(String, String)>| {
            Arc::new(Schema::new_with_metadata(f.iter().map(|(n, t, z)| Field::new(n, t.data_type(), *z).with_metadata(kv.iter().cloned().collect())).collect::<Vec<_>>(), kv.into_iter().collect()))
        };
        let base = fingerprint_schema(&mk(&f, kv.clone()));
        let mut rev = kv.clone();
        rev.reverse();
        if !rep.check(fpn(&[1, kv.len() as u64, f.len() as u64]), fingerprint_schema(&mk(&f, rev)) == base, || format!("equal schemas {f:?} with metadata {kv:?} have different fingerprints")) {
            return;
        }
        let mut g = f.clone();
        let what = match rng.below(5) {
            0 => {
                g.push(("zz".into(), Ty::I32, true));
                "an added column"
            }
            1 => {
                let i = rng.idx(g.len());
                g[i].0.push('_');
                "a renamed column"
            }
            2 => {
                let i = rng.idx(g.len());
                g[i].2 = !g[i].2;
                "changed nullability"
            }
            3 if g.len() > 1 => {
                g.swap(0, 1);
                "swapped columns"
            }
            _ => {
                let i = rng.idx(g.len());
                g[i].1 = if g[i].1 == Ty::I64 { Ty::U64 } else { Ty::I64 };
                "a changed column type"
            }
        };
        if !rep.check(fpn(&[2, fps(what), f.len() as u64]), fingerprint_schema(&mk(&g, kv)) != base, || format!("{what} kept the schema fingerprint of {f:?}")) {
            return;
        }
    }
}

/// Extraction returns exactly the values of the batch, for sliced batches and any row selection.
fn row_values(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ROWABLE, 3);
    for _ in 0..4 {
        let n = rng.idx(7);
        let rows: Vec<Vec<Option<Val>>> = (0..n).map(|_| l.gen_row(&mut rng)).collect();
        let b = l.sliced_batch(&mut rng, &rows);
        let with_ts = rng.chance(1, 2);
        let b = if with_ts {
            let mut f = l.schema().fields().to_vec();
            f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false).into());
            let mut c: Vec<ArrayRef> = b.columns().to_vec();
            c.push(Arc::new(arrow_array::UInt64Array::from(vec![7u64; n])));
            RecordBatch::try_new(Arc::new(Schema::new(f)), c).expect("batch")
        } else {
            b
        };
        for (i, r) in rows.iter().enumerate() {
            let got = row_from_batch(&b, i).map(|r| r.0).map_err(|e| e.to_string());
            let ok = matches!(&got, Ok(g) if g.len() == r.len() && g.iter().zip(r).zip(&l.cols).all(|((c, v), col)| match (c, v) {
                (None, None) => true,
                (Some(c), Some(v)) => col.1.from_cell(c).is_some_and(|x| x.same(v)),
                _ => false,
            }));
            if !rep.check(fpn(&[1, i as u64, n as u64, with_ts as u64, fps(&format!("{:?}", l.key_tys()))]), ok, || format!("row {i} read as {got:?}, want {r:?}")) {
                return;
            }
        }
        if !rep.check(fpn(&[2, n as u64]), row_from_batch(&b, n).is_err() && row_from_batch(&b, n + 3).is_err(), || format!("a row beyond {n} was read")) {
            return;
        }
        let ex = projection_for_columns(l.schema(), l.keys.clone()).expect("projection");
        let idx: Vec<usize> = (0..if n == 0 { 0 } else { rng.idx(2 * n + 1) }).map(|_| rng.idx(n)).collect();
        let got: Result<Vec<Option<MKey>>, String> = ex.project_view(&b, &idx).map(|ks| ks.iter().map(|k| l.key_back(&k.to_owned())).collect()).map_err(|e| e.to_string());
        let want: Vec<Option<MKey>> = idx.iter().map(|i| Some(l.key_of(&rows[*i]))).collect();
        if !rep.check(fpn(&[3, idx.len() as u64, n as u64, with_ts as u64]), got.as_ref() == Ok(&want), || format!("keys of rows {idx:?} are {got:?}, want {want:?}")) {
            return;
        }
        if !rep.check(fpn(&[4, n as u64]), ex.project_view(&b, &[n]).is_err(), || format!("the key of row {n} of {n} was read")) {
            return;
        }
        // A schema the projection was not made for.
        let s = l.schema();
        let mut f: Vec<Field> = s.fields().iter().map(|x| x.as_ref().clone()).collect();
        let what = match rng.below(5) {
            0 => {
                let i = rng.idx(f.len());
                f[i] = f[i].clone().with_name("other");
                "a renamed column"
            }
            1 => {
                let i = rng.idx(f.len());
                let t = if f[i].data_type() == &DataType::Int64 { DataType::UInt64 } else { DataType::Int64 };
                f[i] = f[i].clone().with_data_type(t);
                "a changed type"
            }
            2 => {
                f.push(Field::new("extra", DataType::UInt64, false));
                "an extra column"
            }
            3 => {
                f.push(Field::new(MVCC_COMMIT_COL, DataType::Int64, false));
                "a commit column of the wrong type"
            }
            _ => {
                f.pop();
                "a missing column"
            }
        };
        let bad = Arc::new(Schema::new(f));
        let e1 = ex.validate_schema(&bad).is_err();
        let e2 = ex.project_view(&RecordBatch::new_empty(bad), &[]).is_err();
        if !rep.check(fpn(&[5, fps(what)]), e1 && e2, || format!("{what} was accepted (validation {e1}, projection {e2})")) {
            return;
        }
        rep.count("rows", n as u64);
    }
    let _ = (Timestamp::MIN, DynCell::I32(0));
}
