// P13: one total order and identity for keys across representations.
use std::{
    cmp::Ordering,
    collections::{BTreeMap, HashMap, hash_map::DefaultHasher},
    hash::{Hash, Hasher},
};

use crate::{
    extractor::projection_for_columns,
    key::{KeyOwned, KeyRow, KeyTsOwned, KeyTsViewRaw},
    mvcc::Timestamp,
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] =
    &[("key_order", key_order), ("key_maps", key_maps), ("key_cross", key_cross)];

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

struct Forms {
    layout: Layout,
    model: Vec<MKey>,
    rows: Vec<KeyRow>,
    owned: Vec<KeyOwned>,
    built: Vec<KeyOwned>,
    serde: Vec<KeyOwned>,
    _batch: arrow_array::RecordBatch,
}

fn forms(rng: &mut Rng, rep: &mut Report, n: usize) -> Option<Forms> {
    let layout = Layout::random(rng, &ALL, 3);
    let mut data: Vec<Vec<Option<Val>>> = (0..n).map(|_| layout.gen_row(rng)).collect();
    // Shared prefixes: copy some key components from an earlier row.
    for i in 1..n {
        if rng.chance(1, 2) {
            let j = rng.idx(i);
            let k = rng.idx(layout.keys.len() + 1);
            for c in &layout.keys[..k] {
                data[i][*c] = data[j][*c].clone();
            }
        }
    }
    let batch = layout.sliced_batch(rng, &data);
    rep.log(format!("{layout:?} {data:?}"));
    let proj = match projection_for_columns(layout.schema(), layout.keys.clone()) {
        Ok(p) => p,
        Err(e) => {
            rep.violate(format!("projection over supported key types {layout:?} failed: {e}"));
            return None;
        }
    };
    let idx: Vec<usize> = (0..n).collect();
    let rows = match proj.project_view(&batch, &idx) {
        Ok(r) => r,
        Err(e) => {
            rep.violate(format!("key projection of a valid batch failed: {e}"));
            return None;
        }
    };
    let owned: Vec<KeyOwned> = rows.iter().map(|r| r.to_owned()).collect();
    let model: Vec<MKey> = data.iter().map(|r| layout.key_of(r)).collect();
    let built = model.iter().map(|m| layout.owned_key(m)).collect();
    let mut serde = Vec::new();
    for (o, m) in owned.iter().zip(&model) {
        let back = serde_json::to_vec(o).map_err(|e| e.to_string()).and_then(|b| {
            serde_json::from_slice::<KeyOwned>(&b).map_err(|e| e.to_string())
        });
        match back {
            Ok(k) => serde.push(k),
            Err(e) => {
                rep.violate(format!("key {m:?} does not survive serialization: {e}"));
                return None;
            }
        }
    }
    Some(Forms { layout, model, rows, owned, built, serde, _batch: batch })
}

fn key_order(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let n = 2 + rng.idx(12);
    let Some(f) = forms(&mut rng, rep, n) else { return };
    let tys = fps(&format!("{:?}", f.layout.key_tys()));
    rep.count("keys", n as u64);
    for i in 0..n {
        // Values survive every conversion.
        for (form, k) in [("owned", &f.owned[i]), ("built", &f.built[i]), ("deserialized", &f.serde[i])] {
            let back = f.layout.key_back(k);
            let ok = back.as_ref().is_some_and(|b| {
                b.0.len() == f.model[i].0.len() && b.0.iter().zip(&f.model[i].0).all(|(x, y)| x.same(y))
            });
            let len_ok = k.len() == f.model[i].0.len() && !k.is_empty() && f.rows[i].len() == k.len();
            if !rep.check(fpn(&[tys, 1, fps(form)]), ok && len_ok, || {
                format!("{form} key changed its value: column values {:?}, key {back:?}", f.model[i])
            }) {
                return;
            }
            let again = KeyRow::from_owned(k).map(|r| r.to_owned());
            let ok = matches!(&again, Ok(a) if a == k && a.cmp(k) == Ordering::Equal && h(a) == h(k));
            if !rep.check(fpn(&[tys, 2]), ok, || format!("{form} key {k:?} is not identical to its own view's owned form")) {
                return;
            }
        }
        if let [Val::S(s)] = f.model[i].0.as_slice() {
            rep.check(fpn(&[tys, 3]), f.owned[i].as_utf8() == Some(s.as_str()), || format!("as_utf8 of {s:?} gave {:?}", f.owned[i].as_utf8()));
        }
        if let [Val::Y(b)] = f.model[i].0.as_slice() {
            rep.check(fpn(&[tys, 4]), f.owned[i].as_bytes() == Some(b.as_slice()), || format!("as_bytes of {b:?} gave {:?}", f.owned[i].as_bytes()));
        }
        // The scalar views exist for single components of that type only, and match the value.
        let single_s = matches!(f.model[i].0.as_slice(), [Val::S(_)]);
        let single_y = matches!(f.model[i].0.as_slice(), [Val::Y(_)]);
        let ok = f.owned[i].as_utf8().is_some() == single_s && f.owned[i].as_bytes().is_some() == single_y;
        rep.check(fpn(&[tys, 7]), ok, || format!("scalar views of {:?}: {:?} {:?}", f.model[i], f.owned[i].as_utf8(), f.owned[i].as_bytes()));
        for j in 0..n {
            let want = f.model[i].cmp(&f.model[j]);
            let pairs: Vec<(&str, Ordering, bool)> = vec![
                ("row/row", f.rows[i].cmp(&f.rows[j]), f.rows[i] == f.rows[j]),
                ("owned/owned", f.owned[i].cmp(&f.owned[j]), f.owned[i] == f.owned[j]),
                ("built/owned", f.built[i].cmp(&f.owned[j]), f.built[i] == f.owned[j]),
                ("owned/deserialized", f.owned[i].cmp(&f.serde[j]), f.owned[i] == f.serde[j]),
                ("deserialized/built", f.serde[i].cmp(&f.built[j]), f.serde[i] == f.built[j]),
                ("row/owned", f.rows[i].partial_cmp(&f.built[j]).unwrap_or(Ordering::Greater), f.rows[i] == f.built[j]),
                ("owned/row", f.built[i].partial_cmp(&f.rows[j]).unwrap_or(Ordering::Greater), f.built[i] == f.rows[j]),
                ("row partial", f.rows[i].partial_cmp(&f.rows[j]).unwrap_or(want.reverse()), f.rows[i] == f.rows[j]),
                ("partial", f.owned[i].partial_cmp(&f.owned[j]).unwrap_or(want.reverse()), f.owned[i] == f.owned[j]),
            ];
            for (form, got, eq) in pairs {
                let fpv = fpn(&[tys, fps(form), want as u64, f.model[i].0.len() as u64, shared(&f.model[i], &f.model[j])]);
                if !rep.check(fpv, got == want && eq == (want == Ordering::Equal), || {
                    format!("{form}: keys {:?} and {:?} compare as {got:?} (equal: {eq}), the column values as {want:?}", f.model[i], f.model[j])
                }) {
                    return;
                }
            }
            if want == Ordering::Equal {
                let hs = [h(&f.rows[i]), h(&f.rows[j]), h(&f.owned[i]), h(&f.built[j]), h(&f.serde[j])];
                if !rep.check(fpn(&[tys, 5]), hs.iter().all(|x| *x == hs[0]), || {
                    format!("equal keys hash differently: {:?} {:?}", f.model[i], f.model[j])
                }) {
                    return;
                }
            }
            // Versions of a key: newest first; timestamps never reorder different keys.
            let (a, b) = (rng.below(4), rng.below(4));
            let (a, b) = (if a == 3 { u64::MAX } else { a }, if b == 3 { u64::MAX } else { b });
            let want_ts = want.then(b.cmp(&a));
            let (ta, tb) = (Timestamp::new(a), Timestamp::new(b));
            let o1 = KeyTsOwned::new(f.owned[i].clone(), ta).cmp(&KeyTsOwned::new(f.serde[j].clone(), tb));
            let v1 = KeyTsViewRaw::new(f.rows[i].clone(), ta);
            let v2 = KeyTsViewRaw::from_owned(&f.built[j], tb);
            let oo = KeyTsOwned::from((f.built[i].clone(), ta));
            let ok = o1 == want_ts
                && v1.cmp(&v2) == want_ts
                && (v1 == v2) == (want_ts == Ordering::Equal)
                && oo.as_raw_view() == v1
                && v1.partial_cmp(&v2) == Some(want_ts)
                && KeyTsOwned::new(f.owned[i].clone(), ta).partial_cmp(&KeyTsOwned::new(f.serde[j].clone(), tb)) == Some(want_ts)
                && (KeyTsOwned::new(f.owned[i].clone(), ta) == KeyTsOwned::new(f.serde[j].clone(), tb)) == (want_ts == Ordering::Equal)
                && oo.timestamp() == ta
                && v1.timestamp() == ta
                && (want_ts != Ordering::Equal || h(&v1) == h(&v2));
            if !rep.check(fpn(&[tys, 6, want_ts as u64, (a < b) as u64]), ok, || {
                format!("versions ({:?},{a}) and ({:?},{b}) order as {o1:?}/{:?}, expected {want_ts:?}", f.model[i], f.model[j], v1.cmp(&v2))
            }) {
                return;
            }
        }
    }
    rep.sample(format!("key layout {:?}, {n} keys, all pairs in 8 form combinations", f.layout.key_tys()));
}

fn shared(a: &MKey, b: &MKey) -> u64 {
    a.0.iter().zip(&b.0).take_while(|(x, y)| x.rank(y) == Ordering::Equal).count() as u64
}

/// Maps keyed by keys behave like maps keyed by the column values.
fn key_maps(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let n = 4 + rng.idx(40);
    let Some(f) = forms(&mut rng, rep, n) else { return };
    let mut model: BTreeMap<MKey, usize> = BTreeMap::new();
    let mut bt: BTreeMap<KeyOwned, usize> = BTreeMap::new();
    let mut br: BTreeMap<KeyRow, usize> = BTreeMap::new();
    let mut hm: HashMap<KeyOwned, usize> = HashMap::new();
    for i in 0..n {
        if rng.chance(1, 5) {
            let j = rng.idx(i + 1);
            model.remove(&f.model[j]);
            bt.remove(&f.serde[j]);
            br.remove(&f.rows[j]);
            hm.remove(&f.built[j]);
        }
        model.insert(f.model[i].clone(), i);
        bt.insert(f.owned[i].clone(), i);
        br.insert(f.rows[i].clone(), i);
        hm.insert(f.owned[i].clone(), i);
    }
    let want: Vec<usize> = model.values().copied().collect();
    let got: Vec<usize> = bt.values().copied().collect();
    let gotr: Vec<usize> = br.values().copied().collect();
    let tys = fps(&format!("{:?}{}", f.layout.key_tys(), model.len()));
    rep.check(fpn(&[tys, 1]), got == want, || format!("ordered map over owned keys holds {got:?}, expected {want:?}"));
    rep.check(fpn(&[tys, 2]), gotr == want, || format!("ordered map over key views holds {gotr:?}, expected {want:?}"));
    for i in 0..n {
        let w = model.get(&f.model[i]);
        let ok = bt.get(&f.built[i]) == w && br.get(&f.rows[i]) == w && hm.get(&f.serde[i]) == w;
        if !rep.check(fpn(&[tys, 3, w.is_some() as u64]), ok, || format!("lookup of {:?} differs from the reference", f.model[i])) {
            return;
        }
    }
    rep.count("map_lookups", n as u64);
}

/// Same identity when the same values come from different batches, offsets and positions.
fn key_cross(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let layout = Layout::random(&mut rng, &ALL, 3);
    let n = 1 + rng.idx(8);
    let rows: Vec<Vec<Option<Val>>> = (0..n).map(|_| layout.gen_row(&mut rng)).collect();
    let mut perm: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut perm);
    let other: Vec<Vec<Option<Val>>> = perm.iter().map(|i| rows[*i].clone()).collect();
    let (a, b) = (layout.sliced_batch(&mut rng, &rows), layout.sliced_batch(&mut rng, &other));
    let Ok(p) = projection_for_columns(layout.schema(), layout.keys.clone()) else {
        rep.violate(format!("projection failed for {layout:?}"));
        return;
    };
    let all: Vec<usize> = (0..n).collect();
    let (Ok(ka), Ok(kb)) = (p.project_view(&a, &all), p.project_view(&b, &all)) else {
        rep.violate("projection of a valid batch failed".into());
        return;
    };
    let owned: Vec<KeyOwned> = ka.iter().map(KeyOwned::from).collect();
    drop(ka);
    drop(a);
    let tys = fps(&format!("{:?}", layout.key_tys()));
    for (j, i) in perm.iter().enumerate() {
        let ok = owned[*i] == kb[j] && kb[j] == owned[*i] && h(&owned[*i]) == h(&kb[j]) && owned[*i].cmp(&kb[j].to_owned()) == Ordering::Equal;
        if !rep.check(fpn(&[tys, n as u64]), ok, || format!("key {:?} differs between batches", layout.key_of(&rows[*i]))) {
            return;
        }
    }
    // Different-length prefixes are never equal.
    if layout.keys.len() > 1 {
        let full = layout.owned_key(&layout.key_of(&rows[0]));
        let cut = MKey(layout.key_of(&rows[0]).0[..1].to_vec());
        let short = crate::verif::keys_pub::key_from_cells(vec![layout.key_tys()[0].cell(&cut.0[0])]);
        rep.check(fpn(&[tys, 9]), full != short && short < full, || format!("prefix key {short:?} vs {full:?}"));
    }
    rep.count("cross_batch_keys", n as u64);
}
