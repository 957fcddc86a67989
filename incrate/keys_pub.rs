// Key construction for harness code outside the crate.
pub use crate::key::KeyOwned;
pub fn key_from_cells(cells: Vec<typed_arrow_dyn::DynCell>) -> KeyOwned {
    let parts: Vec<KeyOwned> = cells
        .into_iter()
        .map(|c| match c {
            typed_arrow_dyn::DynCell::Str(s) => KeyOwned::from(s.as_str()),
            typed_arrow_dyn::DynCell::I64(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::I32(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::U64(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::Bool(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::U32(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::F32(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::F64(v) => KeyOwned::from(v),
            typed_arrow_dyn::DynCell::Bin(v) => KeyOwned::from(v),
            other => panic!("unsupported harness key cell {other:?}"),
        })
        .collect();
    if parts.len() == 1 {
        parts.into_iter().next().unwrap()
    } else {
        KeyOwned::tuple(parts)
    }
}
