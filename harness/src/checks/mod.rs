use crate::CheckDef;
pub mod alloc;
pub mod codec;
pub mod conn;
pub mod framing;
pub mod huge;
pub mod placement;
pub mod scale;
pub mod small;

pub fn all() -> Vec<CheckDef> {
    let mut v = vec![];
    v.extend(codec::defs());
    v.extend(placement::defs());
    v.extend(alloc::defs());
    v.extend(framing::defs());
    v.extend(conn::defs());
    for d in &mut v {
        d.stages.extend(huge::stages(d.id));
    }
    v
}
