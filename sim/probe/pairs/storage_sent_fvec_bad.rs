// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut m = MaskedStorage::<Flagged<VecStorage<Loc>>>::default();
    m.insert(3, r.clone());
    cx.par(move || m.get(3).unwrap().touch(), || r.touch());
}
