// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut w = World::new();
    w.insert_component::<CVec<Loc>>();
    let e = w.create_entity();
    w.get_component_mut::<CVec<Loc>>().insert(e, CVec(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<CVec<Loc>>().get(e).unwrap().0.touch(), || r.touch());
}
