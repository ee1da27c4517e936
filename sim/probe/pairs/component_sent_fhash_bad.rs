// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut w = World::new();
    w.insert_component::<CFHash<Loc>>();
    let e = w.create_entity();
    w.get_component_mut::<CFHash<Loc>>().insert(e, CFHash(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<CFHash<Loc>>().get(e).unwrap().0.touch(), || r.touch());
}
