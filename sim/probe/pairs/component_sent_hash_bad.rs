// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut w = World::new();
    w.insert_component::<CHash<Loc>>();
    let e = w.create_entity();
    w.get_component_mut::<CHash<Loc>>().insert(e, CHash(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<CHash<Loc>>().get(e).unwrap().0.touch(), || r.touch());
}
