// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut w = World::new();
    w.insert_component::<CHash<Glo>>();
    let e = w.create_entity();
    w.get_component_mut::<CHash<Glo>>().insert(e, CHash(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<CHash<Glo>>().get(e).unwrap().0.touch(), || r.touch());
}
