// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut w = World::new();
    w.insert_component::<CDense<Glo>>();
    let e = w.create_entity();
    w.get_component_mut::<CDense<Glo>>().insert(e, CDense(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<CDense<Glo>>().get(e).unwrap().0.touch(), || r.touch());
}
