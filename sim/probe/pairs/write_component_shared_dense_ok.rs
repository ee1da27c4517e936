// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_component::<CDense<Yes>>();
    let e = w.create_entity();
    w.get_component_mut::<CDense<Yes>>().insert(e, CDense(Yes::default())).unwrap();
    let g = w.write_component::<CDense<Yes>>();
    let g = &g;
    cx.par(|| g.get(e).unwrap().0.touch(), || g.get(e).unwrap().0.touch());
}
