// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_component::<CDense<Yes>>();
    let e = w.create_entity();
    w.get_component_mut::<CDense<Yes>>().insert(e, CDense(Yes::default())).unwrap();
    let w = &w;
    let f = || w.read_component::<CDense<Yes>>().get(e).unwrap().0.touch();
    cx.par(&f, &f);
}
