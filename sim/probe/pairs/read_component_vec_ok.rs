// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_component::<CVec<Yes>>();
    let e = w.create_entity();
    w.get_component_mut::<CVec<Yes>>().insert(e, CVec(Yes::default())).unwrap();
    let w = &w;
    let f = || w.read_component::<CVec<Yes>>().get(e).unwrap().0.touch();
    cx.par(&f, &f);
}
