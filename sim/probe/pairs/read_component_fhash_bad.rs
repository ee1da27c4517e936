// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_component::<CFHash<No>>();
    let e = w.create_entity();
    w.get_component_mut::<CFHash<No>>().insert(e, CFHash(No::default())).unwrap();
    let w = &w;
    let f = || w.read_component::<CFHash<No>>().get(e).unwrap().0.touch();
    cx.par(&f, &f);
}
