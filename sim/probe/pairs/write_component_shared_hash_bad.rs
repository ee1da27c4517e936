// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_component::<CHash<No>>();
    let e = w.create_entity();
    w.get_component_mut::<CHash<No>>().insert(e, CHash(No::default())).unwrap();
    let g = w.write_component::<CHash<No>>();
    let g = &g;
    cx.par(|| g.get(e).unwrap().0.touch(), || g.get(e).unwrap().0.touch());
}
