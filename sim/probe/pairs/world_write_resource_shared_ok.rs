// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_resource(Yes::default());
    let g = w.write_resource::<Yes>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());
}
