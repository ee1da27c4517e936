// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_resource(Yes::default());
    let w = &w;
    cx.par(|| w.read_resource::<Yes>().touch(), || w.read_resource::<Yes>().touch());
}
