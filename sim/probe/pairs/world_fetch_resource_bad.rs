// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut w = World::new();
    w.insert_resource(No::default());
    let w = &w;
    cx.par(|| w.fetch::<ReadResource<No>>().touch(), || w.fetch::<ReadResource<No>>().touch());
}
