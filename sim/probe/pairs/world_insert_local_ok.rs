// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut w = World::new();
    w.insert_resource(r.clone());
    let w = &w;
    cx.par(|| w.write_resource::<Glo>().touch(), || r.touch());
}
