// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let _ = parallelize((0..3).map(|_| Member(r.clone()))).run(&RayonPool, ());
}
