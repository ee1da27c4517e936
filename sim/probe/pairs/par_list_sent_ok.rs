// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let _ = ParList(vec![Member(r.clone()), Member(r.clone()), Member(r.clone())]).run(&RayonPool, ());
}
