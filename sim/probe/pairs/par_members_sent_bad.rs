// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let _ = Par::new(Member(r.clone()), Member(r.clone())).run(&RayonPool, ());
}
