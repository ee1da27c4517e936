// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = No::default();
    let _ = Par::new(Toucher, Toucher).run(&RayonPool, &r);
}
