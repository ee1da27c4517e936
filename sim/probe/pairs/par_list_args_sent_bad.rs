// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = No::default();
    let _ = ParList(vec![Toucher, Toucher]).run(&RayonPool, &r);
}
