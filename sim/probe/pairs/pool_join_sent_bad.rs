// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let (a, b) = (r.clone(), r.clone());
    RayonPool.join(move || a.touch(), move || b.touch());
}
