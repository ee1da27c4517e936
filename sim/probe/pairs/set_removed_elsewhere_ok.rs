// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut s = ResourceSet::new();
    s.insert(r.clone());
    cx.par(move || drop(s), || r.touch());
}
