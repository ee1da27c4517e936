// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(No::default());
    let g = s.fetch::<Write<No>>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());
}
