// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(Yes::default());
    let g = s.borrow_mut::<Yes>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());
}
