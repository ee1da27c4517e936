// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(Yes::default());
    let s = &s;
    cx.par(|| s.fetch::<Read<Yes>>().touch(), || s.fetch::<Read<Yes>>().touch());
}
