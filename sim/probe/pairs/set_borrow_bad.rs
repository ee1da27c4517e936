// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(No::default());
    let s = &s;
    cx.par(|| s.borrow::<No>().touch(), || s.borrow::<No>().touch());
}
