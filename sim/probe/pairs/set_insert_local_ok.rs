// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut s = ResourceSet::new();
    s.insert(r.clone());
    let s = &s;
    cx.par(|| s.borrow_mut::<Glo>().touch(), || r.touch());
}
