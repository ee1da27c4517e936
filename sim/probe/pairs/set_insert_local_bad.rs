// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut s = ResourceSet::new();
    s.insert(r.clone());
    let s = &s;
    cx.par(|| s.borrow_mut::<Loc>().touch(), || r.touch());
}
