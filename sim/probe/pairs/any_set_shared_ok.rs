// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = AnyComponentSet::new();
    s.insert(CVec(Yes::default()));
    let s = &s;
    cx.par(|| s.get::<CVec<Yes>>().unwrap().0.touch(), || s.get::<CVec<Yes>>().unwrap().0.touch());
}
