// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Glo::default();
    let mut s = AnyComponentSet::new();
    s.insert(CVec(r.clone()));
    cx.par(move || drop(s), || r.touch());
}
