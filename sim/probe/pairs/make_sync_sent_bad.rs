// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let m = MakeSync::new(r.clone());
    cx.par(move || drop(m), || r.touch());
}
