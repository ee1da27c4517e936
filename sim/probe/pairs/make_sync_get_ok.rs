// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let m = MakeSync::new(Yes::default());
    let m = &m;
    cx.par(|| m.get().touch(), || m.get().touch());
}
