// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let p = APool(Yes::default());
    let _ = Par::new(Par::new(idle(&p), idle(&p)), Par::new(idle(&p), idle(&p))).run(&p, ());
}
