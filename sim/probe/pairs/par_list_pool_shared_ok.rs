// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let p = APool(Yes::default());
    let _ = ParList(vec![idle(&p), idle(&p), idle(&p), idle(&p)]).run(&p, ());
}
