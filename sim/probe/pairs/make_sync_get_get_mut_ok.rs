// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MakeSync::new(7u64);
    cx.read(m.get());
    cx.bump(m.get_mut());
}
