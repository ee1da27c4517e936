// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MakeSync::new(7u64);
    let a = m.get();
    let b = m.get_mut();
    cx.both(a, b);
}
