// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    let a = s.borrow::<u64>();
    let b = s.get_mut::<u64>();
    cx.both(&*a, b);
}
