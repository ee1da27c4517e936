// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    let a: &u64 = {
        let g = s.borrow::<u64>();
        &*g
    };
    let mut b = s.borrow_mut::<u64>();
    cx.both(a, &mut *b);
}
