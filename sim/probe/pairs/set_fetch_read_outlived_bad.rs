// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    let a: &u64 = {
        let g = s.fetch::<Read<u64>>();
        &*g
    };
    let mut b = s.fetch::<Write<u64>>();
    cx.both(a, &mut *b);
}
