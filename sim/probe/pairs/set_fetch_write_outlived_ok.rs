// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    {
        let mut g = s.fetch::<Write<u64>>();
        cx.bump(&mut *g);
    }
    let mut b = s.fetch::<Write<u64>>();
    cx.bump(&mut *b);
}
