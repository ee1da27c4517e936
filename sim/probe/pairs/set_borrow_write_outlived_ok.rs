// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    {
        let mut g = s.borrow_mut::<u64>();
        cx.bump(&mut *g);
    }
    let mut b = s.borrow_mut::<u64>();
    cx.bump(&mut *b);
}
