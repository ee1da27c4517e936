// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    {
        let a = s.borrow::<u64>();
        cx.read(&*a);
    }
    cx.bump(s.get_mut::<u64>());
}
