// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = AnyComponentSet::new();
    s.insert(CVec(7u64));
    let a = s.get::<CVec<u64>>().unwrap();
    let b = s.get_mut::<CVec<u64>>().unwrap();
    cx.both(a, b);
}
