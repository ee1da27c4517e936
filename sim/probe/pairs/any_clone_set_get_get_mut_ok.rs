// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = AnyCloneComponentSet::new();
    s.insert(CVec(7u64));
    cx.read(&s.get::<CVec<u64>>().unwrap().0);
    cx.bump(&mut s.get_mut::<CVec<u64>>().unwrap().0);
}
