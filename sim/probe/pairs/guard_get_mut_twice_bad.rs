// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut g = m.get_guard(3).unwrap();
    let a = g.get_mut();
    let b = g.get_mut();
    cx.both_mut(a, b);
}
