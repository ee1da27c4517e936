// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<DenseVecStorage<u64>>::default();
    m.insert(3, 7);
    let a = &m.as_slice()[0];
    let b = &mut m.as_mut_slice()[0];
    cx.both(a, b);
}
