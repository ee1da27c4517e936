// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<DenseVecStorage<u64>>::default();
    m.insert(3, 7);
    let a = m.get(3).unwrap();
    m.remove(3);
    m.insert(3, 8);
    cx.changed(a, 7);
}
