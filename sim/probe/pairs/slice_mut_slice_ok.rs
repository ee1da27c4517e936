// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<DenseVecStorage<u64>>::default();
    m.insert(3, 7);
    let v = {
        let a = &m.as_slice()[0];
        *a
    };
    let b = &mut m.as_mut_slice()[0];
    *b = v;
}
