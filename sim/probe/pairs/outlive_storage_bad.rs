// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let a: &u64;
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    a = m.get(3).unwrap();
    drop(m);
    cx.read(a);
}
