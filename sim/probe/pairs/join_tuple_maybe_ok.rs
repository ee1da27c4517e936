// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let (a, b) = ((&m).maybe(), &m).join().next().unwrap();
    cx.read(a.unwrap());
    cx.read(b);
}
