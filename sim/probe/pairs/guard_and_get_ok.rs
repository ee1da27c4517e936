// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    cx.read(m.get(3).unwrap());
    cx.bump(m.get_guard(3).unwrap().get_mut());
}
