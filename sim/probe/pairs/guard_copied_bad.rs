// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut a = m.get_guard(3).unwrap();
    let mut b = a;
    cx.both_mut(a.get_mut(), b.get_mut());
}
