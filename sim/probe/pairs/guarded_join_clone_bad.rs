// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let a = m.guard();
    let b = a.clone();
    cx.both_mut(a.join().next().unwrap().get_mut(), b.join().next().unwrap().get_mut());
}
