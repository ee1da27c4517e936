// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut a = m.guard().join();
    let mut b = m.guard().join();
    cx.both_mut(a.next().unwrap().get_mut(), b.next().unwrap().get_mut());
}
