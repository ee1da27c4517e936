// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut a = (&mut m).join();
    let mut b = a.clone();
    cx.both_mut(a.next().unwrap(), b.next().unwrap());
}
