// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let a = (&mut m).par_join();
    let b = a.clone();
    let mut x: Vec<&mut u64> = a.collect();
    let mut y: Vec<&mut u64> = b.collect();
    cx.both_mut(x.pop().unwrap(), y.pop().unwrap());
}
