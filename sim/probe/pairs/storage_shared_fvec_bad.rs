// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<Flagged<VecStorage<No>>>::default();
    m.insert(3, No::default());
    let m = &m;
    cx.par(|| m.get(3).unwrap().touch(), || m.join().next().unwrap().touch());
}
