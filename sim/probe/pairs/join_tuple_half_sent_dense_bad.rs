// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<DenseVecStorage<Tok>>::default();
    m.insert(3, a);
    let mut j = ((&mut m), hibitset::BitSetAll).join();
    cx.par(move || j.next().unwrap().0.poke(), || b.poke());
}
