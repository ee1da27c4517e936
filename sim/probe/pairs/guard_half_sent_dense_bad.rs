// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<DenseVecStorage<Tok>>::default();
    m.insert(3, a);
    let mut g = m.get_guard(3).unwrap();
    cx.par(move || g.get_mut().poke(), || b.poke());
}
