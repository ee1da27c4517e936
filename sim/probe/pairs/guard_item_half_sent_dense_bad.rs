// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<DenseVecStorage<Tok>>::default();
    m.insert(3, a);
    let mut g = m.guard().join().next().unwrap();
    cx.par(move || g.get_mut().poke(), || b.poke());
}
