// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<DenseVecStorage<Tok>>::default();
    m.insert(3, a);
    let j = (&mut m).par_join_unconstrained();
    cx.par(move || j.for_each(|x| x.poke()), || b.poke());
}
