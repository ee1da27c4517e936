// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<DenseVecStorage<Tok>>::default();
    m.insert(3, a);
    let mut j = (&mut m).maybe().join_unconstrained();
    cx.par(move || drop(j.nth(3).unwrap().map(|x| x.poke())), || b.poke());
}
