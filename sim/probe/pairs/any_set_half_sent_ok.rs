// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Atok::halves();
    let mut s = AnyComponentSet::new();
    s.insert(CVec(a));
    cx.par(move || s.get_mut::<CVec<Atok>>().unwrap().0.poke(), || b.poke());
}
