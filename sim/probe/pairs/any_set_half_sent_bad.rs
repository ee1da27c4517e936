// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut s = AnyComponentSet::new();
    s.insert(CVec(a));
    cx.par(move || s.get_mut::<CVec<Tok>>().unwrap().0.poke(), || b.poke());
}
