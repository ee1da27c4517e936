// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut w = ResourceSet::new();
    w.insert(a);
    let w = &w;
    cx.par(|| w.borrow_mut::<Tok>().poke(), || b.poke());
}
