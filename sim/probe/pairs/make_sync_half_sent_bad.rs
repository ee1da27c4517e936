// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut s = MakeSync::new(a);
    cx.par(move || s.get_mut().poke(), || b.poke());
}
