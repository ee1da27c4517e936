// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut w = World::new();
    w.insert_resource(a);
    let w = &w;
    cx.par(|| w.write_resource::<Tok>().poke(), || b.poke());
}
