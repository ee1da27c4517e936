// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<Flagged<VecStorage<Tok>>>::default();
    m.set_track_modified(true);
    m.insert(3, a);
    let mut j = m.guard().join();
    cx.par(move || j.next().unwrap().get_mut().poke(), || b.poke());
}
