// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Tok::halves();
    let mut m = MaskedStorage::<Flagged<VecStorage<Tok>>>::default();
    m.set_track_modified(true);
    m.insert(3, a);
    let j = m.guard();
    cx.par(move || j.join().next().unwrap().get_mut().poke(), || b.poke());
}
