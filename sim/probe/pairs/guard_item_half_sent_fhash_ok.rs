// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let (a, mut b) = Atok::halves();
    let mut m = MaskedStorage::<Flagged<HashMapStorage<Atok>>>::default();
    m.set_track_modified(true);
    m.insert(3, a);
    let mut g = m.guard().join().next().unwrap();
    cx.par(move || g.get_mut().poke(), || b.poke());
}
