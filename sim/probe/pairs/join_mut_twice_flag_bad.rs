// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<Flagged<VecStorage<u64>>>::default();
    m.set_track_modified(true);
    m.insert(3, 7);
    let a = (&mut m).join().next().unwrap();
    let b = (&mut m).join().next().unwrap();
    cx.both_mut(a, b);
}
