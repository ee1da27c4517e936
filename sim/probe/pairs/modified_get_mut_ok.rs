// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<Flagged<VecStorage<u64>>>::default();
    m.set_track_modified(true);
    m.insert(3, 7);
    let v = {
        let a = m.modified().join().next().unwrap().unwrap();
        *a
    };
    let b = m.get_mut(3).unwrap();
    *b = v;
}
