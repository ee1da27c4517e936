// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<Flagged<VecStorage<u64>>>::default();
    m.set_track_modified(true);
    m.insert(3, 7);
    {
        let a = m.modified_mut().join().next().unwrap().unwrap();
        *a = *a;
    }
    let b = m.modified_mut().join().next().unwrap().unwrap();
    *b = *b;
}
