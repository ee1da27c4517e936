// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let c = Yes::default();
    let mut m = MaskedStorage::<Flagged<HashMapStorage<&Yes>>>::default();
    for i in 0..4 {
        m.insert(i * 70, &c);
    }
    (&m).par_join().for_each(|x| x.touch());
}
