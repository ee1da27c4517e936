// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let c = Yes::default();
    let mut m = MaskedStorage::<Flagged<HashMapStorage<&Yes>>>::default();
    m.insert(3, &c);
    let g = m.get_guard(3).unwrap();
    cx.par(move || g.get().touch(), || c.touch());
}
