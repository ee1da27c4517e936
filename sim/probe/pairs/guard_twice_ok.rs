// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    m.guard().join().for_each(|mut g| cx.bump(g.get_mut()));
    m.guard().join().for_each(|mut g| cx.bump(g.get_mut()));
}
