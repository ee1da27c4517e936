// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut g = m.guard().join().next().unwrap();
    {
        let a = g.get_mut();
        *a = *a;
    }
    let b = g.get_mut();
    *b = *b;
}
