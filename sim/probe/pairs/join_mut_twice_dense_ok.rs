// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<DenseVecStorage<u64>>::default();
    m.insert(3, 7);
    {
        let a = (&mut m).join().next().unwrap();
        *a = *a;
    }
    let b = (&mut m).join().next().unwrap();
    *b = *b;
}
