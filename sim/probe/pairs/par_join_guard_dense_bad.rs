// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let c = No::default();
    let mut m = MaskedStorage::<DenseVecStorage<&No>>::default();
    for i in 0..4 {
        m.insert(i * 70, &c);
    }
    m.guard().par_join().for_each(|mut x| x.get_mut().touch());
}
