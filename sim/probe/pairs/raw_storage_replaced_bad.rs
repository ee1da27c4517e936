// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut m = MaskedStorage::<VecStorage<u64>>::default();
    m.insert(3, 7);
    let mut other = MaskedStorage::<VecStorage<u64>>::default();
    for i in 0..100 {
        other.insert(i * 50, i as u64 + 1000);
    }
    std::mem::swap(m.raw_storage_mut(), other.raw_storage_mut());
    cx.expect(other.get(4950).copied(), Some(1099));
    cx.expect(m.get(3).copied(), Some(7));
}
