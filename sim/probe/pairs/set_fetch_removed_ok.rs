// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = ResourceSet::new();
    s.insert(7u64);
    {
        let a = s.fetch::<Read<u64>>();
        
        cx.changed(&*a, 7);
    }
    let _ = s.insert(8u64);
}
