// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    {
        let g = s.fetch::<ReadResource<u64>>();
        cx.read(&*g);
    }
    let mut b = s.fetch::<WriteResource<u64>>();
    cx.bump(&mut *b);
}
