// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    {
        let g = s.read_resource::<u64>();
        cx.read(&*g);
    }
    let mut b = s.write_resource::<u64>();
    cx.bump(&mut *b);
}
