// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    {
        let a = s.read_resource::<u64>();
        cx.read(&*a);
    }
    cx.bump(s.get_resource_mut::<u64>());
}
