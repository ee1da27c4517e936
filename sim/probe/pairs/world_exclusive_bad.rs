// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    let a = s.read_resource::<u64>();
    let b = s.get_resource_mut::<u64>();
    cx.both(&*a, b);
}
