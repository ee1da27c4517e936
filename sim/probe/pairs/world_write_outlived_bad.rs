// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    let a: &mut u64 = {
        let mut g = s.write_resource::<u64>();
        &mut *g
    };
    let mut b = s.write_resource::<u64>();
    cx.both_mut(a, &mut *b);
}
