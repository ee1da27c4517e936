// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    {
        let a = s.fetch::<ReadResource<u64>>();
        let _ = s.insert_resource(8u64);
        cx.changed(&*a, 7);
    }
    let _ = s.insert_resource(8u64);
}
