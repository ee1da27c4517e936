// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut s = World::new();
    s.insert_resource(7u64);
    {
        let a = s.read_resource::<u64>();
        
        cx.changed(&*a, 7);
    }
    let _ = s.remove_resource::<u64>();
}
