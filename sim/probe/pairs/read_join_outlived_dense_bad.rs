// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut world = World::new();
    world.insert_component::<CFVec<u64>>();
    world.insert_component::<CDense<u64>>();
    let e = world.create_entity();
    world.get_component_mut::<CFVec<u64>>().insert(e, CFVec(7)).unwrap();
    world.get_component_mut::<CDense<u64>>().insert(e, CDense(7)).unwrap();
    let a = {
        let m = world.read_component::<CDense<u64>>();
        (&m).join().next().unwrap()
    };
    let mut b = world.write_component::<CDense<u64>>();
    cx.both(a, b.get_mut(e).unwrap());
}
