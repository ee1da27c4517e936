// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let mut world = World::new();
    world.insert_component::<CFVec<u64>>();
    world.insert_component::<CDense<u64>>();
    let e = world.create_entity();
    world.get_component_mut::<CFVec<u64>>().insert(e, CFVec(7)).unwrap();
    world.get_component_mut::<CDense<u64>>().insert(e, CDense(7)).unwrap();
    let mut m = world.write_component::<CFVec<u64>>();
    let a = &m.get(e).unwrap().0;
    let b = &mut m.get_mut(e).unwrap().0;
    cx.both(a, b);
}
