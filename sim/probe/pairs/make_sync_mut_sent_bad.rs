// generated by tools/gen_probes.py
#![allow(unused)]
use crate::cx::*;
pub fn run(cx: &Cx) {
    let r = Loc::default();
    let mut m = MakeSync::new(r.clone());
    let m = &mut m;
    cx.par(move || m.get_mut().touch(), || r.touch());
}
