//! S10: program pairs (../probe/pairs).  Each pair is one program that the compiler has to refuse, because it would
//! alias, dangle or share what must not be shared, and the nearest one that it has to accept.  bin/accept.py asks
//! the compiler; every program it accepts is in PROGRAMS and runs here like any other simulated program.
use crate::cx::Cx;
use crate::rt::{self, *};
use serde::{Deserialize, Serialize};

include!(concat!(env!("OUT_DIR"), "/programs.rs"));

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub program: String,
}

pub fn gen(r: &mut Rng, _prop: &str, _thorough: bool) -> Plan {
    Plan { program: if PROGRAMS.is_empty() { String::new() } else { r.pick(PROGRAMS).0.to_string() } }
}

pub fn exec(p: &Plan) {
    if let Some(f) = PROGRAMS.iter().find(|x| x.0 == p.program) {
        rt::hit(if p.program.ends_with("_ok") { "probe:program_lawful" } else { "probe:program_unlawful" });
        let _ = attempt(|| (f.1)(&Cx));
    }
}
