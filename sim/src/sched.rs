use crate::rt::{CCfg, Rng};
use serde::{Deserialize, Serialize};

/// Everything that decides the schedule of one run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    /// trace | random | pct | rr | burst
    pub strategy: String,
    pub seed: u64,
    #[serde(default)]
    pub fine: bool,
    #[serde(default)]
    pub p_mille: u32,
    #[serde(default)]
    pub quantum: u32,
    #[serde(default)]
    pub depth: u32,
    #[serde(default)]
    pub est_len: u32,
    #[serde(default)]
    pub stalls: u32,
    /// scheduling points after which a stalled thread goes on; 0: not before everybody else is done
    #[serde(default)]
    pub stall_max: u32,
    /// vector-clock race detector on
    #[serde(default)]
    pub race: bool,
    /// races in program pairs count for C23
    #[serde(default)]
    pub aliasing: bool,
    /// simulated rayon pool
    pub width: u32,
    #[serde(default)]
    pub injected: bool,
    /// explicit decisions (strategy "trace")
    #[serde(default)]
    pub trace: Vec<[u64; 3]>,
}

pub fn gen(r: &mut Rng, prop: &str) -> Sched {
    let strat = r.weighted(&[40, 30, 12, 18]);
    let widths = [1u32, 2, 2, 3, 4, 4, 6, 8];
    // points are placed log-uniformly: short runs and long runs both get theirs
    let est_len = (8u64 << r.below(9)) as u32 + r.below(16) as u32;
    let stalls = if prop == "C20" {
        1 + r.below(3) as u32
    } else if r.chance(1, 4) {
        1 + r.below(2) as u32
    } else {
        0
    };
    Sched {
        strategy: ["random", "pct", "rr", "burst"][strat].to_string(),
        seed: r.next() >> 12,
        fine: r.chance(3, 10),
        p_mille: *r.pick(&[20, 60, 150, 300, 500, 900]),
        quantum: if strat == 2 { 1 + r.below(12) as u32 } else { 2 << r.below(6) },
        depth: 1 + r.below(6) as u32,
        est_len,
        stalls,
        stall_max: if prop == "C20" { 0 } else { 20_000 },
        race: prop == "C19" || prop == "C23",
        aliasing: prop == "C23",
        width: *r.pick(&widths),
        injected: r.chance(1, 2),
        trace: Vec::new(),
    }
}

impl Sched {
    pub fn ccfg(&self) -> CCfg {
        CCfg {
            strategy: match self.strategy.as_str() {
                "random" => 1,
                "pct" => 2,
                "rr" => 3,
                "burst" => 4,
                _ => 0,
            },
            fine: self.fine as u32,
            seed: self.seed,
            p_mille: self.p_mille,
            quantum: self.quantum.max(1),
            pct_depth: self.depth,
            est_len: self.est_len.max(1),
            nstalls: self.stalls,
            race: self.race as u32,
            max_steps: 3_000_000,
            trace: self.trace.as_ptr() as usize,
            ntrace: self.trace.len() as u32,
            stall_max: self.stall_max,
        }
    }
}
