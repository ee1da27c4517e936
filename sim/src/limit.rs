//! S9: an allocator that is nearly full: threads create entities until they are refused.  Every handle given out
//! has to be a real entity, a refusal must change nothing, and freed indices are handed out again.
use crate::rt::{self, *};
use goggles::entity::{Allocator, Entity};
use goggles::IntoJoinExt;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// entities there are before
    pub fill: u32,
    pub atomic: bool,
    pub merge: bool,
    /// attempts by each thread; the exclusive ones before
    pub excl: u32,
    pub ths: Vec<u32>,
    pub kill: u32,
}
pub const LIMIT: u32 = 1 << 24;

pub fn gen(r: &mut Rng, _prop: &str, _thorough: bool) -> Plan {
    let d = r.below(7) as u32;
    Plan {
        fill: LIMIT - d,
        atomic: r.chance(1, 3),
        merge: r.chance(1, 2),
        excl: if r.chance(1, 2) { r.below(d as u64 + 3) as u32 } else { 0 },
        ths: (0..r.below(4)).map(|_| r.below(6) as u32).collect(),
        kill: r.below(4) as u32,
    }
}

struct M(UnsafeCell<Vec<Entity>>);
unsafe impl Sync for M {}

fn got(a: &Allocator, m: &M, e: Entity) {
    let _q = Quiet::new();
    let v = unsafe { &mut *m.0.get() };
    if v.iter().any(|x| x.index() == e.index()) {
        viol!("C01", "limit-duplicate", "{:?} shares its index with another live entity", e);
        viol!("C04", "limit-duplicate", "{:?} shares its index with another live entity", e);
    }
    if !a.is_alive(e) || a.entity(e.index()) != Some(e) || !(&a.live_bitset()).contains_(e.index()) {
        viol!("C02", "limit-dead", "{:?} was created but is not alive in every way of asking", e);
        viol!("C05", "limit-dead", "{:?} was created but is not alive in every way of asking", e);
    }
    v.push(e);
}
trait C {
    fn contains_(&self, i: u32) -> bool;
}
impl<T: goggles::hibitset::BitSetLike> C for &T {
    fn contains_(&self, i: u32) -> bool {
        self.contains(i)
    }
}
/// How many entities are joined, and whether the late ones are among them.
fn count(a: &Allocator, m: &M, want: u64) {
    let _q = Quiet::new();
    let late = unsafe { &*m.0.get() };
    let (mut n, mut seen) = (0u64, 0);
    for e in a.join() {
        n += 1;
        if e.index() + 16 >= LIMIT && late.contains(&e) {
            seen += 1;
        }
    }
    let tail = late.iter().filter(|e| e.index() + 16 >= LIMIT).count();
    if n != want || seen != tail {
        viol!("C05", "limit-join", "a join yields {} entities instead of {}; {} of the {} last ones", n, want, seen, tail);
        viol!("C02", "limit-join", "a join yields {} entities instead of {}; {} of the {} last ones", n, want, seen, tail);
    }
}
fn top(a: &Allocator, fill: u32, m: &M) {
    let hi = unsafe { &*m.0.get() }.iter().map(|e| e.index() + 1).max().unwrap_or(0).max(fill);
    let got = a.max_entity_count();
    if got != hi {
        viol!("C04", "limit-max", "the maximum entity count is {} but the highest index handed out is {}", got, hi.wrapping_sub(1));
    }
}

/// A creation has been refused; nothing was freed so far.
fn early(a: &Allocator) {
    let n = a.max_entity_count();
    if n != LIMIT {
        viol!("C04", "refused-early", "a creation is refused although only {} indices have been handed out", n);
    }
}

pub fn exec(p: &Plan) {
    let fill = p.fill.clamp(LIMIT - 64, LIMIT);
    let m = M(UnsafeCell::new(vec![]));
    let mut a = Allocator::new();
    {
        let _s = Sys::new();
        for _ in 0..fill {
            if p.atomic {
                a.allocate_atomic();
            } else {
                a.allocate();
            }
        }
        if p.merge {
            a.merge_atomic(&mut vec![]);
        }
    }
    rt::hit("probe:full_allocator");
    let create = |a: &mut Allocator| match attempt(|| a.allocate()) {
        Ok(e) => {
            got(a, &m, e);
            true
        }
        Err(_) => {
            rt::hit("fault:index_exhaustion");
            top(a, fill, &m);
            early(a);
            false
        }
    };
    for _ in 0..p.excl.min(70) {
        create(&mut a);
    }
    {
        let (a, m) = (&a, &m);
        let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
            p.ths
                .iter()
                .take(5)
                .map(|n| {
                    Box::new(move || {
                        for _ in 0..(*n).min(70) {
                            match attempt(|| a.allocate_atomic()) {
                                Ok(e) => got(a, m, e),
                                Err(_) => {
                                    rt::hit("fault:index_exhaustion");
                                    early(a);
                                }
                            }
                        }
                    }) as Box<dyn FnOnce() + '_>
                })
                .collect()
        });
        threads(v);
        top(a, fill, m);
    }
    let made = quiet(|| unsafe { &*m.0.get() }.len());
    count(&a, &m, fill as u64 + made as u64);
    if !COLL.get().viols.is_empty() {
        std::mem::forget(a);
        return;
    }
    // free some of the last ones, in either way, and make them again
    let mut dead = 0;
    for k in 0..p.kill {
        let Some(e) = quiet(|| unsafe { &mut *m.0.get() }.pop()) else { break };
        let r = attempt(|| if k % 2 == 0 { a.kill(e).is_ok() } else { a.kill_atomic(e).is_ok() });
        if !matches!(r, Ok(true)) {
            viol!("C02", "limit-kill", "{:?} cannot be deleted", e);
        }
        dead += 1;
    }
    {
        let _s = Sys::new();
        a.merge_atomic(&mut vec![]);
    }
    for _ in 0..dead {
        if !create(&mut a) {
            viol!("C04", "limit-lost", "a freed index is not handed out again");
        }
    }
    top(&a, fill, &m);
    if dead > 0 {
        count(&a, &m, fill as u64 + made as u64);
    }
    std::mem::forget(a);
}
