//! S3: a world with component storages of several kinds: creation, immediate and deferred deletion,
//! component access through live and stale handles from one or many threads, dynamic component sets,
//! destructor / clone / closure panics.  Compared with a map per component type keyed by entity.
use crate::comp::*;
use crate::rt::{self, *};
use crate::with_kind;
use goggles::hibitset::BitSetLike;
use goggles::masked::MaskedStorage;
use goggles::world::ComponentAccess;
use goggles::{AnyCloneComponentSet, AnyComponentSet, Entities, Entity, IntoJoinExt, ParJoinExt, World};
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::{Deref, DerefMut};

const NK: usize = KINDS as usize;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub kinds: u32,
    pub track: u32,
    pub ops: Vec<Op>,
    pub end_bomb: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create(u32, bool),
    /// a few entities with components of the given kinds
    Spawn(u32, u32),
    Kill(u32),
    Mark(u32),
    Merge,
    C(u32, u32, W),
    Read(u32, W),
    Bomb(u32, u32),
    Reg(u32),
    Unreg(u32),
    Track(u32, bool),
    Clear(u32),
    Par(u32, u32, u32),
    Conc(u32, Vec<Vec<T>>),
    DIns(bool, u32, u32),
    DRem(u32, u32),
    DMut(bool, u32, u32),
    DMerge(bool, u32),
    DApply(bool, u32, u32),
    DClone(u32),
    DBomb(bool, u32, u32, bool),
    DDrop(bool, u32),
    Audit,
    /// while unwinding from a panic
    Unw(Box<Op>),
    /// that many bare entities
    Bulk(u32, bool),
    /// a component of that kind for many entities
    Give(u32, u32),
    /// deletion requests for many entities
    Sweep(u32, u32),
}
/// an access through one component handle
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum W {
    Ins(u32),
    Rem(u32),
    Get(u32),
    GetMut(u32),
    Guard(u32, u32),
    Goi(u32, bool),
    Has(u32),
    Mark(u32),
    Join(u32),
    JoinMut(u32),
    Par(u32),
    Dflt(u32),
    GuardJ(u32),
    Mods(u32),
    Slice(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    Create,
    Mark(u32),
    Look(u32),
    Acc(u32, W),
    Rel,
}

fn gen_w(r: &mut Rng, prop: &str) -> W {
    let s = r.sel();
    //                  Ins Rem Get GMut Guard Goi Has Mark Join JMut Par Dflt GuardJ Mods Slice
    let w: [u32; 15] = match prop {
        "C10" => [18, 12, 4, 12, 14, 8, 2, 16, 3, 8, 6, 4, 10, 12, 0],
        "C07" => [14, 12, 12, 10, 10, 10, 8, 8, 4, 4, 2, 6, 3, 2, 2],
        "C09" => [26, 18, 4, 4, 2, 16, 2, 1, 2, 2, 2, 8, 1, 1, 1],
        "C11" => [20, 8, 3, 3, 3, 3, 3, 3, 4, 4, 40, 2, 2, 2, 1],
        "C20" => [14, 6, 8, 10, 6, 6, 4, 26, 4, 4, 0, 3, 3, 3, 1],
        _ => [26, 10, 8, 8, 6, 10, 4, 4, 6, 5, 4, 5, 3, 3, 2],
    };
    match r.weighted(&w) {
        0 => W::Ins(s),
        1 => W::Rem(s),
        2 => W::Get(s),
        3 => W::GetMut(s),
        4 => W::Guard(s, r.below(4) as u32),
        5 => W::Goi(s, r.chance(1, 4)),
        6 => W::Has(s),
        7 => W::Mark(s),
        8 => W::Join(if r.chance(2, 3) { u32::MAX } else { 1 + r.below(6) as u32 }),
        9 => W::JoinMut(s),
        10 => W::Par(s),
        11 => W::Dflt(s),
        12 => W::GuardJ(s),
        13 => W::Mods(s),
        _ => W::Slice(s),
    }
}
fn gen_t(r: &mut Rng, prop: &str, k: u32) -> T {
    match r.weighted(&[20, 14, 12, 50, 4]) {
        0 => T::Create,
        1 => T::Mark(r.sel()),
        2 => T::Look(r.sel()),
        3 => T::Acc(if r.chance(3, 4) { k } else { r.below(KINDS as u64) as u32 }, gen_w(r, prop)),
        _ => T::Rel,
    }
}

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let mut kinds = 0;
    for _ in 0..1 + r.below(5) {
        kinds |= 1 << r.below(KINDS as u64);
    }
    if prop == "C10" || prop == "C20" {
        kinds |= 1 << (3 + r.below(3));
    }
    let klist: Vec<u32> = (0..KINDS).filter(|k| kinds >> k & 1 == 1).collect();
    let n = 3 + r.below(if thorough { 30 } else { 18 });
    let mut ops = vec![];
    let most = [8, 70, 150][r.weighted(&[42, 6, 1])];
    ops.push(Op::Spawn(1 + r.below(most) as u32, r.sel()));
    //               Create Spawn Kill Mark Merge C Read Bomb Reg Unreg Track Clear Par Conc dyn Audit
    let w: [u32; 16] = match prop {
        "C06" | "C13" => [8, 8, 16, 10, 10, 14, 2, 14, 3, 2, 1, 1, 1, 16, 2, 1],
        "C07" => [8, 6, 14, 8, 8, 28, 6, 1, 1, 1, 1, 1, 2, 26, 2, 1],
        "C09" => [6, 8, 12, 8, 8, 18, 1, 10, 4, 3, 1, 1, 3, 10, 12, 1],
        "C10" => [5, 6, 10, 8, 8, 26, 3, 2, 1, 1, 8, 10, 6, 24, 3, 1],
        "C11" => [6, 12, 6, 5, 4, 10, 2, 1, 1, 1, 1, 1, 30, 20, 1, 1],
        "C18" => [6, 8, 5, 3, 4, 8, 1, 4, 2, 2, 1, 1, 1, 3, 60, 2],
        "C19" | "C20" => [6, 6, 5, 5, 5, 10, 2, 2, 1, 1, 1, 1, 6, 50, 2, 1],
        "C25" => [8, 8, 10, 8, 8, 22, 4, 4, 9, 6, 2, 2, 4, 12, 6, 2],
        _ => [8, 8, 10, 8, 8, 18, 4, 4, 2, 2, 2, 2, 4, 20, 8, 2],
    };
    // mostly a kind that is registered
    let kind = |r: &mut Rng| if r.chance(9, 10) { *r.pick(&klist) } else { r.below(KINDS as u64) as u32 };
    let unw = r.chance(1, 3);
    if r.chance(1, if thorough { 25 } else { 50 }) {
        // component indices around the next level of the bit sets
        ops.push(Op::Bulk(r.range(4080, 4100) as u32, r.chance(1, 2)));
        ops.push(Op::Spawn(8 + r.below(20) as u32, r.sel()));
        if r.chance(1, 2) {
            let many = |r: &mut Rng| if r.chance(1, 2) { r.range(60, 300) } else { r.range(900, 4200) } as u32;
            for _ in 0..1 + r.below(2) {
                ops.push(Op::Give(*r.pick(&klist), many(r)));
            }
            if r.chance(2, 3) {
                ops.push(Op::Sweep(r.sel(), many(r)));
                ops.push(Op::Merge);
            }
        }
    }
    for _ in 0..n {
        let k = kind(r);
        if r.chance(1, 150) {
            // many at once
            if r.chance(1, 2) {
                ops.push(Op::Spawn(r.range(20, 140) as u32, r.sel()));
            }
            let mark = r.chance(2, 3);
            for _ in 0..r.range(20, 140) {
                ops.push(if mark { Op::Mark(r.sel()) } else { Op::Kill(r.sel()) });
            }
            ops.push(Op::Merge);
        }
        let op = match r.weighted(&w) {
            0 => Op::Create(1 + r.below(3) as u32, r.chance(1, 2)),
            1 => Op::Spawn(1 + r.below(6) as u32, r.sel()),
            2 => Op::Kill(r.sel()),
            3 => Op::Mark(r.sel()),
            4 => Op::Merge,
            5 => Op::C(k, r.below(3) as u32, gen_w(r, prop)),
            6 => Op::Read(k, gen_w(r, prop)),
            7 => Op::Bomb(k, r.sel()),
            8 => Op::Reg(k),
            9 => Op::Unreg(k),
            10 => Op::Track(k, r.chance(3, 4)),
            11 => Op::Clear(k),
            12 => Op::Par(k, kind(r), r.sel()),
            13 => {
                let nt = 2 + r.below(3);
                let ro = if r.chance(if prop == "C20" { 2 } else { 1 }, 3) { (r.next() & 0xff) as u32 } else { 0 };
                let mut ths: Vec<Vec<T>> = vec![];
                for t in 0..nt {
                    // a kind this thread owns, if any
                    let own: Vec<u32> = klist.iter().copied().filter(|k| *k as u64 % nt == t).collect();
                    let k = if own.is_empty() { kind(r) } else { *r.pick(&own) };
                    ths.push((0..1 + r.below(if thorough { 10 } else { 7 })).map(|_| gen_t(r, prop, k)).collect());
                }
                if r.chance(1, 40) {
                    // a flood
                    let t = r.below(nt) as usize;
                    let make = r.chance(1, 2);
                    for _ in 0..r.range(20, 100) {
                        ths[t].push(if make { T::Create } else { T::Mark(r.sel()) });
                    }
                }
                Op::Conc(ro, ths)
            }
            14 => {
                let (c, s) = (r.chance(1, 2), r.sel());
                match r.weighted(&[34, 4, 6, 10, 24, 10, 14, 3]) {
                    0 => Op::DIns(c, s, k),
                    1 => Op::DRem(s, k),
                    2 => Op::DMut(c, s, k),
                    3 => Op::DMerge(c, s),
                    4 => Op::DApply(c, s, r.sel()),
                    5 => Op::DClone(s),
                    6 => {
                        // a fault, and something that may meet it
                        let clone = r.chance(1, 2);
                        ops.push(Op::DBomb(c || clone, s, k, clone));
                        match r.below(4) {
                            0 => Op::DClone(s),
                            1 => Op::DMerge(c, s ^ 1),
                            _ => Op::DApply(c || clone, s, r.sel()),
                        }
                    }
                    _ => Op::DDrop(c, s),
                }
            }
            _ => Op::Audit,
        };
        ops.push(if unw && r.chance(1, 10) { Op::Unw(Box::new(op)) } else { op });
    }
    Plan { kinds, track: r.below(256) as u32, ops, end_bomb: r.sel() }
}

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, PartialEq, Debug)]
struct Held {
    owner: Entity,
    id: u32,
    p: u64,
}
#[derive(Default)]
struct Kind {
    reg: bool,
    map: BTreeMap<u32, Held>,
    tracking: bool,
    modified: BTreeSet<u32>,
    mark_started: BTreeSet<u32>,
}
#[derive(Default)]
struct M {
    k: [Kind; NK],
    /// every handle ever seen -> alive
    state: HashMap<Entity, bool>,
    alive: Vec<Entity>,
    dead: Vec<Entity>,
    marked: HashSet<Entity>,
    /// seen by a lookup while their creation has not returned: a join may or may not show them
    inflight: HashSet<Entity>,
    sets: [BTreeMap<u32, (u32, u64)>; 2],
    csets: [BTreeMap<u32, (u32, u64)>; 2],
    held: HashMap<u32, u32>,
    visited: HashSet<u32>,
    ctr: u64,
    /// concurrent phase: kinds nobody writes, number of threads
    conc: bool,
    /// one more than the largest index handed out, as reported
    hi: u32,
    /// creations in the concurrent phase
    made: u32,
}
struct MC(UnsafeCell<M>);
unsafe impl Sync for MC {}
impl MC {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut M {
        unsafe { &mut *self.0.get() }
    }
}
/// Every index that has to be there, in order, and otherwise only those that may be.
fn joined(got: &[u32], want: &[u32], soft: &[u32]) -> bool {
    got.windows(2).all(|w| w[0] < w[1])
        && got.iter().all(|i| want.binary_search(i).is_ok())
        && want.iter().all(|i| got.binary_search(i).is_ok() || soft.contains(i))
}
fn tracked(k: u32) -> bool {
    (3..6).contains(&k)
}
impl M {
    /// The indices a join of the entities with this kind has to yield, and those of them it may miss.
    fn to_join(&self, k: u32) -> (Vec<u32>, Vec<u32>) {
        let map = &self.k[k as usize].map;
        (map.keys().copied().collect(), map.iter().filter(|h| self.inflight.contains(&h.1.owner)).map(|h| *h.0).collect())
    }
    fn seen(&mut self, e: Entity) -> bool {
        match self.state.get(&e) {
            Some(a) => *a,
            None => {
                self.state.insert(e, true);
                self.alive.push(e);
                true
            }
        }
    }
    fn is_alive(&self, e: Entity) -> bool {
        self.state.get(&e) == Some(&true)
    }
    fn flag(&mut self, k: u32, i: u32) {
        let s = &mut self.k[k as usize];
        if s.tracking && tracked(k) {
            s.modified.insert(i);
        }
    }
    fn die(&mut self, e: Entity) {
        self.state.insert(e, false);
        self.alive.retain(|x| *x != e);
        self.dead.push(e);
        self.marked.remove(&e);
        for k in 0..KINDS {
            if self.k[k as usize].map.remove(&e.index()).is_some() {
                self.flag(k, e.index());
            }
        }
    }
    fn pick(&self, sel: u32) -> Option<Entity> {
        let k = (sel / 8) as usize;
        let from = |v: &Vec<Entity>, back: usize| {
            if v.is_empty() {
                None
            } else if back == 0 {
                Some(v[k % v.len()])
            } else {
                Some(v[v.len() - 1 - k % v.len().min(back)])
            }
        };
        match sel % 8 {
            0 | 1 => from(&self.alive, 0),
            2 | 3 => from(&self.alive, 4),
            4 => from(&self.alive, 0).or_else(|| from(&self.dead, 4)),
            5 | 6 => from(&self.dead, 5).or_else(|| from(&self.alive, 0)),
            _ => from(&self.dead, 0).or_else(|| from(&self.alive, 0)),
        }
    }
    fn fresh(&mut self) -> u64 {
        self.ctr += 1;
        mix(self.ctr)
    }
}
fn new_p(salt: u32, old: u64) -> u64 {
    mix(old ^ ((salt as u64) << 32) ^ 0x99)
}

fn same(prop: &'static str, how: &str, e: Entity, v: &Val, want: Option<Held>) {
    let (ok, id, p) = (v.ok(), v.id, v.payload);
    let _q = Quiet::new();
    if !ok {
        viol!("C19", "garbage", "{} for {:?} reads memory that holds no value", how, e);
        viol!("C09", "garbage", "{} for {:?} yields something that is not a value", how, e);
        viol!(prop, "garbage", "{} for {:?} yields something that is not a value", how, e);
        return;
    }
    match want {
        None => {
            viol!(prop, "ghost", "{} for {:?} yields value {}, but this entity has no such component", how, e, id);
            if prop != "C06" {
                viol!("C06", "inherited", "{} for {:?} yields value {}, which this entity was never given", how, e, id);
            }
        }
        Some(h) if h.id != id || h.p != p => {
            viol!(prop, "wrong-value", "{} for {:?} yields value {} ({:#x}), its own is {} ({:#x})", how, e, id, p, h.id, h.p)
        }
        _ => {}
    }
}
fn same_opt(how: &str, e: Entity, got: Option<&Val>, want: Option<Held>) {
    match (got, want) {
        (Some(v), w) => same("C07", how, e, v, w),
        (None, Some(h)) => viol!("C07", "missing", "{} for {:?} finds nothing, its value is {}", how, e, h.id),
        _ => {}
    }
}

// ------------------------------------------------------------------ access through one handle

fn target(mc: &MC, k: u32, sel: u32) -> Option<(Entity, bool, Option<Held>)> {
    quiet(|| {
        let m = mc.g();
        let e = m.pick(sel)?;
        let alive = m.is_alive(e);
        if !alive {
            rt::hit("probe:stale_access");
            if m.alive.iter().any(|x| x.index() == e.index()) {
                rt::hit("probe:stale_access_reused");
            }
        }
        let want = if alive { m.k[k as usize].map.get(&e.index()).copied() } else { None };
        Some((e, alive, want))
    })
}

/// Right after an access through a stale handle: whatever lives at the index now is untouched.
fn untouched<C: CompT, R: Deref<Target = MaskedStorage<C::St>>>(g: &ComponentAccess<C, R>, mc: &MC, e: Entity, how: &str) {
    let i = e.index();
    let want = quiet(|| mc.g().k[C::KIND as usize].map.get(&i).copied());
    match (g.storage().get(i), want) {
        (None, None) => {}
        (Some(c), Some(h)) => {
            if c.v().id != h.id || c.v().payload != h.p {
                viol!("C07", "stale-write", "{} through the stale handle {:?} changed the component of its successor", how, e);
            }
        }
        (g, h) => viol!(
            "C07", "stale-write",
            "{} through the stale handle {:?}: component of its index present {} -> {}", how, e, h.is_some(), g.is_some()
        ),
    }
}

fn read_op<C: CompT, R: Deref<Target = MaskedStorage<C::St>>>(
    g: &ComponentAccess<C, R>,
    ents: &Entities,
    mc: &MC,
    op: &W,
    writer: bool,
) {
    let k = C::KIND;
    match op {
        W::Has(s) | W::Rem(s) => {
            let Some((e, _, want)) = target(mc, k, *s) else { return };
            let got = g.contains(e);
            if got != want.is_some() {
                viol!("C07", "contains", "contains({:?}) is {}", e, got);
            }
        }
        W::Mark(s) => {
            let Some((e, alive, _)) = target(mc, k, *s) else { return };
            quiet(|| {
                if alive {
                    mc.g().k[k as usize].mark_started.insert(e.index());
                }
            });
            let before = C::St::modified(g.storage()).map(|b| b.contains(e.index()));
            let Some(r) = C::w_mark(g, e) else { return };
            match (r.is_ok(), alive) {
                (true, true) => quiet(|| {
                    mc.g().k[k as usize].modified.insert(e.index());
                }),
                (true, false) => viol!("C07", "stale-accepted", "mark_modified accepted the stale handle {:?}", e),
                (false, true) => viol!("C07", "live-refused", "mark_modified refused the live handle {:?}", e),
                (false, false) => {
                    let started = quiet(|| mc.g().k[k as usize].mark_started.contains(&e.index()));
                    if before == Some(false) && !started && C::St::modified(g.storage()).unwrap().contains(e.index()) {
                        viol!("C07", "stale-flag", "mark_modified through the stale handle {:?} flagged its index", e);
                    }
                }
            }
        }
        W::Join(n) => {
            let mut got = quiet(Vec::new);
            let (before, soft) = quiet(|| mc.g().to_join(k));
            let mut k2 = 0;
            for (e, c) in (ents, g).join() {
                let want = quiet(|| mc.g().k[k as usize].map.get(&e.index()).copied().filter(|h| h.owner == e));
                same("C07", "join", e, c.v(), want);
                quiet(|| got.push(e.index()));
                k2 += 1;
                if k2 >= *n {
                    break;
                }
            }
            quiet(|| {
                if k2 < *n && !joined(&got, &before, &soft) {
                    viol!("C07", "join-set", "joining entities with a component yields {:?}, expected {:?}", got, before);
                }
                drop(got);
                drop((before, soft));
            });
        }
        W::Mods(_) => {
            let before: Vec<u32> = quiet(|| mc.g().k[k as usize].modified.iter().copied().collect());
            let mut got = quiet(BTreeSet::new);
            let t = C::w_modified(g, &mut |i, x| {
                let want = quiet(|| {
                    got.insert(i);
                    mc.g().k[k as usize].map.get(&i).copied()
                });
                match (x, want) {
                    (Some(c), Some(h)) => same("C10", "modified join", h.owner, c.v(), want),
                    (None, None) => {}
                    _ => viol!("C10", "modified-join", "modified join at {}: present {}, stored {}", i, x.is_some(), want.is_some()),
                }
            });
            quiet(|| {
                let s = &mc.g().k[k as usize];
                if let Some(t) = t {
                    if t != s.tracking {
                        viol!("C10", "tracking", "kind {}: tracking reads {}", k, t);
                    }
                    if let Some(i) = before.iter().find(|i| !got.contains(i)) {
                        viol!("C10", "flag-lost", "the modified join skipped index {}, flagged before it began", i);
                    }
                    if let Some(i) = got.iter().find(|i| !s.modified.contains(i) && !s.mark_started.contains(i)) {
                        viol!("C10", "flag-invented", "the modified join yielded index {}, nobody flagged it", i);
                    }
                }
                drop(before);
                drop(got);
            });
        }
        W::Slice(_) => {
            if let Some(sl) = C::w_slice(g) {
                let mut ids: Vec<(u32, u64)> = quiet(Vec::new);
                for c in sl {
                    let x = (c.v().id, c.v().payload);
                    quiet(|| ids.push(x));
                }
                quiet(|| {
                    ids.sort();
                    let mut want: Vec<_> = mc.g().k[k as usize].map.values().map(|h| (h.id, h.p)).collect();
                    want.sort();
                    if ids != want {
                        viol!("C08", "slice", "the dense slice holds {} values, the map {}", ids.len(), want.len());
                    }
                    drop(ids);
                });
            }
        }
        _ => {
            let (W::Get(s) | W::GetMut(s) | W::Ins(s) | W::Guard(s, _) | W::Goi(s, _) | W::JoinMut(s) | W::Par(s)
            | W::Dflt(s) | W::GuardJ(s)) = op
            else {
                return;
            };
            let Some((e, _, want)) = target(mc, k, *s) else { return };
            same_opt("get", e, g.get(e).map(|c| c.v()), want);
        }
    }
    let _ = writer;
}

fn write_op<C: CompT, R: DerefMut<Target = MaskedStorage<C::St>>>(
    g: &mut ComponentAccess<C, R>,
    ents: &Entities,
    mc: &MC,
    op: &W,
) {
    let k = C::KIND;
    let mk = || C::mk(Val::new(quiet(|| mc.g().fresh())));
    let put = |e: Entity, id: u32, p: u64| {
        quiet(|| {
            let m = mc.g();
            m.k[k as usize].map.insert(e.index(), Held { owner: e, id, p });
            m.flag(k, e.index());
        })
    };
    let upd = |i: u32, p: u64| {
        quiet(|| {
            let m = mc.g();
            if let Some(h) = m.k[k as usize].map.get_mut(&i) {
                h.p = p;
            }
            m.flag(k, i);
        })
    };
    // for operations through stale handles: what was flagged before
    let bit = |g: &ComponentAccess<C, R>, e: Entity| C::St::modified(g.storage()).map(|b| b.contains(e.index()));
    let stale = |g: &ComponentAccess<C, R>, e: Entity, before: Option<bool>, how: &str| {
        untouched(g, mc, e, how);
        if before == Some(false) && bit(g, e) == Some(true) {
            viol!("C07", "stale-flag", "{} through the stale handle {:?} flagged its index", how, e);
        }
    };
    match op {
        W::Ins(s) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let v = mk();
            let (id, p) = (v.v().id, v.v().payload);
            let b = bit(g, e);
            match (g.insert(e, v), alive) {
                (Ok(old), true) => {
                    put(e, id, p);
                    same_opt("value replaced by insert", e, old.as_ref().map(|c| c.v()), want);
                    let _ = attempt(|| drop(old));
                }
                (Err(_), false) => stale(g, e, b, "insert"),
                (Ok(_), false) => viol!("C07", "stale-accepted", "insert accepted the stale handle {:?}", e),
                (Err(_), true) => viol!("C07", "live-refused", "insert refused the live handle {:?}", e),
            }
        }
        W::Rem(s) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let b = bit(g, e);
            match (g.remove(e), alive) {
                (Ok(old), true) => {
                    quiet(|| {
                        let m = mc.g();
                        if m.k[k as usize].map.remove(&e.index()).is_some() {
                            m.flag(k, e.index());
                        }
                    });
                    same_opt("remove", e, old.as_ref().map(|c| c.v()), want);
                    let _ = attempt(|| drop(old));
                }
                (Err(_), false) => stale(g, e, b, "remove"),
                (Ok(_), false) => viol!("C07", "stale-accepted", "remove accepted the stale handle {:?}", e),
                (Err(_), true) => viol!("C07", "live-refused", "remove refused the live handle {:?}", e),
            }
        }
        W::GetMut(s) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let b = bit(g, e);
            match g.get_mut(e) {
                Some(x) => {
                    same("C07", "get_mut", e, x.v(), want);
                    let np = new_p(*s, x.v().payload);
                    x.vm().payload = np;
                    if want.is_some() {
                        upd(e.index(), np);
                    }
                }
                None => same_opt("get_mut", e, None, want),
            }
            if !alive {
                stale(g, e, b, "get_mut");
            }
        }
        W::Guard(s, mode) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let b = bit(g, e);
            match g.get_guard(e) {
                Some(mut x) => {
                    if want.is_none() {
                        viol!("C07", "ghost", "get_guard for {:?} yields an element it does not have", e);
                    } else {
                        match mode % 4 {
                            0 => {}
                            1 => same("C07", "guard", e, x.get().v(), want),
                            2 => {
                                let y = x.get_mut();
                                same("C07", "guard", e, y.v(), want);
                                let np = new_p(*s, y.v().payload);
                                y.vm().payload = np;
                                upd(e.index(), np);
                            }
                            _ => {
                                if C::St::TRACKED {
                                    C::St::guard_mark(&x);
                                    quiet(|| mc.g().k[k as usize].modified.insert(e.index()));
                                }
                            }
                        }
                    }
                }
                None => same_opt("get_guard", e, None, want),
            }
            if !alive {
                stale(g, e, b, "get_guard");
            }
        }
        W::Goi(s, boom) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let b = bit(g, e);
            let mut made = None;
            let mut called = false;
            let r = attempt(|| {
                g.get_or_insert_with(e, || {
                    called = true;
                    if *boom {
                        rt::hit("fault:closure_panic");
                        inject(7);
                    }
                    let v = mk();
                    made = Some((v.v().id, v.v().payload));
                    v
                })
                .map(|x| {
                    let w = want.or(made.map(|(id, p)| Held { owner: e, id, p }));
                    same("C07", "get_or_insert_with", e, x.v(), w);
                    let np = new_p(*s, x.v().payload);
                    x.vm().payload = np;
                    np
                })
                .ok()
            });
            match (r, alive) {
                (Ok(Some(np)), true) => {
                    if let (Some((id, p)), None) = (made, want) {
                        put(e, id, p);
                    }
                    upd(e.index(), np);
                }
                (Ok(None), false) => {
                    if called {
                        viol!("C07", "stale-closure", "get_or_insert_with ran its closure for the stale handle {:?}", e);
                    }
                    stale(g, e, b, "get_or_insert_with")
                }
                (Err(Caught::Injected(7)), true) if want.is_none() => {
                    if g.contains(e) {
                        viol!("C08", "presence", "a panicking closure left {:?} with a component", e);
                    }
                }
                (Ok(Some(_)), false) => viol!("C07", "stale-accepted", "get_or_insert_with accepted the stale handle {:?}", e),
                (Ok(None), true) => viol!("C07", "live-refused", "get_or_insert_with refused the live handle {:?}", e),
                (Err(_), _) => viol!("C07", "unexpected-panic", "get_or_insert_with for {:?} panicked", e),
            }
        }
        W::Dflt(s) => {
            let Some((e, alive, want)) = target(mc, k, *s) else { return };
            let b = bit(g, e);
            let n0 = quiet(|| vals().dropped.len() as u32);
            match (g.get_or_default(e), alive) {
                (Ok(x), true) => {
                    let w = want.or(Some(Held { owner: e, id: x.v().id, p: DEFAULT }));
                    same("C07", "get_or_default", e, x.v(), w);
                    if want.is_none() && x.v().id < n0 {
                        viol!("C07", "ghost", "get_or_default gives {:?} an old value", e);
                    }
                    let (id, old) = (x.v().id, x.v().payload);
                    let np = new_p(*s, old);
                    x.vm().payload = np;
                    if want.is_none() {
                        put(e, id, old);
                    }
                    upd(e.index(), np);
                }
                (Err(_), false) => {
                    // (other threads may be making values)
                    stale(g, e, b, "get_or_default")
                }
                (Ok(_), false) => viol!("C07", "stale-accepted", "get_or_default accepted the stale handle {:?}", e),
                (Err(_), true) => viol!("C07", "live-refused", "get_or_default refused the live handle {:?}", e),
            }
        }
        W::GuardJ(s) => {
            let (want, soft) = quiet(|| mc.g().to_join(k));
            let mut got = quiet(Vec::new);
            for (e, mut x) in (ents, g.guard()).join() {
                let i = e.index();
                let h = quiet(|| mc.g().k[k as usize].map.get(&i).copied().filter(|h| h.owner == e));
                match mix(*s as u64 + i as u64) % 4 {
                    0 => {}
                    1 => same("C07", "guarded join", e, x.get().v(), h),
                    2 => {
                        let y = x.get_mut();
                        same("C07", "guarded join", e, y.v(), h);
                        let np = new_p(*s, y.v().payload);
                        y.vm().payload = np;
                        upd(i, np);
                    }
                    _ => {
                        if C::St::TRACKED {
                            quiet(|| mc.g().k[k as usize].modified.insert(i));
                            C::St::guard_mark(&x);
                        }
                    }
                }
                quiet(|| got.push(i));
            }
            quiet(|| {
                if !joined(&got, &want, &soft) {
                    viol!("C07", "join-set", "the guarded join yields {:?}, expected {:?}", got, want);
                }
                drop(got);
                drop((want, soft));
            });
        }
        W::Mods(s) if s % 2 == 0 => {
            let before: Vec<u32> = quiet(|| mc.g().k[k as usize].modified.iter().copied().collect());
            let mut got = quiet(Vec::new);
            C::w_modified_mut(g, &mut |i, x| {
                let want = quiet(|| {
                    got.push(i);
                    mc.g().k[k as usize].map.get(&i).copied()
                });
                match (x, want) {
                    (Some(c), Some(h)) => {
                        same("C10", "mutable modified join", h.owner, c.v(), want);
                        let np = new_p(*s, c.v().payload);
                        c.vm().payload = np;
                        upd(i, np);
                    }
                    (None, None) => {}
                    (g, w) => {
                        viol!("C10", "modified-join", "mutable modified join at {}: present {}, stored {}", i, g.is_some(), w.is_some())
                    }
                }
            });
            quiet(|| {
                if tracked(k) && got != before {
                    viol!("C10", "modified-join", "the mutable modified join yields {:?}, flagged were {:?}", got, before);
                }
                drop(before);
                drop(got);
            });
        }
        W::Slice(s) if s % 2 == 0 => {
            if let Some(sl) = C::w_slice_mut(g) {
                for x in sl {
                    let (id, p) = (x.v().id, x.v().payload);
                    let i = quiet(|| mc.g().k[k as usize].map.iter().find(|h| h.1.id == id).map(|h| *h.0));
                    match i {
                        Some(i) => {
                            let np = new_p(*s, p);
                            x.vm().payload = np;
                            upd(i, np);
                        }
                        None => viol!("C08", "ghost", "the dense slice holds value {}, which is not stored", id),
                    }
                }
            }
        }
        W::JoinMut(s) => {
            let (want, soft) = quiet(|| mc.g().to_join(k));
            let mut got = quiet(Vec::new);
            for (e, c) in (ents, &mut *g).join() {
                let h = quiet(|| mc.g().k[k as usize].map.get(&e.index()).copied().filter(|h| h.owner == e));
                same("C07", "mutable join", e, c.v(), h);
                let np = new_p(*s, c.v().payload);
                c.vm().payload = np;
                upd(e.index(), np);
                quiet(|| got.push(e.index()));
            }
            quiet(|| {
                if !joined(&got, &want, &soft) {
                    viol!("C07", "join-set", "joining entities with a component yields {:?}, expected {:?}", got, want);
                }
                drop(got);
                drop((want, soft));
            });
        }
        W::Par(s) => {
            let (want, soft) = quiet(|| mc.g().to_join(k));
            let seen = Visits::new();
            let salt = *s;
            // two in three runs of this stop at some entity by panicking
            let boom = if salt % 5 == 0 && !want.is_empty() { Some(want[salt as usize / 5 % want.len()]) } else { None };
            let r = attempt(|| {
                (ents, g.storage_mut()).par_join().for_each(|(e, c): (Entity, &mut C)| {
                    seen.enter(e.index());
                    let h = quiet(|| mc.g().k[k as usize].map.get(&e.index()).copied().filter(|h| h.owner == e));
                    same("C11", "parallel join", e, c.v(), h);
                    let np = new_p(salt, c.v().payload);
                    c.vm().payload = np;
                    upd(e.index(), np);
                    yield_now();
                    if c.v().payload != np {
                        viol!("C11", "shared-item", "the item of {:?} changed under its holder", e);
                    }
                    seen.leave(e.index());
                    if boom == Some(e.index()) {
                        rt::hit("fault:body_panic");
                        inject(e.index());
                    }
                })
            });
            seen.finish(&want, &soft, r, boom);
            quiet(|| drop((want, soft)));
        }
        _ => read_op(&*g, ents, mc, op, true),
    }
}

/// Exactly-once bookkeeping of one parallel join.
struct Visits(UnsafeCell<(HashMap<u32, u32>, BTreeSet<u32>)>);
unsafe impl Sync for Visits {}
impl Visits {
    fn new() -> Visits {
        quiet(|| Visits(UnsafeCell::new(Default::default())))
    }
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut (HashMap<u32, u32>, BTreeSet<u32>) {
        unsafe { &mut *self.0.get() }
    }
    fn enter(&self, i: u32) {
        quiet(|| {
            let g = self.g();
            if let Some(o) = g.0.insert(i, rt::me()) {
                viol!("C11", "shared-item", "threads {} and {} hold index {} at the same time", o, rt::me(), i);
            }
            if g.0.len() > 1 {
                rt::hit("probe:items_held_together");
            }
            if !g.1.insert(i) {
                viol!("C11", "visited-twice", "index {} was visited twice", i);
            }
        })
    }
    fn leave(&self, i: u32) {
        quiet(|| {
            self.g().0.remove(&i);
        })
    }
    fn finish(self, want: &[u32], soft: &[u32], r: Result<(), Caught>, boom: Option<u32>) {
        let _q = Quiet::new();
        let (held, seen) = self.0.into_inner();
        if !held.is_empty() {
            viol!("C11", "still-running", "the join returned while {} bodies were running", held.len());
        }
        if let Some(x) = seen.iter().find(|i| !want.contains(i)) {
            viol!("C11", "extra-index", "the join visited index {}, which does not match", x);
        }
        match r {
            Ok(()) => {
                if boom.map_or(false, |b| seen.contains(&b)) {
                    viol!("C11", "panic-lost", "a loop body panicked but the join returned normally");
                }
                if want.iter().any(|i| !seen.contains(i) && !soft.contains(i)) {
                    viol!("C11", "missed", "the join visited {} of {} indices", seen.len(), want.len());
                }
            }
            Err(Caught::Injected(i)) if Some(i) == boom => {}
            Err(_) => viol!("C11", "unexpected-panic", "the join panicked: {}", COLL.get().last_panic),
        }
    }
}

trait Acc {
    fn op(&mut self, ents: &Entities, mc: &MC, op: &W);
}
struct WAcc<'a, C: CompT>(goggles::WriteComponent<'a, C>);
struct RAcc<'a, C: CompT>(goggles::ReadComponent<'a, C>);
impl<C: CompT> Acc for WAcc<'_, C> {
    fn op(&mut self, ents: &Entities, mc: &MC, op: &W) {
        write_op(&mut self.0, ents, mc, op)
    }
}
impl<C: CompT> Acc for RAcc<'_, C> {
    fn op(&mut self, ents: &Entities, mc: &MC, op: &W) {
        read_op(&self.0, ents, mc, op, false)
    }
}

// ------------------------------------------------------------------ audits

fn audit_kind<C: CompT>(w: &World, mc: &MC) {
    let m = mc.g();
    let k = C::KIND as usize;
    if w.contains_component::<C>() != m.k[k].reg {
        viol!("C06", "registration", "contains_component answers {}", !m.k[k].reg);
        return;
    }
    if !m.k[k].reg {
        return;
    }
    let g = w.read_component::<C>();
    let keys: Vec<u32> = g.mask().iter().collect();
    if !keys.iter().eq(m.k[k].map.keys()) {
        for i in &keys {
            if !m.k[k].map.contains_key(i) {
                match m.alive.iter().find(|e| e.index() == *i) {
                    Some(e) => {
                        viol!("C06", "inherited", "{:?} has a component of kind {} it was never given", e, k);
                        viol!("C07", "ghost", "{:?} has a component of kind {} it was never given", e, k);
                    }
                    None => {
                        viol!("C06", "left-behind", "a component of kind {} is still stored for dead index {}", k, i);
                    }
                }
            }
        }
        if let Some((i, h)) = m.k[k].map.iter().find(|x| !keys.contains(x.0)) {
            viol!("C07", "missing", "the component of kind {} of {:?} is gone (value {}, index {})", k, h.owner, h.id, i);
            viol!("C08", "missing", "the component of kind {} of {:?} is gone (value {}, index {})", k, h.owner, h.id, i);
            viol!("C06", "missing", "the component of kind {} of {:?} is gone (value {}, index {})", k, h.owner, h.id, i);
            viol!("C18", "missing", "the component of kind {} of {:?} is gone (value {}, index {})", k, h.owner, h.id, i);
        }
    }
    let many = m.alive.len() > 400;
    for e in m.alive.iter() {
        let want = m.k[k].map.get(&e.index()).copied();
        // of a crowd, those with components and some of the others
        if many && want.is_none() && (mix(e.index() as u64 ^ m.ctr) % 64 > 0) {
            continue;
        }
        let c = g.get(*e);
        if let (Some(c), Some(h)) = (c, want) {
            if c.v().id != h.id || c.v().payload != h.p {
                viol!("C18", "wrong-value", "kind {} of {:?} is value {}, expected {}", k, e, c.v().id, h.id);
                viol!("C08", "wrong-value", "kind {} of {:?} is value {}, expected {}", k, e, c.v().id, h.id);
            }
        }
        same_opt("get", *e, c.map(|c| c.v()), want);
        if g.contains(*e) != want.is_some() {
            viol!("C07", "contains", "contains({:?}) is {}", e, want.is_none());
        }
    }
    for e in m.dead.iter().rev().take(24) {
        if let Some(c) = g.get(*e) {
            viol!("C07", "stale-read", "get through the stale handle {:?} yields value {}", e, c.v().id);
        }
        if g.contains(*e) {
            viol!("C07", "stale-read", "contains through the stale handle {:?} is true", e);
        }
    }
    if let Some(b) = C::St::modified(g.storage()) {
        let got: Vec<u32> = b.iter().collect();
        if !got.iter().eq(m.k[k].modified.iter()) {
            let miss: Vec<_> = m.k[k].modified.iter().filter(|i| !got.contains(i)).take(4).collect();
            let extra: Vec<_> = got.iter().filter(|i| !m.k[k].modified.contains(i)).take(4).collect();
            viol!("C10", "modified-set", "kind {}: not flagged {:?}, wrongly flagged {:?}", k, miss, extra);
        }
        if C::St::tracking(g.storage()) != m.k[k].tracking {
            viol!("C10", "tracking", "kind {}: tracking reads {}", k, !m.k[k].tracking);
        }
    }
}

fn live_ids(m: &M) -> HashSet<u32> {
    let mut s = HashSet::new();
    for k in &m.k {
        s.extend(k.map.values().map(|h| h.id));
    }
    for d in m.sets.iter().chain(m.csets.iter()) {
        s.extend(d.values().map(|x| x.0));
    }
    s
}

struct Sets {
    a: [AnyComponentSet; 2],
    c: [AnyCloneComponentSet; 2],
}

fn audit_sets<C: CompT>(d: &Sets, mc: &MC) {
    let m = mc.g();
    let k = C::KIND;
    for j in 0..2 {
        for cl in [false, true] {
            let (got, has, want) = if cl {
                (d.c[j].get::<C>(), d.c[j].contains::<C>(), m.csets[j].get(&k))
            } else {
                (d.a[j].get::<C>(), d.a[j].contains::<C>(), m.sets[j].get(&k))
            };
            if has != want.is_some() || got.is_some() != has {
                viol!("C18", "set-contents", "set {}{}: kind {} present {}, expected {}", j, cl, k, has, want.is_some());
                continue;
            }
            if let (Some(g), Some(w)) = (got, want) {
                if !g.v().ok() || (g.v().id, g.v().payload) != *w {
                    viol!("C18", "set-contents", "set {}{}: kind {} holds value {}, expected {}", j, cl, k, g.v().id, w.0);
                }
            }
        }
    }
}

fn audit(w: &World, d: &Sets, mc: &MC) {
    for k in 0..KINDS {
        with_kind!(k, C => { audit_kind::<C>(w, mc); audit_sets::<C>(d, mc); });
    }
    let m = mc.g();
    audit_live(w, m);
    for j in 0..2 {
        if d.a[j].len() != m.sets[j].len() {
            viol!("C18", "set-contents", "set {}: length {}, expected {}", j, d.a[j].len(), m.sets[j].len());
        }
    }
    let s = live_ids(m);
    check_ownership(&|id| s.contains(&id), "the world or a set");
}

// ------------------------------------------------------------------ dynamic sets

/// After an operation that panicked part way: `old` / `new` per kind, and what is there.
fn settle(
    what: &str,
    k: u32,
    old: Option<(u32, u64)>,
    new: Option<(u32, u64)>,
    got: Option<(u32, u64, u32)>,
    cloned: bool,
) -> Option<(u32, u64)> {
    match got {
        None => {
            if old.is_some() {
                viol!("C18", "lost", "{}: a panic left kind {} with neither its old nor its new value", what, k);
            }
            None
        }
        Some((id, p, src)) => {
            let is_old = old == Some((id, p));
            let is_new = match new {
                Some((nid, np)) => p == np && if cloned { src == nid } else { id == nid },
                None => false,
            };
            if !is_old && !is_new {
                viol!("C18", "mangled", "{}: kind {} holds value {}, neither the old nor the new one", what, k, id);
            }
            Some((id, p))
        }
    }
}

fn comp_at<C: CompT>(w: &World, e: Entity) -> Option<(u32, u64, u32)> {
    if !w.contains_component::<C>() {
        return None;
    }
    w.read_component::<C>().get(e).map(|c| (c.v().id, c.v().payload, c.v().src))
}

fn dyn_op(w: &mut World, d: &mut Sets, mc: &MC, op: &Op) {
    let m = mc.g();
    match op {
        Op::DIns(cl, s, k) => {
            let j = (*s % 2) as usize;
            let (old, id, p) = with_kind!(*k, C => {
                let v = C::mk(Val::new(m.fresh()));
                let (id, p) = (v.v().id, v.v().payload);
                let old = if *cl { d.c[j].insert(v) } else { d.a[j].insert(v) };
                let o = old.as_ref().map(|c| (c.v().id, c.v().payload));
                let _ = attempt(|| drop(old));
                (o, id, p)
            });
            let md = if *cl { &mut m.csets[j] } else { &mut m.sets[j] };
            let want = md.insert((*k).min(KINDS - 1), (id, p));
            if old != want {
                viol!("C18", "set-insert", "set insert gave back {:?}, expected {:?}", old, want);
            }
        }
        Op::DRem(s, k) => {
            let j = (*s % 2) as usize;
            let old = with_kind!(*k, C => {
                let old = d.a[j].remove::<C>();
                let o = old.as_ref().map(|c| (c.v().id, c.v().payload));
                let _ = attempt(|| drop(old));
                o
            });
            let want = m.sets[j].remove(&(*k).min(KINDS - 1));
            if old != want {
                viol!("C18", "set-remove", "set remove gave back {:?}, expected {:?}", old, want);
            }
        }
        Op::DMut(cl, s, k) => {
            let j = (*s % 2) as usize;
            let k = (*k).min(KINDS - 1);
            let md = if *cl { &mut m.csets[j] } else { &mut m.sets[j] };
            with_kind!(k, C => {
                let g = if *cl { d.c[j].get_mut::<C>() } else { d.a[j].get_mut::<C>() };
                match (g, md.get_mut(&k)) {
                    (Some(x), Some(e)) => {
                        let np = new_p(*s, x.v().payload);
                        x.vm().payload = np;
                        e.1 = np;
                    }
                    (None, None) => {}
                    (g, e) => viol!("C18", "set-contents", "set get_mut: present {}, expected {}", g.is_some(), e.is_some()),
                }
            });
        }
        Op::DMerge(cl, s) => {
            let to = (*s % 2) as usize;
            let from = 1 - to;
            let r = if *cl {
                let o = std::mem::take(&mut d.c[from]);
                attempt(|| d.c[to].merge(o))
            } else {
                let o = std::mem::take(&mut d.a[from]);
                attempt(|| d.a[to].merge(o))
            };
            let md = if *cl { &mut m.csets } else { &mut m.sets };
            let src = std::mem::take(&mut md[from]);
            let over = src.keys().any(|k| md[to].contains_key(k));
            match r {
                Ok(b) => {
                    if b != over {
                        viol!("C18", "overwritten", "merge reports overwritten = {}", b);
                    }
                    md[to].extend(src);
                }
                Err(Caught::Injected(_)) => {
                    for (k, new) in src {
                        let got = with_kind!(k, C => {
                            let g = if *cl { d.c[to].get::<C>() } else { d.a[to].get::<C>() };
                            g.map(|c| (c.v().id, c.v().payload, c.v().src))
                        });
                        match settle("merge", k, md[to].get(&k).copied(), Some(new), got, false) {
                            Some(x) => md[to].insert(k, x),
                            None => md[to].remove(&k),
                        };
                    }
                }
                Err(_) => viol!("C18", "unexpected-panic", "merge panicked: {}", COLL.get().last_panic),
            }
        }
        Op::DClone(s) => {
            let (i, j) = ((*s % 2) as usize, (*s / 2 % 2) as usize);
            let r = attempt(|| d.c[i].clone_into_set(&mut d.a[j]));
            let src = m.csets[i].clone();
            let over = src.keys().any(|k| m.sets[j].contains_key(k));
            let whole = r.is_ok();
            match &r {
                Ok(b) if *b != over => viol!("C18", "overwritten", "clone_into_set reports overwritten = {}", b),
                Err(Caught::Other(_)) => viol!("C18", "unexpected-panic", "clone_into_set panicked: {}", COLL.get().last_panic),
                _ => {}
            }
            for (k, new) in src {
                let got = with_kind!(k, C => d.a[j].get::<C>().map(|c| (c.v().id, c.v().payload, c.v().src)));
                let old = m.sets[j].get(&k).copied();
                if whole {
                    match got {
                        Some((id, p, s)) if p == new.1 && s == new.0 => {
                            m.sets[j].insert(k, (id, p));
                        }
                        _ => viol!("C18", "not-cloned", "clone_into_set: kind {} is not a clone of value {}", k, new.0),
                    }
                } else {
                    match settle("clone_into_set", k, old, Some(new), got, true) {
                        Some(x) => m.sets[j].insert(k, x),
                        None => m.sets[j].remove(&k),
                    };
                }
            }
        }
        Op::DApply(cl, s, sel) => {
            let j = (*s % 2) as usize;
            let Some(e) = m.pick(*sel) else { return };
            let alive = m.is_alive(e);
            let (r, src) = if *cl {
                (attempt(|| d.c[j].insert_into_world(w, e).ok()), m.csets[j].clone())
            } else {
                let o = std::mem::take(&mut d.a[j]);
                if !alive && m.sets[j].len() > 1 {
                    // the map the refused values are in goes like any other map: what is left when one of
                    // its values panics is leaked
                    vals().bombs.retain(|b| !m.sets[j].values().any(|x| x.0 == *b));
                }
                (attempt(|| o.insert_into_world(w, e).ok()), std::mem::take(&mut m.sets[j]))
            };
            let all_reg = src.keys().all(|k| m.k[*k as usize].reg);
            let over = src.keys().any(|k| m.k[*k as usize].map.contains_key(&e.index()));
            if !alive {
                rt::hit("probe:set_applied_to_dead");
                match r {
                    Ok(None) => {}
                    Ok(Some(_)) => {
                        viol!("C18", "dead-accepted", "a set applied to the dead {:?} reports success", e);
                        viol!("C07", "stale-accepted", "a set applied to the dead {:?} reports success", e);
                    }
                    // dropping the refused values
                    Err(Caught::Injected(_)) => {}
                    // a kind that is not registered
                    Err(Caught::Other(_)) if !all_reg => {}
                    Err(_) => viol!("C18", "unexpected-panic", "applying to a dead entity panicked: {}", COLL.get().last_panic),
                }
                return; // the audit shows whether anything changed
            }
            let whole = match r {
                Ok(Some(b)) => {
                    if b != over {
                        viol!("C18", "overwritten", "applying a set reports overwritten = {}, expected {}", b, over);
                    }
                    if !all_reg {
                        viol!("C18", "unregistered", "a set with an unregistered type was applied without complaint");
                    }
                    true
                }
                Ok(None) => {
                    viol!("C18", "live-refused", "a set applied to the live {:?} reports the wrong generation", e);
                    false
                }
                Err(Caught::Injected(_)) => false,
                Err(_) if !all_reg => {
                    rt::hit("fault:unregistered_type");
                    false
                }
                Err(_) => {
                    viol!("C18", "unexpected-panic", "applying a set panicked: {}", COLL.get().last_panic);
                    false
                }
            };
            for (k, new) in src {
                let kk = k as usize;
                if !m.k[kk].reg {
                    continue;
                }
                let got = with_kind!(k, C => comp_at::<C>(w, e));
                let old = m.k[kk].map.get(&e.index()).map(|h| (h.id, h.p));
                let now = if whole {
                    match got {
                        Some((id, p, s)) if p == new.1 && (if *cl { s == new.0 } else { id == new.0 }) => Some((id, p)),
                        _ => {
                            viol!("C18", "not-applied", "applying a set did not give {:?} its value {} of kind {}", e, new.0, k);
                            return;
                        }
                    }
                } else {
                    settle("applying a set", k, old, Some(new), got, *cl)
                };
                match now {
                    Some((id, p)) => {
                        let changed = old != Some((id, p));
                        m.k[kk].map.insert(e.index(), Held { owner: e, id, p });
                        if changed {
                            m.flag(k, e.index());
                        }
                    }
                    None => {
                        m.k[kk].map.remove(&e.index());
                    }
                }
            }
        }
        Op::DBomb(cl, s, k, on_clone) => {
            let j = (*s % 2) as usize;
            let md = if *cl { &m.csets[j] } else { &m.sets[j] };
            let Some(k) = md.keys().nth((*k + s / 2) as usize % md.len().max(1)).copied() else { return };
            with_kind!(k, C => {
                let g = if *cl { d.c[j].get::<C>() } else { d.a[j].get::<C>() };
                if let Some(c) = g {
                    rt::hit("probe:bomb_armed");
                    if *on_clone { c.v().arm_clone() } else { c.v().arm() }
                }
            });
        }
        Op::DDrop(cl, s) => {
            let j = (*s % 2) as usize;
            if *cl {
                let o = std::mem::take(&mut d.c[j]);
                let v = vals();
                v.bombs.retain(|b| !m.csets[j].values().any(|x| x.0 == *b));
                drop(o);
                m.csets[j].clear();
            } else {
                let o = std::mem::take(&mut d.a[j]);
                let v = vals();
                v.bombs.retain(|b| !m.sets[j].values().any(|x| x.0 == *b));
                drop(o);
                m.sets[j].clear();
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ execution

/// A storage that was replaced or removed comes back with what it held.
fn handed_back<C: CompT>(old: Option<&MaskedStorage<C::St>>, m: &M) {
    let k = &m.k[C::KIND as usize];
    if old.is_some() != k.reg {
        viol!("C25", "registration", "a storage of kind {} was given back: {}", C::KIND, old.is_some());
    }
    let Some(o) = old else { return };
    if !o.mask().iter().eq(k.map.keys().copied()) {
        viol!("C09", "replaced-storage", "the storage given back holds {} values of {}", o.mask().iter().count(), k.map.len());
        viol!("C25", "replaced-storage", "the storage given back holds {} values of {}", o.mask().iter().count(), k.map.len());
        return;
    }
    for (i, h) in &k.map {
        let got = o.get(*i).map(|c| (c.v().id, c.v().payload));
        if got != Some((h.id, h.p)) {
            viol!("C25", "replaced-storage", "the storage of kind {} given back holds {:?} at {}, not {:?}", C::KIND, got, i, (h.id, h.p));
            viol!("C08", "replaced-storage", "the storage of kind {} given back holds {:?} at {}, not {:?}", C::KIND, got, i, (h.id, h.p));
            return;
        }
    }
}
fn register<C: CompT>(w: &mut World, mc: &MC, track: bool) {
    let k = C::KIND as usize;
    let m = mc.g();
    let old = w.insert_component::<C>();
    if old.is_some() != m.k[k].reg {
        viol!("C06", "registration", "insert_component gave back a storage: {}", old.is_some());
    }
    handed_back::<C>(old.as_ref(), m);
    let _ = attempt(|| drop(old));
    m.k[k].map.clear();
    m.k[k].modified.clear();
    m.k[k].reg = true;
    m.k[k].tracking = false;
    if track && C::St::TRACKED {
        C::St::set_track(w.get_component_mut::<C>().storage_mut(), true);
        m.k[k].tracking = true;
    }
}
fn unregister<C: CompT>(w: &mut World, mc: &MC) {
    let k = C::KIND as usize;
    let m = mc.g();
    let old = w.remove_component::<C>();
    if old.is_some() != m.k[k].reg {
        viol!("C06", "registration", "remove_component gave back a storage: {}", old.is_some());
    }
    handed_back::<C>(old.as_ref(), m);
    let _ = attempt(|| drop(old));
    m.k[k].map.clear();
    m.k[k].modified.clear();
    m.k[k].reg = false;
    m.k[k].tracking = false;
}

fn set_track<C: CompT>(w: &World, on: bool) {
    C::St::set_track(w.write_component::<C>().storage_mut(), on)
}
fn clear_mod<C: CompT>(w: &World) {
    C::St::clear_mod(w.write_component::<C>().storage_mut())
}
/// A new entity takes an index that is free, and a fresh one only if none is.
fn placed(w: &World, m: &mut M, e: Entity) {
    let i = e.index();
    let free = m.hi as usize - m.alive.len().min(m.hi as usize);
    if e.generation() == 0 {
        viol!("C01", "zero-generation", "{:?} has generation zero", e);
    }
    if i < m.hi {
        if let Some(o) = m.alive.iter().find(|x| x.index() == i) {
            viol!("C01", "shared-index", "{:?} was created while {:?} lives at its index", e, o);
            viol!("C04", "twice", "index {} was given to {:?} while {:?} has it", i, e, o);
        }
    } else {
        if free > 0 {
            viol!("C04", "lost-index", "{:?} took a fresh index while {} indices are free", e, free);
        }
        if i > m.hi {
            viol!("C04", "skipped-index", "{:?} was given index {} when {} were in use", e, i, m.hi);
        }
        m.hi = m.hi.max(i + 1);
    }
    if w.entities().max_entity_count() != m.hi {
        viol!("C04", "max-count", "the maximum entity count is {}, expected {}", w.entities().max_entity_count(), m.hi);
    }
}

/// Every way of asking who is alive, against the model.
fn audit_live(w: &World, m: &M) {
    let ents = w.entities();
    let mut live: Vec<Entity> = m.alive.clone();
    live.sort_by_key(|e| e.index());
    for p in live.windows(2) {
        if p[0].index() == p[1].index() {
            viol!("C01", "shared-index", "{:?} and {:?} are both alive", p[0], p[1]);
        }
    }
    let got: Vec<Entity> = (&ents).join().collect();
    if got != live {
        let a = got.iter().find(|e| !live.contains(e));
        let b = live.iter().find(|e| !got.contains(e));
        viol!("C02", "join-live", "the join over entities yields {} of {}; too many: {:?}, missing: {:?}", got.len(), live.len(), a, b);
        viol!("C03", "merge-result", "the join over entities yields {} of {}; too many: {:?}, missing: {:?}", got.len(), live.len(), a, b);
    }
    if !ents.live_bitset().iter().eq(live.iter().map(|e| e.index())) {
        viol!("C02", "live-set", "the live set does not hold exactly the indices of the live entities");
    }
    for e in live.iter().rev().take(60).chain(live.iter().take(60)) {
        if !ents.is_alive(*e) || ents.entity(e.index()) != Some(*e) {
            viol!("C02", "live-denied", "{:?} is alive; is_alive: {}, lookup: {:?}", e, ents.is_alive(*e), ents.entity(e.index()));
        }
    }
    for e in m.dead.iter().rev().take(60) {
        if ents.is_alive(*e) || ents.entity(e.index()) == Some(*e) {
            viol!("C02", "dead-alive", "{:?} is dead; is_alive: {}, lookup: {:?}", e, ents.is_alive(*e), ents.entity(e.index()));
        }
    }
    if ents.max_entity_count() != m.hi {
        viol!("C04", "max-count", "the maximum entity count is {}, expected {}", ents.max_entity_count(), m.hi);
    }
}

fn created(w: &World, mc: &MC, e: Entity) {
    let m = mc.g();
    if m.state.contains_key(&e) {
        viol!("C01", "duplicate", "{:?} was created twice", e);
        return;
    }
    placed(w, m, e);
    m.seen(e);
    if m.dead.iter().any(|x| x.index() == e.index()) {
        rt::hit("probe:index_reused");
    }
    for k in 0..KINDS {
        if m.k[k as usize].reg {
            with_kind!(k, C => {
                let g = w.read_component::<C>();
                if g.contains(e) || g.storage().contains(e.index()) {
                    viol!("C06", "inherited", "the new {:?} starts with a component of kind {}", e, k);
                }
            });
        }
    }
}

fn exclusive<C: CompT>(w: &mut World, mc: &MC, how: u32, op: &W) {
    // Entities borrow the world, so joins with them need the shared form
    let needs_ents = matches!(op, W::Join(_) | W::JoinMut(_) | W::Par(_) | W::GuardJ(_));
    match how % 3 {
        0 if !needs_ents => {
            let empty = World::new();
            let ents = empty.entities();
            write_op(&mut w.get_component_mut::<C>(), &ents, mc, op)
        }
        1 => {
            let (ents, mut g) = w.fetch::<(Entities, goggles::WriteComponent<C>)>();
            write_op(&mut g, &ents, mc, op)
        }
        _ => {
            let ents = w.entities();
            write_op(&mut w.write_component::<C>(), &ents, mc, op)
        }
    }
}

fn two_kinds<A: CompT, B: CompT>(w: &World, mc: &MC, salt: u32) {
    let (ka, kb) = (A::KIND as usize, B::KIND as usize);
    let (ents, mut a, b) = w.fetch::<(Entities, goggles::WriteComponent<A>, goggles::ReadComponent<B>)>();
    let all: Vec<u32> = quiet(|| mc.g().k[ka].map.keys().copied().collect());
    let both: Vec<u32> = quiet(|| all.iter().copied().filter(|i| mc.g().k[kb].map.contains_key(i)).collect());
    let seen = Visits::new();
    let body = |e: Entity, x: &mut A, y: Option<&B>| {
        seen.enter(e.index());
        let (h, hb) = quiet(|| {
            let m = mc.g();
            (
                m.k[ka].map.get(&e.index()).copied().filter(|h| h.owner == e),
                m.k[kb].map.get(&e.index()).copied().filter(|h| h.owner == e),
            )
        });
        same("C11", "parallel join", e, x.v(), h);
        match (y, hb) {
            (Some(y), hb) => same("C11", "parallel join", e, y.v(), hb),
            (None, Some(_)) => viol!("C11", "optional-item", "the optional part is absent for {:?}, which has it", e),
            _ => {}
        }
        let np = new_p(salt, x.v().payload);
        x.vm().payload = np;
        quiet(|| {
            let m = mc.g();
            if let Some(h) = m.k[ka].map.get_mut(&e.index()) {
                h.p = np;
            }
            m.flag(A::KIND, e.index());
        });
        yield_now();
        seen.leave(e.index());
    };
    let want = match salt % 4 {
        0 | 1 => &both,
        2 => &all,
        _ => &all,
    };
    let r = attempt(|| match salt % 4 {
        0 => (&ents, &mut a, &b).par_join().for_each(|(e, x, y): (Entity, &mut A, &B)| body(e, x, Some(y))),
        1 => ((&ents, &b), &mut a).par_join().for_each(|((e, y), x): ((Entity, &B), &mut A)| body(e, x, Some(y))),
        2 => (&ents, (&b).maybe(), &mut a).par_join().for_each(|(e, y, x): (Entity, Option<&B>, &mut A)| body(e, x, y)),
        _ => (&ents, ((&mut a), (&b).maybe())).par_join().for_each(|(e, (x, y)): (Entity, (&mut A, Option<&B>))| body(e, x, y)),
    });
    seen.finish(want, &[], r, None);
    quiet(|| {
        drop(all);
        drop(both);
    });
}

fn thread(w: &World, mc: &MC, ro: u32, t: usize, nt: usize, ops: &[T]) {
    let ents = w.entities();
    let mut accs: Vec<Option<Box<dyn Acc + '_>>> = quiet(|| (0..NK).map(|_| None).collect());
    for op in ops {
        match op {
            T::Create => {
                let e = ents.create();
                quiet(|| {
                    let m = mc.g();
                    m.made += 1;
                    if m.state.contains_key(&e) && !m.inflight.contains(&e) {
                        viol!("C01", "duplicate", "{:?} was created twice", e);
                    }
                    m.seen(e);
                    m.inflight.remove(&e);
                    if m.dead.iter().any(|x| x.index() == e.index()) {
                        rt::hit("probe:index_reused");
                    }
                });
            }
            T::Mark(s) => {
                let Some(e) = quiet(|| mc.g().pick(*s)) else { continue };
                let alive = quiet(|| mc.g().is_alive(e));
                let r = ents.delete(e);
                if r.is_ok() != alive {
                    viol!("C02", "delete-result", "delete({:?}) reports {}", e, r.is_ok());
                } else if alive {
                    quiet(|| mc.g().marked.insert(e));
                }
            }
            T::Look(s) => {
                let i = quiet(|| mc.g().pick(*s).map(|e| e.index()));
                let i = match i {
                    Some(i) if s % 3 > 0 => i,
                    Some(i) => i + 1,
                    None => s % 4,
                };
                if let Some(e) = ents.entity(i) {
                    quiet(|| {
                        let m = mc.g();
                        if !m.state.contains_key(&e) {
                            m.inflight.insert(e);
                            rt::hit("probe:inflight_entity_seen");
                        }
                        if !m.seen(e) {
                            viol!("C02", "lookup-dead", "entity({}) answers the dead {:?}", i, e);
                        }
                    });
                }
            }
            T::Acc(k, op) => {
                let k = (*k).min(KINDS - 1);
                let ku = k as usize;
                if !quiet(|| mc.g().k[ku].reg) {
                    continue;
                }
                let shared = ro >> k & 1 == 1;
                if !shared && ku % nt != t {
                    continue;
                }
                if accs[ku].is_none() {
                    let a: Box<dyn Acc + '_> = with_kind!(k, C => {
                        if shared {
                            let g = w.read_component::<C>();
                            quiet(|| Box::new(RAcc(g)) as Box<dyn Acc + '_>)
                        } else {
                            let g = w.write_component::<C>();
                            quiet(|| Box::new(WAcc(g)) as Box<dyn Acc + '_>)
                        }
                    });
                    accs[ku] = Some(a);
                }
                accs[ku].as_mut().unwrap().op(&ents, mc, op);
            }
            T::Rel => {
                for a in accs.iter_mut() {
                    *a = None;
                }
            }
        }
    }
    drop(accs);
}

pub fn exec(p: &Plan) {
    let mut w = World::new();
    let mut d = Sets { a: Default::default(), c: Default::default() };
    let mc = quiet(|| MC(UnsafeCell::new(M::default())));
    let m = mc.g();
    for k in 0..KINDS {
        if p.kinds >> k & 1 == 1 {
            with_kind!(k, C => register::<C>(&mut w, &mc, p.track >> k & 1 == 1));
        }
    }
    let mut step = |op: &Op| {
        let mut full = true;
        match op {
            Op::Create(n, atomic) => {
                for _ in 0..(*n).min(20) {
                    let e = if *atomic { w.entities().create() } else { w.create_entity() };
                    created(&w, &mc, e);
                }
                full = false;
            }
            Op::Spawn(n, salt) => {
                for j in 0..(*n).min(150) {
                    let e = if (salt + j) % 3 == 0 { w.entities().create() } else { w.create_entity() };
                    created(&w, &mc, e);
                    for k in 0..KINDS {
                        if m.k[k as usize].reg && mix((*salt as u64) << 16 ^ (j as u64) << 4 ^ k as u64) % 3 > 0 {
                            let pl = m.fresh();
                            with_kind!(k, C => {
                                let v = C::mk(Val::new(pl));
                                let id = v.v().id;
                                match w.write_component::<C>().insert(e, v) {
                                    Ok(None) => {}
                                    Ok(Some(_)) => viol!("C06", "inherited", "the new {:?} already had kind {}", e, k),
                                    Err(_) => viol!("C07", "live-refused", "insert refused the live {:?}", e),
                                }
                                m.k[k as usize].map.insert(e.index(), Held { owner: e, id, p: pl });
                                m.flag(k, e.index());
                            });
                        }
                    }
                }
            }
            Op::Kill(sel) => {
                let Some(e) = m.pick(*sel) else { return };
                let alive = m.is_alive(e);
                let armed = vals().bombs.len();
                match attempt(|| w.delete_entity(e).is_ok()) {
                    Ok(ok) => {
                        if ok != alive {
                            viol!("C02", "delete-result", "delete_entity({:?}) reports {}", e, ok);
                        }
                        if vals().bombs.len() < armed {
                            viol!("C06", "panic-swallowed", "delete_entity returned although a destructor panicked in it");
                        }
                        if alive {
                            m.die(e);
                        }
                    }
                    Err(Caught::Injected(_)) if alive && vals().bombs.len() < armed => {
                        rt::hit("probe:panic_in_delete");
                        m.die(e);
                        if w.entities().is_alive(e) {
                            viol!("C06", "still-alive", "{:?} is alive after a deletion in which a destructor panicked", e);
                        }
                    }
                    Err(_) => {
                        viol!("C06", "unexpected-panic", "delete_entity panicked: {}", COLL.get().last_panic);
                        viol!("C09", "unexpected-panic", "delete_entity panicked: {}", COLL.get().last_panic);
                    }
                }
            }
            Op::Mark(sel) => {
                let Some(e) = m.pick(*sel) else { return };
                let alive = m.is_alive(e);
                let ok = w.entities().delete(e).is_ok();
                if ok != alive {
                    viol!("C02", "delete-result", "delete({:?}) reports {}", e, ok);
                } else if alive {
                    m.marked.insert(e);
                }
                full = false;
            }
            Op::Merge => {
                let armed = vals().bombs.len();
                let mut dying: Vec<Entity> = m.marked.iter().copied().collect();
                dying.sort();
                let r = attempt(|| w.merge());
                match r {
                    Ok(()) => {
                        if vals().bombs.len() < armed {
                            viol!("C06", "panic-swallowed", "merge returned although a destructor panicked in it");
                        }
                    }
                    Err(Caught::Injected(_)) if vals().bombs.len() < armed => rt::hit("probe:panic_in_merge"),
                    Err(_) => {
                        viol!("C06", "unexpected-panic", "merge panicked: {}", COLL.get().last_panic);
                        viol!("C09", "unexpected-panic", "merge panicked: {}", COLL.get().last_panic);
                    }
                }
                for e in dying {
                    m.die(e);
                }
                for e in m.alive.iter().chain(m.dead.iter().rev().take(20)) {
                    let a = m.is_alive(*e);
                    if w.entities().is_alive(*e) != a {
                        viol!("C03", "merge-result", "after merge {:?} is alive: {}", e, !a);
                    }
                }
            }
            Op::C(k, how, x) => {
                let k = (*k).min(KINDS - 1);
                if m.k[k as usize].reg {
                    with_kind!(k, C => exclusive::<C>(&mut w, &mc, *how, x));
                }
                full = matches!(x, W::Goi(_, true) | W::Par(_));
            }
            Op::Read(k, x) => {
                let k = (*k).min(KINDS - 1);
                if m.k[k as usize].reg {
                    let ents = w.entities();
                    with_kind!(k, C => read_op(&w.read_component::<C>(), &ents, &mc, x, false));
                }
                full = false;
            }
            Op::Bomb(k, sel) => {
                let k = (*k).min(KINDS - 1);
                let ku = k as usize;
                if let Some(h) = m.k[ku].map.values().nth(*sel as usize % m.k[ku].map.len().max(1)).copied() {
                    with_kind!(k, C => {
                        if let Some(c) = w.read_component::<C>().get(h.owner) {
                            c.v().arm();
                            rt::hit("probe:bomb_armed");
                        }
                    });
                }
                full = false;
            }
            Op::Reg(k) => with_kind!(*k, C => register::<C>(&mut w, &mc, p.track >> C::KIND & 1 == 1)),
            Op::Unreg(k) => with_kind!(*k, C => unregister::<C>(&mut w, &mc)),
            Op::Track(k, on) => {
                let k = (*k).min(KINDS - 1);
                if m.k[k as usize].reg && tracked(k) {
                    with_kind!(k, C => set_track::<C>(&w, *on));
                    m.k[k as usize].tracking = *on;
                }
                full = false;
            }
            Op::Clear(k) => {
                let k = (*k).min(KINDS - 1);
                if m.k[k as usize].reg {
                    with_kind!(k, C => clear_mod::<C>(&w));
                    m.k[k as usize].modified.clear();
                }
                full = false;
            }
            Op::Par(a, b, salt) => {
                let (a, b) = ((*a).min(KINDS - 1), (*b).min(KINDS - 1));
                if m.k[a as usize].reg && m.k[b as usize].reg && a != b {
                    with_kind!(a, A => two_kinds_b::<A>(&w, &mc, b, *salt));
                } else if m.k[a as usize].reg {
                    with_kind!(a, A => exclusive::<A>(&mut w, &mc, 1, &W::Par(*salt)));
                }
            }
            Op::Conc(ro, ths) => {
                if ths.is_empty() {
                    return;
                }
                for k in m.k.iter_mut() {
                    k.mark_started.clear();
                }
                m.conc = true;
                m.made = 0;
                let free = (m.hi as usize).saturating_sub(m.alive.len()) as u32;
                let (wr, mr) = (&w, &mc);
                let nt = ths.len().min(8);
                let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                    ths.iter()
                        .take(8)
                        .enumerate()
                        .map(|(t, ops)| Box::new(move || thread(wr, mr, *ro, t, nt, ops)) as Box<dyn FnOnce() + '_>)
                        .collect()
                });
                threads(v);
                m.conc = false;
                let fresh = m.made.saturating_sub(free);
                m.hi += fresh;
                if w.entities().max_entity_count() != m.hi {
                    let n = w.entities().max_entity_count();
                    viol!("C04", "max-count", "{} creations with {} free indices left the maximum entity count at {}, expected {}", m.made, free, n, m.hi);
                    m.hi = n;
                }
                audit_live(&w, m);
            }
            Op::Bulk(n, atomic) => {
                let n = (*n).min(9000);
                for j in 0..n {
                    let e = if *atomic { w.entities().create() } else { w.create_entity() };
                    if j < 4 || j + 12 > n {
                        created(&w, &mc, e);
                    } else if m.state.contains_key(&e) {
                        viol!("C01", "duplicate", "{:?} was created twice", e);
                    } else {
                        m.hi = m.hi.max(e.index() + 1);
                        m.seen(e);
                    }
                }
            }
            Op::Give(k, n) => {
                let k = (*k).min(KINDS - 1);
                if m.k[k as usize].reg {
                    let es: Vec<Entity> = m.alive.iter().copied().take((*n).min(6000) as usize).collect();
                    with_kind!(k, C => {
                        let mut g = w.write_component::<C>();
                        for e in es {
                            if m.k[k as usize].map.contains_key(&e.index()) {
                                continue;
                            }
                            let pl = m.fresh();
                            let v = C::mk(Val::new(pl));
                            let id = v.v().id;
                            match g.insert(e, v) {
                                Ok(None) => {}
                                Ok(Some(_)) => viol!("C06", "inherited", "{:?} already had kind {}", e, k),
                                Err(_) => viol!("C07", "live-refused", "insert refused the live {:?}", e),
                            }
                            m.k[k as usize].map.insert(e.index(), Held { owner: e, id, p: pl });
                            m.flag(k, e.index());
                        }
                    });
                }
            }
            Op::Sweep(sel, n) => {
                let es: Vec<Entity> = m.alive.iter().copied().skip((*sel % 7) as usize).take((*n).min(6000) as usize).collect();
                let ents = w.entities();
                for e in es {
                    if ents.delete(e).is_err() {
                        viol!("C02", "delete-result", "delete({:?}) reports false", e);
                    }
                    m.marked.insert(e);
                }
            }
            Op::Audit | Op::Unw(_) => {}
            _ => dyn_op(&mut w, &mut d, &mc, op),
        }
        if !free_again(&w, m) {
            return;
        }
        if full {
            audit(&w, &d, &mc);
        }
    };
    for op in &p.ops {
        match op {
            Op::Unw(o) => match **o {
                Op::Par(..) | Op::Conc(..) | Op::Bulk(..) | Op::Unw(_) | Op::C(_, _, W::Par(_)) | Op::Read(_, W::Par(_)) => step(o),
                _ => unwinding(|| step(o)),
            },
            _ => step(op),
        }
        if !COLL.get().viols.is_empty() {
            break; // one cause, one report
        }
    }
    audit(&w, &d, &mc);
    finish(p, w, d, &mc);
    quiet(|| std::mem::forget(mc));
}

/// Between operations nobody holds anything, however the last one ended.
fn free_again(w: &World, m: &M) -> bool {
    for k in 0..KINDS {
        if m.k[k as usize].reg && with_kind!(k, C => attempt(|| drop(w.write_component::<C>())).is_err()) {
            viol!("C13", "still-borrowed", "kind {} cannot be borrowed although nobody holds it: {}", k, COLL.get().last_panic);
            return false;
        }
    }
    true
}

fn two_kinds_b<A: CompT>(w: &World, mc: &MC, b: u32, salt: u32) {
    // the second kind is one of two, which keeps the number of instances small
    let m = mc.g();
    if m.k[0].reg && A::KIND != 0 && (b % 2 == 0 || !m.k[5].reg || A::KIND == 5) {
        two_kinds::<A, Comp<0>>(w, mc, salt)
    } else if m.k[5].reg && A::KIND != 5 {
        two_kinds::<A, Comp<5>>(w, mc, salt)
    } else if m.k[1].reg && A::KIND != 1 {
        two_kinds::<A, Comp<1>>(w, mc, salt)
    }
}

/// The end of the world: one destructor may panic, the other values of that storage still go.
fn finish(p: &Plan, w: World, d: Sets, mc: &MC) {
    let m = mc.g();
    disarm_all();
    drop(d);
    m.sets = Default::default();
    m.csets = Default::default();
    if !COLL.get().viols.is_empty() {
        quiet(|| std::mem::forget(w));
        return;
    }
    let full: Vec<u32> = (0..KINDS).filter(|k| m.k[*k as usize].map.len() > 1).collect();
    let armed = if p.end_bomb % 3 > 0 && !full.is_empty() {
        let k = full[(p.end_bomb / 3) as usize % full.len()];
        let n = m.k[k as usize].map.len();
        let h = *m.k[k as usize].map.values().nth((p.end_bomb / 64) as usize % n).unwrap();
        vals().bombs.push(h.id);
        rt::hit("probe:bomb_armed");
        Some(k)
    } else {
        None
    };
    let r = if armed.is_none() && p.end_bomb % 5 == 0 {
        // the world goes while its thread is unwinding
        unwinding(|| drop(w));
        Ok(())
    } else {
        attempt(|| drop(w))
    };
    rt::hit("probe:world_dropped");
    match (armed, r) {
        (None, Ok(())) => {
            for k in m.k.iter_mut() {
                k.map.clear();
            }
            check_ownership(&|_| false, "nothing");
        }
        (None, Err(_)) => viol!("C09", "unexpected-panic", "dropping the world panicked: {}", COLL.get().last_panic),
        (Some(k), _) => {
            for h in m.k[k as usize].map.values() {
                if vals().dropped[h.id as usize] != 1 {
                    viol!("C09", "leaked", "value {} was not dropped with its storage after another destructor panicked", h.id);
                }
            }
        }
    }
}
