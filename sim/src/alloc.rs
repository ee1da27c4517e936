//! S1: entity allocation, deferred deletion, liveness queries and entity joins, by any number of
//! simulated threads between exclusive phases.
use crate::rt::{self, *};
use goggles::entity::Allocator;
use goggles::hibitset::BitSetLike;
use goggles::{Entity, IntoJoinExt, World};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub world: bool,
    pub prefill: u32,
    /// the lives left to the first indices, when they have been through almost all of them
    #[serde(default)]
    pub aged: Vec<u32>,
    pub rounds: Vec<Round>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Round {
    Excl(Vec<XOp>),
    Conc(Vec<Vec<SOp>>),
    Merge,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XOp {
    Create(u32),
    Kill(u32),
    KillMany(u32, u32, u32),
    Cycle(u32),
    Audit,
    Shared(SOp),
    /// deletion requests for many of the latest
    Sweep(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Create,
    Kill(u32),
    Alive(u32),
    Lookup(u32),
    Far(u32),
    Contains(u32),
    Max,
    Join(u32),
    Bits(u32),
}

fn gen_sop(r: &mut Rng, prop: &str) -> SOp {
    //                Create Kill Alive Lookup Far Cont Max Join Bits
    let w: [u32; 9] = match prop {
        "C01" => [50, 20, 6, 8, 0, 2, 2, 6, 2],
        "C02" => [28, 14, 18, 20, 3, 6, 1, 8, 4],
        "C03" => [28, 45, 8, 6, 0, 2, 1, 4, 2],
        "C04" => [50, 20, 4, 4, 0, 2, 14, 3, 1],
        "C05" => [34, 16, 4, 6, 0, 2, 1, 34, 5],
        "C20" => [34, 24, 12, 10, 1, 4, 4, 10, 2],
        _ => [34, 24, 10, 10, 1, 4, 3, 12, 3],
    };
    match r.weighted(&w) {
        0 => SOp::Create,
        1 => SOp::Kill(r.sel()),
        2 => SOp::Alive(r.sel()),
        3 => SOp::Lookup(r.sel()),
        4 => SOp::Far(r.below(6) as u32),
        5 => SOp::Contains(r.sel()),
        6 => SOp::Max,
        7 => SOp::Join(if r.chance(3, 4) { u32::MAX } else { 1 + r.below(8) as u32 }),
        _ => SOp::Bits(if r.chance(3, 4) { u32::MAX } else { 1 + r.below(8) as u32 }),
    }
}

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let big = if thorough { 6 } else { 1 };
    let prefill = match r.weighted(&[500, 250, 80, 60, big, 12]) {
        0 => r.below(9),
        1 => r.range(58, 70),
        2 => r.range(120, 136),
        3 => r.range(4088, 4104),
        5 => r.range(190, 700),
        _ => r.range(262_138, 262_148),
    } as u32;
    let nr = 1 + r.below(if thorough { 7 } else { 5 });
    let mut rounds = vec![];
    if prefill > 0 && r.chance(2, 3) {
        let most = if r.chance(1, 15) { 200 } else { 24 };
        let n = r.below(prefill.min(most) as u64 + 1) as u32;
        rounds.push(Round::Excl(vec![XOp::KillMany(r.sel(), n, 1 + r.below(3) as u32)]));
    }
    for _ in 0..nr {
        if prefill > 150 && r.chance(1, 5) {
            let n = r.range(100, 1 + prefill.clamp(150, 5000) as u64) as u32;
            rounds.push(Round::Excl(vec![XOp::Sweep(r.sel(), n)]));
        }
        if r.chance(1, 2) {
            let n = 1 + r.below(5);
            let v = (0..n)
                .map(|_| match r.weighted(&[22, 26, 12, 4, 6, 30]) {
                    0 => XOp::Create(if r.chance(1, 40) { r.range(20, 200) } else { 1 + r.below(4) } as u32),
                    1 => XOp::Kill(r.sel()),
                    2 => XOp::KillMany(r.sel(), if r.chance(1, 15) { r.range(20, 200) } else { 1 + r.below(8) } as u32, 1 + r.below(3) as u32),
                    3 => XOp::Cycle(match r.weighted(&[600, 40, big]) {
                        0 => 1 + r.below(3),
                        1 => r.range(100, 300),
                        _ => r.range(65_520, 65_560),
                    } as u32),
                    4 => XOp::Audit,
                    _ => XOp::Shared(gen_sop(r, prop)),
                })
                .collect();
            rounds.push(Round::Excl(v));
        }
        if r.chance(9, 10) {
            let nt = 2 + r.below(if thorough { 5 } else { 4 });
            let maxops = 1 + r.below(if thorough { 10 } else { 7 });
            let mut ths: Vec<Vec<SOp>> =
                (0..nt).map(|_| (0..1 + r.below(maxops)).map(|_| gen_sop(r, prop)).collect()).collect();
            if r.chance(1, 25) {
                // a flood
                let t = r.below(nt) as usize;
                let make = r.chance(1, 2);
                for _ in 0..r.range(20, 140) {
                    ths[t].push(if make { SOp::Create } else { SOp::Kill(r.sel()) });
                }
            }
            rounds.push(Round::Conc(ths));
        }
        if r.chance(if prop == "C03" { 9 } else { 6 }, 10) {
            rounds.push(Round::Merge);
        }
    }
    if prefill > 100_000 {
        // whole traversals of this many entities are left to the exclusive audits
        let cut = |o: &mut SOp| {
            if let SOp::Join(l) | SOp::Bits(l) = o {
                *l = (*l).min(8)
            }
        };
        for rd in rounds.iter_mut() {
            match rd {
                Round::Excl(v) => v.iter_mut().for_each(|x| {
                    if let XOp::Shared(o) = x {
                        cut(o)
                    }
                }),
                Round::Conc(t) => t.iter_mut().flatten().for_each(cut),
                Round::Merge => {}
            }
        }
    }
    let aged = if prefill < 1000 && r.chance(1, 12) {
        let plain = r.below(3);
        (0..r.range(6, 16)).map(|_| if r.chance(plain, 3) { u32::MAX } else { r.range(1, 5) as u32 }).collect()
    } else {
        vec![]
    };
    Plan { world: r.chance(2, 5), prefill, aged, rounds }
}

enum Fac {
    Raw(Box<Allocator>),
    World(Box<World>),
}

impl Fac {
    fn create_s(&self) -> Entity {
        match self {
            Fac::Raw(a) => a.allocate_atomic(),
            Fac::World(w) => w.entities().create(),
        }
    }
    fn del_s(&self, e: Entity) -> bool {
        match self {
            Fac::Raw(a) => a.kill_atomic(e).is_ok(),
            Fac::World(w) => w.entities().delete(e).is_ok(),
        }
    }
    fn alive(&self, e: Entity) -> bool {
        match self {
            Fac::Raw(a) => a.is_alive(e),
            Fac::World(w) => w.entities().is_alive(e),
        }
    }
    fn lookup(&self, i: u32) -> Option<Entity> {
        match self {
            Fac::Raw(a) => a.entity(i),
            Fac::World(w) => w.entities().entity(i),
        }
    }
    fn contains(&self, i: u32) -> bool {
        match self {
            Fac::Raw(a) => a.live_bitset().contains(i),
            Fac::World(w) => w.entities().live_bitset().contains(i),
        }
    }
    fn max(&self) -> u32 {
        match self {
            Fac::Raw(a) => a.max_entity_count(),
            Fac::World(w) => w.entities().max_entity_count(),
        }
    }
    fn join_each(&self, mut f: impl FnMut(Entity) -> bool) {
        match self {
            Fac::Raw(a) => {
                for e in (&**a).join() {
                    if !f(e) {
                        return;
                    }
                }
            }
            Fac::World(w) => {
                let es = w.entities();
                for e in (&es).join() {
                    if !f(e) {
                        return;
                    }
                }
            }
        }
    }
    fn bits_each(&self, mut f: impl FnMut(u32) -> bool) {
        match self {
            Fac::Raw(a) => {
                for i in a.live_bitset().iter() {
                    if !f(i) {
                        return;
                    }
                }
            }
            Fac::World(w) => {
                let es = w.entities();
                for i in es.live_bitset().iter() {
                    if !f(i) {
                        return;
                    }
                }
            }
        }
    }
    fn create_x(&mut self) -> Entity {
        match self {
            Fac::Raw(a) => a.allocate(),
            Fac::World(w) => w.create_entity(),
        }
    }
    fn kill_x(&mut self, e: Entity) -> bool {
        match self {
            Fac::Raw(a) => a.kill(e).is_ok(),
            Fac::World(w) => w.delete_entity(e).is_ok(),
        }
    }
}

#[derive(Default)]
struct Slot {
    cur: Option<Entity>,
    first: Option<Entity>,
    more: HashSet<Entity>,
    free: bool,
}
impl Slot {
    fn issued(&self, e: Entity) -> bool {
        self.first == Some(e) || self.more.contains(&e)
    }
}

#[derive(Default)]
struct Model {
    slots: Vec<Slot>,
    handles: Vec<Entity>,
    free: u64,
    live: u64,
    max_index1: u32,
    marks: HashSet<Entity>,
    // concurrent phase
    conc: bool,
    started: u64,
    created: u64,
    fresh: u64,
    free0: u64,
    max0: u32,
    max_seen: u32,
    /// index -> handle somebody saw although no creation of it has returned yet
    revealed: BTreeMap<u32, (Entity, &'static str)>,
    revealed_idx: HashSet<u32>,
    starts: HashMap<Entity, u64>,
}

struct MC(UnsafeCell<Model>);
impl MC {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut Model {
        unsafe { &mut *self.0.get() }
    }
}

impl Model {
    fn cur(&self, i: u32) -> Option<Entity> {
        self.slots.get(i as usize).and_then(|s| s.cur)
    }
    fn alive(&self, e: Entity) -> bool {
        self.cur(e.index()) == Some(e)
    }
    /// What a query that starts now has to answer for this index, if that is determined.
    fn known(&self, i: u32) -> Option<Entity> {
        self.cur(i).or_else(|| self.revealed.get(&i).map(|x| x.0))
    }
    fn pick(&self, sel: u32) -> Option<Entity> {
        let n = self.handles.len() + self.revealed.len();
        if n == 0 {
            return None;
        }
        // three in four times something recent
        let k = if sel % 4 != 0 {
            n - 1 - (sel as usize / 4) % n.min(24)
        } else {
            (sel as usize / 4) % n
        };
        if k < self.handles.len() {
            Some(self.handles[k])
        } else {
            self.revealed.values().nth(k - self.handles.len()).map(|x| x.0)
        }
    }
    fn on_create(&mut self, e: Entity, start: u64) {
        let i = e.index() as usize;
        if e.generation() == 0 || (e.generation() as i32) < 0 {
            viol!("C01", "bad-generation", "created handle {:?} has generation {}", e, e.generation());
        }
        if i > 4_000_000 {
            viol!("C04", "wild-index", "created handle {:?} has an index far beyond anything handed out", e);
            viol!("C01", "wild-index", "created handle {:?} has an index far beyond anything handed out", e);
            return;
        }
        while self.slots.len() <= i {
            self.slots.push(Slot::default());
        }
        let s = &mut self.slots[i];
        let fresh = s.first.is_none();
        if s.issued(e) {
            viol!("C01", "duplicate-handle", "handle {:?} was issued twice", e);
        }
        if let Some(o) = s.cur {
            viol!("C01", "shared-index", "{:?} created while {:?} with the same index is alive", e, o);
            viol!("C04", "index-taken-twice", "index {} handed out for {:?} while it belongs to live {:?}", i, e, o);
        } else if !fresh && !s.free {
            viol!("C04", "index-not-free", "index {} reused for {:?} but is not free", i, e);
        }
        if fresh {
            s.first = Some(e);
            self.fresh += 1;
            if !self.conc && self.free > 0 {
                viol!("C04", "fresh-while-free", "fresh index {} taken although {} freed indices are available", i, self.free);
            }
        } else {
            s.more.insert(e);
            if s.free {
                s.free = false;
                self.free -= 1;
            }
            rt::hit("probe:index_reused");
        }
        if s.cur.is_none() {
            self.live += 1;
        }
        s.cur = Some(e);
        self.created += 1;
        self.handles.push(e);
        if e.index() + 1 > self.max_index1 {
            self.max_index1 = e.index() + 1;
        }
        if let Some((r, how)) = self.revealed.remove(&e.index()) {
            if r != e {
                let p = if how == "join" { "C05" } else { "C02" };
                viol!(p, "phantom-handle", "{} showed {:?} but the index was then given to {:?}", how, r, e);
            }
        }
        self.revealed_idx.remove(&e.index());
        if self.conc {
            self.starts.insert(e, start);
        }
    }
    fn die(&mut self, e: Entity) {
        let s = &mut self.slots[e.index() as usize];
        if s.cur == Some(e) {
            s.cur = None;
            self.live -= 1;
            if e.generation() == LAST_GENERATION {
                // there is no later handle for this index, it must not come back
                rt::hit("fault:generation_exhaustion");
            } else {
                s.free = true;
                self.free += 1;
            }
        }
        self.marks.remove(&e);
    }
    fn reveal(&mut self, e: Entity, how: &'static str) {
        let p = if how == "join" { "C05" } else { "C02" };
        if !self.conc {
            viol!(p, "phantom-handle", "{} showed {:?}, but no live entity has index {}", how, e, e.index());
            return;
        }
        if let Some(c) = self.cur(e.index()) {
            // the creation returned during the call
            if c != e {
                viol!(p, "phantom-handle", "{} showed {:?}, but the live entity there is {:?}", how, e, c);
            }
            return;
        }
        if self.slots.get(e.index() as usize).map_or(false, |s| s.issued(e)) {
            viol!(p, "stale-handle", "{} showed the dead entity {:?}", how, e);
            return;
        }
        rt::hit("probe:inflight_entity_seen");
        match self.revealed.get(&e.index()) {
            Some((o, _)) if *o != e => {
                viol!(p, "phantom-handle", "{} showed {:?}, another query had shown {:?}", how, e, o)
            }
            Some(_) => {}
            None => {
                self.revealed.insert(e.index(), (e, how));
            }
        }
    }
    fn begin(&mut self) {
        self.conc = true;
        self.started = 0;
        self.created = 0;
        self.fresh = 0;
        self.free0 = self.free;
        self.max0 = self.max_index1;
        self.max_seen = self.max_index1;
        self.revealed.clear();
        self.revealed_idx.clear();
        self.starts.clear();
    }
    fn end(&mut self) {
        self.conc = false;
        let want = self.created.saturating_sub(self.free0);
        if self.fresh != want {
            viol!(
                "C04", "fresh-count",
                "{} concurrent creations with {} free indices took {} fresh indices, should be {}",
                self.created, self.free0, self.fresh, want
            );
        }
        for (i, (e, how)) in std::mem::take(&mut self.revealed) {
            let p = if how == "join" { "C05" } else { "C02" };
            viol!(p, "phantom-handle", "{} showed {:?} at index {}, which no creation ever returned", how, e, i);
        }
        for i in std::mem::take(&mut self.revealed_idx) {
            viol!("C02", "phantom-index", "live set contained index {}, which no creation ever returned", i);
        }
    }
}

fn far(k: u32) -> u32 {
    [u32::MAX, 1 << 24, (1 << 24) - 1, (1 << 24) + 4097, 1 << 31, 1 << 18][k as usize % 6]
}

fn sop(fac: &Fac, mc: &MC, op: &SOp) {
    match op {
        SOp::Create => {
            let s = quiet(|| {
                mc.g().started += 1;
                rt::seq()
            });
            let e = fac.create_s();
            quiet(|| mc.g().on_create(e, s));
        }
        SOp::Kill(sel) => {
            let Some((e, exp)) = quiet(|| {
                let m = mc.g();
                m.pick(*sel).map(|e| (e, m.known(e.index()) == Some(e)))
            }) else {
                return;
            };
            let ok = fac.del_s(e);
            quiet(|| {
                if ok != exp {
                    viol!("C02", "deletion-result", "deferred deletion of {} {:?} returned {}",
                        if exp { "live" } else { "dead" }, e, if ok { "Ok" } else { "Err" });
                }
                if ok {
                    if !mc.g().marks.insert(e) {
                        rt::hit("probe:marked_twice");
                    }
                    rt::hit("probe:marked");
                }
            });
        }
        SOp::Alive(sel) => {
            let Some((e, exp)) = quiet(|| {
                let m = mc.g();
                m.pick(*sel).map(|e| (e, m.known(e.index()) == Some(e)))
            }) else {
                return;
            };
            let a = fac.alive(e);
            quiet(|| {
                if a != exp {
                    viol!("C02", "is-alive", "is_alive({:?}) = {}, model says {}", e, a, exp);
                    if mc.g().marks.contains(&e) {
                        viol!("C03", "marked-not-alive", "{:?} is not alive before the merge that deletes it", e);
                    }
                }
            });
        }
        SOp::Lookup(_) | SOp::Far(_) => {
            let i = match op {
                SOp::Lookup(sel) => quiet(|| lookup_index(mc.g(), *sel)),
                SOp::Far(k) => far(*k),
                _ => unreachable!(),
            };
            let exp = quiet(|| mc.g().known(i));
            let got = if matches!(op, SOp::Far(_)) {
                rt::hit("fault:out_of_range_index");
                match attempt(|| fac.lookup(i)) {
                    Ok(g) => g,
                    Err(_) => {
                        viol!("C02", "lookup-panics", "looking up index {} panicked: {}", i, COLL.get().last_panic);
                        None
                    }
                }
            } else {
                fac.lookup(i)
            };
            quiet(|| check_lookup(mc.g(), i, exp, got));
        }
        SOp::Contains(sel) => {
            let (i, exp) = quiet(|| {
                let i = lookup_index(mc.g(), *sel);
                (i, mc.g().known(i))
            });
            let got = fac.contains(i);
            quiet(|| {
                let m = mc.g();
                if exp.is_some() && !got {
                    viol!("C02", "live-set-missing", "live set lacks index {} of live {:?}", i, exp);
                }
                if exp.is_none() && got && m.cur(i).is_none() {
                    if !m.conc {
                        viol!("C02", "live-set-extra", "live set contains index {} of no live entity", i);
                    } else {
                        m.revealed_idx.insert(i);
                    }
                }
            });
        }
        SOp::Max => {
            let lo = quiet(|| {
                let m = mc.g();
                let r = m.revealed.keys().next_back().map_or(0, |i| i + 1);
                m.max_index1.max(m.max_seen).max(r)
            });
            let got = fac.max();
            quiet(|| {
                let m = mc.g();
                let hi = if m.conc { m.max0 as u64 + m.started } else { m.max_index1 as u64 };
                if got < lo || got as u64 > hi {
                    viol!("C04", "max-entity-count", "max_entity_count = {}, expected between {} and {}", got, lo, hi);
                }
                m.max_seen = m.max_seen.max(got);
            });
        }
        SOp::Join(limit) => {
            let at_start: Vec<Entity> =
                quiet(|| mc.g().slots.iter().filter_map(|s| s.cur).collect());
            let (mut n, mut pos, mut last) = (0u32, 0usize, None::<u32>);
            let mut complete = true;
            fac.join_each(|e| {
                quiet(|| {
                    let m = mc.g();
                    if let Some(l) = last {
                        if e.index() <= l {
                            viol!("C05", "order", "join yielded index {} after {}", e.index(), l);
                        }
                    }
                    last = Some(e.index());
                    while pos < at_start.len() && at_start[pos].index() < e.index() {
                        viol!("C05", "missed", "join skipped {:?}, alive before it began", at_start[pos]);
                        pos += 1;
                    }
                    if pos < at_start.len() && at_start[pos].index() == e.index() {
                        if at_start[pos] != e {
                            viol!("C05", "wrong-handle", "join yielded {:?}, the entity there is {:?}", e, at_start[pos]);
                        }
                        pos += 1;
                    } else {
                        rt::hit("probe:join_saw_new_entity");
                        m.reveal(e, "join");
                    }
                });
                if n < 40 && !fac.alive(e) {
                    viol!("C05", "yielded-dead", "join yielded {:?}, which is not alive", e);
                }
                n += 1;
                if n >= *limit {
                    complete = false;
                }
                complete
            });
            quiet(|| {
                if complete && pos < at_start.len() {
                    viol!("C05", "missed", "join skipped {:?}, alive before it began", at_start[pos]);
                }
                drop(at_start);
            });
        }
        SOp::Bits(limit) => {
            let at_start: Vec<u32> =
                quiet(|| mc.g().slots.iter().filter_map(|s| s.cur).map(|e| e.index()).collect());
            let (mut n, mut pos, mut last) = (0u32, 0usize, None::<u32>);
            let mut complete = true;
            fac.bits_each(|i| {
                quiet(|| {
                    let m = mc.g();
                    if last.map_or(false, |l| i <= l) {
                        viol!("C02", "live-set-order", "live set iterated {} after {:?}", i, last);
                    }
                    last = Some(i);
                    while pos < at_start.len() && at_start[pos] < i {
                        viol!("C02", "live-set-missing", "live set iteration skipped live index {}", at_start[pos]);
                        pos += 1;
                    }
                    if pos < at_start.len() && at_start[pos] == i {
                        pos += 1;
                    } else if m.cur(i).is_none() {
                        if m.conc {
                            m.revealed_idx.insert(i);
                        } else {
                            viol!("C02", "live-set-extra", "live set contains index {} of no live entity", i);
                        }
                    }
                });
                n += 1;
                if n >= *limit {
                    complete = false;
                }
                complete
            });
            quiet(|| {
                if complete && pos < at_start.len() {
                    viol!("C02", "live-set-missing", "live set iteration skipped live index {}", at_start[pos]);
                }
                drop(at_start);
            });
        }
    }
}

fn lookup_index(m: &Model, sel: u32) -> u32 {
    // mostly around indices in use or about to be used
    match sel % 3 {
        0 => m.pick(sel / 3).map_or(0, |e| e.index()),
        1 => (m.max_index1 + 2).saturating_sub((sel / 3) % 8),
        _ => (sel / 3) % (m.max_index1 + 4),
    }
}

fn check_lookup(m: &mut Model, i: u32, exp: Option<Entity>, got: Option<Entity>) {
    match (exp, got) {
        (Some(x), g) if g != Some(x) => {
            viol!("C02", "lookup", "lookup of index {} gave {:?}, the live entity there is {:?}", i, g, x)
        }
        (None, Some(g)) => {
            if g.index() != i {
                viol!("C02", "lookup", "lookup of index {} gave {:?}", i, g);
            } else {
                m.reveal(g, "lookup");
            }
        }
        _ => {}
    }
}

fn audit(fac: &mut Fac, mc: &MC) {
    let want: Vec<Entity> = quiet(|| mc.g().slots.iter().filter_map(|s| s.cur).collect());
    let mut got = quiet(|| Vec::with_capacity(want.len() + 8));
    fac.join_each(|e| {
        quiet(|| got.push(e));
        true
    });
    quiet(|| {
        if got != want {
            let miss: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(3).collect();
            let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(3).collect();
            viol!("C02", "join-set", "join over entities differs from the live set: missing {:?}, extra {:?}", miss, extra);
        }
        drop(got);
        drop(want);
    });
    let n = quiet(|| mc.g().max_index1);
    let picks: Vec<u32> = quiet(|| {
        if n < 600 {
            (0..n + 3).collect()
        } else {
            let step = n / 200 + 1;
            (0..n).step_by(step as usize).chain(n.saturating_sub(20)..n + 3).collect()
        }
    });
    for i in picks.iter() {
        let exp = quiet(|| mc.g().cur(*i));
        let got = fac.lookup(*i);
        quiet(|| check_lookup(mc.g(), *i, exp, got));
        let c = fac.contains(*i);
        if c != exp.is_some() {
            viol!("C02", "live-set", "live set membership of index {} is {}, model says {}", i, c, exp.is_some());
        }
    }
    let hs: Vec<Entity> = quiet(|| mc.g().handles.iter().rev().take(300).copied().collect());
    for e in hs.iter() {
        let a = fac.alive(*e);
        let exp = quiet(|| mc.g().alive(*e));
        if a != exp {
            viol!("C02", "is-alive", "is_alive({:?}) = {}, model says {}", e, a, exp);
            if quiet(|| mc.g().marks.contains(e)) {
                viol!("C03", "marked-not-alive", "{:?} is not alive before the merge that deletes it", e);
            }
        }
    }
    let mx = fac.max();
    quiet(|| {
        if mx != mc.g().max_index1 {
            viol!("C04", "max-entity-count", "max_entity_count = {}, largest index handed out + 1 is {}", mx, mc.g().max_index1);
        }
        drop(picks);
        drop(hs);
    });
}

fn create_x(fac: &mut Fac, mc: &MC) {
    let e = fac.create_x();
    quiet(|| mc.g().on_create(e, 0));
}

fn kill_x(fac: &mut Fac, mc: &MC, e: Entity) {
    let exp = quiet(|| mc.g().alive(e));
    let ok = fac.kill_x(e);
    quiet(|| {
        let m = mc.g();
        if ok != exp {
            viol!("C02", "deletion-result", "immediate deletion of {} {:?} returned {}",
                if exp { "live" } else { "dead" }, e, if ok { "Ok" } else { "Err" });
        }
        if ok && exp {
            if m.marks.contains(&e) {
                rt::hit("probe:mark_overtaken_by_kill");
            }
            m.die(e);
        }
    });
}

fn merge(fac: &mut Fac, mc: &MC) {
    match fac {
        Fac::Raw(a) => {
            let mut killed: Vec<Entity> = quiet(|| mc.g().handles.iter().take(2).copied().collect());
            a.merge_atomic(&mut killed);
            quiet(|| {
                let m = mc.g();
                let mut seen = HashSet::new();
                for e in &killed {
                    if !seen.insert(*e) {
                        viol!("C03", "reported-twice", "merge reported {:?} twice", e);
                    } else if !m.marks.contains(e) {
                        viol!("C03", "killed-unmarked", "merge killed {:?}, which had no outstanding request", e);
                    }
                }
                for e in &m.marks {
                    if !seen.contains(e) {
                        viol!("C03", "not-killed", "merge did not report {:?}, whose deletion had been accepted", e);
                    }
                }
                rt::count("probe:merge_killed", seen.len() as u64);
                for e in seen {
                    if m.alive(e) {
                        m.die(e);
                    }
                }
                m.marks.clear();
                drop(killed);
            });
        }
        Fac::World(w) => {
            w.merge();
            let marks: Vec<Entity> = quiet(|| {
                let m = mc.g();
                let mut v: Vec<_> = m.marks.drain().collect();
                v.sort();
                v
            });
            for e in marks.iter() {
                if w.entities().is_alive(*e) {
                    viol!("C03", "not-killed", "{:?} is alive after the merge although its deletion had been accepted", e);
                } else {
                    quiet(|| mc.g().die(*e));
                    rt::hit("probe:merge_killed");
                }
            }
            let rest: Vec<Entity> = quiet(|| mc.g().handles.iter().rev().take(200).copied().collect());
            for e in rest.iter() {
                if quiet(|| mc.g().alive(*e)) && !w.entities().is_alive(*e) {
                    viol!("C03", "killed-unmarked", "merge killed {:?}, which had no outstanding request", e);
                    quiet(|| mc.g().die(*e));
                }
            }
            quiet(|| {
                drop(marks);
                drop(rest);
            });
        }
    }
}

/// The index of an entity of this generation is used up.
const LAST_GENERATION: u32 = i32::MAX as u32;

/// Indices that have been through almost all of their generations.  It takes 2^31 creations to get one there, so
/// after a few of them the table of generations is looked for in the heap and moved on.
fn age(fac: &mut Fac, mc: &MC, left: &[u32]) {
    if left.len() < 6 {
        return;
    }
    let left = &left[..left.len().min(24)];
    let mut es = quiet(Vec::new);
    for _ in left {
        create_x(fac, mc);
        quiet(|| es.push(*mc.g().handles.last().unwrap()));
    }
    if quiet(|| (0..es.len()).any(|i| es[i].index() as usize != i)) {
        quiet(|| drop(es));
        return;
    }
    for k in 0..es.len() {
        for _ in 0..(k * k * 3 + k) % 5 {
            kill_x(fac, mc, es[k]);
            create_x(fac, mc);
            quiet(|| es[k] = *mc.g().handles.last().unwrap());
        }
    }
    for k in 0..es.len() {
        kill_x(fac, mc, es[k]);
    }
    quiet(|| {
        if (0..es.len()).all(|i| es[i].index() as usize == i) {
            let _s = Sys::new();
            let pat: Vec<u32> = es.iter().map(|e| (e.generation() as i32).wrapping_neg() as u32).collect();
            let new: Vec<u32> = (0..es.len())
                .map(|i| if left[i] < 1000 { (left[i].max(1) as i32 - i32::MAX) as u32 } else { pat[i] })
                .collect();
            if rt::heap_replace(&pat, &new) {
                rt::hit("probe:aged_indices");
            }
        }
        drop(es);
    });
}

pub fn exec(p: &Plan) {
    let mut fac = if p.world { Fac::World(Box::new(World::new())) } else { Fac::Raw(Box::new(Allocator::new())) };
    let mc = quiet(|| MC(UnsafeCell::new(Model::default())));
    age(&mut fac, &mc, &p.aged);
    for _ in 0..p.prefill {
        create_x(&mut fac, &mc);
    }
    if p.prefill > 100_000 {
        // selection by recency only; the model keeps everything
        rt::hit("probe:huge_prefill");
    }
    for round in &p.rounds {
        match round {
            Round::Excl(ops) => {
                for op in ops {
                    match op {
                        XOp::Create(n) => (0..(*n).min(300)).for_each(|_| create_x(&mut fac, &mc)),
                        XOp::Kill(s) => {
                            if let Some(e) = quiet(|| mc.g().pick(*s)) {
                                kill_x(&mut fac, &mc, e)
                            }
                        }
                        XOp::KillMany(s, n, step) => {
                            let es: Vec<Entity> = quiet(|| {
                                let h = &mc.g().handles;
                                (0..(*n).min(200) as usize)
                                    .filter_map(|k| {
                                        let d = (*s as usize % 7) + k * (*step as usize).max(1);
                                        if d < h.len() { Some(h[h.len() - 1 - d]) } else { None }
                                    })
                                    .collect()
                            });
                            for e in es.iter() {
                                kill_x(&mut fac, &mc, *e);
                            }
                        }
                        XOp::Cycle(n) => {
                            for _ in 0..(*n).min(70_000) {
                                create_x(&mut fac, &mc);
                                let e = quiet(|| *mc.g().handles.last().unwrap());
                                kill_x(&mut fac, &mc, e);
                            }
                        }
                        XOp::Sweep(s, n) => {
                            let es: Vec<Entity> = quiet(|| {
                                let m = mc.g();
                                let h = m.handles.iter().rev().skip((*s % 7) as usize).take((*n).min(6000) as usize);
                                h.copied().filter(|e| m.alive(*e)).collect()
                            });
                            for e in es.iter() {
                                if !fac.del_s(*e) {
                                    viol!("C02", "deletion-result", "deferred deletion of live {:?} returned Err", e);
                                }
                                quiet(|| mc.g().marks.insert(*e));
                            }
                            quiet(|| drop(es));
                        }
                        XOp::Audit => audit(&mut fac, &mc),
                        XOp::Shared(o) => sop(&fac, &mc, o),
                    }
                }
            }
            Round::Conc(ths) => {
                if ths.is_empty() {
                    continue;
                }
                quiet(|| mc.g().begin());
                {
                    let (f, m) = (&fac, &mc);
                    let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                        ths.iter()
                            .take(8)
                            .map(|ops| {
                                Box::new(move || {
                                    for op in ops {
                                        sop(f, m, op);
                                    }
                                }) as Box<dyn FnOnce() + '_>
                            })
                            .collect()
                    });
                    threads(v);
                }
                quiet(|| mc.g().end());
                let mx = fac.max();
                quiet(|| {
                    if mx != mc.g().max_index1 {
                        viol!("C04", "max-entity-count", "max_entity_count = {}, largest index handed out + 1 is {}", mx, mc.g().max_index1);
                    }
                });
            }
            Round::Merge => {
                merge(&mut fac, &mc);
            }
        }
    }
    audit(&mut fac, &mc);
    merge(&mut fac, &mc);
    audit(&mut fac, &mc);
    // every freed index is still there, once
    let n = quiet(|| mc.g().free).min(500);
    for _ in 0..n {
        create_x(&mut fac, &mc);
    }
    if quiet(|| mc.g().free) == 0 {
        create_x(&mut fac, &mc);
    }
    quiet(|| {
        std::mem::forget(mc);
    });
    drop(fac);
}
