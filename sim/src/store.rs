//! S2: one masked storage of any kind against a map: sequential operations, parallel joins under a
//! simulated pool, shared phases by several threads, panics in closures, bodies and destructors.
use crate::comp::*;
use crate::rt::{self, *};
use crate::with_kind;
use goggles::hibitset::{BitSet, BitSetLike};
use goggles::masked::{GuardedElement, MaskedStorage};
use goggles::{IntoJoinExt, ParJoinExt};
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub kind: u32,
    pub track: bool,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(u32),
    Rem(u32),
    Goi(u32, bool),
    Get(u32),
    GetMut(u32),
    Guard(u32, u32),
    Fill(u32, u32, u32),
    Thin(u32, u32),
    Far(u32),
    ItMut(u32, u32),
    ItGuard(u32),
    ItSub(u32),
    Slice(u32),
    Track(bool),
    Clear,
    Mark(u32),
    ModMut(u32),
    Par(ParOp),
    Sh(Vec<Vec<Sh>>),
    DropAll(u32),
    Audit,
    /// while unwinding from a panic
    Unw(Box<Op>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParOp {
    pub what: u32,
    pub mode: u32,
    pub salt: u32,
    pub panics: u32,
    pub stop: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sh {
    Get(u32),
    Has(u32),
    Mark(u32),
    Read(u32),
    IsMod(u32),
    ModJoin,
    Mask,
}

fn gen_par(r: &mut Rng) -> ParOp {
    let panics = if r.chance(1, 4) { 1 + r.below(3) as u32 } else { 0 };
    ParOp {
        what: r.weighted(&[30, 12, 18, 14, 8, 8, 10]) as u32,
        mode: r.weighted(&[34, 22, 14, 12, 8, 10]) as u32,
        salt: r.sel(),
        panics,
        stop: r.below(40) as u32,
    }
}

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let kind = if prop == "C10" { 3 + r.below(3) as u32 } else { r.below(KINDS as u64) as u32 };
    if r.chance(1, if prop == "C08" { 900 } else { 5000 }) {
        // more values than fit in 16 bits
        let mut ops = vec![Op::Fill(r.below(70) as u32, r.range(65_530, 66_200) as u32, *r.pick(&[1u32, 1, 2, 3]))];
        for _ in 0..r.range(3, 8) {
            ops.push(match r.below(6) {
                0 | 1 => Op::Ins(r.sel()),
                2 | 3 => Op::Rem(r.sel()),
                4 => Op::GetMut(r.sel()),
                _ => Op::Goi(r.sel(), false),
            });
        }
        return Plan { kind, track: r.chance(1, 2), ops };
    }
    let n = 2 + r.below(if thorough { 26 } else { 18 });
    let mut ops = vec![];
    if r.chance(7, 10) {
        // material for the joins: a few dense or sparse runs
        for _ in 0..1 + r.below(3) {
            let base = *r.pick(&[0u32, 0, 3, 60, 120, 4090, 8190, 20_000]);
            let step = *r.pick(&[1u32, 1, 2, 7, 64, 65, 130, 4097]);
            let n = if step > 1000 { 1 + r.below(8) } else { 1 + r.below(if thorough { 150 } else { 60 }) };
            ops.push(Op::Fill(base, n as u32, step));
        }
        if r.chance(1, 40) {
            ops.push(Op::Fill(0, r.range(200, if thorough { 6000 } else { 2500 }) as u32, *r.pick(&[1u32, 1, 3, 33, 70])));
        }
    }
    //                Ins Rem Goi Get GMut Guard Fill Thin Far ItM ItG ItS Slice Track Clr Mark ModM Par Sh Drop Audit
    let w: [u32; 21] = match prop {
        "C10" => [14, 12, 8, 4, 10, 12, 3, 3, 0, 8, 10, 5, 0, 8, 10, 8, 6, 22, 14, 2, 2],
        "C11" => [10, 10, 2, 1, 2, 2, 5, 5, 0, 2, 2, 2, 0, 2, 2, 2, 2, 60, 2, 1, 1],
        "C19" => [10, 10, 6, 4, 6, 6, 3, 3, 1, 3, 3, 3, 3, 3, 3, 3, 2, 40, 20, 3, 1],
        "C09" => [20, 16, 14, 3, 5, 3, 4, 5, 3, 2, 2, 2, 3, 2, 2, 1, 1, 20, 3, 12, 3],
        _ => [20, 16, 12, 6, 8, 6, 4, 4, 3, 5, 4, 4, 5, 3, 3, 2, 2, 26, 8, 4, 3],
    };
    let unw = r.chance(1, 3);
    for _ in 0..n {
        let op = match r.weighted(&w) {
            0 => Op::Ins(r.sel()),
            1 => Op::Rem(r.sel()),
            2 => Op::Goi(r.sel(), r.chance(1, 3)),
            3 => Op::Get(r.sel()),
            4 => Op::GetMut(r.sel()),
            5 => Op::Guard(r.sel(), r.below(4) as u32),
            6 => Op::Fill(*r.pick(&[0u32, 5, 62, 4094]), 1 + r.below(20) as u32, *r.pick(&[1u32, 3, 64])),
            7 => Op::Thin(r.sel(), 2 + r.below(4) as u32),
            8 => Op::Far(r.below(6) as u32),
            9 => Op::ItMut(r.sel(), if r.chance(1, 2) { u32::MAX } else { r.below(10) as u32 }),
            10 => Op::ItGuard(r.sel()),
            11 => Op::ItSub(r.sel()),
            12 => Op::Slice(r.sel()),
            13 => Op::Track(r.chance(3, 4)),
            14 => Op::Clear,
            15 => Op::Mark(r.sel()),
            16 => Op::ModMut(r.sel()),
            17 => Op::Par(gen_par(r)),
            18 => {
                let nt = 2 + r.below(3);
                Op::Sh(
                    (0..nt)
                        .map(|_| {
                            (0..1 + r.below(6))
                                .map(|_| match r.weighted(&[15, 10, 40, 8, 14, 8, 5]) {
                                    0 => Sh::Get(r.sel()),
                                    1 => Sh::Has(r.sel()),
                                    2 => Sh::Mark(r.sel()),
                                    3 => Sh::Read(1 + r.below(30) as u32),
                                    4 => Sh::IsMod(r.sel()),
                                    5 => Sh::ModJoin,
                                    _ => Sh::Mask,
                                })
                                .collect()
                        })
                        .collect(),
                )
            }
            19 => Op::DropAll(r.sel()),
            _ => Op::Audit,
        };
        ops.push(if unw && r.chance(1, 10) { Op::Unw(Box::new(op)) } else { op });
    }
    Plan { kind, track: r.chance(if prop == "C10" { 9 } else { 6 }, 10), ops }
}

#[derive(Default)]
struct M {
    map: BTreeMap<u32, (u32, u64)>,
    /// value id -> index
    at: HashMap<u32, u32>,
    modified: BTreeSet<u32>,
    tracking: bool,
    tracked: bool,
    // parallel phase
    held: HashMap<u32, u32>,
    visited: BTreeSet<u32>,
    panicked: Vec<u32>,
    // shared phase
    mark_started: BTreeSet<u32>,
}
struct MC(UnsafeCell<M>);
unsafe impl Sync for MC {}
impl MC {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut M {
        unsafe { &mut *self.0.get() }
    }
}
impl M {
    fn flag(&mut self, i: u32) {
        if self.tracked && self.tracking {
            self.modified.insert(i);
        }
    }
    fn put(&mut self, i: u32, id: u32, p: u64) {
        self.map.insert(i, (id, p));
        self.at.insert(id, i);
        self.flag(i);
    }
    fn take(&mut self, i: u32) -> Option<(u32, u64)> {
        let x = self.map.remove(&i);
        if let Some((id, _)) = x {
            self.at.remove(&id);
            self.flag(i);
        }
        x
    }
}

fn index(m: &M, sel: u32) -> u32 {
    let k = sel / 16;
    match sel % 16 {
        0..=4 => k % 12,
        5..=6 => 58 + k % 12,
        7 => 4090 + k % 12,
        8 => k % 200,
        _ if m.map.is_empty() => k % 12,
        // mostly something that is there
        _ => {
            let hi = *m.map.keys().next_back().unwrap();
            let near = (mix(k as u64) % (hi as u64 + 1)) as u32;
            *m.map.range(near..).next().or_else(|| m.map.iter().next()).unwrap().0
        }
    }
}
fn some_bits(m: &M, salt: u32) -> (BitSet, BTreeSet<u32>) {
    let mut s = BTreeSet::new();
    for i in m.map.keys() {
        if mix(*i as u64 ^ ((salt as u64) << 32)) % 3 > 0 {
            s.insert(*i);
        }
    }
    for k in 0..6u64 {
        s.insert((mix(salt as u64 * 31 + k) % 140) as u32);
    }
    (bitset_of(s.iter().copied()), s)
}

fn expect_val(i: u32, v: &Val, want: Option<(u32, u64)>, how: &str) {
    // reads of the value itself are the code under test's business
    let (ok, id, p) = (v.ok(), v.id, v.payload);
    let _q = Quiet::new();
    if !ok {
        viol!("C08", "garbage", "{} at index {} yields something that is not a value", how, i);
        viol!("C09", "garbage", "{} at index {} yields something that is not a value", how, i);
        viol!("C19", "garbage", "{} at index {} reads memory that holds no value", how, i);
        return;
    }
    match want {
        None => viol!("C08", "ghost", "{} at index {} yields value {}, but nothing is stored there", how, i, id),
        Some((wid, wp)) => {
            if wid != id {
                viol!("C08", "wrong-value", "{} at index {} yields value {}, stored was {}", how, i, id, wid);
            } else if wp != p {
                viol!("C08", "lost-update", "{} at index {} reads {:#x}, last written was {:#x}", how, i, p, wp);
            }
        }
    }
}
fn expect_opt(i: u32, got: Option<&Val>, want: Option<(u32, u64)>, how: &str) {
    match got {
        Some(v) => expect_val(i, v, want, how),
        None => {
            if let Some((id, _)) = want {
                viol!("C08", "missing", "{} at index {} finds nothing, value {} is stored there", how, i, id);
            }
        }
    }
}

type MS<C> = MaskedStorage<<C as CompT>::St>;

fn audit<C: CompT>(s: &MS<C>, mc: &MC) {
    let m = mc.g();
    let keys: Vec<u32> = s.mask().iter().collect();
    if !keys.iter().eq(m.map.keys()) {
        let miss: Vec<_> = m.map.keys().filter(|k| !keys.contains(k)).take(4).collect();
        let extra: Vec<_> = keys.iter().filter(|k| !m.map.contains_key(k)).take(4).collect();
        viol!("C08", "presence", "presence set differs from the key set: missing {:?}, extra {:?}", miss, extra);
        viol!("C11", "presence", "presence set differs from the key set: missing {:?}, extra {:?}", miss, extra);
    }
    for (i, w) in m.map.iter() {
        expect_opt(*i, s.get(*i).map(|c| c.v()), Some(*w), "get");
        if !s.contains(*i) {
            viol!("C08", "presence", "contains({}) is false, value {} is stored there", i, w.0);
        }
    }
    for i in m.map.keys().take(60).flat_map(|i| [i + 1, i.wrapping_sub(1)]).chain([0, 63, 64, 4096, 1 << 20]) {
        if !m.map.contains_key(&i) {
            expect_opt(i, s.get(i).map(|c| c.v()), None, "get");
            if s.contains(i) {
                viol!("C08", "presence", "contains({}) is true, nothing is stored there", i);
            }
        }
    }
    if let Some(sl) = C::St::slice(s) {
        let mut ids: Vec<u32> = sl.iter().map(|c| c.v().id).collect();
        ids.sort();
        let mut want: Vec<u32> = m.map.values().map(|x| x.0).collect();
        want.sort();
        if ids != want {
            viol!("C08", "slice", "the dense slice holds {} values, the map {}", ids.len(), want.len());
        }
    }
    if let Some(b) = C::St::modified(s) {
        let got: Vec<u32> = b.iter().collect();
        if !got.iter().eq(m.modified.iter()) {
            let miss: Vec<_> = m.modified.iter().filter(|k| !got.contains(k)).take(4).collect();
            let extra: Vec<_> = got.iter().filter(|k| !m.modified.contains(k)).take(4).collect();
            viol!("C10", "modified-set", "modified set differs: not flagged {:?}, wrongly flagged {:?}", miss, extra);
        }
        if C::St::tracking(s) != m.tracking {
            viol!("C10", "tracking", "tracking reads {}", !m.tracking);
        }
        let mut n = 0;
        C::St::mod_join(s, &mut |i, x| {
            n += 1;
            match (x, m.map.get(&i)) {
                (Some(c), Some(w)) => expect_val(i, c.v(), Some(*w), "modified join"),
                (None, None) => {}
                (g, w) => viol!("C10", "modified-join", "modified join at {}: present {}, stored {}", i, g.is_some(), w.is_some()),
            }
            true
        });
        if n != got.len() {
            viol!("C10", "modified-join", "modified join yielded {} items of {}", n, got.len());
        }
    }
    check_ownership(&|id| m.at.contains_key(&id), "the storage");
}

/// Bookkeeping at the start of a loop body; returns the index of the item.
fn enter(mc: &MC, id: u32, ok: bool, how: &str) -> Option<u32> {
    let _q = Quiet::new();
    let m = mc.g();
    if !ok {
        viol!("C08", "garbage", "{} yields something that is not a value", how);
        viol!("C19", "garbage", "{} reads memory that holds no value", how);
        return None;
    }
    let Some(i) = m.at.get(&id).copied() else {
        viol!("C08", "ghost", "{} yields value {}, which is not stored", how, id);
        viol!("C11", "ghost", "{} yields value {}, which is not stored", how, id);
        return None;
    };
    enter_index(mc, i, how);
    Some(i)
}
fn enter_index(mc: &MC, i: u32, how: &str) {
    let _q = Quiet::new();
    let m = mc.g();
    let me = rt::me();
    if let Some(o) = m.held.insert(i, me) {
        viol!("C11", "shared-item", "{}: threads {} and {} hold the item of index {} at the same time", how, o, me, i);
    }
    if !m.held.is_empty() && m.held.len() > 1 {
        rt::hit("probe:items_held_together");
    }
    if !m.visited.insert(i) {
        viol!("C11", "visited-twice", "{}: index {} was visited twice", how, i);
    }
}
fn leave(mc: &MC, i: u32) {
    let _q = Quiet::new();
    mc.g().held.remove(&i);
}
fn new_payload(salt: u32, i: u32, old: u64) -> u64 {
    mix(old ^ ((salt as u64) << 32) ^ i as u64)
}

struct BodyCtx<'a> {
    mc: &'a MC,
    salt: u32,
    panic_at: Vec<u32>,
    stop_at: Vec<u32>,
}
impl BodyCtx<'_> {
    fn act(&self, i: u32) -> u32 {
        (mix(self.salt as u64 * 77 + i as u64) % 5) as u32
    }
    fn write<C: CompT>(&self, i: u32, x: &mut C) {
        let want = quiet(|| self.mc.g().map.get(&i).copied());
        expect_val(i, x.v(), want, "mutable join item");
        let np = new_payload(self.salt, i, x.v().payload);
        x.vm().payload = np;
        quiet(|| {
            if let Some(e) = self.mc.g().map.get_mut(&i) {
                e.1 = np
            }
        });
        yield_now();
        if x.v().payload != np {
            viol!("C08", "lost-update", "the item of index {} changed under its holder", i);
            viol!("C11", "shared-item", "the item of index {} changed under its holder", i);
        }
    }
    fn out(&self, i: u32) -> u64 {
        mix(i as u64 ^ 0x77)
    }
    fn before(&self, i: u32) {
        if self.panic_at.contains(&i) && self.act(i) % 2 == 0 {
            leave(self.mc, i);
            self.boom(i);
        }
    }
    fn boom(&self, i: u32) -> ! {
        rt::hit("fault:body_panic");
        quiet(|| self.mc.g().panicked.push(i));
        inject(i)
    }
    fn after(&self, i: u32) -> (u32, u64) {
        leave(self.mc, i);
        if self.panic_at.contains(&i) {
            self.boom(i);
        }
        (i, self.out(i))
    }
    fn mutable<C: CompT>(&self, x: &mut C) -> (u32, u64) {
        let Some(i) = enter(self.mc, x.v().id, x.v().ok(), "mutable join") else { return (u32::MAX, 0) };
        quiet(|| self.mc.g().flag(i));
        self.before(i);
        yield_now();
        if self.act(i) > 0 {
            self.write(i, x);
        }
        self.after(i)
    }
    fn read<C: CompT>(&self, x: &C) -> (u32, u64) {
        let Some(i) = enter(self.mc, x.v().id, x.v().ok(), "shared join") else { return (u32::MAX, 0) };
        self.before(i);
        let want = quiet(|| self.mc.g().map.get(&i).copied());
        expect_val(i, x.v(), want, "shared join item");
        yield_now();
        self.after(i)
    }
    fn guarded<C: CompT>(&self, mut g: GuardedElement<C::St>, i: u32) -> (u32, u64) {
        enter_index(self.mc, i, "guarded join");
        self.before(i);
        match self.act(i) {
            0 => {}
            1 => {
                let want = quiet(|| self.mc.g().map.get(&i).copied());
                expect_val(i, g.get().v(), want, "guarded item");
            }
            2 | 3 => {
                quiet(|| self.mc.g().flag(i));
                let x = g.get_mut();
                self.write(i, x);
            }
            _ => {
                if C::St::TRACKED {
                    quiet(|| self.mc.g().modified.insert(i));
                    C::St::guard_mark(&g);
                }
            }
        }
        yield_now();
        self.after(i)
    }
}

/// How the parallel iterator is consumed.
fn drive<I, F>(it: I, mode: u32, stop_at: &[u32], f: F) -> (Option<Vec<(u32, u64)>>, bool)
where
    I: ParallelIterator,
    F: Fn(I::Item) -> (u32, u64) + Sync + Send,
{
    match mode {
        1 => (Some(it.map(f).collect::<Vec<_>>()), true),
        2 => {
            let r = it.map(f).try_for_each(|(i, _)| if stop_at.contains(&i) { Err(()) } else { Ok(()) });
            (None, r.is_ok())
        }
        3 => {
            let r = it.map(f).find_any(|(i, _)| stop_at.contains(i));
            (None, r.is_none())
        }
        4 => {
            let n = it.map(f).filter(|(_, o)| *o != 1).count();
            (None, n != usize::MAX)
        }
        5 => {
            // an order-preserving fold and reduce
            let v = it
                .map(f)
                .fold(Vec::new, |mut v, x| {
                    v.push(x);
                    v
                })
                .reduce(Vec::new, |mut a, mut b| {
                    a.append(&mut b);
                    a
                });
            (Some(v), true)
        }
        _ => {
            it.for_each(|x| {
                f(x);
            });
            (None, true)
        }
    }
}

fn par<C: CompT>(s: &mut MS<C>, mc: &MC, p: &ParOp) {
    let (bits, bset) = quiet(|| some_bits(mc.g(), p.salt));
    let what = match p.what {
        5 if !C::St::TRACKED => 0,
        w => w,
    };
    let expected: Vec<u32> = quiet(|| {
        let m = mc.g();
        m.visited.clear();
        m.panicked.clear();
        m.held.clear();
        match what {
            0 | 1 => m.map.keys().copied().collect(),
            2 | 3 => m.map.keys().copied().filter(|i| bset.contains(i)).collect(),
            4 | 6 => bset.iter().copied().collect(),
            _ => m.modified.iter().copied().collect(),
        }
    });
    let (panic_at, stop_at) = quiet(|| {
        let pick = |k: u64| expected[(mix(p.salt as u64 * 131 + k) % expected.len() as u64) as usize];
        if expected.is_empty() {
            (vec![], vec![])
        } else {
            (
                (0..p.panics.min(8)).map(|k| pick(k as u64)).collect::<Vec<_>>(),
                (0..1 + p.stop % 2).map(|k| pick(1000 + k as u64 + p.stop as u64)).collect::<Vec<_>>(),
            )
        }
    });
    let cx = BodyCtx { mc, salt: p.salt, panic_at, stop_at };
    let maybe_body = |i: u32, present: bool| {
        let want = quiet(|| mc.g().map.contains_key(&i));
        if want != present {
            viol!("C11", "optional-item", "optional part at {}: present {}, stored {}", i, present, want);
        }
    };
    let sp = &cx.stop_at;
    let r = attempt(|| match what {
        0 => drive((&mut *s).par_join(), p.mode, sp, |x: &mut C| cx.mutable(x)),
        1 => drive((&*s).par_join(), p.mode, sp, |x: &C| cx.read(x)),
        2 => drive((s.guard(), &bits).par_join(), p.mode, sp, |(g, i)| cx.guarded::<C>(g, i)),
        3 => drive((&mut *s, &bits).par_join(), p.mode, sp, |(x, i): (&mut C, u32)| {
            let r = cx.mutable(x);
            if r.0 != i {
                viol!("C11", "mispaired", "the join paired index {} with the item of {}", i, r.0);
            }
            r
        }),
        4 => drive((&bits, (&*s).maybe()).par_join(), p.mode, sp, |(i, x): (u32, Option<&C>)| {
            maybe_body(i, x.is_some());
            match x {
                Some(x) => cx.read(x),
                None => {
                    enter_index(mc, i, "optional join");
                    cx.before(i);
                    cx.after(i)
                }
            }
        }),
        6 => drive((&bits, (&mut *s).maybe()).par_join(), p.mode, sp, |(i, x): (u32, Option<&mut C>)| {
            maybe_body(i, x.is_some());
            match x {
                Some(x) => cx.mutable(x),
                None => {
                    enter_index(mc, i, "optional join");
                    cx.before(i);
                    cx.after(i)
                }
            }
        }),
        _ => {
            let none = std::sync::atomic::AtomicU32::new(0);
            C::St::par_mod_mut(s, |x| match x {
                Some(x) => {
                    cx.mutable(x);
                }
                None => {
                    none.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            });
            let n = none.load(std::sync::atomic::Ordering::Relaxed);
            quiet(|| {
                let m = mc.g();
                let absent: Vec<u32> = m.modified.iter().copied().filter(|i| !m.map.contains_key(i)).collect();
                if absent.len() as u32 != n {
                    viol!("C10", "modified-join", "parallel modified join: {} absent items of {}", n, absent.len());
                }
                m.visited.extend(absent);
            });
            (None, true)
        }
    });
    let _q = Quiet::new();
    let m = mc.g();
    let visited: Vec<u32> = m.visited.iter().copied().collect();
    if let Some(x) = visited.iter().find(|i| expected.binary_search(i).is_err()) {
        viol!("C11", "extra-index", "the parallel join visited index {}, which does not match", x);
    }
    match r {
        Ok((list, complete)) => {
            if !m.panicked.is_empty() {
                viol!("C11", "panic-lost", "a loop body panicked but the join returned normally");
            }
            if complete && visited != expected {
                let miss: Vec<_> = expected.iter().filter(|i| !visited.contains(i)).take(4).collect();
                viol!("C11", "missed", "the parallel join missed {:?} ({} of {} visited)", miss, visited.len(), expected.len());
            }
            if let Some(l) = list {
                let got: Vec<u32> = l.iter().map(|x| x.0).collect();
                if got != expected {
                    viol!("C11", "order", "collected {:?}..., sequentially {:?}...",
                        &got[..got.len().min(8)], &expected[..expected.len().min(8)]);
                }
            }
            if !complete {
                rt::hit("fault:early_stop");
                if !cx.stop_at.iter().any(|i| visited.contains(i)) {
                    viol!("C11", "stopped-early", "the join stopped although no body asked it to");
                }
            }
        }
        Err(Caught::Injected(i)) => {
            if !m.panicked.contains(&i) {
                viol!("*", "wrong-panic", "panic {} arrived instead of one of {:?}", i, cx.panic_at);
            }
        }
        Err(Caught::Other(_)) => {
            viol!("C11", "unexpected-panic", "the parallel join panicked: {}", COLL.get().last_panic);
            viol!("C08", "unexpected-panic", "the parallel join panicked: {}", COLL.get().last_panic);
        }
    }
    if !m.held.is_empty() {
        let left: Vec<_> = m.held.keys().copied().take(4).collect();
        viol!("C11", "still-running", "the join returned while bodies for {:?} were running", left);
        m.held.clear();
    }
}

fn sh<C: CompT>(s: &MS<C>, mc: &MC, op: &Sh) {
    match op {
        Sh::Get(sel) => {
            let (i, want) = quiet(|| {
                let i = index(mc.g(), *sel);
                (i, mc.g().map.get(&i).copied())
            });
            expect_opt(i, s.get(i).map(|c| c.v()), want, "concurrent get");
        }
        Sh::Has(sel) => {
            let (i, want) = quiet(|| {
                let i = index(mc.g(), *sel);
                (i, mc.g().map.contains_key(&i))
            });
            if s.contains(i) != want {
                viol!("C08", "presence", "contains({}) is {}", i, !want);
            }
        }
        Sh::Mark(sel) => {
            if !C::St::TRACKED {
                return;
            }
            let i = quiet(|| {
                let i = index(mc.g(), *sel);
                mc.g().mark_started.insert(i);
                i
            });
            C::St::mark(s, i);
            quiet(|| {
                mc.g().modified.insert(i);
            });
            rt::hit("probe:concurrent_mark");
        }
        Sh::IsMod(sel) => {
            if !C::St::TRACKED {
                return;
            }
            let (i, before) = quiet(|| {
                let i = index(mc.g(), *sel);
                (i, mc.g().modified.contains(&i))
            });
            let got = C::St::modified(s).unwrap().contains(i);
            quiet(|| {
                if before && !got {
                    viol!("C10", "flag-lost", "index {} was flagged and no longer is", i);
                }
                if got && !before && !mc.g().mark_started.contains(&i) {
                    viol!("C10", "flag-invented", "index {} is flagged, nobody flagged it", i);
                }
            });
        }
        Sh::ModJoin => {
            let before: Vec<u32> = quiet(|| mc.g().modified.iter().copied().collect());
            let mut seen = quiet(BTreeSet::new);
            C::St::mod_join(s, &mut |i, x| {
                quiet(|| {
                    seen.insert(i);
                });
                let want = quiet(|| mc.g().map.get(&i).copied());
                match (x, want) {
                    (Some(c), Some(w)) => expect_val(i, c.v(), Some(w), "modified join"),
                    (None, None) => {}
                    (g, w) => {
                        viol!("C10", "modified-join", "modified join at {}: present {}, stored {}", i, g.is_some(), w.is_some())
                    }
                }
                true
            });
            quiet(|| {
                if C::St::TRACKED {
                    if let Some(x) = before.iter().find(|i| !seen.contains(i)) {
                        viol!("C10", "flag-lost", "the modified join skipped index {}, flagged before it began", x);
                    }
                    if let Some(x) = seen.iter().find(|i| !before.contains(i) && !mc.g().mark_started.contains(i)) {
                        viol!("C10", "flag-invented", "the modified join yielded index {}, nobody flagged it", x);
                    }
                }
                drop(before);
                drop(seen);
            });
        }
        Sh::Read(n) => {
            let mut k = 0;
            for (c, i) in (s, s.mask()).join() {
                let want = quiet(|| mc.g().map.get(&i).copied());
                expect_val(i, c.v(), want, "concurrent join");
                k += 1;
                if k >= *n {
                    break;
                }
            }
        }
        Sh::Mask => {
            let n = s.mask().iter().take(40).count();
            let want = quiet(|| mc.g().map.len().min(40));
            if n != want {
                viol!("C08", "presence", "the presence set has {} members of {}", n, want);
            }
        }
    }
}

fn exec_kind<C: CompT>(p: &Plan) {
    let mut s: MS<C> = Default::default();
    let mc = quiet(|| MC(UnsafeCell::new(M { tracked: C::St::TRACKED, ..M::default() })));
    let m = mc.g();
    if p.track {
        C::St::set_track(&mut s, true);
        m.tracking = C::St::TRACKED;
    }
    let mut ctr = 0u64;
    let mut fresh = || {
        ctr += 1;
        C::mk(Val::new(mix(ctr)))
    };
    let mut step = |op: &Op| {
        let mut full = m.map.len() < 80;
        match op {
            Op::Ins(sel) => {
                let i = index(m, *sel);
                let v = fresh();
                let (id, pl) = (v.v().id, v.v().payload);
                let old = s.insert(i, v);
                let want = m.take(i);
                match (&old, want) {
                    (Some(o), w) => expect_val(i, o.v(), w, "value returned by insert"),
                    (None, Some(w)) => viol!("C08", "insert-result", "insert at {} did not give back value {}", i, w.0),
                    _ => {}
                }
                m.put(i, id, pl);
                drop(old);
            }
            Op::Rem(sel) => {
                let i = index(m, *sel);
                let old = s.remove(i);
                let want = m.take(i);
                expect_opt(i, old.as_ref().map(|c| c.v()), want, "remove");
                drop(old);
            }
            Op::Goi(sel, boom) => {
                let i = index(m, *sel);
                let present = m.map.get(&i).copied();
                let mut called = false;
                let mut made = None;
                let r = attempt(|| {
                    let x = s.get_or_insert_with(i, || {
                        called = true;
                        if *boom {
                            rt::hit("fault:closure_panic");
                            inject(7);
                        }
                        let v = fresh();
                        made = Some((v.v().id, v.v().payload));
                        v
                    });
                    let want = present.or(made);
                    expect_val(i, x.v(), want, "get_or_insert_with");
                    let np = new_payload(*sel, i, x.v().payload);
                    x.vm().payload = np;
                    np
                });
                if present.is_some() && called {
                    viol!("C08", "closure-called", "get_or_insert_with called its closure for an occupied index");
                }
                match r {
                    Ok(np) => {
                        if present.is_none() {
                            if let Some((id, pl)) = made {
                                m.put(i, id, pl);
                            }
                        }
                        m.flag(i);
                        if let Some(e) = m.map.get_mut(&i) {
                            e.1 = np;
                        }
                    }
                    Err(Caught::Injected(7)) => full = true,
                    Err(_) => viol!("C08", "unexpected-panic", "get_or_insert_with panicked: {}", COLL.get().last_panic),
                }
            }
            Op::Get(sel) => {
                let i = index(m, *sel);
                expect_opt(i, s.get(i).map(|c| c.v()), m.map.get(&i).copied(), "get");
            }
            Op::GetMut(sel) => {
                let i = index(m, *sel);
                match s.get_mut(i) {
                    Some(x) => {
                        expect_val(i, x.v(), m.map.get(&i).copied(), "get_mut");
                        let np = new_payload(*sel, i, x.v().payload);
                        x.vm().payload = np;
                        if let Some(e) = m.map.get_mut(&i) {
                            e.1 = np;
                        }
                        m.flag(i);
                    }
                    None => expect_opt(i, None, m.map.get(&i).copied(), "get_mut"),
                }
            }
            Op::Guard(sel, mode) => {
                let i = index(m, *sel);
                match s.get_guard(i) {
                    Some(mut g) => {
                        if !m.map.contains_key(&i) {
                            viol!("C08", "ghost", "get_guard at {} yields an element, nothing is stored there", i);
                        } else {
                            match mode {
                                0 => {}
                                1 => expect_val(i, g.get().v(), m.map.get(&i).copied(), "guard"),
                                2 => {
                                    let x = g.get_mut();
                                    let np = new_payload(*sel, i, x.v().payload);
                                    x.vm().payload = np;
                                    m.map.get_mut(&i).unwrap().1 = np;
                                    m.flag(i);
                                }
                                _ => {
                                    if C::St::TRACKED {
                                        C::St::guard_mark(&g);
                                        m.modified.insert(i);
                                    }
                                }
                            }
                        }
                    }
                    None => expect_opt(i, None, m.map.get(&i).copied(), "get_guard"),
                }
            }
            Op::Fill(base, n, step) => {
                for k in 0..(*n).min(70_000) {
                    let i = base.wrapping_add(k * (*step).min(5000)).min(200_000);
                    let v = fresh();
                    let (id, pl) = (v.v().id, v.v().payload);
                    let old = s.insert(i, v);
                    expect_opt(i, old.as_ref().map(|c| c.v()), m.take(i), "insert");
                    m.put(i, id, pl);
                }
                full = true;
            }
            Op::Thin(salt, k) => {
                let is: Vec<u32> = m.map.keys().copied().filter(|i| mix(*i as u64 * 3 + *salt as u64) % (*k).max(1) as u64 == 0).collect();
                for i in is {
                    let old = s.remove(i);
                    expect_opt(i, old.as_ref().map(|c| c.v()), m.take(i), "remove");
                }
                full = true;
            }
            Op::Far(k) => {
                let i = (1u32 << 24) + [0, 1, 4096, 77, 1 << 24, u32::MAX - (1 << 24)][*k as usize % 6];
                expect_opt(i, s.get(i).map(|c| c.v()), None, "get");
                if s.contains(i) {
                    viol!("C08", "presence", "contains({}) is true, nothing is stored there", i);
                }
                expect_opt(i, s.remove(i).as_ref().map(|c| c.v()), None, "remove");
                {
                    rt::hit("fault:index_out_of_range");
                    let v = fresh();
                    let id = v.v().id;
                    let by = k % 2 == 0;
                    let r = attempt(|| {
                        if by {
                            s.insert(i, v).is_some()
                        } else {
                            s.get_or_insert_with(i, || v).v().id != id
                        }
                    });
                    match r {
                        Ok(_) => {
                            if s.remove(i).map(|c| c.v().id) != Some(id) {
                                viol!("C08", "missing", "insert at {} was accepted but nothing is there", i);
                            }
                        }
                        Err(_) => {
                            if s.contains(i) {
                                viol!("C08", "presence", "a refused insert at {} left the index present", i);
                            }
                        }
                    }
                }
                full = true;
            }
            Op::ItMut(salt, stop) => {
                let keys: Vec<u32> = m.map.keys().copied().collect();
                let mut n = 0usize;
                for x in (&mut s).join() {
                    let Some(i) = keys.get(n).copied() else {
                        viol!("C08", "ghost", "the mutable join yields more than the {} stored values", keys.len());
                        break;
                    };
                    expect_val(i, x.v(), m.map.get(&i).copied(), "mutable join");
                    m.flag(i);
                    if (salt + i) % 3 > 0 {
                        let np = new_payload(*salt, i, x.v().payload);
                        x.vm().payload = np;
                        m.map.get_mut(&i).unwrap().1 = np;
                    }
                    n += 1;
                    if n as u32 >= *stop {
                        break;
                    }
                }
                if n < keys.len() && (n as u32) < *stop {
                    viol!("C08", "missing", "the mutable join yields {} of {} values", n, keys.len());
                }
            }
            Op::ItGuard(salt) => {
                let keys: Vec<u32> = m.map.keys().copied().collect();
                let mut n = 0usize;
                for mut g in s.guard().join() {
                    let Some(i) = keys.get(n).copied() else { break };
                    n += 1;
                    match mix(*salt as u64 + i as u64) % 4 {
                        0 => {}
                        1 => expect_val(i, g.get().v(), m.map.get(&i).copied(), "guarded join"),
                        2 => {
                            let x = g.get_mut();
                            let np = new_payload(*salt, i, x.v().payload);
                            x.vm().payload = np;
                            m.map.get_mut(&i).unwrap().1 = np;
                            m.flag(i);
                        }
                        _ => {
                            if C::St::TRACKED {
                                C::St::guard_mark(&g);
                                m.modified.insert(i);
                            }
                        }
                    }
                }
            }
            Op::ItSub(salt) => {
                let (bits, set) = some_bits(m, *salt);
                let want: Vec<u32> = m.map.keys().copied().filter(|i| set.contains(i)).collect();
                let mut got = vec![];
                for (x, i) in (&mut s, &bits).join() {
                    expect_val(i, x.v(), m.map.get(&i).copied(), "joined mutable item");
                    let np = new_payload(*salt, i, x.v().payload);
                    x.vm().payload = np;
                    if let Some(e) = m.map.get_mut(&i) {
                        e.1 = np;
                    }
                    m.flag(i);
                    got.push(i);
                }
                if got != want {
                    viol!("C08", "join-set", "join with a bit set yields {} of {} indices", got.len(), want.len());
                }
            }
            Op::Slice(salt) => {
                if let Some(sl) = C::St::slice_mut(&mut s) {
                    for x in sl {
                        let id = x.v().id;
                        if let Some(i) = m.at.get(&id) {
                            if (salt + i) % 2 == 0 {
                                let np = new_payload(*salt, *i, x.v().payload);
                                x.vm().payload = np;
                                m.map.get_mut(i).unwrap().1 = np;
                            }
                        }
                    }
                }
            }
            Op::Track(on) => {
                C::St::set_track(&mut s, *on);
                m.tracking = *on && C::St::TRACKED;
            }
            Op::Clear => {
                C::St::clear_mod(&mut s);
                m.modified.clear();
            }
            Op::Mark(sel) => {
                let i = index(m, *sel);
                C::St::mark(&s, i);
                if C::St::TRACKED {
                    m.modified.insert(i);
                }
            }
            Op::ModMut(salt) => {
                let want: Vec<u32> = m.modified.iter().copied().collect();
                let mut n = 0;
                let mut upd = vec![];
                C::St::mod_join_mut(&mut s, &mut |x| {
                    let Some(i) = want.get(n).copied() else {
                        viol!("C10", "modified-join", "the mutable modified join yields more than the modified set");
                        return false;
                    };
                    n += 1;
                    match (x, m.map.get(&i)) {
                        (Some(x), Some(w)) => {
                            expect_val(i, x.v(), Some(*w), "mutable modified join");
                            let np = new_payload(*salt, i, x.v().payload);
                            x.vm().payload = np;
                            upd.push((i, np));
                        }
                        (None, None) => {}
                        (g, w) => {
                            viol!("C10", "modified-join", "mutable modified join at {}: present {}, stored {}", i, g.is_some(), w.is_some())
                        }
                    }
                    true
                });
                for (i, np) in upd {
                    m.map.get_mut(&i).unwrap().1 = np;
                    m.flag(i);
                }
                if n != want.len() && C::St::TRACKED {
                    viol!("C10", "modified-join", "the mutable modified join yields {} of {} items", n, want.len());
                }
            }
            Op::Par(po) => {
                par::<C>(&mut s, &mc, po);
                full = true;
            }
            Op::Sh(ths) => {
                if ths.is_empty() {
                    return;
                }
                quiet(|| m.mark_started.clear());
                let (sr, mr) = (&s, &mc);
                let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                    ths.iter()
                        .take(8)
                        .map(|ops| {
                            Box::new(move || {
                                for o in ops {
                                    sh::<C>(sr, mr, o);
                                }
                            }) as Box<dyn FnOnce() + '_>
                        })
                        .collect()
                });
                threads(v);
                full = true;
            }
            Op::DropAll(sel) => {
                if sel % 3 > 0 && !m.map.is_empty() {
                    let k = (*sel as usize / 3) % m.map.len();
                    let i = *m.map.keys().nth(k).unwrap();
                    if let Some(x) = s.get(i) {
                        x.v().arm();
                        rt::hit("probe:bomb_armed");
                    }
                }
                let old = std::mem::take(&mut s);
                let had = m.map.len();
                let _ = attempt(|| drop(old));
                m.map.clear();
                m.at.clear();
                m.modified.clear();
                m.tracking = false;
                if had > 0 {
                    rt::hit("probe:storage_dropped");
                }
                full = true;
            }
            Op::Audit | Op::Unw(_) => full = true,
        }
        if full {
            audit::<C>(&s, &mc);
        }
    };
    for op in &p.ops {
        match op {
            Op::Unw(o) => match **o {
                Op::Par(_) | Op::Sh(_) | Op::Unw(_) => step(o),
                _ => unwinding(|| step(o)),
            },
            _ => step(op),
        }
        if !COLL.get().viols.is_empty() {
            break; // one cause, one report
        }
    }
    audit::<C>(&s, &mc);
    disarm_all();
    drop(s);
    m.map.clear();
    m.at.clear();
    check_ownership(&|_| false, "nothing");
    quiet(|| std::mem::forget(mc));
}

pub fn exec(p: &Plan) {
    with_kind!(p.kind, C => exec_kind::<C>(p));
}
