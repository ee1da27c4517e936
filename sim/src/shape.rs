//! S12: values of every shape - without size, tiny, odd, over-aligned, with niches - in every kind of
//! storage, alone and as components of a world.
use crate::comp::{bitset_of, StoreX};
use crate::rt::*;
use goggles::hibitset::BitSetLike;
use goggles::masked::MaskedStorage;
use goggles::tracked::Flagged;
use goggles::{
    AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entity, HashMapStorage, IntoJoinExt, ParJoinExt,
    VecStorage, World,
};
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU16;

const NT: u32 = 7;
const NS: u32 = 6;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // a storage
    Ins(u32, u32),
    Rem(u32),
    Get(u32),
    Mut(u32, u32),
    /// index, payload, whether the closure panics
    Goi(u32, u32, bool),
    /// index, payload, whether it is written through
    Guard(u32, u32, bool),
    Join(u32, u32),
    Par(u32, u32),
    Slice(u32),
    Track(bool),
    Mark(u32),
    Clear,
    Fresh,
    // a world: kind, entity, payload
    Make(u32, bool),
    Kill(u32, bool),
    Merge,
    Put(u32, u32, u32),
    Take(u32, u32),
    Look(u32, u32),
    /// kinds, entity, payload, cloneable
    Set(u32, u32, u32, bool),
    Reg(u32),
    Audit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub world: bool,
    pub ty: u32,
    pub st: u32,
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let world = match prop {
        "C06" | "C07" | "C18" => true,
        "C08" | "C11" | "C21" => r.chance(1, 6),
        _ => r.chance(1, 3),
    };
    let ty = r.below(NT as u64) as u32;
    // values without size are the odd ones out
    let ty = if r.chance(1, 3) { 0 } else { ty };
    let st = r.below(NS as u64) as u32;
    let st = if prop == "C10" { 3 + st % 3 } else { st };
    let mut ops = vec![];
    let n = 5 + r.below(if thorough { 150 } else { 60 });
    if world {
        let ne = 1 + r.below(6);
        for _ in 0..ne {
            ops.push(Op::Make(r.below(2) as u32, r.chance(1, 3)));
        }
        for _ in 0..n {
            let (k, e, v) = (r.below(NT as u64) as u32, r.sel(), r.below(200) as u32);
            ops.push(match r.weighted(&[6, 6, 4, 24, 6, 6, 8, 1, 3]) {
                0 => Op::Make(1 + r.below(3) as u32, r.chance(1, 3)),
                1 => Op::Kill(e, r.chance(1, 2)),
                2 => Op::Merge,
                3 => Op::Put(k, e, v),
                4 => Op::Take(k, e),
                5 => Op::Look(k, e),
                6 => Op::Set(r.sel(), e, v, r.chance(1, 2)),
                7 => Op::Reg(k),
                _ => Op::Audit,
            });
        }
    } else {
        if r.chance(3, 4) || prop == "C10" {
            ops.push(Op::Track(true));
        }
        // dense, spread, or all over the place
        let pool: Vec<u32> = match r.below(4) {
            0 => (0..1 + r.below(10) as u32).collect(),
            1 => vec![0, 1, 62, 63, 64, 65, 127, 128, 4095, 4096],
            2 => (0..4 + r.below(20)).map(|_| r.below(5000) as u32).collect(),
            _ => vec![5, 4100, 262_143, 262_144, 300_000],
        };
        for _ in 0..n {
            let (i, v) = (*r.pick(&pool), r.below(200) as u32);
            ops.push(match r.weighted(&[26, 10, 6, 8, 8, 6, 8, 8, 4, 3, 5, 3, 1, 3]) {
                0 => Op::Ins(i, v),
                1 => Op::Rem(i),
                2 => Op::Get(i),
                3 => Op::Mut(i, v),
                4 => Op::Goi(i, v, r.chance(1, 4)),
                5 => Op::Guard(i, v, r.chance(1, 2)),
                6 => Op::Join(r.below(5) as u32, v),
                7 => Op::Par(r.below(3) as u32, v),
                8 => Op::Slice(v),
                9 => Op::Track(r.chance(3, 4)),
                10 => Op::Mark(i),
                11 => Op::Clear,
                12 => Op::Fresh,
                _ => Op::Audit,
            });
        }
    }
    Plan { world, ty, st, ops }
}

// ------------------------------------------------------------------ the values

/// Payload and identity, as far as a type can carry them.
type Is = (u64, u32);
const NOID: u32 = u32::MAX;

pub trait Tok: Clone + Default + Send + Sync + 'static {
    fn mk(n: u64) -> Self;
    fn is(&self) -> Is;
    fn put(&mut self, n: u64);
    /// what is left of a payload
    fn cut(n: u64) -> u64 {
        n
    }
}
static ZST: Single<[i64; 2]> = Single::new();
/// No size, but a destructor.
pub struct Z(());
impl Default for Z {
    fn default() -> Z {
        ZST.get()[0] += 1;
        Z(())
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        Z::default()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZST.get()[0] -= 1;
    }
}
impl Tok for Z {
    fn mk(_: u64) -> Z {
        Z::default()
    }
    fn is(&self) -> Is {
        (0, NOID)
    }
    fn put(&mut self, _: u64) {}
    fn cut(_: u64) -> u64 {
        0
    }
}
/// No size, no destructor, aligned.
#[derive(Clone, Default)]
#[repr(align(16))]
pub struct U(());
impl Tok for U {
    fn mk(_: u64) -> U {
        U(())
    }
    fn is(&self) -> Is {
        if self as *const _ as usize % 16 != 0 {
            viol!("C08", "torn-value", "a value is not aligned");
        }
        (0, NOID)
    }
    fn put(&mut self, _: u64) {}
    fn cut(_: u64) -> u64 {
        0
    }
}
#[derive(Clone, Default)]
pub struct By(u8);
impl Tok for By {
    fn mk(n: u64) -> By {
        By(n as u8)
    }
    fn is(&self) -> Is {
        (self.0 as u64, NOID)
    }
    fn put(&mut self, n: u64) {
        self.0 = n as u8
    }
    fn cut(n: u64) -> u64 {
        n as u8 as u64
    }
}
#[derive(Clone, Default)]
pub struct Odd([u8; 7]);
impl Tok for Odd {
    fn mk(n: u64) -> Odd {
        Odd([n as u8; 7])
    }
    fn is(&self) -> Is {
        if self.0.iter().any(|x| *x != self.0[0]) {
            viol!("C08", "torn-value", "a value of odd size was torn or overwritten: {:?}", self.0);
        }
        (self.0[3] as u64, NOID)
    }
    fn put(&mut self, n: u64) {
        self.0 = [n as u8; 7]
    }
    fn cut(n: u64) -> u64 {
        n as u8 as u64
    }
}
#[repr(align(128))]
#[derive(Clone)]
pub struct Al(u8, Val);
impl Default for Al {
    fn default() -> Al {
        Al::mk(0)
    }
}
impl Tok for Al {
    fn mk(n: u64) -> Al {
        Al(9, Val::new(n))
    }
    fn is(&self) -> Is {
        if self as *const _ as usize % 128 != 0 || self.0 != 9 || !self.1.ok() {
            viol!("C08", "torn-value", "an aligned value is misplaced, overwritten or dead");
        }
        (self.1.payload, self.1.id)
    }
    fn put(&mut self, n: u64) {
        self.1.payload = n
    }
}
/// Has a niche: what is not there must not be taken for what is.
#[derive(Clone)]
pub struct Ni(Option<Box<Val>>);
impl Default for Ni {
    fn default() -> Ni {
        Ni(None)
    }
}
impl Tok for Ni {
    fn mk(n: u64) -> Ni {
        Ni(if n % 4 == 0 { None } else { Some(Box::new(Val::new(n))) })
    }
    fn is(&self) -> Is {
        match &self.0 {
            Some(v) => {
                if !v.ok() {
                    viol!("C09", "dead-value", "a value that had been dropped is stored");
                }
                (v.payload, v.id)
            }
            None => (0, NOID),
        }
    }
    fn put(&mut self, n: u64) {
        if let Some(v) = &mut self.0 {
            v.payload = n | 1
        }
    }
    fn cut(n: u64) -> u64 {
        if n % 4 == 0 {
            0
        } else {
            n
        }
    }
}
#[derive(Clone)]
pub struct Nz(NonZeroU16);
impl Default for Nz {
    fn default() -> Nz {
        Nz::mk(0)
    }
}
impl Tok for Nz {
    fn mk(n: u64) -> Nz {
        Nz(NonZeroU16::new(n as u16 % 1000 + 1).unwrap())
    }
    fn is(&self) -> Is {
        (self.0.get() as u64 - 1, NOID)
    }
    fn put(&mut self, n: u64) {
        *self = Nz::mk(n)
    }
    fn cut(n: u64) -> u64 {
        n % 1000
    }
}
/// What writing a payload makes of a value.
fn put<T: Tok>(was: Is, n: u64) -> Is {
    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<Ni>() {
        return if was.1 == NOID { was } else { (n | 1, was.1) };
    }
    (T::cut(n), was.1)
}

impl Component for Z {
    type Storage = VecStorage<Z>;
}
impl Component for U {
    type Storage = Flagged<DenseVecStorage<U>>;
}
impl Component for By {
    type Storage = DenseVecStorage<By>;
}
impl Component for Odd {
    type Storage = Flagged<VecStorage<Odd>>;
}
impl Component for Al {
    type Storage = VecStorage<Al>;
}
impl Component for Ni {
    type Storage = DenseVecStorage<Ni>;
}
impl Component for Nz {
    type Storage = HashMapStorage<Nz>;
}
macro_rules! with_ty {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = Z; $e }
            1 => { type $T = U; $e }
            2 => { type $T = By; $e }
            3 => { type $T = Odd; $e }
            4 => { type $T = Al; $e }
            5 => { type $T = Ni; $e }
            _ => { type $T = Nz; $e }
        }
    };
}

fn owned<'a>(it: impl Iterator<Item = &'a Is>, z: i64) {
    if ZST.get()[0] != z {
        viol!("C09", "leaked", "{} values without size exist where {} should", ZST.get()[0], z);
    }
    let vs = vals();
    let mut live = vec![false; vs.dropped.len()];
    for v in it {
        if let Some(x) = live.get_mut(v.1 as usize) {
            *x = true
        }
    }
    for (id, l) in live.iter().enumerate() {
        if *l && vs.dropped[id] > 0 {
            viol!("C09", "dropped-while-owned", "value {} was dropped although it is still stored", id);
            return;
        }
        if !*l && vs.dropped[id] == 0 {
            viol!("C09", "leaked", "value {} is owned by nobody and was never dropped", id);
            return;
        }
    }
}

// ------------------------------------------------------------------ a storage

#[derive(Default)]
struct M {
    at: BTreeMap<u32, Is>,
    tracking: bool,
    modified: BTreeSet<u32>,
}
impl M {
    fn flag(&mut self, i: u32) {
        if self.tracking {
            self.modified.insert(i);
        }
    }
}
fn same(what: &str, i: u32, got: Option<Is>, want: Option<Is>) {
    if got != want {
        viol!("C08", "wrong-value", "{} index {} gave {:?}, not {:?}", what, i, got, want);
    }
}

fn run<S: StoreX>(p: &Plan)
where
    S::Item: Tok,
{
    let zst = std::any::TypeId::of::<S::Item>() == std::any::TypeId::of::<Z>();
    let tracked = S::TRACKED;
    let mut s = MaskedStorage::<S>::default();
    let mut m = M::default();
    let hash = p.st % NS % 3 == 2;
    let big = hash || std::mem::size_of::<S::Item>() <= 1;
    for op in &p.ops {
        // far indices only where they are cheap
        let at = |i: u32| if big { i % 400_000 } else { i % 6_000 };
        hit("ops");
        match op {
            Op::Ins(i, n) => {
                let (i, n) = (at(*i), *n as u64 % 1000);
                let v = S::Item::mk(n);
                let is = v.is();
                let got = s.insert(i, v).map(|x| x.is());
                same("inserting at", i, got, m.at.insert(i, is));
                m.flag(i);
            }
            Op::Rem(i) => {
                let i = at(*i);
                let got = s.remove(i).map(|x| x.is());
                let want = m.at.remove(&i);
                if want.is_some() {
                    m.flag(i);
                }
                same("removing", i, got, want);
            }
            Op::Get(i) => {
                let i = at(*i);
                same("reading", i, s.get(i).map(|x| x.is()), m.at.get(&i).copied());
                if s.contains(i) != m.at.contains_key(&i) {
                    viol!("C08", "contains", "contains({}) is {}", i, s.contains(i));
                }
            }
            Op::Mut(i, n) => {
                let (i, n) = (at(*i), *n as u64 % 1000);
                let got = s.get_mut(i).map(|x| {
                    let was = x.is();
                    x.put(n);
                    was
                });
                let want = m.at.get(&i).copied();
                same("changing", i, got, want);
                if let Some(w) = want {
                    m.at.insert(i, put::<S::Item>(w, n));
                    m.flag(i);
                }
            }
            Op::Goi(i, n, boom) => {
                let (i, n) = (at(*i), *n as u64 % 1000);
                let want = m.at.get(&i).copied();
                let mut made = None;
                let got = attempt(|| {
                    s.get_or_insert_with(i, || {
                        if *boom {
                            inject(1)
                        }
                        let v = S::Item::mk(n);
                        made = Some(v.is());
                        v
                    })
                    .is()
                });
                match (got, want) {
                    (Ok(g), Some(w)) => {
                        same("get_or_insert_with on", i, Some(g), Some(w));
                        m.flag(i);
                    }
                    (Ok(g), None) => {
                        same("get_or_insert_with on", i, Some(g), made);
                        m.at.insert(i, g);
                        m.flag(i);
                    }
                    (Err(_), Some(_)) => viol!("C08", "refused", "get_or_insert_with panicked on a taken index"),
                    (Err(_), None) => {}
                }
            }
            Op::Guard(i, n, write) => {
                let (i, n) = (at(*i), *n as u64 % 1000);
                let want = m.at.get(&i).copied();
                let got = s.get_guard(i).map(|mut g| {
                    let was = g.get().is();
                    if *write {
                        g.get_mut().put(n);
                    }
                    was
                });
                same("guarding", i, got, want);
                if let (Some(w), true) = (want, *write) {
                    m.at.insert(i, put::<S::Item>(w, n));
                    m.flag(i);
                }
            }
            Op::Join(how, n) => {
                let n = *n as u64 % 1000;
                let all = bitset_of(m.at.keys().copied());
                let mut got: Vec<(u32, Is)> = vec![];
                let mut write = false;
                match how % 5 {
                    0 => (&all, &s).join().for_each(|(i, x)| got.push((i, x.is()))),
                    1 => {
                        write = true;
                        (&all, &mut s).join().for_each(|(i, x)| {
                            got.push((i, x.is()));
                            x.put(n)
                        })
                    }
                    2 => (&all, s.guard()).join().for_each(|(i, g)| got.push((i, g.get().is()))),
                    3 => {
                        let n = (&s).join().count();
                        if n != m.at.len() {
                            viol!("C21", "wrong-count", "a join over {} values gave {}", m.at.len(), n);
                        }
                        continue;
                    }
                    _ => (&all, (&s).maybe()).join().for_each(|(i, x)| got.extend(x.map(|x| (i, x.is())))),
                }
                let want: Vec<(u32, Is)> = m.at.iter().map(|x| (*x.0, *x.1)).collect();
                if got != want {
                    viol!("C21", "wrong-items", "a join over the storage gave {:?}, not {:?}", got, want);
                    viol!("C08", "wrong-items", "a join over the storage gave {:?}, not {:?}", got, want);
                }
                if write {
                    for (i, w) in want {
                        m.at.insert(i, put::<S::Item>(w, n));
                        m.flag(i);
                    }
                }
            }
            Op::Par(how, n) => {
                let n = *n as u64 % 1000;
                let all = bitset_of(m.at.keys().copied());
                let want: Vec<(u32, Is)> = m.at.iter().map(|x| (*x.0, *x.1)).collect();
                let mut write = false;
                let got: Vec<(u32, Is)> = match how % 3 {
                    0 => (&all, &s).par_join().map(|(i, x)| (i, x.is())).collect(),
                    1 => {
                        write = true;
                        (&all, &mut s)
                            .par_join()
                            .map(|(i, x)| {
                                let was = x.is();
                                x.put(n);
                                (i, was)
                            })
                            .collect()
                    }
                    _ => {
                        let c = (&s).par_join().map(|x| x.is()).count();
                        if c != want.len() {
                            viol!("C11", "wrong-count", "a parallel join over {} values gave {}", want.len(), c);
                        }
                        continue;
                    }
                };
                if got != want {
                    viol!("C11", "wrong-items", "a parallel join over the storage gave {:?}, not {:?}", got, want);
                }
                if write {
                    for (i, w) in want {
                        m.at.insert(i, put::<S::Item>(w, n));
                        m.flag(i);
                    }
                }
            }
            Op::Slice(n) => {
                let n = *n as u64 % 1000;
                let Some(x) = S::slice(&s) else { continue };
                let mut got: Vec<Is> = x.iter().map(|x| x.is()).collect();
                let mut want: Vec<Is> = m.at.values().copied().collect();
                got.sort();
                want.sort();
                if got != want {
                    viol!("C08", "slice", "the slice of a storage holds {:?}, not {:?}", got, want);
                }
                if let Some(x) = S::slice_mut(&mut s) {
                    x.iter_mut().for_each(|x| x.put(n));
                    m.at.values_mut().for_each(|x| *x = put::<S::Item>(*x, n));
                }
            }
            Op::Track(on) => {
                if tracked {
                    S::set_track(&mut s, *on);
                    m.tracking = *on;
                }
            }
            Op::Mark(i) => {
                if tracked {
                    let i = i % 400_000;
                    S::mark(&s, i);
                    m.modified.insert(i);
                }
            }
            Op::Clear => {
                if tracked {
                    S::clear_mod(&mut s);
                    m.modified.clear();
                }
            }
            Op::Fresh => {
                s = MaskedStorage::default();
                m = M::default();
            }
            _ => {
                let keys: Vec<u32> = s.mask().iter().collect();
                if !keys.iter().eq(m.at.keys()) {
                    viol!("C08", "mask", "the storage claims the indices {:?}", keys);
                }
                for (i, v) in &m.at {
                    same("reading", *i, s.get(*i).map(|x| x.is()), Some(*v));
                }
                owned(m.at.values(), if zst { m.at.len() as i64 } else { 0 });
            }
        }
        if let Some(b) = S::modified(&s) {
            let got: Vec<u32> = b.iter().collect();
            if !got.iter().eq(m.modified.iter()) {
                viol!("C10", "modified-set", "after {:?} flagged are {:?}, not {:?}", op, got, m.modified);
                return;
            }
        }
    }
    owned(m.at.values(), if zst { m.at.len() as i64 } else { 0 });
    drop(s);
    owned([].iter(), 0);
}

// ------------------------------------------------------------------ a world

#[derive(Default)]
struct WM {
    live: Vec<Entity>,
    doomed: Vec<Entity>,
    dead: Vec<Entity>,
    at: BTreeMap<(u32, u32), (Entity, Is)>,
}
fn register<C: Tok + Component>(w: &mut World)
where
    C::Storage: Default + Send,
{
    drop(w.insert_component::<C>())
}
fn world(p: &Plan) {
    let mut w = World::new();
    let mut m = WM::default();
    for k in 0..NT {
        with_ty!(k, T => register::<T>(&mut w));
    }
    for op in &p.ops {
        hit("ops");
        let pick = |m: &WM, e: u32| -> Option<(Entity, bool)> {
            let (l, d) = (m.live.len(), m.dead.len().min(8));
            if l + d == 0 {
                return None;
            }
            let x = e as usize % (l + d);
            Some(if x < l { (m.live[x], true) } else { (m.dead[m.dead.len() - 1 - (x - l)], false) })
        };
        match op {
            Op::Make(n, shared) => {
                for _ in 0..n % 4 {
                    let e = if *shared { w.entities().create() } else { w.create_entity() };
                    m.live.push(e);
                    for k in 0..NT {
                        with_ty!(k, T => {
                            if w.read_component::<T>().get(e).is_some() {
                                viol!("C06", "inherited", "{:?} was created with a value of kind {}", e, k);
                            }
                        });
                    }
                }
            }
            Op::Kill(e, now) => {
                let Some((e, live)) = pick(&m, *e) else { continue };
                let got = if *now { w.delete_entity(e) } else { w.entities().delete(e) }.is_ok();
                if got != live {
                    viol!("C07", "stale-delete", "deleting {:?} was answered with {}", e, got);
                }
                if live && *now {
                    gone(&mut m, e);
                    m.doomed.retain(|x| *x != e);
                } else if live && !m.doomed.contains(&e) {
                    m.doomed.push(e);
                }
            }
            Op::Merge => {
                w.merge();
                for e in std::mem::take(&mut m.doomed) {
                    gone(&mut m, e);
                }
            }
            Op::Put(k, e, n) => {
                let Some((e, live)) = pick(&m, *e) else { continue };
                let k = k % NT;
                with_ty!(k, T => {
                    let v = T::mk(*n as u64 % 1000);
                    let is = v.is();
                    let got = w.write_component::<T>().insert(e, v).map(|x| x.map(|x| x.is()));
                    match (got, live) {
                        (Ok(g), true) => {
                            let was = m.at.insert((k, e.index()), (e, is)).map(|x| x.1);
                            if g != was {
                                viol!("C08", "wrong-value", "inserting kind {} for {:?} gave back {:?}, not {:?}", k, e, g, was);
                            }
                        }
                        (Err(_), false) => {}
                        (g, _) => viol!("C07", "stale-insert", "inserting for {:?} worked: {}", e, g.is_ok()),
                    }
                })
            }
            Op::Take(k, e) => {
                let Some((e, live)) = pick(&m, *e) else { continue };
                let k = k % NT;
                with_ty!(k, T => {
                    let got = w.get_component_mut::<T>().remove(e).map(|x| x.map(|x| x.is()));
                    match (got, live) {
                        (Ok(g), true) => {
                            let was = m.at.remove(&(k, e.index())).map(|x| x.1);
                            if g != was {
                                viol!("C08", "wrong-value", "removing kind {} of {:?} gave {:?}, not {:?}", k, e, g, was);
                            }
                        }
                        (Err(_), false) => {}
                        (g, _) => viol!("C07", "stale-remove", "removing from {:?} worked: {}", e, g.is_ok()),
                    }
                })
            }
            Op::Look(k, e) => {
                let Some((e, live)) = pick(&m, *e) else { continue };
                let k = k % NT;
                let want = if live { m.at.get(&(k, e.index())).map(|x| x.1) } else { None };
                with_ty!(k, T => {
                    let g = w.read_component::<T>();
                    let got = g.get(e).map(|x| x.is());
                    if got != want || g.contains(e) != want.is_some() {
                        viol!("C07", "wrong-value", "kind {} of {:?} (alive: {}) reads {:?}, not {:?}", k, e, live, got, want);
                    }
                })
            }
            Op::Set(kinds, e, n, clone) => {
                let Some((e, live)) = pick(&m, *e) else { continue };
                let mut a = AnyComponentSet::new();
                let mut c = AnyCloneComponentSet::new();
                let mut puts: Vec<(u32, Is)> = vec![];
                for k in 0..NT {
                    if kinds >> k & 1 == 1 {
                        with_ty!(k, T => {
                            let v = T::mk(*n as u64 % 1000);
                            puts.push((k, v.is()));
                            let old = if *clone { c.insert(v) } else { a.insert(v) };
                            if old.is_some() {
                                viol!("C18", "wrong-value", "an empty set gave back a value of kind {}", k);
                            }
                            let got = if *clone { c.get::<T>().map(|x| x.is()) } else { a.get::<T>().map(|x| x.is()) };
                            if got != puts.last().map(|x| x.1) {
                                viol!("C18", "wrong-value", "a set holds {:?} of kind {}", got, k);
                            }
                        });
                    }
                }
                let got = if *clone { c.insert_into_world(&mut w, e) } else { a.insert_into_world(&mut w, e) };
                let over = puts.iter().any(|x| m.at.contains_key(&(x.0, e.index())));
                match (got, live) {
                    (Ok(o), true) => {
                        if o != over {
                            viol!("C18", "overwritten", "applying a set to {:?} said {} about overwriting", e, o);
                        }
                        for (k, is) in puts {
                            let mut is = is;
                            if *clone {
                                // the world has a copy, the set keeps its own
                                with_ty!(k, T => {
                                    let g = w.read_component::<T>().get(e).map(|x| x.is());
                                    match g {
                                        Some(g) if g.0 == is.0 => is = g,
                                        g => viol!("C18", "wrong-value", "kind {} of {:?} is {:?} after applying {:?}", k, e, g, is),
                                    }
                                });
                            }
                            m.at.insert((k, e.index()), (e, is));
                        }
                    }
                    (Err(_), false) => {}
                    (g, _) => viol!("C18", "dead-target", "applying a set to {:?} worked: {}", e, g.is_ok()),
                }
            }
            Op::Reg(k) => {
                let k = k % NT;
                with_ty!(k, T => {
                    let old = w.insert_component::<T>();
                    let n = old.as_ref().map(|o| o.mask().iter().count());
                    let want = m.at.keys().filter(|x| x.0 == k).count();
                    if n != Some(want) {
                        viol!("C09", "replaced-storage", "the storage of kind {} given back holds {:?} values, not {}", k, n, want);
                    }
                });
                m.at.retain(|x, _| x.0 != k);
            }
            _ => {
                audit(&w, &m);
                zowned(&m);
            }
        }
    }
    audit(&w, &m);
    zowned(&m);
    drop(w);
    owned([].iter(), 0);
}
fn zowned(m: &WM) {
    owned(m.at.values().map(|x| &x.1), m.at.keys().filter(|x| x.0 == 0).count() as i64);
}
fn gone(m: &mut WM, e: Entity) {
    m.live.retain(|x| *x != e);
    m.dead.push(e);
    for k in 0..NT {
        m.at.remove(&(k, e.index()));
    }
}
fn audit(w: &World, m: &WM) {
    for k in 0..NT {
        with_ty!(k, T => {
            let g = w.read_component::<T>();
            let got: Vec<u32> = g.mask().iter().collect();
            let want: Vec<u32> = m.at.keys().filter(|x| x.0 == k).map(|x| x.1).collect();
            if got != want {
                let extra = got.iter().find(|x| !want.contains(x));
                match extra {
                    Some(x) => viol!("C06", "left-behind", "a value of kind {} is stored for index {}", k, x),
                    None => viol!("C08", "missing", "values of kind {} are stored for {:?} only, not for {:?}", k, got, want),
                }
                continue;
            }
            for e in &m.live {
                let want = m.at.get(&(k, e.index())).map(|x| x.1);
                let got = g.get(*e).map(|x| x.is());
                if got != want {
                    viol!("C08", "wrong-value", "kind {} of {:?} is {:?}, not {:?}", k, e, got, want);
                    viol!("C18", "wrong-value", "kind {} of {:?} is {:?}, not {:?}", k, e, got, want);
                }
            }
            let es = w.entities();
            let j: Vec<(Entity, Is)> = (&es, &g).join().map(|(e, x)| (e, x.is())).collect();
            let mut want: Vec<(Entity, Is)> = m.at.iter().filter(|x| x.0 .0 == k).map(|x| *x.1).collect();
            want.sort_by_key(|x| x.0.index());
            if j != want {
                viol!("C21", "wrong-items", "a join over kind {} gave {:?}, not {:?}", k, j, want);
            }
        });
    }
}

pub fn exec(p: &Plan) {
    ZST.set([0; 2]);
    if p.world {
        return world(p);
    }
    with_ty!(p.ty % NT, T => match p.st % NS {
        0 => run::<VecStorage<T>>(p),
        1 => run::<DenseVecStorage<T>>(p),
        2 => run::<HashMapStorage<T>>(p),
        3 => run::<Flagged<VecStorage<T>>>(p),
        4 => run::<Flagged<DenseVecStorage<T>>>(p),
        _ => run::<Flagged<HashMapStorage<T>>>(p),
    });
}
