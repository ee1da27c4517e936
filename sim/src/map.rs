//! S11: worlds and resource sets as maps from types to values: what is put in under a type comes
//! out under that type, and no other type, kind of access or instance has a say in it.
use crate::comp::*;
use crate::rt::*;
use crate::with_kind;
use goggles::hibitset::BitSetLike;
use goggles::{Entity, Read, ReadResource, ResourceSet, World, Write, WriteResource};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;

const P: &str = "C25";
/// two worlds, two sets
const INST: u32 = 4;
const NK: u32 = 26;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// instance, type, payload
    Ins(u32, u32, u32),
    Rem(u32, u32),
    Has(u32, u32),
    /// exclusive access: looks, and writes
    Mut(u32, u32, u32),
    /// shared access, in several ways
    Read(u32, u32, u32),
    Write(u32, u32, u32, u32),
    /// two types at once, each for reading or writing
    Pair(u32, u32, u32, u32),
    /// world, component kind
    Reg(u32, u32),
    Unreg(u32, u32),
    Ent(u32),
    Kill(u32, u32, bool),
    Put(u32, u32, u32, u32),
    Take(u32, u32, u32),
    Merge(u32),
    /// exchanges two instances of the same sort
    Swap(u32),
    /// starts over with an empty one, made by `new` or by default
    Fresh(u32, bool),
    Audit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub ops: Vec<Op>,
}

pub fn gen(r: &mut Rng, _prop: &str, thorough: bool) -> Plan {
    let n = 4 + r.below(if thorough { 120 } else { 50 });
    // few types: more happens to each; many: more neighbours
    let nk = *r.pick(&[1u64, 2, 3, 6, NK as u64, NK as u64]);
    // types that are components as well
    let namesakes = r.chance(1, 4);
    let keys: Vec<u32> = (0..nk).map(|_| if namesakes { 19 + r.below(5) as u32 } else { r.below(NK as u64) as u32 }).collect();
    let ni = *r.pick(&[1u64, 1, 2, 4]);
    let insts: Vec<u32> = (0..ni).map(|_| r.below(INST as u64) as u32).collect();
    let comps = if namesakes { 16 } else { *r.pick(&[0u32, 0, 6, 20]) };
    let mut ops = vec![];
    for _ in 0..n {
        let i = *r.pick(&insts);
        let k = *r.pick(&keys);
        let v = r.below(1000) as u32;
        let c = r.below(KINDS as u64) as u32;
        // the kinds whose type is also used as a resource come up more often
        let c = if namesakes || r.chance(1, 2) { c % 3 } else { c };
        let w = i % 2;
        let op = match r.weighted(&[24, 10, 4, 10, 14, 14, 8, comps, comps / 3, comps, comps, comps, comps / 2, comps, 2, 2, 4]) {
            0 => Op::Ins(i, k, v),
            1 => Op::Rem(i, k),
            2 => Op::Has(i, k),
            3 => Op::Mut(i, k, v),
            4 => Op::Read(i, k, r.sel()),
            5 => Op::Write(i, k, v, r.sel()),
            6 => Op::Pair(i, k, r.sel(), v),
            7 => Op::Reg(w, c),
            8 => Op::Unreg(w, c),
            9 => Op::Ent(w),
            10 => Op::Kill(w, r.sel(), r.chance(1, 2)),
            11 => Op::Put(w, c, r.sel(), v),
            12 => Op::Take(w, c, r.sel()),
            13 => Op::Merge(w),
            14 => Op::Swap(r.sel()),
            15 => Op::Fresh(i, r.chance(1, 2)),
            _ => Op::Audit,
        };
        ops.push(op);
    }
    Plan { ops }
}

// ------------------------------------------------------------------ the types

/// What a value is: its payload and its identity, where it has one.
type Is = (u64, u32);

trait Key: Send + Sized + 'static {
    fn make(n: u64) -> Self;
    fn is(&self) -> Is;
    fn put(&mut self, n: u64);
    fn see_w(w: &World, how: u32) -> Is;
    fn see_s(s: &ResourceSet, how: u32) -> Is;
}
pub struct S<const N: u8>(Val);
#[repr(align(64))]
pub struct L<const N: u8> {
    pad: [u64; 5],
    v: Val,
    pad2: u8,
}
/// May be sent to another thread, not shared.
pub struct N<const M: u8>(Cell<u8>, Val);
/// No size, but a destructor.
pub struct Z<const N: u8>(());
static ZST: Single<[i64; 2]> = Single::new();
impl<const M: u8> Z<M> {
    fn new() -> Self {
        ZST.get()[M as usize] += 1;
        Z(())
    }
}
impl<const M: u8> Drop for Z<M> {
    fn drop(&mut self) {
        ZST.get()[M as usize] -= 1;
    }
}
pub struct G<T>(T);
pub struct B(Box<Val>);

const NOID: u32 = u32::MAX;
fn of(v: &Val) -> Is {
    if !v.ok() {
        viol!(P, "dead-value", "a value that had been dropped was handed out");
    }
    (v.payload, v.id)
}

macro_rules! see {
    (sync) => {
        fn see_w(w: &World, how: u32) -> Is {
            match how % 4 {
                0 => w.read_resource::<Self>().is(),
                1 => w.fetch::<ReadResource<Self>>().is(),
                2 => w.fetch::<(ReadResource<Self>, ReadResource<Self>)>().1.is(),
                _ => w.write_resource::<Self>().is(),
            }
        }
        fn see_s(s: &ResourceSet, how: u32) -> Is {
            match how % 4 {
                0 => s.borrow::<Self>().is(),
                1 => s.fetch::<Read<Self>>().is(),
                2 => s.fetch::<(Read<Self>, Read<Self>)>().1.is(),
                _ => s.borrow_mut::<Self>().is(),
            }
        }
    };
    (nosync) => {
        fn see_w(w: &World, how: u32) -> Is {
            match how % 2 {
                0 => w.write_resource::<Self>().is(),
                _ => w.fetch::<WriteResource<Self>>().is(),
            }
        }
        fn see_s(s: &ResourceSet, how: u32) -> Is {
            match how % 2 {
                0 => s.borrow_mut::<Self>().is(),
                _ => s.fetch::<Write<Self>>().is(),
            }
        }
    };
}
impl<const M: u8> Key for S<M> {
    fn make(n: u64) -> Self {
        S(Val::new(n))
    }
    fn is(&self) -> Is {
        of(&self.0)
    }
    fn put(&mut self, n: u64) {
        self.0.payload = n
    }
    see!(sync);
}
impl<const M: u8> Key for L<M> {
    fn make(n: u64) -> Self {
        L { pad: [0x1010 + M as u64; 5], v: Val::new(n), pad2: M }
    }
    fn is(&self) -> Is {
        if self.pad != [0x1010 + M as u64; 5] || self.pad2 != M || self as *const _ as usize % 64 != 0 {
            viol!(P, "torn-value", "a large value was torn, overwritten or misplaced");
        }
        of(&self.v)
    }
    fn put(&mut self, n: u64) {
        self.v.payload = n
    }
    see!(sync);
}
impl<const M: u8> Key for N<M> {
    fn make(n: u64) -> Self {
        N(Cell::new(M), Val::new(n))
    }
    fn is(&self) -> Is {
        self.0.set(M);
        of(&self.1)
    }
    fn put(&mut self, n: u64) {
        self.1.payload = n
    }
    see!(nosync);
}
impl<const M: u8> Key for Z<M> {
    fn make(_: u64) -> Self {
        Z::new()
    }
    fn is(&self) -> Is {
        (0, NOID)
    }
    fn put(&mut self, _: u64) {}
    see!(sync);
}
impl Key for B {
    fn make(n: u64) -> Self {
        B(Box::new(Val::new(n)))
    }
    fn is(&self) -> Is {
        of(&self.0)
    }
    fn put(&mut self, n: u64) {
        self.0.payload = n
    }
    see!(sync);
}
impl<T: Key + Sync> Key for G<T> {
    fn make(n: u64) -> Self {
        G(T::make(n))
    }
    fn is(&self) -> Is {
        self.0.is()
    }
    fn put(&mut self, n: u64) {
        self.0.put(n)
    }
    see!(sync);
}
impl<T: Key + Sync> Key for Option<T> {
    fn make(n: u64) -> Self {
        Some(T::make(n))
    }
    fn is(&self) -> Is {
        self.as_ref().map_or((u64::MAX, NOID), |x| x.is())
    }
    fn put(&mut self, n: u64) {
        if let Some(x) = self {
            x.put(n)
        }
    }
    see!(sync);
}
impl<T: Key + Sync> Key for (T,) {
    fn make(n: u64) -> Self {
        (T::make(n),)
    }
    fn is(&self) -> Is {
        self.0.is()
    }
    fn put(&mut self, n: u64) {
        self.0.put(n)
    }
    see!(sync);
}
macro_rules! prims {
    ($($t:ty)*) => {$(
        impl Key for $t {
            fn make(n: u64) -> Self { n as $t }
            fn is(&self) -> Is { (*self as u64, NOID) }
            fn put(&mut self, n: u64) { *self = n as $t }
            see!(sync);
        }
    )*};
}
prims!(u32 i32 u64 usize f64);
impl Key for String {
    fn make(n: u64) -> Self {
        n.to_string()
    }
    fn is(&self) -> Is {
        (self.parse().unwrap_or(u64::MAX), NOID)
    }
    fn put(&mut self, n: u64) {
        *self = n.to_string()
    }
    see!(sync);
}
impl<const M: u8> Key for Comp<M> {
    fn make(n: u64) -> Self {
        Comp { v: Val::new(n) }
    }
    fn is(&self) -> Is {
        of(&self.v)
    }
    fn put(&mut self, n: u64) {
        self.v.payload = n
    }
    see!(sync);
}
/// A storage of components kept as a resource: the very type a registered component is kept as.
type Stored<const M: u8> = goggles::masked::MaskedStorage<<Comp<M> as goggles::Component>::Storage>;
macro_rules! stored {
    ($($m:literal)*) => {$(
        impl Key for Stored<$m> {
            fn make(n: u64) -> Self {
                let mut s = Self::default();
                s.insert(7, Comp { v: Val::new(n) });
                s
            }
            fn is(&self) -> Is {
                if self.mask().iter().count() != 1 {
                    viol!(P, "interference", "a storage kept as a resource holds {} values of 1", self.mask().iter().count());
                }
                self.get(7).map_or((u64::MAX, NOID), |x| x.is())
            }
            fn put(&mut self, n: u64) {
                if let Some(x) = self.get_mut(7) {
                    x.put(n)
                }
            }
            see!(sync);
        }
    )*};
}
stored!(0 2);

macro_rules! with_key {
    ($k:expr, $T:ident => $e:expr) => {
        with_key!(@ $k, $T, $e; 0 S<0>, 1 S<1>, 2 S<2>, 3 L<0>, 4 L<1>, 5 N<0>, 6 N<1>, 7 Z<0>, 8 Z<1>, 9 B,
            10 G<S<0>>, 11 Option<S<0>>, 12 (S<0>,), 13 u32, 14 i32, 15 u64, 16 usize, 17 f64, 18 String,
            19 Comp<0>, 20 Comp<1>, 21 Comp<2>, 22 Stored<0>, 23 Stored<2>, 24 G<L<0>>; G<G<S<0>>>)
    };
    (@ $k:expr, $T:ident, $e:expr; $($n:literal $t:ty),*; $d:ty) => {
        match $k {
            $($n => { type $T = $t; $e })*
            _ => { type $T = $d; $e }
        }
    };
}
fn key_name(k: u32) -> &'static str {
    with_key!(k, T => std::any::type_name::<T>())
}

// ------------------------------------------------------------------ the model

type Slot = Is;
#[derive(Default)]
struct WM {
    reg: BTreeMap<u32, BTreeMap<u32, (Entity, Is)>>,
    live: Vec<Entity>,
    doomed: Vec<Entity>,
}
struct Md {
    slots: BTreeMap<(u32, u32), Slot>,
    wm: Vec<WM>,
}
struct D {
    w: [World; 2],
    s: [ResourceSet; 2],
}

fn inst_name(i: u32) -> &'static str {
    ["world 0", "world 1", "set 0", "set 1"][i as usize]
}
fn same(what: &str, i: u32, k: u32, got: Option<Is>, want: Option<Is>) {
    if got != want {
        viol!(P, "wrong-value", "{} {} in {} gave {:?}, not {:?}", what, key_name(k), inst_name(i), got, want);
    }
}

impl D {
    fn ins<T: Key>(&mut self, i: u32, v: T) -> Option<T> {
        match i {
            0 | 1 => self.w[i as usize].insert_resource(v),
            _ => self.s[i as usize - 2].insert(v),
        }
    }
    fn rem<T: Key>(&mut self, i: u32) -> Option<T> {
        match i {
            0 | 1 => self.w[i as usize].remove_resource(),
            _ => self.s[i as usize - 2].remove(),
        }
    }
    fn has<T: Key>(&self, i: u32) -> bool {
        match i {
            0 | 1 => self.w[i as usize].contains_resource::<T>(),
            _ => self.s[i as usize - 2].contains::<T>(),
        }
    }
    fn get_mut<T: Key>(&mut self, i: u32) -> &mut T {
        match i {
            0 | 1 => self.w[i as usize].get_resource_mut(),
            _ => self.s[i as usize - 2].get_mut(),
        }
    }
    fn see<T: Key>(&self, i: u32, how: u32) -> Is {
        match i {
            0 | 1 => T::see_w(&self.w[i as usize], how),
            _ => T::see_s(&self.s[i as usize - 2], how),
        }
    }
    fn write<T: Key>(&self, i: u32, n: u64, how: u32) -> Is {
        macro_rules! go {
            ($x:expr) => {{
                let mut x = $x;
                let was = x.is();
                x.put(n);
                was
            }};
        }
        match (i, how % 2) {
            (0 | 1, 0) => go!(self.w[i as usize].write_resource::<T>()),
            (0 | 1, _) => go!(self.w[i as usize].fetch::<WriteResource<T>>()),
            (_, 0) => go!(self.s[i as usize - 2].borrow_mut::<T>()),
            _ => go!(self.s[i as usize - 2].fetch::<Write<T>>()),
        }
    }
    /// Both held for writing, `A` written first, then `B` looked at and written, then `A` looked at.
    fn pair<A: Key, B: Key>(&self, i: u32, n: u64) -> (Is, Is, Is, Is) {
        macro_rules! go {
            ($a:expr, $b:expr) => {{
                let mut a = $a;
                let mut b = $b;
                let a0 = a.is();
                a.put(n);
                let b0 = b.is();
                b.put(n + 1);
                (a0, b0, a.is(), b.is())
            }};
        }
        match i {
            0 | 1 => {
                let w = &self.w[i as usize];
                go!(w.write_resource::<A>(), w.write_resource::<B>())
            }
            _ => {
                let s = &self.s[i as usize - 2];
                go!(s.borrow_mut::<A>(), s.borrow_mut::<B>())
            }
        }
    }
}

/// What a type makes of a payload.
fn after<T: Key>(was: Is, n: u64) -> Is {
    if std::mem::size_of::<T>() == 0 {
        was
    } else {
        (n, was.1)
    }
}

fn audit(d: &D, m: &Md) {
    hit("audits");
    for i in 0..INST {
        for k in 0..NK {
            let want = m.slots.get(&(i, k)).copied();
            with_key!(k, T => {
                if d.has::<T>(i) != want.is_some() {
                    viol!(P, "presence", "{} is {} {}", key_name(k), if want.is_some() { "no longer in" } else { "suddenly in" }, inst_name(i));
                } else if want.is_some() {
                    match attempt(|| d.see::<T>(i, 0)) {
                        Ok(g) => same("looking at", i, k, Some(g), want),
                        Err(_) => viol!(P, "refused", "{} in {} cannot be borrowed although nobody holds it", key_name(k), inst_name(i)),
                    }
                }
            });
        }
    }
    for w in 0..2u32 {
        for c in 0..KINDS {
            with_kind!(c, C => look_at_storage::<C>(d, m, w));
        }
    }
    ownership(m);
}
fn look_at_storage<C: CompT>(d: &D, m: &Md, w: u32) {
    let want = m.wm[w as usize].reg.get(&C::KIND);
    let world = &d.w[w as usize];
    if world.contains_component::<C>() != want.is_some() {
        viol!(P, "presence", "component {} is registered in {}: {}", C::KIND, inst_name(w), want.is_none());
        return;
    }
    let Some(want) = want else { return };
    let Ok(g) = attempt(|| world.read_component::<C>()) else {
        viol!(P, "refused", "component {} in {} cannot be borrowed although nobody holds it", C::KIND, inst_name(w));
        return;
    };
    contents::<C>(&g.storage(), want, "the registered");
}
fn contents<C: CompT>(s: &goggles::masked::MaskedStorage<C::St>, want: &BTreeMap<u32, (Entity, Is)>, what: &str) {
    let n = s.mask().iter().count();
    if n != want.len() {
        viol!(P, "storage-content", "{} storage of component {} holds {} values, not {}", what, C::KIND, n, want.len());
    }
    for (x, (_, v)) in want {
        let g = s.get(*x).map(|x| of(x.v()));
        if g != Some(*v) {
            viol!(P, "storage-content", "{} storage of component {} holds {:?} at {}, not {:?}", what, C::KIND, g, x, v);
            return;
        }
    }
}
fn ownership(m: &Md) {
    let mut z = [0i64; 2];
    for ((_, k), _) in &m.slots {
        if *k == 7 {
            z[0] += 1
        } else if *k == 8 {
            z[1] += 1
        }
    }
    if *ZST.get() != z {
        viol!(P, "leaked", "{:?} values without size exist where {:?} should", ZST.get(), z);
        return;
    }
    let vs = vals();
    let mut live = vec![false; vs.dropped.len()];
    {
        let mut own = |v: &Is| {
            if let Some(x) = live.get_mut(v.1 as usize) {
                *x = true
            }
        };
        m.slots.values().for_each(&mut own);
        for w in &m.wm {
            for r in w.reg.values() {
                r.values().for_each(|x| own(&x.1));
            }
        }
    }
    for (id, l) in live.iter().enumerate() {
        if *l && vs.dropped[id] > 0 {
            viol!(P, "dropped-while-held", "value {} was dropped although a world or set holds it", id);
            return;
        }
        if !*l && vs.dropped[id] == 0 {
            viol!(P, "leaked", "value {} is held by nobody and was never dropped", id);
            return;
        }
    }
}

fn step(op: &Op, d: &mut D, m: &mut Md) {
    match op {
        Op::Ins(i, k, n) => {
            let (i, k, n) = (i % INST, k % NK, (*n % 1000) as u64);
            with_key!(k, T => {
                let x = T::make(n);
                let is = x.is();
                let old = d.ins(i, x);
                let got = old.as_ref().map(|x| x.is());
                if got.is_some() {
                    hit("replaced");
                }
                same("inserting", i, k, got, m.slots.insert((i, k), is));
            })
        }
        Op::Rem(i, k) => {
            let (i, k) = (i % INST, k % NK);
            with_key!(k, T => {
                let old = d.rem::<T>(i);
                let got = old.as_ref().map(|x| x.is());
                if got.is_none() {
                    hit("fault:missing");
                }
                same("removing", i, k, got, m.slots.remove(&(i, k)));
            })
        }
        Op::Has(i, k) => {
            let (i, k) = (i % INST, k % NK);
            let want = m.slots.contains_key(&(i, k));
            let got = with_key!(k, T => d.has::<T>(i));
            if got != want {
                viol!(P, "presence", "{} is said to be {}in {}", key_name(k), if got { "" } else { "not " }, inst_name(i));
            }
        }
        Op::Mut(i, k, n) => {
            let (i, k, n) = (i % INST, k % NK, (*n % 1000) as u64);
            with_key!(k, T => {
                let got = attempt(|| {
                    let x = d.get_mut::<T>(i);
                    let was = x.is();
                    x.put(n);
                    was
                }).ok();
                if got.is_none() {
                    hit("fault:missing");
                }
                let want = m.slots.get(&(i, k)).copied();
                same("exclusive access to", i, k, got, want);
                if let Some(w) = want {
                    m.slots.insert((i, k), after::<T>(w, n));
                }
            })
        }
        Op::Read(i, k, how) => {
            let (i, k) = (i % INST, k % NK);
            with_key!(k, T => {
                let got = attempt(|| d.see::<T>(i, *how)).ok();
                if got.is_none() {
                    hit("fault:missing");
                }
                same("reading", i, k, got, m.slots.get(&(i, k)).copied());
            })
        }
        Op::Write(i, k, n, how) => {
            let (i, k, n) = (i % INST, k % NK, (*n % 1000) as u64);
            with_key!(k, T => {
                let got = attempt(|| d.write::<T>(i, n, *how)).ok();
                if got.is_none() {
                    hit("fault:missing");
                }
                let want = m.slots.get(&(i, k)).copied();
                same("writing", i, k, got, want);
                if let Some(w) = want {
                    m.slots.insert((i, k), after::<T>(w, n));
                }
            })
        }
        Op::Pair(i, a, b, n) => {
            let (i, a, b, n) = (i % INST, a % NK, SECOND[*b as usize % SECOND.len()], (*n % 1000) as u64);
            let wa = m.slots.get(&(i, a)).copied();
            let wb = m.slots.get(&(i, b)).copied();
            let got = pair(d, i, a, b, n);
            match (wa, wb) {
                (Some(wa), Some(wb)) if a != b => {
                    hit("pairs");
                    let (xa, xb) = (with_key!(a, T => after::<T>(wa, n)), with_key!(b, T => after::<T>(wb, n + 1)));
                    if got != Some((wa, wb, xa, xb)) {
                        viol!(P, "wrong-value", "{} and {} in {}, both held for writing, gave {:?}, not {:?}",
                            key_name(a), key_name(b), inst_name(i), got, (wa, wb, xa, xb));
                    }
                    m.slots.insert((i, a), xa);
                    m.slots.insert((i, b), xb);
                }
                _ => {
                    hit("fault:refused");
                    if got.is_some() {
                        viol!(P, "wrong-value", "{} and {} in {} could be written together", key_name(a), key_name(b), inst_name(i));
                    }
                }
            }
        }
        Op::Reg(w, c) | Op::Unreg(w, c) => {
            let w = w % 2;
            let c = c % KINDS;
            let add = matches!(op, Op::Reg(..));
            with_kind!(c, C => {
                let world = &mut d.w[w as usize];
                let old = if add { world.insert_component::<C>() } else { world.remove_component::<C>() };
                let reg = &mut m.wm[w as usize].reg;
                let was = if add { reg.insert(c, BTreeMap::new()) } else { reg.remove(&c) };
                match (&old, &was) {
                    (None, None) => {}
                    (Some(o), Some(was)) => {
                        hit("storages_back");
                        contents::<C>(o, was, "the replaced or removed");
                    }
                    _ => viol!(P, "presence", "a storage of component {} was given back: {}", c, old.is_some()),
                }
            })
        }
        Op::Ent(w) => {
            let w = (*w % 2) as usize;
            if m.wm[w].live.len() < 40 {
                let e = d.w[w].create_entity();
                m.wm[w].live.push(e);
            }
        }
        Op::Kill(w, x, now) => {
            let w = (*w % 2) as usize;
            let wm = &mut m.wm[w];
            if wm.live.is_empty() {
                return;
            }
            let e = wm.live[*x as usize % wm.live.len()];
            if *now {
                if d.w[w].delete_entity(e).is_err() {
                    return;
                }
                wm.live.retain(|x| *x != e);
                wm.doomed.retain(|x| *x != e);
                gone(wm, e);
            } else if d.w[w].entities().delete(e).is_ok() && !wm.doomed.contains(&e) {
                wm.doomed.push(e);
            }
        }
        Op::Merge(w) => {
            let w = (*w % 2) as usize;
            d.w[w].merge();
            let wm = &mut m.wm[w];
            let doomed = std::mem::take(&mut wm.doomed);
            wm.live.retain(|x| !doomed.contains(x));
            for e in doomed {
                gone(wm, e);
            }
        }
        Op::Put(w, c, x, n) => {
            let w = (*w % 2) as usize;
            let c = c % KINDS;
            let wm = &mut m.wm[w];
            if wm.live.is_empty() {
                return;
            }
            let e = wm.live[*x as usize % wm.live.len()];
            with_kind!(c, C => {
                let v = <C as CompT>::mk(Val::new((*n % 1000) as u64));
                let is = of(v.v());
                let got = attempt(|| d.w[w].write_component::<C>().insert(e, v).ok().flatten().map(|x| of(x.v())));
                match (got, wm.reg.get_mut(&c)) {
                    (Ok(got), Some(r)) => {
                        let was = r.insert(e.index(), (e, is)).map(|x| x.1);
                        if got != was {
                            viol!(P, "storage-content", "inserting component {} gave back {:?}, not {:?}", c, got, was);
                        }
                    }
                    (Err(_), None) => hit("fault:missing"),
                    (g, _) => viol!(P, "presence", "inserting component {} worked: {}", c, g.is_ok()),
                }
            })
        }
        Op::Take(w, c, x) => {
            let w = (*w % 2) as usize;
            let c = c % KINDS;
            let wm = &mut m.wm[w];
            if wm.live.is_empty() {
                return;
            }
            let e = wm.live[*x as usize % wm.live.len()];
            with_kind!(c, C => {
                let got = attempt(|| d.w[w].get_component_mut::<C>().remove(e).ok().flatten().map(|x| of(x.v())));
                match (got, wm.reg.get_mut(&c)) {
                    (Ok(got), Some(r)) => {
                        let was = r.remove(&e.index()).map(|x| x.1);
                        if got != was {
                            viol!(P, "storage-content", "removing component {} gave back {:?}, not {:?}", c, got, was);
                        }
                    }
                    (Err(_), None) => hit("fault:missing"),
                    (g, _) => viol!(P, "presence", "removing component {} worked: {}", c, g.is_ok()),
                }
            })
        }
        Op::Swap(x) => {
            let s = *x % 2 == 1;
            if s {
                let [a, b] = &mut d.s;
                std::mem::swap(a, b);
            } else {
                let [a, b] = &mut d.w;
                std::mem::swap(a, b);
                m.wm.swap(0, 1);
            }
            let base = if s { 2 } else { 0 };
            m.slots = std::mem::take(&mut m.slots)
                .into_iter()
                .map(|((i, k), v)| ((if i / 2 * 2 == base { base + (1 - i % 2) } else { i }, k), v))
                .collect();
        }
        Op::Fresh(i, dflt) => {
            let i = i % INST;
            hit("fault:dropped_whole");
            if i < 2 {
                d.w[i as usize] = if *dflt { World::default() } else { World::new() };
                m.wm[i as usize] = WM::default();
            } else {
                d.s[i as usize - 2] = if *dflt { ResourceSet::default() } else { ResourceSet::new() };
            }
            m.slots.retain(|k, _| k.0 != i);
        }
        Op::Audit => audit(d, m),
    }
}
fn gone(wm: &mut WM, e: Entity) {
    for r in wm.reg.values_mut() {
        if r.get(&e.index()).map_or(false, |x| x.0 == e) {
            r.remove(&e.index());
        }
    }
}
/// Only some pairs of types are compiled: the second is one of a few.
const SECOND: [u32; 8] = [0, 3, 5, 7, 10, 13, 19, 22];
fn pair(d: &D, i: u32, a: u32, b: u32, n: u64) -> Option<(Is, Is, Is, Is)> {
    fn second<A: Key>(d: &D, i: u32, b: u32, n: u64) -> Option<(Is, Is, Is, Is)> {
        attempt(|| {
            with_key!(@ b, T, d.pair::<A, T>(i, n); 0 S<0>, 3 L<0>, 5 N<0>, 7 Z<0>, 10 G<S<0>>, 13 u32, 19 Comp<0>; Stored<0>)
        })
        .ok()
    }
    with_key!(a, T => second::<T>(d, i, b, n))
}

pub fn exec(p: &Plan) {
    ZST.set([0; 2]);
    {
        let mut d = D { w: [World::new(), World::default()], s: [ResourceSet::new(), ResourceSet::default()] };
        let mut m = Md { slots: BTreeMap::new(), wm: vec![WM::default(), WM::default()] };
        for op in &p.ops {
            step(op, &mut d, &mut m);
            hit("ops");
        }
        audit(&d, &m);
    }
    ownership(&Md { slots: BTreeMap::new(), wm: vec![] });
}
