//! Typed access tuples over a `World` and a `ResourceSet`, an independent account of what each of
//! them reads and writes, and the table of who holds what.
use crate::rt::*;
use goggles::{
    Component, DenseVecStorage, Entities, Entity, FetchNone, FetchResources, Flagged, Read,
    ReadComponent, ReadResource, ResourceConflict, ResourceSet, RwResources, VecStorage, World,
    WorldResourceId, WorldResources, Write, WriteComponent, WriteResource,
};
use std::cell::{Cell, UnsafeCell};

pub struct R<const N: u8> {
    pub a: u64,
    pub b: u64,
}
/// May be sent to another thread, not shared.
pub struct NS {
    pub a: Cell<u64>,
    pub b: Cell<u64>,
}
pub struct K<const N: u8> {
    pub a: u64,
    pub b: u64,
}
impl Component for K<0> {
    type Storage = VecStorage<K<0>>;
}
impl Component for K<1> {
    type Storage = Flagged<DenseVecStorage<K<1>>>;
}

// what can be accessed
pub const W_R0: u8 = 0;
pub const W_R1: u8 = 1;
pub const W_R2: u8 = 2;
/// a resource whose type is also a component
pub const W_RK0: u8 = 3;
pub const W_NS: u8 = 4;
pub const C_K0: u8 = 5;
pub const C_K1: u8 = 6;
pub const S_R0: u8 = 7;
pub const S_R1: u8 = 8;
pub const S_R2: u8 = 9;
pub const S_NS: u8 = 10;
pub const ENT: u8 = 11;
pub const ABS0: u8 = 12;
pub const NIDS: usize = 18;
pub const NREAL: usize = 11;
pub const NAMES: [&str; NIDS] = [
    "world resource R0", "world resource R1", "world resource R2", "world resource K0", "world resource NS",
    "component K0", "component K1", "set resource R0", "set resource R1", "set resource R2", "set resource NS",
    "entities", "abstract 0", "abstract 1", "abstract 2", "abstract 3", "abstract 4", "abstract 5",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Acc {
    pub id: u8,
    pub write: bool,
}
pub fn clash(a: &[Acc], b: &[Acc]) -> Option<u8> {
    for x in a {
        for y in b {
            if x.id == y.id && (x.write || y.write) {
                return Some(x.id);
            }
        }
    }
    None
}
/// two requests of one tuple exclude each other
pub fn self_clash(a: &[Acc]) -> bool {
    (0..a.len()).any(|i| clash(&a[i..i + 1], &a[i + 1..]).is_some())
}
pub fn masks(a: &[Acc]) -> (u32, u32) {
    let (mut r, mut w) = (0, 0);
    for x in a {
        if x.write {
            w |= 1 << x.id
        } else {
            r |= 1 << x.id
        }
    }
    (r, w)
}

/// One request: from just before the call to just after the last of it is released.
pub struct Rec {
    pub thread: u32,
    pub start: u64,
    pub end: u64,
    pub acc: Vec<Acc>,
    /// acquired and not yet about to be released
    pub definite: bool,
}

#[derive(Default)]
pub struct Tab {
    pub recs: Vec<Rec>,
    /// completed writes per id
    pub writes: [u64; NIDS],
    /// most own steps one request took
    pub touched: u64,
}

pub struct Cx {
    pub w: World,
    pub s: ResourceSet,
    pub e: Entity,
    tab: UnsafeCell<Tab>,
}
impl Cx {
    pub fn new() -> Cx {
        let mut w = World::new();
        let e = w.create_entity();
        let mut c = Cx { w, s: ResourceSet::new(), e, tab: UnsafeCell::new(Tab::default()) };
        for id in 0..NREAL as u8 {
            c.insert(id, 0);
        }
        c
    }
    #[allow(clippy::mut_from_ref)]
    pub fn tab(&self) -> &mut Tab {
        unsafe { &mut *self.tab.get() }
    }

    /// Exclusive operations; `Option<(a, b)>` of what was there before.
    pub fn insert(&mut self, id: u8, v: u64) -> Option<(u64, u64)> {
        fn r<const N: u8>(x: Option<R<N>>) -> Option<(u64, u64)> {
            x.map(|x| (x.a, x.b))
        }
        fn ns(x: Option<NS>) -> Option<(u64, u64)> {
            x.map(|x| (x.a.get(), x.b.get()))
        }
        let e = self.e;
        match id {
            W_R0 => r(self.w.insert_resource(R::<0> { a: v, b: v })),
            W_R1 => r(self.w.insert_resource(R::<1> { a: v, b: v })),
            W_R2 => r(self.w.insert_resource(R::<2> { a: v, b: v })),
            W_RK0 => self.w.insert_resource(K::<0> { a: v, b: v }).map(|x| (x.a, x.b)),
            W_NS => ns(self.w.insert_resource(NS { a: Cell::new(v), b: Cell::new(v) })),
            C_K0 => {
                let old = self.w.insert_component::<K<0>>();
                let _ = self.w.get_component_mut::<K<0>>().insert(e, K { a: v, b: v });
                old.map(|s| s.get(e.index()).map_or((u64::MAX, 0), |x| (x.a, x.b)))
            }
            C_K1 => {
                let old = self.w.insert_component::<K<1>>();
                let _ = self.w.get_component_mut::<K<1>>().insert(e, K { a: v, b: v });
                old.map(|s| s.get(e.index()).map_or((u64::MAX, 0), |x| (x.a, x.b)))
            }
            S_R0 => r(self.s.insert(R::<0> { a: v, b: v })),
            S_R1 => r(self.s.insert(R::<1> { a: v, b: v })),
            S_R2 => r(self.s.insert(R::<2> { a: v, b: v })),
            _ => ns(self.s.insert(NS { a: Cell::new(v), b: Cell::new(v) })),
        }
    }
    pub fn remove(&mut self, id: u8) -> Option<(u64, u64)> {
        fn r<const N: u8>(x: Option<R<N>>) -> Option<(u64, u64)> {
            x.map(|x| (x.a, x.b))
        }
        fn ns(x: Option<NS>) -> Option<(u64, u64)> {
            x.map(|x| (x.a.get(), x.b.get()))
        }
        let e = self.e;
        match id {
            W_R0 => r(self.w.remove_resource::<R<0>>()),
            W_R1 => r(self.w.remove_resource::<R<1>>()),
            W_R2 => r(self.w.remove_resource::<R<2>>()),
            W_RK0 => self.w.remove_resource::<K<0>>().map(|x| (x.a, x.b)),
            W_NS => ns(self.w.remove_resource::<NS>()),
            C_K0 => self.w.remove_component::<K<0>>().map(|s| s.get(e.index()).map_or((u64::MAX, 0), |x| (x.a, x.b))),
            C_K1 => self.w.remove_component::<K<1>>().map(|s| s.get(e.index()).map_or((u64::MAX, 0), |x| (x.a, x.b))),
            S_R0 => r(self.s.remove::<R<0>>()),
            S_R1 => r(self.s.remove::<R<1>>()),
            S_R2 => r(self.s.remove::<R<2>>()),
            _ => ns(self.s.remove::<NS>()),
        }
    }
    pub fn contains(&self, id: u8) -> bool {
        match id {
            W_R0 => self.w.contains_resource::<R<0>>(),
            W_R1 => self.w.contains_resource::<R<1>>(),
            W_R2 => self.w.contains_resource::<R<2>>(),
            W_RK0 => self.w.contains_resource::<K<0>>(),
            W_NS => self.w.contains_resource::<NS>(),
            C_K0 => self.w.contains_component::<K<0>>(),
            C_K1 => self.w.contains_component::<K<1>>(),
            S_R0 => self.s.contains::<R<0>>(),
            S_R1 => self.s.contains::<R<1>>(),
            S_R2 => self.s.contains::<R<2>>(),
            _ => self.s.contains::<NS>(),
        }
    }
    /// Through exclusive access; panics when missing.
    pub fn get_mut(&mut self, id: u8) -> (u64, u64) {
        let e = self.e;
        macro_rules! f {
            ($x:expr) => {{
                let x = $x;
                (x.a, x.b)
            }};
        }
        match id {
            W_R0 => f!(self.w.get_resource_mut::<R<0>>()),
            W_R1 => f!(self.w.get_resource_mut::<R<1>>()),
            W_R2 => f!(self.w.get_resource_mut::<R<2>>()),
            W_RK0 => f!(self.w.get_resource_mut::<K<0>>()),
            W_NS => {
                let x = self.w.get_resource_mut::<NS>();
                (x.a.get(), x.b.get())
            }
            C_K0 => self.w.get_component_mut::<K<0>>().get(e).map_or((u64::MAX, 0), |x| (x.a, x.b)),
            C_K1 => self.w.get_component_mut::<K<1>>().get(e).map_or((u64::MAX, 0), |x| (x.a, x.b)),
            S_R0 => f!(self.s.get_mut::<R<0>>()),
            S_R1 => f!(self.s.get_mut::<R<1>>()),
            S_R2 => f!(self.s.get_mut::<R<2>>()),
            _ => {
                let x = self.s.get_mut::<NS>();
                (x.a.get(), x.b.get())
            }
        }
    }
    /// Through a write borrow; panics when missing or borrowed.
    pub fn peek(&self, id: u8) -> (u64, u64) {
        let e = self.e;
        macro_rules! f {
            ($x:expr) => {{
                let x = $x;
                (x.a, x.b)
            }};
        }
        match id {
            W_R0 => f!(self.w.write_resource::<R<0>>()),
            W_R1 => f!(self.w.write_resource::<R<1>>()),
            W_R2 => f!(self.w.write_resource::<R<2>>()),
            W_RK0 => f!(self.w.write_resource::<K<0>>()),
            W_NS => {
                let x = self.w.write_resource::<NS>();
                (x.a.get(), x.b.get())
            }
            C_K0 => self.w.write_component::<K<0>>().get(e).map_or((u64::MAX, 0), |x| (x.a, x.b)),
            C_K1 => self.w.write_component::<K<1>>().get(e).map_or((u64::MAX, 0), |x| (x.a, x.b)),
            S_R0 => f!(self.s.borrow_mut::<R<0>>()),
            S_R1 => f!(self.s.borrow_mut::<R<1>>()),
            S_R2 => f!(self.s.borrow_mut::<R<2>>()),
            _ => {
                let x = self.s.borrow_mut::<NS>();
                (x.a.get(), x.b.get())
            }
        }
    }

    // -------------------------------------------------------------- holds

    /// A request begins.
    pub fn begin(&self, acc: &[Acc]) -> usize {
        let _q = Quiet::new();
        let t = self.tab();
        t.recs.push(Rec { thread: me(), start: seq(), end: 0, acc: acc.to_vec(), definite: false });
        t.recs.len() - 1
    }
    /// Everything the request asked for was granted.
    pub fn granted(&self, k: usize, prop: &str) {
        let _q = Quiet::new();
        let t = self.tab();
        t.recs[k].definite = true;
        for (i, r) in t.recs.iter().enumerate() {
            if i != k && r.definite {
                if let Some(id) = clash(&r.acc, &t.recs[k].acc) {
                    let m = format!(
                        "{} granted to thread {} while thread {} holds it, at least one of them for writing",
                        NAMES[id as usize], me(), r.thread
                    );
                    viol("C12", "aliased-borrow", m.clone());
                    if prop != "C12" {
                        viol(prop, "aliased-borrow", m);
                    }
                }
            }
        }
    }
    /// It is about to be released.
    pub fn releasing(&self, k: usize) {
        let _q = Quiet::new();
        self.tab().recs[k].definite = false;
    }
    /// It has been released, or had failed.
    pub fn ended(&self, k: usize) {
        let _q = Quiet::new();
        self.tab().recs[k].end = seq();
    }
    /// Some other request in flight during this one's call explains why it was refused.
    pub fn explained(&self, k: usize) -> bool {
        let _q = Quiet::new();
        let t = self.tab();
        let me = &t.recs[k];
        t.recs.iter().enumerate().any(|(i, r)| {
            i != k && (r.end == 0 || r.end > me.start) && clash(&r.acc, &me.acc).is_some()
        })
    }
}

// ------------------------------------------------------------------ access through the handles

/// A fetched value that can be used while it is held.
pub trait Touch {
    fn acc(v: &mut Vec<Acc>);
    fn touch(&mut self, cx: &Cx);
}

fn saw(id: u8, p: (u64, u64), q: (u64, u64)) {
    if p != q || p.0 != p.1 {
        viol!("C12", "changed-under-borrow", "{} changed under a read borrow: {:?} then {:?}", NAMES[id as usize], p, q);
    }
}
/// read, let others run, read again
fn look(id: u8, f: impl Fn() -> (u64, u64)) {
    let p = f();
    yield_now();
    let q = f();
    saw(id, p, q);
}
/// a non-atomic increment with room for others in the middle
fn bump(cx: &Cx, id: u8, get: impl Fn() -> (u64, u64), set_a: impl Fn(u64), set_b: impl Fn(u64)) {
    let p = get();
    set_a(p.0 + 1);
    yield_now();
    let m = get();
    if p.0 != p.1 || m.0 != p.0 + 1 || m.1 != p.1 {
        viol!("C12", "changed-under-borrow", "{} changed under a write borrow: {:?} then {:?}", NAMES[id as usize], p, m);
    }
    set_b(p.0 + 1);
    let _q = Quiet::new();
    let t = cx.tab();
    t.writes[id as usize] += 1;
}

pub trait Rid: Send + 'static {
    const W: u8;
    const S: u8;
    fn ab(&self) -> (u64, u64);
    fn sa(&mut self, v: u64);
    fn sb(&mut self, v: u64);
}
macro_rules! rids {
    ($($n:literal $w:ident $s:ident),*) => {$(
        impl Rid for R<$n> {
            const W: u8 = $w;
            const S: u8 = $s;
            fn ab(&self) -> (u64, u64) { (self.a, self.b) }
            fn sa(&mut self, v: u64) { self.a = v }
            fn sb(&mut self, v: u64) { self.b = v }
        }
    )*};
}
rids!(0 W_R0 S_R0, 1 W_R1 S_R1, 2 W_R2 S_R2);
impl Rid for NS {
    const W: u8 = W_NS;
    const S: u8 = S_NS;
    fn ab(&self) -> (u64, u64) {
        (self.a.get(), self.b.get())
    }
    fn sa(&mut self, v: u64) {
        self.a.set(v)
    }
    fn sb(&mut self, v: u64) {
        self.b.set(v)
    }
}
impl Rid for K<0> {
    const W: u8 = W_RK0;
    const S: u8 = 255;
    fn ab(&self) -> (u64, u64) {
        (self.a, self.b)
    }
    fn sa(&mut self, v: u64) {
        self.a = v
    }
    fn sb(&mut self, v: u64) {
        self.b = v
    }
}
pub fn look_at<T: Rid>(id: u8, x: &T) {
    look(id, || x.ab())
}
pub fn bump_r<T: Rid>(cx: &Cx, id: u8, x: &mut T) {
    let x = x as *mut T;
    unsafe { bump(cx, id, || (*x).ab(), |v| (*x).sa(v), |v| (*x).sb(v)) }
}

impl<'a, T: Rid + Sync> Touch for ReadResource<'a, T> {
    fn acc(v: &mut Vec<Acc>) {
        v.push(Acc { id: T::W, write: false })
    }
    fn touch(&mut self, _cx: &Cx) {
        look(T::W, || (**self).ab())
    }
}
impl<'a, T: Rid> Touch for WriteResource<'a, T> {
    fn acc(v: &mut Vec<Acc>) {
        v.push(Acc { id: T::W, write: true })
    }
    fn touch(&mut self, cx: &Cx) {
        bump_r(cx, T::W, &mut **self)
    }
}
impl<'a, T: Rid + Sync> Touch for Read<'a, T> {
    fn acc(v: &mut Vec<Acc>) {
        v.push(Acc { id: T::S, write: false })
    }
    fn touch(&mut self, _cx: &Cx) {
        look(T::S, || (**self).ab())
    }
}
impl<'a, T: Rid> Touch for Write<'a, T> {
    fn acc(v: &mut Vec<Acc>) {
        v.push(Acc { id: T::S, write: true })
    }
    fn touch(&mut self, cx: &Cx) {
        bump_r(cx, T::S, &mut **self)
    }
}
macro_rules! kids {
    ($($n:literal $id:ident),*) => {$(
        impl<'a> Touch for ReadComponent<'a, K<$n>> {
            fn acc(v: &mut Vec<Acc>) {
                v.push(Acc { id: ENT, write: false });
                v.push(Acc { id: $id, write: false })
            }
            fn touch(&mut self, cx: &Cx) {
                look($id, || self.get(cx.e).map_or((u64::MAX, 0), |x| (x.a, x.b)))
            }
        }
        impl<'a> Touch for WriteComponent<'a, K<$n>> {
            fn acc(v: &mut Vec<Acc>) {
                v.push(Acc { id: ENT, write: false });
                v.push(Acc { id: $id, write: true })
            }
            fn touch(&mut self, cx: &Cx) {
                let Some(x) = self.get_mut(cx.e) else {
                    viol!("C12", "lost-component", "{} of a live entity is not there", NAMES[$id as usize]);
                    viol!("C25", "lost-component", "{} of a live entity is not there", NAMES[$id as usize]);
                    return;
                };
                let x = x as *mut K<$n>;
                unsafe { bump(cx, $id, || ((*x).a, (*x).b), |v| (*x).a = v, |v| (*x).b = v) }
            }
        }
    )*};
}
kids!(0 C_K0, 1 C_K1);
impl<'a> Touch for Entities<'a> {
    fn acc(v: &mut Vec<Acc>) {
        v.push(Acc { id: ENT, write: false })
    }
    fn touch(&mut self, cx: &Cx) {
        if !self.is_alive(cx.e) {
            viol!("C02", "not-alive", "an entity nobody deleted is not alive");
        }
    }
}
impl<S, T> Touch for FetchNone<S, T> {
    fn acc(_: &mut Vec<Acc>) {}
    fn touch(&mut self, _cx: &Cx) {}
}
macro_rules! touch_tuple {
    ($($($t:ident)*;)*) => {$(
        #[allow(non_snake_case)]
        impl<$($t: Touch),*> Touch for ($($t,)*) {
            fn acc(v: &mut Vec<Acc>) { $($t::acc(v);)* }
            fn touch(&mut self, cx: &Cx) {
                let ($($t,)*) = self;
                $($t.touch(cx);)*
            }
        }
    )*};
}
touch_tuple! {
    A;
    A B;
    A B C;
    A B C D;
    A B C D E;
    A B C D E F G;
    A B C D E F G H I J K L;
    A B C D E F G H I J K L M N O P Q R S T U V W X Y Z;
}

// ------------------------------------------------------------------ the tuples

/// What one tuple can do, erased.
pub trait Tuple: Sync {
    fn acc(&self) -> Vec<Acc>;
    fn check(&self) -> Result<RwResources<u8>, ResourceConflict>;
    /// Fetches, and uses the result: `held` is called once everything is granted.  Panics as the
    /// fetch does.
    fn with(&self, cx: &Cx, held: &mut dyn FnMut(&mut dyn FnMut()));
}

pub fn wid(r: &WorldResourceId) -> u8 {
    let t = [
        (WorldResourceId::Entities, ENT),
        (WorldResourceId::resource::<R<0>>(), W_R0),
        (WorldResourceId::resource::<R<1>>(), W_R1),
        (WorldResourceId::resource::<R<2>>(), W_R2),
        (WorldResourceId::resource::<K<0>>(), W_RK0),
        (WorldResourceId::resource::<NS>(), W_NS),
        (WorldResourceId::component::<K<0>>(), C_K0),
        (WorldResourceId::component::<K<1>>(), C_K1),
    ];
    t.iter().find(|x| x.0 == *r).map_or(31, |x| x.1)
}
pub fn sid(r: &goggles::resource_set::ResourceId) -> u8 {
    use goggles::resource_set::ResourceId as I;
    let t = [(I::of::<R<0>>(), S_R0), (I::of::<R<1>>(), S_R1), (I::of::<R<2>>(), S_R2), (I::of::<NS>(), S_NS)];
    t.iter().find(|x| x.0 == *r).map_or(31, |x| x.1)
}

type RR<'a, const N: u8> = ReadResource<'a, R<N>>;
type WR<'a, const N: u8> = WriteResource<'a, R<N>>;
type RC<'a, const N: u8> = ReadComponent<'a, K<N>>;
type WC<'a, const N: u8> = WriteComponent<'a, K<N>>;
type RS<'a, const N: u8> = Read<'a, R<N>>;
type WS<'a, const N: u8> = Write<'a, R<N>>;
type None_ = FetchNone<World, WorldResources>;
type NoneS = FetchNone<ResourceSet, RwResources<goggles::resource_set::ResourceId>>;

macro_rules! tuples {
    ($lt:lifetime; $(world $wn:ident $wt:ty;)* --- $(set $sn:ident $st:ty;)*) => {
        $(
            struct $wn;
            impl Tuple for $wn {
                fn acc(&self) -> Vec<Acc> {
                    fn go<$lt>() -> Vec<Acc> {
                        let mut v = vec![];
                        <$wt as Touch>::acc(&mut v);
                        v
                    }
                    go()
                }
                fn check(&self) -> Result<RwResources<u8>, ResourceConflict> {
                    fn go<$lt>() -> Result<RwResources<u8>, ResourceConflict> {
                        <$wt as FetchResources<$lt, World>>::check_resources().map(|r| r.map(wid))
                    }
                    go()
                }
                fn with(&self, cx: &Cx, held: &mut dyn FnMut(&mut dyn FnMut())) {
                    fn go<$lt>(cx: &$lt Cx, held: &mut dyn FnMut(&mut dyn FnMut())) {
                        let mut x = cx.w.fetch::<$wt>();
                        held(&mut || x.touch(cx));
                    }
                    go(cx, held)
                }
            }
        )*
        $(
            struct $sn;
            impl Tuple for $sn {
                fn acc(&self) -> Vec<Acc> {
                    fn go<$lt>() -> Vec<Acc> {
                        let mut v = vec![];
                        <$st as Touch>::acc(&mut v);
                        v
                    }
                    go()
                }
                fn check(&self) -> Result<RwResources<u8>, ResourceConflict> {
                    fn go<$lt>() -> Result<RwResources<u8>, ResourceConflict> {
                        <$st as FetchResources<$lt, ResourceSet>>::check_resources().map(|r| r.map(sid))
                    }
                    go()
                }
                fn with(&self, cx: &Cx, held: &mut dyn FnMut(&mut dyn FnMut())) {
                    fn go<$lt>(cx: &$lt Cx, held: &mut dyn FnMut(&mut dyn FnMut())) {
                        let mut x = cx.s.fetch::<$st>();
                        held(&mut || x.touch(cx));
                    }
                    go(cx, held)
                }
            }
        )*
        pub static TUPLES: &[&dyn Tuple] = &[$(&$wn,)* $(&$sn,)*];
    };
}
tuples! {
    'a;
    world T0 RR<'a, 0>;
    world T1 WR<'a, 0>;
    world T2 RR<'a, 1>;
    world T3 WR<'a, 1>;
    world T4 RR<'a, 2>;
    world T5 WR<'a, 2>;
    world T6 ReadResource<'a, K<0>>;
    world T7 WriteResource<'a, K<0>>;
    world T8 WriteResource<'a, NS>;
    world T9 RC<'a, 0>;
    world T10 WC<'a, 0>;
    world T11 RC<'a, 1>;
    world T12 WC<'a, 1>;
    world T13 Entities<'a>;
    world T14 None_;
    world T15 (RR<'a, 0>, WR<'a, 1>);
    world T16 (WR<'a, 0>, RR<'a, 1>);
    world T17 (RR<'a, 0>, RR<'a, 0>);
    world T18 (RR<'a, 0>, WR<'a, 0>);
    world T19 (WR<'a, 2>, WR<'a, 2>);
    world T20 (WR<'a, 0>, RR<'a, 2>, RR<'a, 0>);
    world T21 (RC<'a, 0>, WC<'a, 1>);
    world T22 (WC<'a, 0>, RC<'a, 1>, Entities<'a>);
    world T23 (WC<'a, 0>, WriteResource<'a, K<0>>);
    world T24 (RC<'a, 0>, WC<'a, 0>);
    world T25 (WC<'a, 1>, RR<'a, 1>, WC<'a, 1>);
    world T26 ((RR<'a, 0>, WR<'a, 1>), (RC<'a, 0>, WR<'a, 2>));
    world T27 ((RR<'a, 0>, WR<'a, 1>), (RR<'a, 2>, RR<'a, 1>));
    world T28 (RR<'a, 0>, RR<'a, 1>, RR<'a, 2>, Entities<'a>);
    world T29 (WR<'a, 0>, WR<'a, 1>, WR<'a, 2>, WC<'a, 0>, WC<'a, 1>);
    world T30 (None_, (WriteResource<'a, NS>,), (RR<'a, 0>, (RR<'a, 0>, RC<'a, 1>)));
    world T31 (RR<'a, 0>, RR<'a, 1>, RR<'a, 2>, RC<'a, 0>, RC<'a, 1>, Entities<'a>, WR<'a, 0>);
    world T32 (RR<'a, 0>, RR<'a, 1>, RR<'a, 0>, RC<'a, 0>, RC<'a, 1>, Entities<'a>, RR<'a, 0>, RC<'a, 0>,
        ReadResource<'a, K<0>>, None_, WriteResource<'a, NS>, WR<'a, 2>);
    world T33 (RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_,
        RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_, RR<'a, 0>, None_,
        RR<'a, 1>, RC<'a, 0>, Entities<'a>, WR<'a, 2>, RC<'a, 1>, ReadResource<'a, K<0>>);
    world T34 (WR<'a, 0>, None_, None_, None_, None_, None_, None_, None_, None_, None_,
        None_, None_, None_, None_, None_, None_, None_, None_, None_, None_,
        None_, None_, None_, None_, None_, RR<'a, 0>);
    ---
    set S0 RS<'a, 0>;
    set S1 WS<'a, 0>;
    set S2 RS<'a, 1>;
    set S3 WS<'a, 1>;
    set S4 RS<'a, 2>;
    set S5 WS<'a, 2>;
    set S6 Write<'a, NS>;
    set S7 NoneS;
    set S8 (RS<'a, 0>, WS<'a, 1>);
    set S9 (WS<'a, 0>, RS<'a, 1>);
    set S10 (RS<'a, 1>, WS<'a, 2>, WS<'a, 1>);
    set S11 ((RS<'a, 0>, RS<'a, 1>), (RS<'a, 1>, Write<'a, NS>), NoneS);
    set S12 (WS<'a, 2>, (RS<'a, 0>, RS<'a, 2>));
    set S13 (WS<'a, 0>, WS<'a, 1>, WS<'a, 2>);
}
pub const NT: u32 = 49;

/// The access set a tuple reports must say exactly whether it excludes itself, and cover it.
pub fn check_tuple(n: usize) {
    let t = TUPLES[n];
    let acc = quiet(|| t.acc());
    let got = t.check();
    let _q = Quiet::new();
    let clash = self_clash(&acc);
    match &got {
        Ok(r) => {
            if clash {
                viol!("C14", "accepted-conflict", "a fetch tuple whose requests exclude each other passed its check: {:?}", names(&acc));
            }
            covers(r, &acc, "a fetch tuple");
        }
        Err(_) if !clash => {
            viol!("C14", "refused", "a fetch tuple without a conflict was refused: {:?}", names(&acc));
        }
        Err(_) => {}
    }
    drop(got);
}
pub fn names(acc: &[Acc]) -> Vec<String> {
    acc.iter().map(|a| format!("{} {}", if a.write { "write" } else { "read" }, NAMES[a.id as usize])).collect()
}
pub fn rw_masks(r: &RwResources<u8>) -> (u32, u32) {
    let (mut a, mut b) = (0u32, 0u32);
    for x in r.reads() {
        a |= 1 << (*x).min(31);
    }
    for x in r.writes() {
        b |= 1 << (*x).min(31);
    }
    (a, b)
}
pub fn covers(r: &RwResources<u8>, acc: &[Acc], what: &str) {
    let (gr, gw) = rw_masks(r);
    let (mr, mw) = masks(acc);
    if mw & !gw != 0 || mr & !(gr | gw) != 0 {
        viol!("C14", "uncovered", "the access set reported by {} does not cover {:?}: reads {:#x}, writes {:#x}", what, names(acc), gr, gw);
    }
}

/// After everything has been released: all of it can be borrowed again, and holds what the
/// completed writes left.
pub fn audit(cx: &Cx, present: u32, base: &[u64; NIDS], prop: &str) {
    for id in 0..NREAL as u8 {
        if present >> id & 1 == 0 {
            continue;
        }
        let want = base[id as usize] + cx.tab().writes[id as usize];
        match attempt(|| cx.peek(id)) {
            Ok((a, b)) => {
                if a != want || b != want {
                    viol!("C12", "lost-update", "{} holds {:?} after {} completed writes", NAMES[id as usize], (a, b), want);
                    viol!("C25", "lost-update", "{} holds {:?} after {} completed writes", NAMES[id as usize], (a, b), want);
                    viol!("C13", "data-changed", "{} holds {:?} after {} completed writes", NAMES[id as usize], (a, b), want);
                }
            }
            Err(c) => {
                let m = match c {
                    Caught::Other(s) => s,
                    Caught::Injected(i) => format!("injected panic {}", i),
                };
                viol!("C13", "still-borrowed", "{} cannot be borrowed although nobody holds it: {}", NAMES[id as usize], m);
                let _ = prop;
            }
        }
    }
}
