//! Component types and storages of every kind, with a uniform face for the scenarios.
use crate::rt::*;
use goggles::hibitset::{AtomicBitSet, BitSet, BitSetLike};
use goggles::masked::{GuardedElement, MaskedStorage};
use goggles::tracked::Flagged;
use goggles::world::ComponentAccess;
use goggles::{
    Entity, WrongGeneration,
    Component, DenseVecStorage, HashMapStorage, IntoJoinExt, ParJoinExt, RawStorage,
    VecStorage,
};
use rayon::iter::ParallelIterator;
use std::ops::{Deref, DerefMut};

/// 0 Vec, 1 DenseVec, 2 HashMap, 3..5 the same with change tracking, 6/7 large values.
pub const KINDS: u32 = 8;

pub struct Comp<const K: u8> {
    pub v: Val,
}
/// What a component made by default carries.
pub const DEFAULT: u64 = 0xdefa;
impl<const K: u8> Default for Comp<K> {
    fn default() -> Self {
        Comp { v: Val::new(DEFAULT) }
    }
}
impl<const K: u8> Default for Big<K> {
    fn default() -> Self {
        Big { pad: [0x5a5a_0000 + K as u64; 9], v: Val::new(DEFAULT), pad2: 7 }
    }
}
impl<const K: u8> Clone for Comp<K> {
    fn clone(&self) -> Self {
        Comp { v: self.v.clone() }
    }
}
pub struct Big<const K: u8> {
    pub pad: [u64; 9],
    pub v: Val,
    pub pad2: u8,
}
impl<const K: u8> Clone for Big<K> {
    fn clone(&self) -> Self {
        Big { pad: self.pad, v: self.v.clone(), pad2: self.pad2 }
    }
}

pub trait CompT: Component<Storage = <Self as CompT>::St> + Clone + Default + Send + Sync + 'static {
    type St: StoreX<Item = Self>;
    const KIND: u32;
    fn mk(v: Val) -> Self;
    fn v(&self) -> &Val;
    fn vm(&mut self) -> &mut Val;
    /// `mark_modified` of a world-level access, where there is one.
    fn w_mark<R: Deref<Target = MaskedStorage<Self::St>>>(
        _g: &ComponentAccess<'_, Self, R>,
        _e: Entity,
    ) -> Option<Result<(), WrongGeneration>> {
        None
    }
    /// What a world-level access says about modification, where it can: indices and presence.
    fn w_modified<R: Deref<Target = MaskedStorage<Self::St>>>(
        _g: &ComponentAccess<'_, Self, R>,
        _f: &mut dyn FnMut(u32, Option<&Self>),
    ) -> Option<bool> {
        None
    }
    fn w_modified_mut<R: DerefMut<Target = MaskedStorage<Self::St>>>(
        _g: &mut ComponentAccess<'_, Self, R>,
        _f: &mut dyn FnMut(u32, Option<&mut Self>),
    ) {
    }
    fn w_slice<'g, R: Deref<Target = MaskedStorage<Self::St>>>(_g: &'g ComponentAccess<'_, Self, R>) -> Option<&'g [Self]> {
        None
    }
    fn w_slice_mut<'g, R: DerefMut<Target = MaskedStorage<Self::St>>>(
        _g: &'g mut ComponentAccess<'_, Self, R>,
    ) -> Option<&'g mut [Self]> {
        None
    }
}
macro_rules! comps {
    (slices) => {
        fn w_slice<'g, R: Deref<Target = MaskedStorage<Self::St>>>(g: &'g ComponentAccess<'_, Self, R>) -> Option<&'g [Self]> {
            Some(g.as_slice())
        }
        fn w_slice_mut<'g, R: DerefMut<Target = MaskedStorage<Self::St>>>(
            g: &'g mut ComponentAccess<'_, Self, R>,
        ) -> Option<&'g mut [Self]> {
            Some(g.as_mut_slice())
        }
    };
    ($($k:literal $st:ident $($fl:ident)?;)*) => {$(
        impl Component for Comp<$k> {
            type Storage = comps!(@ $st, Comp<$k> $(, $fl)?);
        }
        impl CompT for Comp<$k> {
            type St = comps!(@ $st, Comp<$k> $(, $fl)?);
            const KIND: u32 = $k;
            fn mk(v: Val) -> Self { Comp { v } }
            fn v(&self) -> &Val { &self.v }
            fn vm(&mut self) -> &mut Val { &mut self.v }
            comps!(extra $st $($fl)?);
        }
    )*};
    (extra DenseVecStorage) => { comps!(slices); };
    (extra $st:ident) => {};
    (extra $st:ident $fl:ident) => { comps!(mark $fl); };
    (mark Flagged) => {
        fn w_mark<R: Deref<Target = MaskedStorage<Self::St>>>(
            g: &ComponentAccess<'_, Self, R>,
            e: Entity,
        ) -> Option<Result<(), WrongGeneration>> {
            Some(g.mark_modified(e))
        }
        fn w_modified<R: Deref<Target = MaskedStorage<Self::St>>>(
            g: &ComponentAccess<'_, Self, R>,
            f: &mut dyn FnMut(u32, Option<&Self>),
        ) -> Option<bool> {
            for (i, x) in (g.modified_indexes(), g.modified()).join() {
                f(i, x);
            }
            Some(g.tracking_modified())
        }
        fn w_modified_mut<R: DerefMut<Target = MaskedStorage<Self::St>>>(
            g: &mut ComponentAccess<'_, Self, R>,
            f: &mut dyn FnMut(u32, Option<&mut Self>),
        ) {
            let all = bitset_of(g.modified_indexes().iter());
            for (i, x) in (&all, g.modified_mut()).join() {
                f(i, x);
            }
        }
    };
    (@ $st:ident, $t:ty) => { $st<$t> };
    (@ $st:ident, $t:ty, $fl:ident) => { $fl<$st<$t>> };
}
comps! {
    0 VecStorage;
    1 DenseVecStorage;
    2 HashMapStorage;
    3 VecStorage Flagged;
    4 DenseVecStorage Flagged;
    5 HashMapStorage Flagged;
}
macro_rules! bigs {
    ($($k:literal $st:ident;)*) => {$(
        impl Component for Big<$k> {
            type Storage = $st<Big<$k>>;
        }
        impl CompT for Big<$k> {
            type St = $st<Big<$k>>;
            const KIND: u32 = $k;
            fn mk(v: Val) -> Self { Big { pad: [0x5a5a_0000 + $k; 9], v, pad2: 7 } }
            fn v(&self) -> &Val {
                if self.pad != [0x5a5a_0000 + $k; 9] || self.pad2 != 7 {
                    let m = "a large component value was torn or overwritten".to_string();
                    viol("C08", "torn-value", m);
                }
                &self.v
            }
            fn vm(&mut self) -> &mut Val { &mut self.v }
            comps!(extra $st);
        }
    )*};
}
bigs! {
    6 VecStorage;
    7 DenseVecStorage;
}

/// The storage-specific operations the scenarios use.
pub trait StoreX: RawStorage + Default + Send + Sync + Sized + 'static {
    const TRACKED: bool = false;
    const DENSE: bool = false;
    fn set_track(_m: &mut MaskedStorage<Self>, _on: bool) {}
    fn tracking(_m: &MaskedStorage<Self>) -> bool {
        false
    }
    fn clear_mod(_m: &mut MaskedStorage<Self>) {}
    fn mark(_m: &MaskedStorage<Self>, _i: u32) {}
    fn modified(_m: &MaskedStorage<Self>) -> Option<&AtomicBitSet> {
        None
    }
    fn guard_mark(_g: &GuardedElement<Self>) {}
    fn mod_join(_m: &MaskedStorage<Self>, _f: &mut dyn FnMut(u32, Option<&Self::Item>) -> bool) {}
    fn mod_join_mut(_m: &mut MaskedStorage<Self>, _f: &mut dyn FnMut(Option<&mut Self::Item>) -> bool) {}
    fn par_mod_mut<F>(_m: &mut MaskedStorage<Self>, _f: F)
    where
        F: Fn(Option<&mut Self::Item>) + Sync + Send,
        Self::Item: Send + Sync,
    {
    }
    fn slice(_m: &MaskedStorage<Self>) -> Option<&[Self::Item]> {
        None
    }
    fn slice_mut(_m: &mut MaskedStorage<Self>) -> Option<&mut [Self::Item]> {
        None
    }
}
impl<T: Send + Sync + 'static> StoreX for VecStorage<T> {}
impl<T: Send + Sync + 'static> StoreX for HashMapStorage<T> {}
impl<T: Send + Sync + 'static> StoreX for DenseVecStorage<T> {
    const DENSE: bool = true;
    fn slice(m: &MaskedStorage<Self>) -> Option<&[T]> {
        Some(m.as_slice())
    }
    fn slice_mut(m: &mut MaskedStorage<Self>) -> Option<&mut [T]> {
        Some(m.as_mut_slice())
    }
}
impl<S: RawStorage + Default + Send + Sync + 'static> StoreX for Flagged<S>
where
    S::Item: Send + Sync,
{
    const TRACKED: bool = true;
    fn set_track(m: &mut MaskedStorage<Self>, on: bool) {
        m.set_track_modified(on)
    }
    fn tracking(m: &MaskedStorage<Self>) -> bool {
        m.tracking_modified()
    }
    fn clear_mod(m: &mut MaskedStorage<Self>) {
        m.clear_modified()
    }
    fn mark(m: &MaskedStorage<Self>, i: u32) {
        m.mark_modified(i)
    }
    fn modified(m: &MaskedStorage<Self>) -> Option<&AtomicBitSet> {
        Some(m.modified_indexes())
    }
    fn guard_mark(g: &GuardedElement<Self>) {
        g.mark_modified()
    }
    fn mod_join(m: &MaskedStorage<Self>, f: &mut dyn FnMut(u32, Option<&S::Item>) -> bool) {
        for (i, x) in (m.modified_indexes(), m.modified()).join() {
            if !f(i, x) {
                return;
            }
        }
    }
    fn mod_join_mut(m: &mut MaskedStorage<Self>, f: &mut dyn FnMut(Option<&mut S::Item>) -> bool) {
        for x in m.modified_mut().join() {
            if !f(x) {
                return;
            }
        }
    }
    fn par_mod_mut<F>(m: &mut MaskedStorage<Self>, f: F)
    where
        F: Fn(Option<&mut S::Item>) + Sync + Send,
    {
        m.modified_mut().par_join().for_each(f)
    }
}

/// Calls a macro with the component type of a kind.
#[macro_export]
macro_rules! with_kind {
    ($k:expr, $C:ident => $e:expr) => {
        match $k {
            0 => { type $C = $crate::comp::Comp<0>; $e }
            1 => { type $C = $crate::comp::Comp<1>; $e }
            2 => { type $C = $crate::comp::Comp<2>; $e }
            3 => { type $C = $crate::comp::Comp<3>; $e }
            4 => { type $C = $crate::comp::Comp<4>; $e }
            5 => { type $C = $crate::comp::Comp<5>; $e }
            6 => { type $C = $crate::comp::Big<6>; $e }
            _ => { type $C = $crate::comp::Big<7>; $e }
        }
    };
}

/// Every value ever made is owned by the model's storage or was dropped exactly once.
pub fn check_ownership(live: &dyn Fn(u32) -> bool, what: &str) {
    let _s = Sys::new();
    let vs = vals();
    for id in 0..vs.dropped.len() {
        let l = live(id as u32);
        let d = vs.dropped[id];
        if l && d > 0 {
            viol("C09", "dropped-while-owned", format!("value {} was dropped but {} still holds it", id, what));
            return;
        }
        if !l && d == 0 {
            viol("C09", "leaked", format!("value {} is owned by nobody and was never dropped ({})", id, what));
            return;
        }
    }
}

pub fn bitset_of(it: impl Iterator<Item = u32>) -> BitSet {
    let mut b = BitSet::new();
    for i in it {
        b.add(i);
    }
    b
}
