//! S6: joins of many shapes over entities, storages, bit sets and modified sets whose contents come from a
//! history with faults, sequential or parallel, while other threads create entities, request deletions and
//! flag modifications.  Compared with a three-valued evaluation of the shape: an index must be there, may be
//! there (something about it changed during the join), or must not.
use crate::comp::*;
use crate::rt::{self, *};
use goggles::hibitset::{AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use goggles::masked::{GuardedElement, MaskedStorage};
use goggles::{Component, Entities, Entity, IntoJoin, IntoJoinExt, JoinIter, ParJoinExt, World};
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// which indices are in use
    pub uni: u32,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create(u32, bool),
    Kill(u32),
    Doom(u32),
    Merge,
    /// values at some of the indices (kind, which, how dense)
    Put(u32, u32, u32),
    Del(u32, u32),
    Bits(u32, u32, u32),
    Track(u32, bool),
    Clear(u32),
    /// an initialiser that panics
    BadInit(u32, u32),
    /// a replaced value whose destructor panics
    BadDrop(u32, u32),
    J(u32, u32, u32),
    /// mask of the storages that belong to the first thread
    Conc(u32, Vec<Vec<T>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    Create,
    Doom(u32),
    Atom(u32),
    Flag(u32, u32),
    J(u32, u32, u32),
}

/// the shapes that are joined; the others are only asked about
const NJOIN: u64 = 64;
const NS: usize = 5; // Comp<0> .. Comp<4>; the last two are tracked

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let mut ops = vec![];
    let uni = if r.chance(1, 40) { 6 + r.below(2) } else { r.below(6) } as u32;
    let crowd = (4..6).contains(&uni) && r.chance(1, if prop == "C21" || prop == "C22" { 12 } else { 3 });
    ops.push(Op::Create(if crowd { 4100 } else { r.below(40) as u32 }, r.chance(1, 3)));
    for k in 0..NS as u32 {
        if r.chance(5, 6) {
            ops.push(Op::Put(k, r.sel(), 1 + r.below(4) as u32));
        }
    }
    for b in 0..3 {
        ops.push(Op::Bits(b, r.sel(), 1 + r.below(4) as u32));
    }
    let j = |r: &mut Rng| {
        let m = match prop {
            "C11" => r.weighted(&[2, 1, 1, 1, 6, 4, 3, 3]),
            "C05" | "C19" => r.weighted(&[4, 4, 2, 1, 4, 3, 1, 1]),
            _ => r.weighted(&[5, 4, 3, 2, 1, 0, 0, 0]),
        };
        let s = if prop == "C22" && r.chance(3, 4) || r.chance(1, 20) { NJOIN + r.below(NSHAPES as u64 - NJOIN) } else { r.below(NJOIN) };
        let mut s = s;
        while prop == "C05" && !has_ents(&shape(s as u32)) {
            s = r.below(NJOIN);
        }
        (s as u32, if prop == "C22" { r.below(8) as u32 } else { m as u32 }, r.below(12) as u32)
    };
    for _ in 0..3 + r.below(if thorough { 24 } else { 14 }) {
        let k = r.below(NS as u64) as u32;
        ops.push(match r.weighted(&[4, 6, 6, 3, 6, 6, 5, 3, 2, 3, 3, 24, 24]) {
            0 => Op::Create(1 + r.below(4) as u32, r.chance(1, 2)),
            1 => Op::Kill(r.sel()),
            2 => Op::Doom(r.sel()),
            3 => Op::Merge,
            4 => Op::Put(k, r.sel(), 1 + r.below(6) as u32),
            5 => Op::Del(k, r.sel()),
            6 => Op::Bits(r.below(3) as u32, r.sel(), 1 + r.below(4) as u32),
            7 => Op::Track(3 + r.below(2) as u32, r.chance(2, 3)),
            8 => Op::Clear(3 + r.below(2) as u32),
            9 => Op::BadInit(k, r.sel()),
            10 => Op::BadDrop(k, r.sel()),
            11 => {
                let (s, m, n) = j(r);
                Op::J(s, m, n)
            }
            _ => {
                let nt = 2 + r.below(3);
                let own = if r.chance(1, 2) { r.below(32) as u32 } else { 0 };
                let ths = (0..nt)
                    .map(|_| {
                        (0..1 + r.below(if thorough { 8 } else { 5 }))
                            .map(|_| match r.weighted(&[3, 2, 3, 3, 8]) {
                                0 => T::Create,
                                1 => T::Doom(r.sel()),
                                2 => T::Atom(r.sel()),
                                3 => T::Flag(r.below(2) as u32, r.sel()),
                                _ => {
                                    let (s, m, n) = j(r);
                                    T::J(s, m, n)
                                }
                            })
                            .collect()
                    })
                    .collect();
                Op::Conc(own, ths)
            }
        });
    }
    Plan { uni, ops }
}

fn universe(u: u32) -> Vec<u32> {
    let mut v: Vec<u32> = match u % 8 {
        0 => (0..12).collect(),
        1 => (0..40).collect(),
        2 => (0..6).chain(60..70).chain(126..130).collect(),
        3 => (0..30).step_by(3).chain(62..66).chain([191, 192, 500]).collect(),
        4 => (0..5).chain(62..66).chain(4090..4100).collect(),
        6 => (0..600).collect(),
        7 => (0..200).map(|i| i * 331).collect(),
        _ => (0..4).chain(4094..4098).chain(262_142..262_146).chain([300_000]).collect(),
    };
    v.sort();
    v
}

// ------------------------------------------------------------------ shapes

/// What one item showed.
#[derive(Debug)]
enum Obs {
    Ent(Entity),
    Idx(u32),
    Val(u32, u32),
    Opt(Option<Box<Obs>>),
    Tup(Vec<Obs>),
}
/// The shape, for the model.
#[derive(Debug)]
enum P {
    Ents,
    Val(u32),
    Mask(u32),
    Bit(usize),
    Atom,
    All,
    Flags(u32),
    FlagVal(u32),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    Xor(Box<P>, Box<P>),
    Not(Box<P>),
    Maybe(Box<P>),
    Tup(Vec<P>),
}

type Sto<const K: u8> = MaskedStorage<<Comp<K> as Component>::Storage>;
struct Ctx<'a> {
    m: &'a MC,
    ents: &'a Entities<'a>,
    b: &'a [BitSet; 3],
    ab: &'a AtomicBitSet,
    s: (S1<'a, 0>, S1<'a, 1>, S1<'a, 2>, S1<'a, 3>, S1<'a, 4>),
}
/// Shared or exclusive access to one storage.
enum S1<'a, const K: u8>
where
    Comp<K>: CompT,
{
    R(&'a MaskedStorage<<Comp<K> as CompT>::St>),
    W(&'a mut MaskedStorage<<Comp<K> as CompT>::St>),
    None,
}
impl<const K: u8> S1<'_, K>
where
    Comp<K>: CompT,
{
    fn r(&self) -> Option<&MaskedStorage<<Comp<K> as CompT>::St>> {
        match self {
            S1::R(s) => Some(s),
            S1::W(s) => Some(s),
            S1::None => None,
        }
    }
    fn w(&mut self) -> Option<&mut MaskedStorage<<Comp<K> as CompT>::St>> {
        match self {
            S1::W(s) => Some(s),
            _ => None,
        }
    }
}

trait Observe {
    fn obs(self, m: &MC) -> Obs;
}
impl Observe for Entity {
    fn obs(self, _: &MC) -> Obs {
        Obs::Ent(self)
    }
}
impl Observe for u32 {
    fn obs(self, _: &MC) -> Obs {
        Obs::Idx(self)
    }
}
impl<const K: u8> Observe for &Comp<K> {
    fn obs(self, m: &MC) -> Obs {
        quiet(|| m.look(K as u32, &self.v));
        Obs::Val(K as u32, self.v.id)
    }
}
impl<const K: u8> Observe for &mut Comp<K> {
    fn obs(self, m: &MC) -> Obs {
        let (id, p) = (self.v.id, self.v.payload);
        let o = Obs::Val(K as u32, id);
        let Some(i) = quiet(|| m.look(K as u32, &self.v)) else { return o };
        {
            quiet(|| {
                let held = &mut m.g().held;
                if held.insert((K as u32, i), ()).is_some() {
                    bad("shared-item", format!("index {} of storage {} is handed out twice at a time", i, K));
                }
            });
            yield_now();
            if self.v.payload != p || self.v.id != id {
                bad("shared-item", format!("the item of index {} of storage {} changed under its holder", i, K));
            }
            let np = mix(p ^ 0x77);
            self.v.payload = np;
            quiet(|| {
                let g = m.g();
                g.held.remove(&(K as u32, i));
                let s = &mut g.s[K as usize];
                if let Some(h) = s.map.get_mut(&i) {
                    h.1 = np;
                }
                if s.tracking {
                    s.flag(i);
                }
            });
        }
        o
    }
}
impl<S> Observe for GuardedElement<'_, S>
where
    S: goggles::RawStorage,
    for<'x> &'x S::Item: Observe,
{
    fn obs(self, m: &MC) -> Obs {
        self.get().obs(m)
    }
}
impl<T: Observe> Observe for Option<T> {
    fn obs(self, m: &MC) -> Obs {
        let o = self.map(|x| x.obs(m));
        quiet(|| Obs::Opt(o.map(Box::new)))
    }
}
macro_rules! obs_tuple {
    ($($n:ident)*) => {
        impl<$($n: Observe),*> Observe for ($($n,)*) {
            #[allow(non_snake_case)]
            fn obs(self, m: &MC) -> Obs {
                let ($($n,)*) = self;
                let a = [$($n.obs(m)),*];
                quiet(|| Obs::Tup(a.into_iter().collect()))
            }
        }
    };
}
obs_tuple!(A);
obs_tuple!(A B);
obs_tuple!(A B C);
obs_tuple!(A B C D);
obs_tuple!(A B C D E);
obs_tuple!(A B C D E F);
obs_tuple!(A B C D E F G H);
obs_tuple!(A B C D E F G H I J K L);
obs_tuple!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z);

macro_rules! p {
    (e) => { P::Ents };
    (c0) => { P::Val(0) };
    (c1) => { P::Val(1) };
    (c2) => { P::Val(2) };
    (c3) => { P::Val(3) };
    (c4) => { P::Val(4) };
    (w0) => { P::Val(0) };
    (w1) => { P::Val(1) };
    (w2) => { P::Val(2) };
    (w3) => { P::Val(3) };
    (w4) => { P::Val(4) };
    (g1) => { P::Val(1) };
    (g3) => { P::Val(3) };
    (b0) => { P::Bit(0) };
    (b1) => { P::Bit(1) };
    (b2) => { P::Bit(2) };
    (k0) => { P::Mask(0) };
    (k1) => { P::Mask(1) };
    (ab) => { P::Atom };
    (all) => { P::All };
    (ra) => { P::All };
    (ob) => { P::Bit(0) };
    ((ref $a:tt)) => { p!($a) };
    (f3) => { P::Flags(3) };
    (f4) => { P::Flags(4) };
    (d3) => { P::FlagVal(3) };
    (d4) => { P::FlagVal(4) };
    (x4) => { P::FlagVal(4) };
    ((dyn $a:tt)) => { p!($a) };
    ((and $a:tt $b:tt)) => { P::And(Box::new(p!($a)), Box::new(p!($b))) };
    ((or $a:tt $b:tt)) => { P::Or(Box::new(p!($a)), Box::new(p!($b))) };
    ((xor $a:tt $b:tt)) => { P::Xor(Box::new(p!($a)), Box::new(p!($b))) };
    ((not $a:tt)) => { P::Not(Box::new(p!($a))) };
    ((maybe $a:tt)) => { P::Maybe(Box::new(p!($a))) };
    ([$($a:tt)*]) => { P::Tup(vec![$(p!($a)),*]) };
}
macro_rules! x {
    ($c:ident e) => { $c.ents };
    ($c:ident c0) => { $c.s.0.r()? };
    ($c:ident c1) => { $c.s.1.r()? };
    ($c:ident c2) => { $c.s.2.r()? };
    ($c:ident c3) => { $c.s.3.r()? };
    ($c:ident c4) => { $c.s.4.r()? };
    ($c:ident w0) => { $c.s.0.w()? };
    ($c:ident w1) => { $c.s.1.w()? };
    ($c:ident w2) => { $c.s.2.w()? };
    ($c:ident w3) => { $c.s.3.w()? };
    ($c:ident w4) => { $c.s.4.w()? };
    ($c:ident g1) => { $c.s.1.w()?.guard() };
    ($c:ident g3) => { $c.s.3.w()?.guard() };
    ($c:ident b0) => { &$c.b[0] };
    ($c:ident b1) => { &$c.b[1] };
    ($c:ident b2) => { &$c.b[2] };
    ($c:ident k0) => { $c.s.0.r()?.mask() };
    ($c:ident k1) => { $c.s.1.r()?.mask() };
    ($c:ident ab) => { $c.ab };
    ($c:ident all) => { BitSetAll };
    ($c:ident ra) => { &BitSetAll };
    ($c:ident ob) => { $c.b[0].clone() };
    ($c:ident (ref $a:tt)) => { &(x!($c $a)) };
    ($c:ident f3) => { $c.s.3.r()?.modified_indexes() };
    ($c:ident f4) => { $c.s.4.r()?.modified_indexes() };
    ($c:ident d3) => { $c.s.3.r()?.modified() };
    ($c:ident d4) => { $c.s.4.r()?.modified() };
    ($c:ident x4) => { $c.s.4.w()?.modified_mut() };
    ($c:ident (dyn $a:tt)) => { (x!($c $a)) as &dyn BitSetLike };
    ($c:ident (and $a:tt $b:tt)) => { BitSetAnd(x!($c $a), x!($c $b)) };
    ($c:ident (or $a:tt $b:tt)) => { BitSetOr(x!($c $a), x!($c $b)) };
    ($c:ident (xor $a:tt $b:tt)) => { BitSetXor(x!($c $a), x!($c $b)) };
    ($c:ident (not $a:tt)) => { BitSetNot(x!($c $a)) };
    ($c:ident (maybe $a:tt)) => { x!($c $a).maybe() };
    ($c:ident [$($a:tt)*]) => { ($(x!($c $a),)*) };
}
/// Feeds what the join yields to a collector; `None` if this thread lacks the access.
macro_rules! shapes {
    ($($n:literal $how:ident $a:tt;)*) => {
        const NSHAPES: u32 = [$($n),*].len() as u32;
        fn shape(n: u32) -> P {
            match n {
                $($n => p!($a),)*
                _ => P::Tup(vec![]),
            }
        }
        fn run_shape(n: u32, c: &mut Ctx, mode: u32, lim: usize, out: &Out) -> Option<()> {
            match n {
                $($n => shapes!(@ $how ; c $a, mode, lim, out),)*
                _ => return None,
            }
            Some(())
        }
    };
    // joins that the checked entry points take
    (@ std ; $c:ident $a:tt, $mode:ident, $lim:ident, $out:ident) => {
        match $mode {
            0..=3 => seq(x!($c $a).join(), $c.m, $mode, $lim, $out),
            _ => par(x!($c $a).par_join(), $c.m, $mode, $lim, $out),
        }
    };
    (@ free ; $c:ident $a:tt, $mode:ident, $lim:ident, $out:ident) => {
        match $mode {
            0..=3 => seq(x!($c $a).join_unconstrained(), $c.m, $mode, $lim, $out),
            _ => par(x!($c $a).par_join_unconstrained(), $c.m, $mode, $lim, $out),
        }
    };
    (@ once ; $c:ident $a:tt, $mode:ident, $lim:ident, $out:ident) => {
        seq(x!($c $a).join_unconstrained(), $c.m, $mode.min(3), $lim, $out)
    };
    // whatever the parts hold, is it known to be limited to a finite set?
    (@ ask ; $c:ident $a:tt, $mode:ident, $lim:ident, $out:ident) => {
        $out.said(match $mode {
            0..=1 => Ok(JoinIter::new((x!($c $a)).into_join()).is_ok()),
            2..=3 => match attempt(|| { drop((x!($c $a)).join()); Some(()) }) {
                Ok(x) => { x?; Ok(true) }
                Err(e) => Err(e),
            },
            4..=5 => Ok(goggles::par_join::JoinParIter::new((x!($c $a)).into_join()).is_ok()),
            6 => Ok(goggles::JoinParIter::new((x!($c $a)).into_join()).is_ok()),
            _ => match attempt(|| { drop((x!($c $a)).par_join()); Some(()) }) {
                Ok(x) => { x?; Ok(true) }
                Err(e) => Err(e),
            },
        })
    };
    // a join without an end
    (@ endless ; $c:ident $a:tt, $mode:ident, $lim:ident, $out:ident) => {
        seq(x!($c $a).join_unconstrained(), $c.m, 2, $lim + 3, $out)
    };
}
shapes! {
    0 std [e c0];
    1 std [c0 c1];
    2 std [e c0 c1 c2];
    3 std [e (maybe c0)];
    4 std [(maybe c0) c1];
    5 std [e (maybe c0) (maybe c1) c2];
    6 std [b0 c0];
    7 std (and b0 b1);
    8 std [(or b0 b1) (maybe c0)];
    9 std (xor b0 b1);
    10 std [c0 (not b0)];
    11 std [(not (and b0 b1)) c2];
    12 std [b0 (not b1) (not b2)];
    13 std (and b0 (not b1));
    14 std [[c0 c1] c2];
    15 std [(maybe [c0 c1]) e];
    16 std w0;
    17 std [e w0 c1];
    18 std [e w0 w1 (maybe w2)];
    19 std [b0 g1];
    20 std [e g3 (maybe w0)];
    21 std [f3 d3];
    22 std [f3 (maybe c3)];
    23 std [e (maybe d3)];
    24 std ab;
    25 std [ab c0];
    26 std [c0 (not ab)];
    27 std (or b0 ab);
    28 std [e (maybe (maybe c0))];
    29 std [c1];
    30 std [e c0 b0 (maybe c1) (maybe e) (maybe [c0 c2]) (or b1 b2) (not (and b0 (and b1 b2)))];
    31 std [e (maybe c0) (maybe c1) (maybe c2) (maybe c3) (maybe c4) (maybe b0) (maybe b1) (maybe b2) (maybe ab) (maybe f3) (maybe d4)];
    32 std [(maybe c0) (maybe c0) (maybe c0) (maybe c0) (maybe c0) (maybe c0) (maybe c0) (maybe c1) (maybe c1) (maybe c1) (maybe c1)
        (maybe c1) (maybe c1) (maybe b0) (maybe b0) (maybe b0) (maybe b0) (maybe b1) (maybe b1) (maybe b2) (maybe b2) (maybe ab)
        (maybe e) c0 (or k0 b0) e];
    33 once [(dyn b0) c0];
    34 endless (maybe c0);
    35 endless [(maybe c1) (not b0)];
    36 std (xor b0 (and b1 b2));
    37 std (and (or b0 b1) (not (xor b1 b2)));
    38 free [b1 (not (not b0))];
    39 free [c0 (xor (not b0) (not b1))];
    40 std [e w3 (maybe w4)];
    41 std [(maybe w1) (maybe c2) e];
    42 std [b1 (maybe x4)];
    43 std [d4 f4];
    44 std (or (and b0 ab) (and b1 f3));
    45 std [[e c4] (maybe e)];
    46 std (and k0 (not k1));
    47 std [b0 (or k1 (xor k0 b2)) (maybe g3)];
    48 std [ob (ref (not b1))];
    49 std [(ref (or b0 b1)) c0];
    50 std (ref (and ab b1));
    51 std [all c0];
    52 std [ra b0 (maybe c1)];
    53 std (and all b2);
    54 std [c0 all (not (not b1))];
    55 std [(ref (not (and b0 b1))) (ref (not ab)) e];
    56 std [(maybe (not b0)) c0];
    57 std [(maybe all) e (maybe [c0 (not b1)])];
    58 std [(maybe (xor b0 b1)) b2];
    59 std e;
    60 std [e];
    61 std (ref (or k0 ab));
    62 std [e (not b0)];
    63 std [[e] [[c0]] (maybe [[c1] b0])];
    64 ask (xor all (not b0));
    65 ask [(maybe c0)];
    66 ask [(maybe c0) (not b0)];
    67 ask all;
    68 ask [all (maybe e)];
    69 ask (maybe c0);
    70 ask [(maybe w0) (maybe w1)];
    71 ask (or b0 all);
    72 ask (not (xor all all));
    73 ask (not (xor b0 b1));
    74 ask (xor b0 all);
    75 ask (not (xor b0 all));
    76 ask (and all (not b0));
    77 ask (not (and b0 all));
    78 ask (not (or b0 all));
    79 ask (not (or all all));
    80 ask [(maybe f3) (maybe d3)];
    81 ask [(maybe b0) (maybe ab) (or all b1)];
    82 ask (or (not all) b0);
    83 ask [[(maybe c0) (maybe c1)] (maybe e)];
    84 ask [[(maybe c0) c1] (maybe e)];
    85 ask (maybe (maybe b0));
    86 ask [(maybe [c0 c1])];
    87 ask (or b0 (not ab));
    88 ask (not (and (and k0 b0) (or b0 b1)));
    89 ask (or f3 b1);
    90 ask (not (not (and all b0)));
    91 ask (or (not (ref (and b1 all))) (not (not b0)));
    92 ask (not (xor (not k0) (or all b1)));
    93 ask (xor (xor (and b1 ob) (xor ab ra)) (ref (and (not k0) (xor ra ra))));
    94 ask (xor (ref (and b0 all)) (ref (or all f3)));
    95 ask (not (not ra));
    96 ask (or (not (not (ref (or all ab)))) ab);
    97 ask (and (not all) f3);
    98 ask (xor (ref (not (ref (not b0)))) (ref (not (not f3))));
    99 ask (and (and ab (xor b0 b1)) (not (ref (or k0 k0))));
    100 ask (xor b1 (ref (or (ref (and (or ob k0) ob)) (not (ref (and all ob))))));
    101 ask (xor (not (not k0)) (not (or all f3)));
    102 ask (and (not (ref (not k0))) (ref (or (xor b1 all) ra)));
    103 ask (not (not (not k0)));
    104 ask (and (ref (and ra ab)) (ref (or b1 f3)));
    105 ask (and (or (and ra (or ra k0)) ob) b0);
    106 ask (or (or all b0) (xor ob all));
    107 ask (not (and (xor ra ob) (not ab)));
    108 ask (and (or (or ab ab) (ref (and ob b0))) (not (not b1)));
    109 ask (xor b1 (not b0));
    110 ask (not (not ob));
    111 ask (not (not (or ob all)));
    112 ask (or (not (and all f3)) all);
    113 ask (or (ref (not k0)) ab);
    114 ask (or (and (and (not ra) (not k0)) (xor (and b1 all) (and b1 all))) (or (or (ref (or f3 ab)) (not ra)) (and (ref (and f3 b1)) (and b1 all))));
    115 ask (or b1 (xor ob f3));
    116 ask (and (or (or all b0) all) (not (xor ra ob)));
    117 ask (and (and ob (or ob ra)) (not f3));
    118 ask (not (xor (or (ref (not ab)) (xor b0 ab)) all));
    119 ask (ref (or (ref (or ab ra)) k0));
    120 ask (not (and (xor all k0) k0));
    121 ask (and b1 b0);
    122 ask (ref (not (xor (not ab) (not ab))));
    123 ask (ref (not (ref (not ob))));
    124 ask (not (and (not all) b0));
    125 ask (and (not (ref (and ob all))) (and (and ob ob) ob));
    126 ask (not (and all all));
    127 ask (ref (or (not all) (not (or b1 ab))));
    128 ask (ref (not (not ra)));
    129 ask (ref (and (ref (or all ob)) (not ra)));
    130 ask (not (not all));
    131 ask (xor (or (ref (not all)) (ref (or all ra))) (not (or b0 ra)));
    132 ask (ref (and (not (xor k0 (and all b0))) (xor (and (not b1) (not all)) (xor all (or all all)))));
    133 ask (or (not (ref (or (not ob) (and b0 f3)))) (or (xor (not ab) f3) (xor (ref (not all)) (or all ra))));
    134 ask (not (not k0));
    135 ask (and (xor (not all) (ref (or f3 f3))) (or (xor b0 ra) (xor ab ob)));
    136 ask (not (xor (and f3 (not ra)) f3));
    137 ask (or (or ob (and (ref (not ra)) b0)) ab);
    138 ask (and (xor (ref (or ob f3)) (and b1 b1)) (not all));
    139 ask (and all (xor (ref (and ra ob)) (or b0 f3)));
    140 ask (ref (or all (xor (and (ref (or k0 f3)) all) (not ra))));
    141 ask (or (or (xor b1 ra) (or ra f3)) (and (or f3 b0) (not ab)));
    142 ask (ref (or (and (xor all ab) (not ra)) f3));
    143 ask (xor (and ob all) (xor f3 b1));
    144 ask (or (not all) (ref (or b0 f3)));
    145 ask (xor (not k0) (xor b1 all));
    146 ask (or (or all (or (xor k0 ra) (not b1))) (not (or (ref (and ra ob)) (or f3 b1))));
    147 ask (and (not ra) (not ab));
    148 ask (ref (and (xor (not all) (ref (or all ra))) (or (xor all k0) all)));
    149 ask (or (and (and b1 b0) (or ra k0)) all);
    150 ask (xor (or (xor b0 b1) (ref (not k0))) (xor (and all all) all));
    151 ask (not (or all b1));
    152 ask (or (and (not (not all)) (not (xor k0 f3))) (xor (not (or b0 f3)) (not b1)));
    153 ask (xor (or b0 (ref (or k0 (or ab k0)))) (not b1));
    154 ask (or (and ra k0) f3);
}

// ------------------------------------------------------------------ model

#[derive(Default)]
struct Sm {
    map: BTreeMap<u32, (u32, u64)>,
    tracking: bool,
    /// flagged for certain / possibly
    done: BTreeSet<u32>,
    begun: BTreeSet<u32>,
}
impl Sm {
    fn flag(&mut self, i: u32) {
        self.done.insert(i);
        self.begun.insert(i);
    }
}
#[derive(Default)]
struct M {
    s: [Sm; NS],
    by_id: HashMap<u32, (u32, u32)>,
    bits: [BTreeSet<u32>; 3],
    atom_done: BTreeSet<u32>,
    atom_begun: BTreeSet<u32>,
    alive: BTreeMap<u32, Entity>,
    doomed: Vec<Entity>,
    /// creations begun and returned
    begun: u32,
    made: u32,
    hi: u32,
    phantoms: Vec<Entity>,
    held: HashMap<(u32, u32), ()>,
    uni: Vec<u32>,
    ctr: u64,
}
struct MC(UnsafeCell<M>);
unsafe impl Sync for MC {}
impl MC {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut M {
        unsafe { &mut *self.0.get() }
    }
    /// A value somebody is shown: it has to be a stored one, as it was left.
    fn look(&self, k: u32, v: &Val) -> Option<u32> {
        if !v.ok() {
            bad("garbage", format!("a join hands out something of storage {} that is not a value", k));
            return None;
        }
        match self.g().by_id.get(&v.id) {
            Some((kk, i)) if *kk == k => {
                if self.g().s[k as usize].map.get(i) != Some(&(v.id, v.payload)) {
                    bad("wrong-value", format!("a join hands out value {} of storage {} with payload {:#x}", v.id, k, v.payload));
                }
                Some(*i)
            }
            _ => {
                bad("ghost", format!("a join hands out value {} of storage {}, which is not stored", v.id, k));
                None
            }
        }
    }
}
fn bad(class: &str, msg: String) {
    let _q = Quiet::new();
    viol("C21", class, msg.clone());
    if class == "phantom" {
        viol("C05", class, msg.clone());
    }
    viol("C11", class, msg);
}

struct Snap {
    alive: BTreeMap<u32, Entity>,
    atom: BTreeSet<u32>,
    flags: [BTreeSet<u32>; NS],
}
impl Snap {
    fn of(m: &M) -> Snap {
        Snap {
            alive: m.alive.clone(),
            atom: m.atom_done.clone(),
            flags: [0, 1, 2, 3, 4].map(|k| m.s[k].done.clone()),
        }
    }
}
/// Must / may index `i` be in this part.
fn has(p: &P, i: u32, s: &Snap, m: &M) -> (bool, bool) {
    let both = |b: bool| (b, b);
    match p {
        P::Ents => (
            s.alive.contains_key(&i),
            m.alive.contains_key(&i) || (m.begun > m.made && i < m.hi + m.begun),
        ),
        P::Val(k) | P::Mask(k) => both(m.s[*k as usize].map.contains_key(&i)),
        P::Bit(b) => both(m.bits[*b].contains(&i)),
        P::All => (true, true),
        P::Atom => (s.atom.contains(&i), m.atom_begun.contains(&i)),
        P::Flags(k) | P::FlagVal(k) => (s.flags[*k as usize].contains(&i), m.s[*k as usize].begun.contains(&i)),
        P::And(a, b) => {
            let (a, b) = (has(a, i, s, m), has(b, i, s, m));
            (a.0 && b.0, a.1 && b.1)
        }
        P::Or(a, b) => {
            let (a, b) = (has(a, i, s, m), has(b, i, s, m));
            (a.0 || b.0, a.1 || b.1)
        }
        P::Xor(a, b) => {
            let (a, b) = (has(a, i, s, m), has(b, i, s, m));
            if a.0 == a.1 && b.0 == b.1 {
                both(a.0 != b.0)
            } else {
                (false, true)
            }
        }
        P::Not(a) => {
            let a = has(a, i, s, m);
            (!a.1, !a.0)
        }
        P::Maybe(_) => (true, true),
        P::Tup(v) => v.iter().fold((true, true), |x, a| {
            let a = has(a, i, s, m);
            (x.0 && a.0, x.1 && a.1)
        }),
    }
}
/// Is it a finite set whatever the stored sets hold?  (Otherwise it is one with a finite complement.)
fn finite(p: &P) -> bool {
    match p {
        P::All | P::Maybe(_) => false,
        P::Not(a) => !finite(a),
        P::And(a, b) => finite(a) || finite(b),
        P::Or(a, b) => finite(a) && finite(b),
        P::Xor(a, b) => finite(a) == finite(b),
        P::Tup(v) => v.iter().any(finite),
        _ => true,
    }
}
fn has_ents(p: &P) -> bool {
    match p {
        P::Ents => true,
        P::Tup(v) => v.iter().any(has_ents),
        _ => false,
    }
}
fn index_of(o: &Obs, m: &M) -> Option<u32> {
    match o {
        Obs::Ent(e) => Some(e.index()),
        Obs::Idx(i) => Some(*i),
        Obs::Val(k, id) => m.by_id.get(id).filter(|x| x.0 == *k).map(|x| x.1),
        Obs::Opt(o) => o.as_ref().and_then(|o| index_of(o, m)),
        Obs::Tup(v) => v.iter().find_map(|o| index_of(o, m)),
    }
}
/// Is this what the part has for that index?
fn item(p: &P, o: &Obs, i: u32, s: &Snap, m: &mut M) -> Result<(), String> {
    match (p, o) {
        (P::Ents, Obs::Ent(e)) => {
            if e.index() != i {
                return Err(format!("the entity {:?}", e));
            }
            match m.alive.get(&i) {
                Some(a) if a == e => Ok(()),
                Some(a) => Err(format!("the entity {:?} while {:?} lives there", e, a)),
                None => {
                    m.phantoms.push(*e);
                    Ok(())
                }
            }
        }
        (P::Val(k), Obs::Val(kk, id)) => match m.s[*k as usize].map.get(&i) {
            Some(h) if h.0 == *id && k == kk => Ok(()),
            h => Err(format!("value {} of storage {}, expected {:?}", id, kk, h)),
        },
        (P::FlagVal(k), Obs::Opt(o)) => match (m.s[*k as usize].map.get(&i), o.as_deref()) {
            (Some(h), Some(Obs::Val(_, id))) if h.0 == *id => Ok(()),
            (None, None) => Ok(()),
            (h, o) => Err(format!("{:?} of modified storage {}, expected {:?}", o, k, h)),
        },
        (P::Maybe(p), Obs::Opt(o)) => {
            let (must, may) = has(p, i, s, m);
            match o {
                Some(_) if !may => Err(format!("an optional part {:?} that is not there", p)),
                None if must => Err(format!("no optional part {:?} although it is there", p)),
                Some(o) => item(p, o, i, s, m),
                None => Ok(()),
            }
        }
        (P::Tup(ps), Obs::Tup(os)) if ps.len() == os.len() => {
            for (p, o) in ps.iter().zip(os) {
                item(p, o, i, s, m)?;
            }
            Ok(())
        }
        (_, Obs::Idx(x)) if *x == i => Ok(()),
        (_, o) => Err(format!("{:?}", o)),
    }
}

// ------------------------------------------------------------------ running one join

struct Out(UnsafeCell<Vec<Obs>>, UnsafeCell<Option<Result<bool, Caught>>>);
unsafe impl Sync for Out {}
impl Out {
    fn said(&self, a: Result<bool, Caught>) {
        unsafe { *self.1.get() = Some(a) }
    }
    fn push(&self, o: Obs) -> usize {
        let _q = Quiet::new();
        let v = unsafe { &mut *self.0.get() };
        v.push(o);
        v.len()
    }
}

fn seq<I: Iterator>(it: I, m: &MC, mode: u32, lim: usize, out: &Out)
where
    I::Item: Observe,
{
    for x in it {
        let n = out.push(x.obs(m));
        match mode {
            1 => yield_now(),
            2 if n >= lim => return,
            3 if n > lim => {
                rt::hit("fault:body_panic");
                inject(7)
            }
            _ => {}
        }
    }
}
fn par<I: ParallelIterator>(it: I, m: &MC, mode: u32, lim: usize, out: &Out)
where
    I::Item: Observe,
{
    match mode {
        4 => {
            let v: Vec<Obs> = it.map(|x| x.obs(m)).collect();
            for o in v {
                out.push(o);
            }
        }
        5 => it.for_each(|x| {
            out.push(x.obs(m));
        }),
        6 => {
            let _ = it.try_for_each(|x| if out.push(x.obs(m)) > lim { None } else { Some(()) });
        }
        _ => it.for_each(|x| {
            if out.push(x.obs(m)) == lim + 1 {
                rt::hit("fault:body_panic");
                inject(7)
            }
        }),
    }
}

fn join_op(c: &mut Ctx, n: u32, mode: u32, lim: u32) {
    let (n, mode) = (n % NSHAPES, mode % 8);
    let m = c.m;
    let mode = if n == 34 || n == 35 || n == 33 && mode > 3 { 2 } else { mode };
    let lim = if n == 34 || n == 35 { lim + 3 } else { lim } as usize;
    let snap = quiet(|| Snap::of(m.g()));
    let out = quiet(|| Out(UnsafeCell::new(vec![]), UnsafeCell::new(None)));
    let mut did = None;
    let r = attempt(|| did = run_shape(n, c, mode, lim, &out));
    let _q = Quiet::new();
    let prop = if mode > 3 { "C11" } else { "C21" };
    if let Some(a) = out.1.into_inner() {
        // limited to a finite set, or not?
        rt::hit("join:ask");
        let want = finite(&shape(n));
        match a {
            Ok(x) if x == want => {}
            Err(_) if !want => rt::hit("join:refused"),
            Ok(true) => viol!("C22", "accepted", "the join of shape {} {:?} is accepted although nothing limits it", n, shape(n)),
            _ => viol!("C22", "refused", "the join of shape {} {:?} is refused although it is limited", n, shape(n)),
        }
        return;
    }
    let got = out.0.into_inner();
    let g = m.g();
    let mut whole = match r {
        Ok(()) if did.is_none() => return, // no access
        Ok(()) => !matches!(mode, 2 | 6),
        Err(Caught::Injected(7)) if (mode == 3 || mode == 7) && got.len() > lim => false,
        Err(_) => {
            viol!(prop, "unexpected-panic", "joining shape {} panicked: {}", n, COLL.get().last_panic);
            return;
        }
    };
    if matches!(mode, 3 | 7) && whole && got.len() > lim {
        viol!(prop, "panic-lost", "the body of a join of shape {} panicked but the join returned", n);
    }
    rt::hit(if mode > 3 { "join:par" } else { "join:seq" });
    if mode == 2 && got.len() <= lim && n != 34 && n != 35 {
        // it may have ended by itself; only known if it did not reach the limit
        whole = got.len() < lim.max(1);
    }
    if !got.is_empty() {
        rt::hit("join:nonempty");
    }
    let p = shape(n);
    let entities = has_ents(&p);
    let say = |class: &str, msg: String| {
        if entities {
            viol("C05", class, msg.clone());
        }
        viol(prop, class, msg);
    };
    let mut idx: Vec<u32> = vec![];
    for (j, o) in got.iter().enumerate() {
        let Some(i) = (if n == 34 { Some(j as u32) } else { index_of(o, g) }) else {
            say("no-index", format!("a join of shape {} yields {:?}", n, o));
            return;
        };
        idx.push(i);
        if !has(&p, i, &snap, g).1 {
            say("extra-index", format!("a join of shape {} {:?} yields index {}, which does not match", n, p, i));
            return;
        }
        if let Err(e) = item(&p, o, i, &snap, g) {
            say("wrong-item", format!("a join of shape {} {:?} yields for index {}: {}", n, p, i, e));
            return;
        }
    }
    if mode <= 4 {
        if let Some(w) = idx.windows(2).find(|w| w[0] >= w[1]) {
            say("order", format!("a join of shape {} {:?} yields index {} and then {}", n, p, w[0], w[1]));
            return;
        }
    }
    let last = idx.last().copied();
    idx.sort();
    if let Some(w) = idx.windows(2).find(|w| w[0] == w[1]) {
        say("twice", format!("a join of shape {} {:?} yields index {} twice", n, p, w[0]));
        return;
    }
    if !whole && mode > 3 {
        return;
    }
    let cand = g.uni.iter().copied().chain(g.alive.keys().copied());
    for i in cand {
        if has(&p, i, &snap, g).0 && (whole || last.map_or(false, |l| i < l)) && idx.binary_search(&i).is_err() {
            say("missing", format!("a join of shape {} {:?} misses index {}", n, p, i));
            return;
        }
    }
}

// ------------------------------------------------------------------ execution

macro_rules! st {
    ($w:expr, $k:expr, $s:ident => $e:expr) => {
        match $k {
            0 => { let $s = &mut $w.0; $e }
            1 => { let $s = &mut $w.1; $e }
            2 => { let $s = &mut $w.2; $e }
            3 => { let $s = &mut $w.3; $e }
            _ => { let $s = &mut $w.4; $e }
        }
    };
}

fn thread(c: &mut Ctx, ops: &[T]) {
    let m = c.m;
    for op in ops {
        match op {
            T::Create => {
                quiet(|| m.g().begun += 1);
                let e = c.ents.create();
                quiet(|| {
                    let g = m.g();
                    g.made += 1;
                    g.alive.insert(e.index(), e);
                });
            }
            T::Doom(s) => {
                let Some(e) = quiet(|| m.g().alive.values().nth(*s as usize % m.g().alive.len().max(1)).copied()) else { continue };
                if c.ents.delete(e).is_ok() {
                    quiet(|| m.g().doomed.push(e));
                }
            }
            T::Atom(s) => {
                let i = quiet(|| {
                    let g = m.g();
                    let i = g.uni[*s as usize % g.uni.len()];
                    g.atom_begun.insert(i);
                    i
                });
                c.ab.add_atomic(i);
                quiet(|| m.g().atom_done.insert(i));
            }
            T::Flag(k, s) => {
                let k = 3 + *k % 2;
                let i = quiet(|| {
                    let g = m.g();
                    g.uni[*s as usize % g.uni.len()]
                });
                let begin = || quiet(|| m.g().s[k as usize].begun.insert(i));
                match k {
                    3 => {
                        let Some(s) = c.s.3.r() else { continue };
                        begin();
                        s.mark_modified(i)
                    }
                    _ => {
                        let Some(s) = c.s.4.r() else { continue };
                        begin();
                        s.mark_modified(i)
                    }
                }
                quiet(|| m.g().s[k as usize].done.insert(i));
            }
            T::J(n, mode, lim) => join_op(c, *n, *mode, *lim),
        }
    }
}

pub fn exec(p: &Plan) {
    let mut w = World::new();
    let mut s: (Sto<0>, Sto<1>, Sto<2>, Sto<3>, Sto<4>) = Default::default();
    let mut b: [BitSet; 3] = Default::default();
    let mut ab = AtomicBitSet::new();
    let mc = quiet(|| MC(UnsafeCell::new(M::default())));
    let m = mc.g();
    m.uni = universe(p.uni);
    for op in &p.ops {
        match op {
            Op::Create(n, atomic) => {
                for _ in 0..(*n).min(4200) {
                    let e = if *atomic { w.entities().create() } else { w.create_entity() };
                    m.alive.insert(e.index(), e);
                }
            }
            Op::Kill(sel) => {
                let Some(e) = m.alive.values().nth(*sel as usize % m.alive.len().max(1)).copied() else { continue };
                let _ = w.delete_entity(e);
                m.alive.remove(&e.index());
            }
            Op::Doom(sel) => {
                let Some(e) = m.alive.values().nth(*sel as usize % m.alive.len().max(1)).copied() else { continue };
                if w.entities().delete(e).is_ok() {
                    m.doomed.push(e);
                }
            }
            Op::Merge => {
                w.merge();
                for e in std::mem::take(&mut m.doomed) {
                    if m.alive.get(&e.index()) == Some(&e) {
                        m.alive.remove(&e.index());
                    }
                }
            }
            Op::Put(k, which, dense) => {
                let k = (*k as usize).min(NS - 1);
                for i in m.uni.clone() {
                    if mix((*which as u64) << 20 ^ i as u64) % (*dense).max(1) as u64 == 0 {
                        put(&mut s, m, k as u32, i);
                    }
                }
            }
            Op::Del(k, which) => {
                let k = (*k as usize).min(NS - 1);
                for i in m.uni.clone() {
                    if mix((*which as u64) << 20 ^ i as u64) % 3 == 0 {
                        let old = st!(s, k, s => s.remove(i).map(|c| c.v.id));
                        let want = m.s[k].map.remove(&i).map(|h| h.0);
                        if old != want {
                            viol!("C08", "remove", "remove({}) gave back {:?}, expected {:?}", i, old, want);
                        }
                        if let Some(id) = want {
                            m.by_id.remove(&id);
                            if m.s[k].tracking {
                                m.s[k].flag(i);
                            }
                        }
                    }
                }
            }
            Op::Bits(n, which, dense) => {
                let n = *n as usize % 3;
                b[n].clear();
                m.bits[n].clear();
                for i in m.uni.iter().copied() {
                    if mix((*which as u64) << 20 ^ i as u64) % (*dense).max(1) as u64 == 0 {
                        b[n].add(i);
                        m.bits[n].insert(i);
                    }
                }
                if which % 4 == 0 {
                    ab.clear();
                    m.atom_begun.clear();
                    m.atom_done.clear();
                }
            }
            Op::Track(k, on) => {
                m.s[if *k == 3 { 3 } else { 4 }].tracking = *on;
                if *k == 3 {
                    s.3.set_track_modified(*on)
                } else {
                    s.4.set_track_modified(*on)
                }
            }
            Op::Clear(k) => {
                let k = if *k == 3 { 3 } else { 4 };
                m.s[k].done.clear();
                m.s[k].begun.clear();
                if k == 3 {
                    s.3.clear_modified()
                } else {
                    s.4.clear_modified()
                }
            }
            Op::BadInit(k, sel) => {
                let k = (*k as usize).min(NS - 1);
                let i = m.uni[*sel as usize % m.uni.len()];
                rt::hit("fault:init_panic");
                let r = attempt(|| {
                    st!(s, k, s => {
                        s.get_or_insert_with(i, || inject(3));
                    })
                });
                if r.is_ok() && m.s[k].tracking {
                    m.s[k].flag(i);
                }
            }
            Op::BadDrop(k, sel) => {
                // the storage goes, one of its destructors panics, a new one takes its place
                let k = (*k as usize).min(NS - 1);
                if let Some(h) = m.s[k].map.values().nth(*sel as usize % m.s[k].map.len().max(1)) {
                    vals().bombs.push(h.0);
                }
                let _ = attempt(|| st!(s, k, s => drop(std::mem::take(s))));
                for h in std::mem::take(&mut m.s[k]).map.values() {
                    m.by_id.remove(&h.0);
                }
                disarm_all();
            }
            Op::J(n, mode, lim) => {
                let ents = w.entities();
                let mut c = Ctx {
                    m: &mc,
                    ents: &ents,
                    b: &b,
                    ab: &ab,
                    s: (S1::W(&mut s.0), S1::W(&mut s.1), S1::W(&mut s.2), S1::W(&mut s.3), S1::W(&mut s.4)),
                };
                join_op(&mut c, *n, *mode, *lim);
            }
            Op::Conc(own, ths) => {
                let ents = w.entities();
                m.hi = ents.max_entity_count();
                m.begun = 0;
                m.made = 0;
                let nt = ths.len().min(6);
                if nt == 0 {
                    continue;
                }
                // a storage is shared by all threads, or the first one has it to itself
                let mut cs: Vec<Ctx> = quiet(|| {
                    let mut cs: Vec<Ctx> = (0..nt)
                        .map(|_| Ctx {
                            m: &mc,
                            ents: &ents,
                            b: &b,
                            ab: &ab,
                            s: (S1::None, S1::None, S1::None, S1::None, S1::None),
                        })
                        .collect();
                    macro_rules! deal {
                        ($n:tt) => {
                            if own >> $n & 1 == 1 {
                                cs[0].s.$n = S1::W(&mut s.$n);
                            } else {
                                for c in cs.iter_mut() {
                                    c.s.$n = S1::R(&s.$n);
                                }
                            }
                        };
                    }
                    deal!(0);
                    deal!(1);
                    deal!(2);
                    deal!(3);
                    deal!(4);
                    cs
                });
                let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                    cs.iter_mut()
                        .zip(ths)
                        .map(|(c, ops)| Box::new(move || thread(c, ops)) as Box<dyn FnOnce() + '_>)
                        .collect()
                });
                threads(v);
                quiet(|| drop(cs));
                for e in std::mem::take(&mut m.phantoms) {
                    if m.alive.get(&e.index()) != Some(&e) {
                        bad("phantom", format!("a join yielded the entity {:?}, which nobody ever created", e));
                    }
                }
            }
        }
        if !COLL.get().viols.is_empty() {
            break;
        }
    }
    drop(s);
    drop(w);
    quiet(|| std::mem::forget(mc));
}

fn put(s: &mut (Sto<0>, Sto<1>, Sto<2>, Sto<3>, Sto<4>), m: &mut M, k: u32, i: u32) {
    m.ctr += 1;
    let v = Val::new(mix(m.ctr));
    let (id, p) = (v.id, v.payload);
    let old = match k {
        0 => s.0.insert(i, Comp { v }).map(|c| c.v.id),
        1 => s.1.insert(i, Comp { v }).map(|c| c.v.id),
        2 => s.2.insert(i, Comp { v }).map(|c| c.v.id),
        3 => s.3.insert(i, Comp { v }).map(|c| c.v.id),
        _ => s.4.insert(i, Comp { v }).map(|c| c.v.id),
    };
    let want = m.s[k as usize].map.insert(i, (id, p)).map(|h| h.0);
    if old != want {
        viol!("C08", "insert", "insert({}) gave back {:?}, expected {:?}", i, old, want);
    }
    if let Some(o) = old {
        m.by_id.remove(&o);
    }
    m.by_id.insert(id, (k, i));
    if m.s[k as usize].tracking {
        m.s[k as usize].flag(i);
    }
}
