//! S8: access sets built by histories of operations in which the caller's iterators, mapping functions and
//! clones may panic, questioned by several threads, under hash orders drawn from the run's random stream.
use crate::rt::{self, *};
use goggles::{Resources, RwResources};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// how many resources there are; whether their hashes collide
    pub n: u32,
    pub collide: bool,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// set, resource, write, by value
    Add(u32, u32, bool, bool),
    /// set, resources, write, the iterator panics after so many
    Many(u32, Vec<u32>, bool, Option<u32>),
    From(u32, Vec<u32>, Vec<u32>, Option<u32>),
    /// into, of, a clone panics
    Union(u32, u32, Option<u32>),
    /// into, of, onto so many, panics
    Map(u32, u32, u32, Option<u32>),
    Copy(u32, u32, Option<u32>),
    /// the sets as they are shown by their own iterators, built anew
    Again(u32),
    Conc(Vec<Vec<Q>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Q {
    Conflict(u32, u32),
    Show(u32),
    Sum(u32, u32),
    Map(u32, u32),
}
const N: usize = 5;

pub fn gen(r: &mut Rng, _prop: &str, thorough: bool) -> Plan {
    let n = [2, 3, 4, 6, 12, 40][r.below(6) as usize];
    let set = |r: &mut Rng| r.below(N as u64) as u32;
    let list = |r: &mut Rng| (0..r.below(6)).map(|_| r.below(n as u64) as u32).collect::<Vec<_>>();
    let bang = |r: &mut Rng| if r.chance(1, 8) { Some(r.below(5) as u32) } else { None };
    let ops = (0..4 + r.below(if thorough { 60 } else { 25 }))
        .map(|_| match r.weighted(&[10, 6, 3, 9, 5, 3, 1, 6]) {
            0 => Op::Add(set(r), r.below(n as u64) as u32, r.chance(1, 3), r.chance(1, 2)),
            1 => Op::Many(set(r), list(r), r.chance(1, 3), bang(r)),
            2 => Op::From(set(r), list(r), list(r), bang(r)),
            3 => Op::Union(set(r), set(r), bang(r)),
            4 => Op::Map(set(r), set(r), 1 + r.below(n as u64 + 2) as u32, bang(r)),
            5 => Op::Copy(set(r), set(r), bang(r)),
            6 => Op::Again(set(r)),
            _ => Op::Conc(
                (0..2 + r.below(3))
                    .map(|_| {
                        (0..1 + r.below(6))
                            .map(|_| match r.below(4) {
                                0 => Q::Show(set(r)),
                                1 => Q::Sum(set(r), set(r)),
                                2 => Q::Map(set(r), 1 + r.below(n as u64 + 2) as u32),
                                _ => Q::Conflict(set(r), set(r)),
                            })
                            .collect()
                    })
                    .collect(),
            ),
        })
        .collect();
    Plan { n, collide: r.chance(1, 5), ops }
}

/// A caller's resource name.
#[derive(Debug)]
struct R {
    n: u32,
    collide: bool,
    fuse: *const Cell<u32>,
}
unsafe impl Sync for R {}
unsafe impl Send for R {}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        self.n == o.n
    }
}
impl Eq for R {}
impl Hash for R {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (if self.collide { self.n % 2 } else { self.n }).hash(h)
    }
}
impl Clone for R {
    fn clone(&self) -> R {
        burn(unsafe { &*self.fuse });
        R { n: self.n, collide: self.collide, fuse: self.fuse }
    }
}
/// Counts down to a panic; 0: never.
fn burn(f: &Cell<u32>) {
    match f.get() {
        0 => {}
        1 => {
            f.set(0);
            rt::hit("fault:callback_panic");
            inject(9)
        }
        k => f.set(k - 1),
    }
}

#[derive(Clone, Default, Debug, PartialEq)]
struct M {
    r: BTreeSet<u32>,
    w: BTreeSet<u32>,
}
impl M {
    fn read(&mut self, n: u32) {
        if !self.w.contains(&n) {
            self.r.insert(n);
        }
    }
    fn write(&mut self, n: u32) {
        self.r.remove(&n);
        self.w.insert(n);
    }
    fn conflicts(&self, o: &M) -> bool {
        let hit = |a: &M, b: &M| a.w.iter().any(|x| b.w.contains(x) || b.r.contains(x));
        hit(self, o) || hit(o, self)
    }
    fn union(&mut self, o: &M) {
        o.w.iter().for_each(|n| self.write(*n));
        o.r.iter().for_each(|n| self.read(*n));
    }
    fn map(&self, k: u32) -> M {
        let mut m = M::default();
        self.w.iter().for_each(|n| m.write(n % k));
        self.r.iter().for_each(|n| m.read(n % k));
        m
    }
}
fn shown(s: &RwResources<R>) -> Result<M, String> {
    let mut m = M::default();
    for (it, to) in [(s.reads().collect::<Vec<_>>(), 0), (s.writes().collect::<Vec<_>>(), 1)] {
        for x in it {
            if !(if to == 0 { &mut m.r } else { &mut m.w }).insert(x.n) {
                return Err(format!("resource {} is listed twice", x.n));
            }
        }
    }
    if let Some(x) = m.r.intersection(&m.w).next() {
        return Err(format!("resource {} is listed as read although it is written", x));
    }
    Ok(m)
}
fn agree(what: &str, s: &RwResources<R>, m: &M) -> bool {
    match shown(s) {
        Ok(g) if g == *m => true,
        Ok(g) => {
            viol!("C24", "content", "{}: the set holds {:?}, expected {:?}", what, g, m);
            false
        }
        Err(e) => {
            viol!("C24", "subsume", "{}: {}", what, e);
            false
        }
    }
}
fn ask(a: &RwResources<R>, b: &RwResources<R>, ma: &M, mb: &M) {
    let (x, y, want) = (a.conflicts_with(b), b.conflicts_with(a), ma.conflicts(mb));
    if x != want || y != want {
        viol!("C24", "conflict", "conflict of {:?} and {:?}: {} one way, {} the other, expected {}", ma, mb, x, y, want);
    }
}

/// Gives out the resources and panics when its time comes.
struct Feed<'a> {
    l: std::slice::Iter<'a, u32>,
    mk: &'a dyn Fn(u32) -> R,
    fuse: &'a Cell<u32>,
}
impl Iterator for Feed<'_> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        burn(self.fuse);
        self.l.next().map(|n| (self.mk)(*n))
    }
}

pub fn exec(p: &Plan) {
    let nn = p.n.max(1);
    let fuse: &'static Cell<u32> = quiet(|| Box::leak(Box::new(Cell::new(0))));
    let mk = |n: u32| R { n: n % nn, collide: p.collide, fuse };
    let mut s: [RwResources<R>; N] = Default::default();
    let mut m: [M; N] = Default::default();
    for op in &p.ops {
        let ix = |a: &u32| *a as usize % N;
        let set = |b: &Option<u32>| fuse.set(b.map_or(0, |x| x.min(100) + 1));
        let (t, r, what, before) = match op {
            Op::Add(a, n, w, by_value) => {
                let a = ix(a);
                let before = m[a].clone();
                let r = attempt(|| match (by_value, w) {
                    (false, false) => s[a].add_read(mk(*n)),
                    (false, true) => s[a].add_write(mk(*n)),
                    (true, false) => s[a] = std::mem::take(&mut s[a]).read(mk(*n)),
                    (true, true) => s[a] = std::mem::take(&mut s[a]).write(mk(*n)),
                });
                if *w {
                    m[a].write(n % nn)
                } else {
                    m[a].read(n % nn)
                }
                (a, r, "add", before)
            }
            Op::Many(a, l, w, b) => {
                let a = ix(a);
                let before = m[a].clone();
                set(b);
                let f = Feed { l: l.iter(), mk: &mk, fuse };
                let r = attempt(|| if *w { s[a].add_writes(f) } else { s[a].add_reads(f) });
                for n in l {
                    if *w {
                        m[a].write(n % nn)
                    } else {
                        m[a].read(n % nn)
                    }
                }
                (a, r, "add many", before)
            }
            Op::From(a, rs, ws, b) => {
                let a = ix(a);
                let before = m[a].clone();
                set(b);
                let fr = Feed { l: rs.iter(), mk: &mk, fuse };
                let fw = Feed { l: ws.iter(), mk: &mk, fuse };
                let r = attempt(|| s[a] = RwResources::from_iters(fr, fw));
                if r.is_ok() {
                    m[a] = M::default();
                    ws.iter().for_each(|n| m[a].write(n % nn));
                    rs.iter().for_each(|n| m[a].read(n % nn));
                }
                (a, r, "from_iters", before)
            }
            Op::Union(a, o, b) => {
                let (a, o) = (ix(a), ix(o));
                let before = m[a].clone();
                let mo = m[o].clone();
                set(b);
                let r = if a == o {
                    fuse.set(0);
                    let c = s[o].clone();
                    set(b);
                    attempt(|| s[a].union(&c))
                } else {
                    let (x, y) = (a.min(o), a.max(o));
                    let (l, h) = s.split_at_mut(y);
                    let (into, of) = if a < o { (&mut l[x], &h[0]) } else { (&mut h[0], &l[x]) };
                    attempt(|| into.union(of))
                };
                m[a].union(&mo);
                (a, r, "union", before)
            }
            Op::Map(a, o, k, b) => {
                let (a, o) = (ix(a), ix(o));
                let before = m[a].clone();
                set(b);
                let k = (*k).max(1);
                let r = attempt(|| {
                    let x = s[o].map(|n| {
                        burn(fuse);
                        mk(n.n % k)
                    });
                    s[a] = x
                });
                if r.is_ok() {
                    m[a] = m[o].map(k);
                    // the mapped names stay below the number of resources
                    m[a] = m[a].map(nn);
                }
                (a, r, "map", before)
            }
            Op::Copy(a, o, b) => {
                let (a, o) = (ix(a), ix(o));
                let before = m[a].clone();
                set(b);
                let r = attempt(|| s[a] = s[o].clone());
                if r.is_ok() {
                    m[a] = m[o].clone();
                }
                (a, r, "clone", before)
            }
            Op::Again(a) => {
                let a = ix(a);
                let before = m[a].clone();
                let r = attempt(|| {
                    let x = RwResources::from_iters(s[a].reads().cloned(), s[a].writes().cloned());
                    s[a] = x
                });
                (a, r, "rebuild", before)
            }
            Op::Conc(ths) => {
                fuse.set(0);
                let (s, m) = (&s, &m);
                let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                    ths.iter()
                        .take(6)
                        .map(|q| {
                            Box::new(move || {
                                for q in q {
                                    match q {
                                        Q::Conflict(a, b) => ask(&s[ix(a)], &s[ix(b)], &m[ix(a)], &m[ix(b)]),
                                        Q::Show(a) => {
                                            agree("shared", &s[ix(a)], &m[ix(a)]);
                                        }
                                        Q::Sum(a, b) => {
                                            let mut x = s[ix(a)].clone();
                                            yield_now();
                                            x.union(&s[ix(b)]);
                                            let mut y = m[ix(a)].clone();
                                            y.union(&m[ix(b)]);
                                            agree("shared union", &x, &y);
                                            ask(&x, &s[ix(a)], &y, &m[ix(a)]);
                                        }
                                        Q::Map(a, k) => {
                                            let k = (*k).max(1);
                                            let x = s[ix(a)].map(|n| mk_like(n, n.n % k));
                                            agree("shared map", &x, &m[ix(a)].map(k));
                                        }
                                    }
                                    yield_now();
                                }
                            }) as Box<dyn FnOnce() + '_>
                        })
                        .collect()
                });
                threads(v);
                continue;
            }
        };
        fuse.set(0);
        rt::hit("access:op");
        match r {
            Ok(()) => {
                if !agree(what, &s[t], &m[t]) {
                    return;
                }
            }
            Err(Caught::Injected(9)) => {
                // how far it got is open, but not what it may hold
                let g = match shown(&s[t]) {
                    Ok(g) => g,
                    Err(e) => {
                        viol!("C24", "subsume", "{}, interrupted by a panic: {}", what, e);
                        return;
                    }
                };
                let all = |m: &M| m.r.union(&m.w).copied().collect::<BTreeSet<u32>>();
                let most: BTreeSet<u32> = all(&before).union(&all(&m[t])).copied().collect();
                let mostw: BTreeSet<u32> = before.w.union(&m[t].w).copied().collect();
                if !g.w.is_subset(&mostw) || !all(&g).is_subset(&most) {
                    viol!("C24", "content", "{}, interrupted by a panic: {:?} became {:?}", what, before, g);
                    return;
                }
                m[t] = g;
            }
            Err(_) => {
                viol!("C24", "unexpected-panic", "{} panicked: {}", what, COLL.get().last_panic);
                return;
            }
        }
        for o in 0..N {
            if o != t && !agree("bystander", &s[o], &m[o]) {
                return;
            }
            ask(&s[t], &s[o], &m[t], &m[o]);
        }
    }
}
fn mk_like(r: &R, n: u32) -> R {
    R { n, collide: r.collide, fuse: r.fuse }
}
