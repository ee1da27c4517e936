//! S4: compositions of systems (`par!`, `seq!`, `ParList`, `SeqList`, `parallelize`) run on pools
//! of every kind over a world and a resource set, with members that fail, panic and get stalled.
use crate::fetch::*;
use crate::rt::{self, *};
use goggles::system::{ParList, SeqList};
use goggles::{par, parallelize, seq, Par, Pool, RayonPool, ResourceConflict, Resources, RwResources, Seq, SeqPool, System, SystemError};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    /// fetch tuple
    Tup(u32),
    /// declared reads, writes; how the declaration is built; whether it is in conflict with itself
    Abs(u32, u32, u32, bool),
    Par(u32, Vec<Node>),
    Seq(u32, Vec<Node>),
    Auto(Vec<Node>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunP {
    pub pool: u32,
    /// (leaf, fate)
    pub fates: Vec<(u32, u32)>,
    /// 0: none, 1: two members, 2: as many as possible
    pub meet: u32,
    pub sel: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub root: Node,
    pub runs: Vec<RunP>,
    #[serde(default)]
    pub nowait: bool,
}

const ABS_MASK: u32 = 0x3f;
const MAX_LEAVES: usize = 72;

// ------------------------------------------------------------------ generation

fn tup_masks(n: u32) -> (u32, u32, bool) {
    let a = TUPLES[(n % NT) as usize].acc();
    let (r, w) = masks(&a);
    (r, w, self_clash(&a))
}

struct Gen<'r> {
    r: &'r mut Rng,
    left: i32,
    loose: bool,
    selfc: bool,
}
impl<'r> Gen<'r> {
    /// `wr`: what may be written here, `rd`: what may be read
    fn leaf(&mut self, rd: u32, wr: u32) -> Node {
        self.left -= 1;
        if self.selfc && self.r.chance(1, 4) {
            self.selfc = false;
            return if self.r.chance(1, 2) {
                Node::Abs((self.r.next() as u32) & ABS_MASK, (self.r.next() as u32) & ABS_MASK, self.r.sel(), true)
            } else {
                for _ in 0..100 {
                    let n = self.r.below(NT as u64) as u32;
                    if tup_masks(n).2 {
                        return Node::Tup(n);
                    }
                }
                Node::Tup(0)
            };
        }
        if self.r.chance(2, 3) {
            for _ in 0..12 {
                let n = self.r.below(NT as u64) as u32;
                let (r, w, c) = tup_masks(n);
                if !c && (self.loose || (r & !rd == 0 && w & !wr == 0)) {
                    return Node::Tup(n);
                }
            }
        }
        let thin = (self.r.next() & self.r.next()) as u32;
        let (rd, wr) = if self.loose { (ABS_MASK, ABS_MASK) } else { (rd >> ABS0, wr >> ABS0) };
        Node::Abs(self.r.next() as u32 & rd & ABS_MASK, thin & wr & ABS_MASK, self.r.sel(), false)
    }
    fn node(&mut self, depth: u32, rd: u32, wr: u32, bias: u32) -> Node {
        if depth == 0 || self.left <= 1 || self.r.chance(1, 5) {
            return self.leaf(rd, wr);
        }
        let n = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2..=5 => 2,
            6..=8 => 3,
            9 | 10 => 4,
            _ => 6,
        };
        let form = self.r.sel() % 4;
        // 0 par, 1 seq, 2 auto
        let w: [u32; 3] = match bias {
            1 => [20, 20, 60],
            2 => [60, 15, 15],
            _ => [40, 35, 25],
        };
        match self.r.weighted(&w) {
            0 => {
                let mut kids = vec![];
                // each thing is written by at most one of the members, or read by all
                let owner: Vec<u64> = (0..NIDS).map(|_| self.r.below(n as u64 + 1)).collect();
                for k in 0..n {
                    let (mut rd2, mut wr2) = (0u32, 0u32);
                    for (i, o) in owner.iter().enumerate() {
                        if i as u8 == ENT || *o == n as u64 {
                            rd2 |= 1 << i
                        } else if *o == k as u64 {
                            rd2 |= 1 << i;
                            wr2 |= 1 << i
                        }
                    }
                    let (rd2, wr2) = if self.r.chance(1, 40) { (rd, wr) } else { (rd2 & rd, wr2 & wr) };
                    kids.push(self.node(depth - 1, rd2, wr2, bias));
                }
                Node::Par(form, kids)
            }
            1 => Node::Seq(form, (0..n).map(|_| self.node(depth - 1, rd, wr, bias)).collect()),
            _ => {
                let n = n + self.r.below(6) as u32;
                Node::Auto((0..n).map(|_| self.node(depth.saturating_sub(2), rd, wr, bias)).collect())
            }
        }
    }
}

pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let bias = match prop {
        "C17" => 1,
        "C12" | "C13" | "C19" => 2,
        _ => 0,
    };
    let (loose, selfc) = (r.chance(1, 12), r.chance(1, 10));
    let mut g = Gen { r, left: if thorough { 22 } else { 16 }, loose, selfc };
    let depth = 1 + g.r.below(if thorough { 4 } else { 3 }) as u32;
    let mut root = g.node(depth, u32::MAX, u32::MAX & !(1 << ENT), bias);
    if g.r.chance(1, 25) {
        // one long list
        g.left = 70;
        let n = g.r.range(10, 50);
        let (rd, wr) = (u32::MAX, u32::MAX & !(1 << ENT));
        root = match g.r.below(3) {
            0 => Node::Par(g.r.sel() % 4, (0..n).map(|_| { let wr = if g.r.chance(1, 30) { wr } else { 0 }; g.leaf(rd, wr) }).collect()),
            1 => Node::Seq(g.r.sel() % 4, (0..n).map(|_| g.leaf(rd, wr)).collect()),
            _ => Node::Auto((0..n).map(|_| g.leaf(rd, wr)).collect()),
        };
    }
    if !matches!(root, Node::Par(..) | Node::Seq(..) | Node::Auto(_)) {
        let other = g.node(1, u32::MAX, u32::MAX & !(1 << ENT), bias);
        root = if bias == 1 { Node::Auto(vec![root, other]) } else { Node::Seq(0, vec![root, other]) };
    }
    let faulty = match prop {
        "C16" => 70,
        "C13" => 60,
        "C15" | "C17" => 25,
        _ => 35,
    };
    let n = 1 + r.below(3);
    let runs = (0..n)
        .map(|_| {
            let f = r.chance(faulty, 100);
            let nf = if f { 1 + r.below(4) } else { 0 };
            RunP {
                pool: r.weighted(&[8, 30, 20, 15, 17, 10]) as u32,
                fates: (0..nf).map(|_| (r.sel(), 1 + r.below(5) as u32)).collect(),
                meet: if f { 0 } else { r.below(3) as u32 },
                sel: r.sel(),
            }
        })
        .collect();
    Plan { root, runs, nowait: false }
}

// ------------------------------------------------------------------ the systems

pub struct Errs(Vec<u32>);
impl SystemError for Errs {
    fn combine(mut self, other: Self) -> Self {
        let _q = Quiet::new();
        self.0.extend(other.0.iter().copied());
        drop(other);
        self
    }
}

pub struct DynPool(u32);
impl Pool for DynPool {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let room = nlive() < 48;
        match self.0 {
            0 => SeqPool.join(a, b),
            1 => RayonPool.join(a, b),
            2 if room => join2(a, b, false, true),
            3 if room => {
                let (rb, ra) = join2(b, a, false, true);
                (ra, rb)
            }
            4 if room => join2(a, b, true, true),
            5 => {
                let rb = b();
                let ra = a();
                (ra, rb)
            }
            _ => (a(), b()),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Args(*const Cx, *const Shared);
unsafe impl Send for Args {}

type Sys = Box<dyn System<Args, Resources = RwResources<u8>, Pool = DynPool, Error = Errs> + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fin {
    No,
    Ok,
    Err,
    Panic(u32),
}
#[derive(Clone, Copy)]
struct LeafSt {
    runs: u32,
    start: u64,
    end: u64,
    fin: Fin,
    fate: u32,
    arrived: bool,
    meets: bool,
}
struct Shared(UnsafeCell<St>);
struct St {
    leaves: Vec<LeafSt>,
    acc: Vec<Vec<Acc>>,
    meeting: u32,
    returned: bool,
    late: bool,
    patience: u32,
}
impl Shared {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut St {
        unsafe { &mut *self.0.get() }
    }
}

struct Leaf {
    idx: usize,
    tup: Option<usize>,
    acc: Vec<Acc>,
    reads: u32,
    writes: u32,
    path: u32,
    selfc: bool,
    runs: u64,
}

impl System<Args> for Leaf {
    type Resources = RwResources<u8>;
    type Pool = DynPool;
    type Error = Errs;

    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> {
        if let Some(t) = self.tup {
            return TUPLES[t].check();
        }
        if self.selfc {
            return Err(ResourceConflict::conflict_in::<Self>());
        }
        let ids = |m: u32| (0..6u8).filter(move |i| m >> i & 1 == 1).map(|i| ABS0 + i);
        Ok(match self.path % 6 {
            0 => RwResources::from_iters(ids(self.reads), ids(self.writes)),
            1 => {
                let mut r = RwResources::new();
                r.add_reads(ids(self.reads));
                r.add_writes(ids(self.writes));
                r
            }
            2 => {
                let mut r = RwResources::new();
                r.add_writes(ids(self.writes));
                r.add_reads(ids(self.reads));
                r
            }
            3 => {
                let mut r = RwResources::new();
                for i in ids(self.reads) {
                    r = r.read(i);
                }
                for i in ids(self.writes) {
                    r = r.write(i);
                }
                r.clone()
            }
            4 => {
                let mut r = RwResources::from_iters(ids(self.reads), None);
                r.union(&RwResources::from_iters(None, ids(self.writes)));
                r
            }
            _ => {
                let mut r = RwResources::from_iters(None, ids(self.writes));
                r.union(&RwResources::from_iters(ids(self.reads), None));
                r
            }
        })
    }

    fn run(&mut self, _pool: &DynPool, a: Args) -> Result<(), Errs> {
        let (cx, sh) = unsafe { (&*a.0, &*a.1) };
        let id = self.idx as u32;
        let fate = {
            let _q = Quiet::new();
            let st = sh.st();
            if st.returned {
                st.late = true;
            }
            let l = &mut st.leaves[self.idx];
            l.runs += 1;
            if l.runs > 1 {
                viol!("C15", "ran-twice", "member {} ran {} times in one run", id, l.runs);
                viol!("C17", "ran-twice", "member {} ran {} times in one run", id, l.runs);
            }
            l.start = seq();
            l.arrived = true;
            l.fate
        };
        self.runs += 1;
        yield_now();
        if sh.st().leaves[self.idx].meets {
            self.meet(sh);
        }
        let done = |f: Fin| {
            let _q = Quiet::new();
            let l = &mut sh.st().leaves[id as usize];
            l.fin = f;
            l.end = seq();
        };
        match fate {
            1 => {
                rt::hit("fault:error");
                done(Fin::Err);
                return Err(Errs(quiet(|| vec![id])));
            }
            3 => {
                done(Fin::Panic(id));
                inject(id);
            }
            _ => {}
        }
        // the access itself
        let k = cx.begin(&self.acc);
        let r = attempt(|| match self.tup {
            Some(t) => TUPLES[t].with(cx, &mut |touch| {
                cx.granted(k, "C14");
                touch();
                yield_now();
                if fate == 4 {
                    cx.releasing(k);
                    inject(id);
                }
                cx.releasing(k);
            }),
            None => {
                cx.granted(k, "C14");
                yield_now();
                if fate == 4 {
                    cx.releasing(k);
                    inject(id);
                }
                yield_now();
                cx.releasing(k);
            }
        });
        cx.ended(k);
        match r {
            Ok(()) => {}
            Err(Caught::Injected(i)) => {
                done(Fin::Panic(i));
                inject(i);
            }
            Err(Caught::Other(m)) => {
                viol!("C14", "conflict", "a member of an accepted composition was refused a borrow: {} ({:?})", m, names(&self.acc));
                done(Fin::Panic(id));
                inject(id);
            }
        }
        yield_now();
        match fate {
            2 => {
                rt::hit("fault:error");
                done(Fin::Err);
                Err(Errs(quiet(|| vec![id])))
            }
            5 => {
                done(Fin::Panic(id));
                inject(id);
            }
            _ => {
                done(Fin::Ok);
                Ok(())
            }
        }
    }
}

impl Leaf {
    /// Waits for the other members it is supposed to be able to overlap with.
    fn meet(&self, sh: &Shared) {
        let mut n = 0;
        loop {
            let all = quiet(|| sh.st().leaves.iter().all(|l| !l.meets || l.arrived));
            if all {
                break;
            }
            n += 1;
            if n > sh.st().patience {
                quiet(|| {
                    let st = sh.st();
                    if st.meeting == 1 {
                        st.meeting = 2;
                        let w: Vec<usize> = (0..st.leaves.len()).filter(|i| st.leaves[*i].meets && !st.leaves[*i].arrived).collect();
                        viol!("C15", "serialised", "parallel members {:?} did not start while {} was running", w, self.idx);
                    }
                    for l in st.leaves.iter_mut() {
                        l.meets = false;
                    }
                });
                break;
            }
            yield_forced();
        }
        if n > 0 {
            hit("meetings");
        }
    }
}

// ------------------------------------------------------------------ the model

enum M {
    Leaf(usize),
    Par(Vec<M>),
    Seq(Vec<M>),
    /// stages
    Auto(Vec<M>),
}
#[derive(Clone, Copy, Debug)]
struct Set {
    r: u32,
    w: u32,
}
fn conflict(a: Set, b: Set) -> bool {
    a.w & (b.r | b.w) != 0 || b.w & a.r != 0
}
fn union(a: Set, b: Set) -> Set {
    Set { r: a.r | b.r, w: a.w | b.w }
}

enum Out {
    NotRun,
    Ok,
    Err(Vec<u32>),
    Panic(Vec<u32>),
}

struct B {
    st: Vec<Vec<Acc>>,
    tups: Vec<bool>,
}

fn norm(n: &Node, left: &mut usize) -> Node {
    // shrunk and hand-edited plans may be too big or odd
    let go = |k: &Vec<Node>, left: &mut usize| {
        let mut v = vec![];
        for c in k {
            if *left == 0 {
                break;
            }
            v.push(norm(c, left));
        }
        if v.is_empty() {
            *left = left.saturating_sub(1);
        }
        v
    };
    match n {
        Node::Tup(t) => {
            *left = left.saturating_sub(1);
            Node::Tup(*t % NT)
        }
        Node::Abs(r, w, p, s) => {
            *left = left.saturating_sub(1);
            Node::Abs(r & ABS_MASK, w & ABS_MASK, *p, *s)
        }
        Node::Par(f, k) => Node::Par(*f % 4, go(k, left)),
        Node::Seq(f, k) => Node::Seq(*f % 4, go(k, left)),
        Node::Auto(k) => Node::Auto(go(k, left)),
    }
}

/// The real composition, its model, and the model's verdict on its resources.
fn build(n: &Node, b: &mut B) -> (Sys, M, Option<Set>) {
    match n {
        Node::Tup(_) | Node::Abs(..) => {
            let idx = b.st.len();
            let (l, set) = match n {
                Node::Tup(t) => {
                    let acc = TUPLES[*t as usize].acc();
                    let (r, w) = masks(&acc);
                    let c = self_clash(&acc);
                    let l = Leaf { idx, tup: Some(*t as usize), acc, reads: 0, writes: 0, path: 0, selfc: c, runs: 0 };
                    (l, if c { None } else { Some(Set { r, w }) })
                }
                Node::Abs(r, w, p, s) => {
                    let mut acc = vec![];
                    for i in 0..6u8 {
                        if w >> i & 1 == 1 {
                            acc.push(Acc { id: ABS0 + i, write: true });
                        } else if r >> i & 1 == 1 {
                            acc.push(Acc { id: ABS0 + i, write: false });
                        }
                    }
                    let l = Leaf { idx, tup: None, acc, reads: *r, writes: *w, path: *p, selfc: *s, runs: 0 };
                    (l, if *s { None } else { Some(Set { r: r << ABS0, w: w << ABS0 }) })
                }
                _ => unreachable!(),
            };
            b.st.push(l.acc.clone());
            b.tups.push(l.tup.is_some() && l.selfc);
            (Box::new(l), M::Leaf(idx), set)
        }
        Node::Par(form, kids) => {
            let (sys, ms, sets) = many(kids, b);
            let mut set = Some(Set { r: 0, w: 0 });
            for s in &sets {
                set = match (set, s) {
                    (Some(a), Some(s)) if !conflict(a, *s) => Some(union(a, *s)),
                    _ => None,
                };
            }
            (mk_par(*form, sys), M::Par(ms), set)
        }
        Node::Seq(form, kids) => {
            let (sys, ms, sets) = many(kids, b);
            let mut set = Some(Set { r: 0, w: 0 });
            for s in &sets {
                set = match (set, s) {
                    (Some(a), Some(s)) => Some(union(a, *s)),
                    _ => None,
                };
            }
            (mk_seq(*form, sys), M::Seq(ms), set)
        }
        Node::Auto(kids) => {
            let (sys, ms, sets) = many(kids, b);
            // the stages the documentation promises
            let mut want: Vec<usize> = vec![];
            let mut cur: Option<Set> = None;
            for s in &sets {
                match (cur, s) {
                    (Some(c), Some(s)) if !conflict(c, *s) => {
                        *want.last_mut().unwrap() += 1;
                        cur = Some(union(c, *s));
                    }
                    (_, Some(s)) => {
                        want.push(1);
                        cur = Some(*s);
                    }
                    (_, None) => {
                        want.push(1);
                        cur = None;
                    }
                }
            }
            let l = live(|| parallelize::<Args, Sys>(sys));
            let got: Vec<usize> = l.0.iter().map(|p| p.0.len()).collect();
            if got != want {
                viol!("C17", "stages", "systems with access sets {:?} were placed in stages of {:?}, not {:?}", sets, got, want);
            }
            let mut at = 0;
            for st in &l.0 {
                for s in &st.0 {
                    if at < sets.len() {
                        let c = live(|| s.check_resources());
                        let same = match (&c, sets[at]) {
                            (Ok(r), Some(m)) => rw_masks(r).1 == m.w,
                            (Err(_), None) => true,
                            _ => false,
                        };
                        if !same {
                            viol!("C17", "order", "system {} of the list is not where the original order puts it", at);
                        }
                    }
                    at += 1;
                }
            }
            let mut stages = vec![];
            let mut it = ms.into_iter();
            for n in want {
                stages.push(M::Par(it.by_ref().take(n).collect()));
            }
            let set = sets.iter().try_fold(Set { r: 0, w: 0 }, |a, s| s.map(|s| union(a, s)));
            (Box::new(l), M::Auto(stages), set)
        }
    }
}
fn many(kids: &[Node], b: &mut B) -> (Vec<Sys>, Vec<M>, Vec<Option<Set>>) {
    let (mut a, mut m, mut s) = (vec![], vec![], vec![]);
    for k in kids {
        let (x, y, z) = build(k, b);
        a.push(x);
        m.push(y);
        s.push(z);
    }
    (a, m, s)
}
fn mk_par(form: u32, mut k: Vec<Sys>) -> Sys {
    match (form, k.len()) {
        (1, 2..) => {
            let mut r = k.pop().unwrap();
            while let Some(x) = k.pop() {
                r = Box::new(Par::new(x, r));
            }
            r
        }
        (2, 2..) => {
            let mut it = k.into_iter();
            let mut l = it.next().unwrap();
            for x in it {
                l = Box::new(Par::new(l, x));
            }
            l
        }
        (3, 2..=6) => {
            let n = k.len();
            let mut it = k.into_iter();
            let mut x = || it.next().unwrap();
            match n {
                2 => Box::new(par!(x(), x())),
                3 => Box::new(par!(x(), x(), x())),
                4 => Box::new(par!(x(), x(), x(), x())),
                5 => Box::new(par!(x(), x(), x(), x(), x())),
                _ => Box::new(par!(x(), x(), x(), x(), x(), x())),
            }
        }
        _ => Box::new(ParList(k)),
    }
}
fn mk_seq(form: u32, mut k: Vec<Sys>) -> Sys {
    match (form, k.len()) {
        (1, 2..) => {
            let mut r = k.pop().unwrap();
            while let Some(x) = k.pop() {
                r = Box::new(Seq::new(x, r));
            }
            r
        }
        (2, 2..) => {
            let mut it = k.into_iter();
            let mut l = it.next().unwrap();
            for x in it {
                l = Box::new(Seq::new(l, x));
            }
            l
        }
        (3, 2..=6) => {
            let n = k.len();
            let mut it = k.into_iter();
            let mut x = || it.next().unwrap();
            match n {
                2 => Box::new(seq!(x(), x())),
                3 => Box::new(seq!(x(), x(), x())),
                4 => Box::new(seq!(x(), x(), x(), x())),
                5 => Box::new(seq!(x(), x(), x(), x(), x())),
                _ => Box::new(seq!(x(), x(), x(), x(), x(), x())),
            }
        }
        _ => Box::new(SeqList(k)),
    }
}

impl M {
    fn kids(&self) -> &[M] {
        match self {
            M::Leaf(_) => &[],
            M::Par(k) | M::Seq(k) | M::Auto(k) => k,
        }
    }
    fn leaves(&self, v: &mut Vec<usize>) {
        if let M::Leaf(i) = self {
            v.push(*i);
        }
        for k in self.kids() {
            k.leaves(v);
        }
    }
    fn all(&self) -> Vec<usize> {
        let mut v = vec![];
        self.leaves(&mut v);
        v
    }
    /// Pairs of members that nothing orders: whose nearest common group is a parallel one.
    fn unordered(&self, v: &mut Vec<(usize, usize)>) {
        if let M::Par(k) = self {
            let ls: Vec<Vec<usize>> = k.iter().map(|k| k.all()).collect();
            for i in 0..ls.len() {
                for j in i + 1..ls.len() {
                    for a in &ls[i] {
                        for b in &ls[j] {
                            v.push((*a, *b));
                        }
                    }
                }
            }
        }
        for k in self.kids() {
            k.unordered(v);
        }
    }

    /// What the result has to be, given what every member was seen to do.
    fn eval(&self, st: &St) -> Out {
        match self {
            M::Leaf(i) => match st.leaves[*i].fin {
                _ if st.leaves[*i].runs == 0 => Out::NotRun,
                Fin::No => Out::NotRun,
                Fin::Ok => Out::Ok,
                Fin::Err => Out::Err(vec![*i as u32]),
                Fin::Panic(p) => Out::Panic(vec![p]),
            },
            M::Seq(k) | M::Auto(k) => {
                let auto = matches!(self, M::Auto(_));
                let tell = |p: &str, class: &str, m: String| {
                    if auto {
                        viol("C17", class, m.clone());
                    }
                    viol(p, class, m);
                };
                let ls = self.all();
                if !ls.is_empty() && ls.iter().all(|i| st.leaves[*i].runs == 0) {
                    return Out::NotRun;
                }
                let mut out = Out::Ok;
                let mut last_end = 0;
                for (n, c) in k.iter().enumerate() {
                    let ls = c.all();
                    let started: Vec<usize> = ls.iter().copied().filter(|i| st.leaves[*i].runs > 0).collect();
                    if !matches!(out, Out::Ok) {
                        if !started.is_empty() {
                            tell("C16", "started-after-failure", format!("members {:?} started although an earlier member of the sequence had failed", started));
                        }
                        continue;
                    }
                    if let Some(s) = started.iter().map(|i| st.leaves[*i].start).min() {
                        if s < last_end {
                            tell("C15", "order", format!("part {} of a sequence (members {:?}) started before the previous part had finished", n, started));
                        }
                    }
                    for i in &started {
                        last_end = last_end.max(if st.leaves[*i].end == 0 { u64::MAX } else { st.leaves[*i].end });
                    }
                    match c.eval(st) {
                        Out::NotRun => {
                            tell("C15", "skipped", format!("part {} of a sequence (members {:?}) was never run", n, ls));
                        }
                        o => out = o,
                    }
                }
                out
            }
            M::Par(k) => {
                let ls = self.all();
                if !ls.is_empty() && ls.iter().all(|i| st.leaves[*i].runs == 0) {
                    return Out::NotRun;
                }
                let (mut errs, mut panics, mut missing) = (vec![], vec![], vec![]);
                for c in k {
                    match c.eval(st) {
                        Out::Ok => {}
                        Out::NotRun => missing.extend(c.all()),
                        Out::Err(e) => errs.extend(e),
                        Out::Panic(p) => panics.extend(p),
                    }
                }
                if !panics.is_empty() {
                    return Out::Panic(panics);
                }
                if !missing.is_empty() {
                    let m = format!("parallel members {:?} were never run", missing);
                    viol(if errs.is_empty() { "C15" } else { "C16" }, "skipped", m.clone());
                    viol("C15", "skipped", m);
                }
                if errs.is_empty() {
                    Out::Ok
                } else {
                    Out::Err(errs)
                }
            }
        }
    }
}

/// Code under test, called from bookkeeping code.
fn live<R>(f: impl FnOnce() -> R) -> R {
    f()
}

pub fn exec(p: &Plan) {
    let mut cx = Cx::new();
    let mut left = MAX_LEAVES;
    let root = norm(&p.root, &mut left);
    let mut b = B { st: vec![], tups: vec![] };
    let (mut sys, m, set) = build(&root, &mut b);
    let n = b.st.len();
    let verdict = live(|| sys.check_resources());
    match (&verdict, set) {
        (Ok(r), Some(_)) => {
            hit("accepted");
            for acc in &b.st {
                covers(r, acc, "a composition");
            }
        }
        (Ok(_), None) => {
            viol!("C14", "accepted-conflict", "a composition with two conflicting parallel members passed its check");
            if matches!(m, M::Auto(_)) {
                viol!("C17", "accepted-conflict", "an automatically parallelised list with a self-conflicting member passed its check");
            }
        }
        (Err(_), Some(_)) => {
            viol!("C14", "refused", "a composition without a conflict was refused");
            if matches!(m, M::Auto(_)) {
                viol!("C17", "refused", "an automatically parallelised list failed its own resource check");
            }
        }
        (Err(_), None) => hit("refused"),
    }
    let accepted = set.is_some();
    quiet(|| drop(verdict));
    let mut pairs = vec![];
    m.unordered(&mut pairs);
    let sh = Shared(UnsafeCell::new(St {
        leaves: vec![LeafSt { runs: 0, start: 0, end: 0, fin: Fin::No, fate: 0, arrived: false, meets: false }; n],
        acc: vec![],
        meeting: 0,
        returned: false,
        late: false,
        patience: 60_000,
    }));
    let base = [0u64; NIDS];
    for r in p.runs.iter().take(6) {
        if !accepted && b.tups.iter().any(|x| *x) {
            break;
        }
        // a refused composition is not run where its members could meet
        let kind = if accepted { r.pool % 6 } else { [0, 5][(r.pool % 2) as usize] };
        {
            let _q = Quiet::new();
            let st = sh.st();
            for l in st.leaves.iter_mut() {
                *l = LeafSt { runs: 0, start: 0, end: 0, fin: Fin::No, fate: 0, arrived: false, meets: false };
            }
            for (l, f) in &r.fates {
                if n > 0 {
                    st.leaves[*l as usize % n].fate = *f % 6;
                }
            }
            st.meeting = 0;
            st.returned = false;
            cx.tab().recs.clear();
            if r.meet % 3 != 0 && r.fates.is_empty() && !pairs.is_empty() && (2..5).contains(&kind) && !p.nowait && n <= if kind == 4 { 18 } else { 36 } {
                let (a, c) = pairs[r.sel as usize % pairs.len()];
                st.meeting = 1;
                st.leaves[a].meets = true;
                st.leaves[c].meets = true;
                if r.meet % 3 == 2 {
                    for x in 0..n {
                        let ok = (0..n).all(|y| {
                            y == x || !st.leaves[y].meets || pairs.iter().any(|q| *q == (x, y) || *q == (y, x))
                        });
                        if ok {
                            st.leaves[x].meets = true;
                        }
                    }
                }
            }
        }
        let pool = DynPool(kind);
        let args = Args(&cx, &sh);
        hit(["pool:seq", "pool:rayon", "pool:spawn-second", "pool:spawn-first", "pool:spawn-both", "pool:reversed"][kind as usize]);
        let got = attempt(|| sys.run(&pool, args));
        {
            let _q = Quiet::new();
            let st = sh.st();
            st.returned = true;
            for (i, l) in st.leaves.iter().enumerate() {
                if l.runs > 0 && l.end == 0 {
                    let m = format!("the run returned while member {} had not finished", i);
                    viol("C15", "returned-early", m.clone());
                    viol("C16", "returned-early", m);
                }
            }
            let want = match m.eval(st) {
                Out::NotRun if n > 0 => {
                    viol!("C15", "skipped", "nothing of the composition was run");
                    Out::Ok
                }
                o => o,
            };
            let what = match (&want, &got) {
                (Out::Ok | Out::NotRun, Ok(Ok(()))) => None,
                (Out::Err(e), Ok(Err(g))) if *e == g.0 => {
                    hit("failed-runs");
                    None
                }
                (Out::Panic(ps), Err(Caught::Injected(i))) if ps.contains(i) => {
                    hit("panicked-runs");
                    None
                }
                (w, g) => Some(format!(
                    "the run ended with {}, the members call for {}",
                    match g {
                        Ok(Ok(())) => "success".to_string(),
                        Ok(Err(e)) => format!("errors {:?}", e.0),
                        Err(Caught::Injected(i)) => format!("panic of member {}", i),
                        Err(Caught::Other(s)) => format!("another panic: {}", s),
                    },
                    match w {
                        Out::Ok | Out::NotRun => "success".to_string(),
                        Out::Err(e) => format!("errors {:?}", e),
                        Out::Panic(p) => format!("a panic of one of {:?}", p),
                    }
                )),
            };
            if let Some(m) = what {
                viol("C16", "outcome", m);
            }
            drop(got);
            drop(want);
        }
        let nrec = cx.tab().recs.len() as u64;
        rt::count("fetches", nrec);
        audit(&cx, (1 << NREAL) - 1, &base, "C13");
        let _ = &mut cx;
    }
    drop(sys);
    if sh.st().late {
        viol!("C15", "late", "a member started after the run had returned");
    }
}
