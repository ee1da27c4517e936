//! S5: threads taking, holding, nesting, failing and dropping borrows of the resources and
//! components of a world and of a resource set; resources come and go between the phases.
use crate::fetch::*;
use crate::rt::{self, *};
use goggles::{Entity, Read, Write};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Phase {
    /// threads
    Conc(Vec<Vec<Op>>),
    Insert(u32, u32),
    Remove(u32),
    GetMut(u32),
    Merge,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// tuple, fate, what is done while it is held
    Fetch(u32, u32, Vec<Op>),
    /// through the direct methods: what, writing, fate
    One(u32, bool, u32, Vec<Op>),
    Check(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub phases: Vec<Phase>,
}

/// Own scheduling points one request may take.
const STEP_BOUND: u64 = 2_000;

fn gen_op(r: &mut Rng, depth: u32, hot: &[u32], faulty: bool) -> Op {
    let inner = if depth > 0 && r.chance(1, 4) {
        (0..1 + r.below(2)).map(|_| gen_op(r, depth - 1, hot, faulty)).collect()
    } else {
        vec![]
    };
    let fate = if faulty && r.chance(1, 5) {
        1
    } else if r.chance(1, 3) {
        2
    } else {
        0
    };
    match r.below(20) {
        0..=10 => Op::Fetch(if r.chance(2, 3) { *r.pick(hot) } else { r.below(NT as u64) as u32 }, fate, inner),
        11..=18 => Op::One(r.below(NREAL as u64) as u32, r.chance(1, 2), fate, inner),
        _ => Op::Check(r.below(NT as u64) as u32),
    }
}
pub fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Plan {
    let mut phases = vec![];
    let n = 1 + r.below(if thorough { 8 } else { 5 });
    let hot: Vec<u32> = (0..1 + r.below(5)).map(|_| r.below(NT as u64) as u32).collect();
    let faulty = prop == "C13" || r.chance(1, 3);
    for _ in 0..n {
        // what the map holds rather than who holds it
        let m = if prop == "C25" && r.chance(1, 2) { 3 } else { 10 };
        match r.below(m) {
            0 => phases.push(Phase::Insert(r.sel(), r.below(1000) as u32)),
            1 => phases.push(Phase::Remove(r.sel())),
            2 => phases.push(match r.below(2) {
                0 => Phase::GetMut(r.sel()),
                _ => Phase::Merge,
            }),
            _ => {
                let nt = if r.chance(1, 8) { 1 } else { 2 + r.below(if thorough { 6 } else { 3 }) };
                phases.push(Phase::Conc(
                    (0..nt)
                        .map(|_| (0..1 + r.below(if thorough { 8 } else { 5 })).map(|_| gen_op(r, 2, &hot, faulty)).collect())
                        .collect(),
                ))
            }
        }
    }
    Plan { phases }
}

struct Env<'a> {
    cx: &'a Cx,
    present: u32,
}

impl<'a> Env<'a> {
    /// Returns whether the op failed.
    fn op(&self, op: &Op) -> bool {
        match op {
            Op::Check(t) => {
                check_tuple((*t % NT) as usize);
                false
            }
            Op::Fetch(t, fate, inner) => {
                let t = TUPLES[(*t % NT) as usize];
                let acc = quiet(|| t.acc());
                self.request(acc, *fate, inner, &mut |held| t.with(self.cx, held))
            }
            Op::One(id, w, fate, inner) => {
                let id = (*id % NREAL as u32) as u8;
                let w = *w || id == W_NS || id == S_NS;
                let acc = quiet(|| {
                    let mut v = vec![Acc { id, write: w }];
                    if id == C_K0 || id == C_K1 {
                        v.push(Acc { id: ENT, write: false });
                    }
                    v
                });
                self.request(acc, *fate, inner, &mut |held| direct(self.cx, id, w, held))
            }
        }
    }

    fn request(
        &self,
        acc: Vec<Acc>,
        fate: u32,
        inner: &[Op],
        call: &mut dyn FnMut(&mut dyn FnMut(&mut dyn FnMut())),
    ) -> bool {
        let cx = self.cx;
        let missing = quiet(|| acc.iter().any(|a| (a.id as usize) < NREAL && self.present >> a.id & 1 == 0));
        let selfc = quiet(|| self_clash(&acc));
        let mut granted = false;
        let mut failed = false;
        let k = cx.begin(&acc);
        let step0 = own_step();
        let slow = |what: &str| {
            let d = own_step() - step0;
            if d > STEP_BOUND {
                viol!("C20", "slow", "a request that was {} took {} steps of its own", what, d);
            }
            quiet(|| {
                // the worst case of the run
                let t = cx.tab();
                t.touched = t.touched.max(d);
            });
        };
        let r = attempt(|| {
            call(&mut |touch| {
                slow("granted");
                granted = true;
                cx.granted(k, "C12");
                if missing {
                    viol!("C12", "granted-missing", "something that was not inserted was borrowed: {:?}", names(&acc));
                }
                if selfc {
                    viol!("C12", "granted-conflict", "a tuple got two borrows that exclude each other: {:?}", names(&acc));
                }
                touch();
                for o in inner {
                    failed |= self.op(o);
                }
                if !inner.is_empty() {
                    touch();
                }
                yield_now();
                cx.releasing(k);
                if fate % 3 == 1 || (fate % 3 == 2 && failed) {
                    if fate % 3 == 2 {
                        hit("nested-failure");
                    }
                    inject(k as u32);
                }
            })
        });
        if !granted {
            slow("refused");
        }
        cx.ended(k);
        match r {
            Ok(()) => {
                hit("granted");
                false
            }
            Err(Caught::Injected(_)) => true,
            Err(Caught::Other(m)) => {
                let _q = Quiet::new();
                if granted {
                    viol!("*", "panic", "a panic while a borrow was held: {}", m);
                } else if missing {
                    hit("missing");
                } else if selfc {
                    hit("self-conflict");
                } else if cx.explained(k) {
                    hit("fault:conflict");
                } else {
                    viol!("C12", "refused", "a borrow that conflicts with nothing was refused ({}): {:?}", m, names(&acc));
                    viol!("C13", "refused", "a borrow that conflicts with nothing was refused ({}): {:?}", m, names(&acc));
                }
                true
            }
        }
    }
}

fn direct(cx: &Cx, id: u8, w: bool, held: &mut dyn FnMut(&mut dyn FnMut())) {
    macro_rules! go {
        ($x:expr) => {{
            let mut x = $x;
            held(&mut || x.touch(cx))
        }};
    }
    /// a plain `AtomicRef` wearing the face of a fetched one
    macro_rules! set {
        ($t:ty) => {
            if w {
                go!(cx.s.fetch::<Write<$t>>())
            } else {
                let x = cx.s.borrow::<$t>();
                held(&mut || look_at(<$t as Rid>::S, &*x))
            }
        };
    }
    match (id, w) {
        (W_R0, false) => go!(cx.w.read_resource::<R<0>>()),
        (W_R0, true) => go!(cx.w.write_resource::<R<0>>()),
        (W_R1, false) => go!(cx.w.read_resource::<R<1>>()),
        (W_R1, true) => go!(cx.w.write_resource::<R<1>>()),
        (W_R2, false) => go!(cx.w.read_resource::<R<2>>()),
        (W_R2, true) => go!(cx.w.write_resource::<R<2>>()),
        (W_RK0, false) => go!(cx.w.read_resource::<K<0>>()),
        (W_RK0, true) => go!(cx.w.write_resource::<K<0>>()),
        (W_NS, _) => go!(cx.w.write_resource::<NS>()),
        (C_K0, false) => go!(cx.w.read_component::<K<0>>()),
        (C_K0, true) => go!(cx.w.write_component::<K<0>>()),
        (C_K1, false) => go!(cx.w.read_component::<K<1>>()),
        (C_K1, true) => go!(cx.w.write_component::<K<1>>()),
        (S_R0, _) => set!(R<0>),
        (S_R1, _) => set!(R<1>),
        (S_R2, false) => {
            let x = cx.s.fetch::<Read<R<2>>>();
            held(&mut || look_at(S_R2, &*x))
        }
        (S_R2, true) => {
            let mut x = cx.s.borrow_mut::<R<2>>();
            held(&mut || bump_r(cx, S_R2, &mut *x))
        }
        _ => {
            let mut x = cx.s.borrow_mut::<NS>();
            held(&mut || bump_r(cx, S_NS, &mut *x))
        }
    }
}

pub fn exec(p: &Plan) {
    let mut cx = Cx::new();
    let mut present: u32 = (1 << NREAL) - 1;
    let mut base = [0u64; NIDS];
    let mut doomed: Vec<Entity> = vec![];
    for (n, ph) in p.phases.iter().enumerate() {
        match ph {
            Phase::Conc(ths) => {
                let env = Env { cx: &cx, present };
                let fs: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
                    ths.iter()
                        .take(12)
                        .map(|ops| {
                            let env = &env;
                            Box::new(move || {
                                for o in ops {
                                    env.op(o);
                                }
                            }) as Box<dyn FnOnce() + '_>
                        })
                        .collect()
                });
                threads(fs);
                rt::count("requests", cx.tab().recs.len() as u64);
                audit(&cx, present, &base, "C13");
                let t = cx.tab();
                t.recs.clear();
            }
            Phase::Insert(id, v) => {
                let id = (*id % NREAL as u32) as u8;
                let want = was(&cx, &base, present, id);
                let got = cx.insert(id, *v as u64);
                expect("inserting", id, got, want);
                present |= 1 << id;
                base[id as usize] = *v as u64;
                cx.tab().writes[id as usize] = 0;
            }
            Phase::Remove(id) => {
                let id = (*id % NREAL as u32) as u8;
                let want = was(&cx, &base, present, id);
                let got = cx.remove(id);
                expect("removing", id, got, want);
                present &= !(1 << id);
            }
            Phase::GetMut(id) => {
                let id = (*id % NREAL as u32) as u8;
                let want = was(&cx, &base, present, id);
                let got = attempt(|| cx.get_mut(id)).ok();
                expect("getting exclusive access to", id, got, want);
            }
            Phase::Merge => {
                // touches every registered component storage
                let e = cx.w.create_entity();
                doomed.push(e);
                if n % 2 == 0 {
                    let _ = cx.w.entities().delete(e);
                }
                if attempt(|| cx.w.merge()).is_err() || (n % 2 == 1 && attempt(|| cx.w.delete_entity(e)).is_err()) {
                    viol!("C13", "still-borrowed", "deleting an entity failed although nothing is borrowed");
                }
            }
        }
        for id in 0..NREAL as u8 {
            if cx.contains(id) != (present >> id & 1 == 1) {
                let how = if cx.contains(id) { "there" } else { "gone" };
                viol!("C12", "interference", "{} is {} after phase {}", NAMES[id as usize], how, n);
                viol!("C25", "interference", "{} is {} after phase {}", NAMES[id as usize], how, n);
                return;
            }
        }
    }
    for id in 0..NREAL as u8 {
        let want = was(&cx, &base, present, id);
        let got = cx.remove(id);
        expect("finally removing", id, got, want);
    }
}
fn was(cx: &Cx, base: &[u64; NIDS], present: u32, id: u8) -> Option<(u64, u64)> {
    if present >> id & 1 == 1 {
        let v = base[id as usize] + cx.tab().writes[id as usize];
        Some((v, v))
    } else {
        None
    }
}
fn expect(what: &str, id: u8, got: Option<(u64, u64)>, want: Option<(u64, u64)>) {
    if got != want {
        viol!("C12", "content", "{} {} gave {:?}, not {:?}", what, NAMES[id as usize], got, want);
        viol!("C25", "content", "{} {} gave {:?}, not {:?}", what, NAMES[id as usize], got, want);
    }
}
