//! gsim: deterministic simulation of goggles.  See ../../DESIGN.md.
#[macro_use]
mod rt;
mod access;
mod alloc;
mod borrow;
mod comp;
mod cx;
mod fetch;
mod join;
mod limit;
mod map;
mod shape;
mod probe;
mod sched;
mod store;
mod sys;
mod world;

use rt::*;
use sched::Sched;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Write;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pub scenario: String,
    pub plan: Value,
    pub sched: Sched,
}

enum Plan {
    Alloc(alloc::Plan),
    Store(store::Plan),
    World(world::Plan),
    Sys(sys::Plan),
    Borrow(borrow::Plan),
    Join(join::Plan),
    Access(access::Plan),
    Limit(limit::Plan),
    Map(map::Plan),
    Shape(shape::Plan),
    Probe(probe::Plan),
}

fn parse(scenario: &str, v: &Value) -> Result<Plan, String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(match scenario {
        "world" => Plan::World(serde_json::from_value(v.clone()).map_err(e)?),
        "store" => Plan::Store(serde_json::from_value(v.clone()).map_err(e)?),
        "borrow" => Plan::Borrow(serde_json::from_value(v.clone()).map_err(e)?),
        "join" => Plan::Join(serde_json::from_value(v.clone()).map_err(e)?),
        "probe" => Plan::Probe(serde_json::from_value(v.clone()).map_err(e)?),
        "shape" => Plan::Shape(serde_json::from_value(v.clone()).map_err(e)?),
        "map" => Plan::Map(serde_json::from_value(v.clone()).map_err(e)?),
        "limit" => Plan::Limit(serde_json::from_value(v.clone()).map_err(e)?),
        "access" => Plan::Access(serde_json::from_value(v.clone()).map_err(e)?),
        "sys" => Plan::Sys(serde_json::from_value(v.clone()).map_err(e)?),
        "alloc" => Plan::Alloc(serde_json::from_value(v.clone()).map_err(e)?),
        _ => return Err(format!("unknown scenario {}", scenario)),
    })
}
fn to_value(p: &Plan) -> Value {
    match p {
        Plan::Store(p) => serde_json::to_value(p).unwrap(),
        Plan::World(p) => serde_json::to_value(p).unwrap(),
        Plan::Borrow(p) => serde_json::to_value(p).unwrap(),
        Plan::Join(p) => serde_json::to_value(p).unwrap(),
        Plan::Probe(p) => serde_json::to_value(p).unwrap(),
        Plan::Shape(p) => serde_json::to_value(p).unwrap(),
        Plan::Map(p) => serde_json::to_value(p).unwrap(),
        Plan::Limit(p) => serde_json::to_value(p).unwrap(),
        Plan::Access(p) => serde_json::to_value(p).unwrap(),
        Plan::Sys(p) => serde_json::to_value(p).unwrap(),
        Plan::Alloc(p) => serde_json::to_value(p).unwrap(),
    }
}
fn exec(p: &Plan) {
    match p {
        Plan::Alloc(p) => alloc::exec(p),
        Plan::Store(p) => store::exec(p),
        Plan::World(p) => world::exec(p),
        Plan::Join(p) => join::exec(p),
        Plan::Access(p) => access::exec(p),
        Plan::Probe(p) => probe::exec(p),
        Plan::Shape(p) => shape::exec(p),
        Plan::Map(p) => map::exec(p),
        Plan::Limit(p) => limit::exec(p),
        Plan::Sys(p) => sys::exec(p),
        Plan::Borrow(p) => borrow::exec(p),
    }
}

/// Which scenarios a property is decided by, with weights.
fn scenarios(prop: &str) -> &'static [(&'static str, u32)] {
    match prop {
        "C01" | "C02" | "C03" | "C04" => &[("alloc", 3), ("world", 1)],
        "C05" => &[("alloc", 4), ("join", 1)],
        "C06" | "C07" | "C18" => &[("world", 7), ("shape", 1)],
        "C08" => &[("store", 8), ("world", 2), ("shape", 1)],
        "C09" | "C10" => &[("store", 6), ("world", 4), ("shape", 1)],
        "C11" => &[("store", 6), ("world", 4), ("join", 4), ("shape", 1)],
        "C21" => &[("join", 9), ("shape", 1)],
        "C22" => &[("join", 1)],
        "C23" => &[("probe", 1)],
        "C25" => &[("map", 3), ("borrow", 2), ("world", 2)],
        "C24" => &[("access", 1)],
        "C12" => &[("borrow", 3), ("sys", 2)],
        "C13" => &[("borrow", 3), ("sys", 2), ("world", 1)],
        "C14" | "C15" | "C16" | "C17" => &[("sys", 1)],
        "C19" => &[("alloc", 2), ("store", 3), ("world", 3), ("sys", 2), ("borrow", 2), ("join", 1), ("probe", 1)],
        "C20" => &[("alloc", 2), ("world", 2), ("borrow", 2)],
        _ => &[],
    }
}

fn gen_case(prop: &str, tier: &str, seed: u64, i: u64) -> (String, Plan, Sched) {
    let mut h = mix(seed ^ 0x5151);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    let mut r = Rng::new(mix(h ^ mix(i)));
    let sc = scenarios(prop);
    assert!(!sc.is_empty(), "property {} has no scenario", prop);
    let w: Vec<u32> = sc.iter().map(|s| s.1).collect();
    let mut name = sc[r.weighted(&w)].0;
    if matches!(prop, "C01" | "C02" | "C04" | "C05") && i % 20_000 == 13 {
        // costs seconds
        name = "limit";
    }
    let thorough = tier == "thorough";
    let plan = match name {
        "world" => Plan::World(world::gen(&mut r, prop, thorough)),
        "store" => Plan::Store(store::gen(&mut r, prop, thorough)),
        "borrow" => Plan::Borrow(borrow::gen(&mut r, prop, thorough)),
        "join" => Plan::Join(join::gen(&mut r, prop, thorough)),
        "probe" => Plan::Probe(probe::gen(&mut r, prop, thorough)),
        "shape" => Plan::Shape(shape::gen(&mut r, prop, thorough)),
        "map" => Plan::Map(map::gen(&mut r, prop, thorough)),
        "limit" => Plan::Limit(limit::gen(&mut r, prop, thorough)),
        "access" => Plan::Access(access::gen(&mut r, prop, thorough)),
        "sys" => Plan::Sys(sys::gen(&mut r, prop, thorough)),
        "alloc" => Plan::Alloc(alloc::gen(&mut r, prop, thorough)),
        _ => unreachable!(),
    };
    let sched = sched::gen(&mut r, prop);
    (name.to_string(), plan, sched)
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}

fn run_case(plan: &Plan, sched: &Sched) -> RunOut {
    let arg = SendPtr((plan, sched));
    let mut out = None;
    let o = SendPtr(&mut out);
    random(mix(sched.seed ^ 0x4a5b));
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn_scoped(s, move || {
                let arg = arg;
                let o = o;
                thread_altstack();
                let SendPtr((plan, sched)) = arg;
                rayon_core::sim::configure(sched.width as usize, sched.injected);
                let cfg = sched.ccfg();
                let mut r = run(&cfg, Box::new(|| exec(plan)));
                let (j, st, inl) = rayon_core::sim::counters();
                r.counts.push(("pool:joins", j));
                r.counts.push(("fault:steal", st));
                r.counts.push(("pool:inline", inl));
                let SendPtr(o) = o;
                *o = Some(r);
            })
            .unwrap();
    });
    let mut r: RunOut = out.unwrap();
    for x in &r.races {
        let (class, what) = match x.kind {
            1 => ("race", "unsynchronised conflicting accesses"),
            2 => ("use-after-free", "access to freed memory"),
            _ => ("wild-access", "access to heap memory never handed out"),
        };
        let rw = |w: u32| if w != 0 { "write" } else { "read" };
        r.viols.push(Viol {
            prop: if matches!(plan, Plan::Probe(_)) && sched.aliasing { "C23" } else { "C19" }.into(),
            class: class.into(),
            msg: format!(
                "{}: {} of {} bytes by thread {} at pc {:#x}; other side: {} by thread {} at pc {:#x}",
                what, rw(x.write_a), x.size, x.fiber_a, x.pc, rw(x.write_b), x.fiber_b, x.pc_b
            ),
        });
    }
    if r.stats.blocked_by_stall > 0 {
        r.viols.push(Viol {
            prop: "C20".into(),
            class: "blocked".into(),
            msg: "a thread was blocked by another, stalled, thread".into(),
        });
    }
    r
}

fn relevant<'a>(prop: &str, v: &'a [Viol]) -> Vec<&'a Viol> {
    v.iter().filter(|v| v.prop == prop || v.prop == "*").collect()
}

fn out(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn warm_up(plan: &Plan, sched: &Sched) {
    // lazily created global state must not live in the per-run arena
    arena(false);
    let _ = run_case(plan, sched);
    arena(true);
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x));
    }
    h
}

fn batch(a: &[String]) {
    let (prop, tier) = (a[0].as_str(), a[1].as_str());
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, to, stride, budget_ms) = (n(2), n(3), n(4), n(5), n(6));
    let stop = map_stop(&a[7]);
    let wanted: Vec<String> = a.get(8).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let t0 = std::time::Instant::now();
    let (_, p, s) = gen_case("C01", "quick", 1, 0);
    warm_up(&p, &s);
    let mut counts: std::collections::BTreeMap<String, u64> = Default::default();
    let mut fired: std::collections::BTreeMap<String, u64> = Default::default();
    let mut tot = Stats::default();
    let mut hashes: Vec<u64> = vec![];
    let mut ran = 0u64;
    let mut nontrivial = 0u64;
    let mut max_steps = 0u64;
    let mut samples = vec![];
    let mut strat: std::collections::BTreeMap<String, u64> = Default::default();
    let mut i = from;
    let mut t_flush = t0;
    // counters are handed over now and then: a run that ends the process must not take them all with it
    macro_rules! flush {
        ($part:expr) => {
            out(&format!(
                "STATS {}",
                json!({"part": $part, "runs": ran, "counts": counts, "runs_with": fired, "hashes": hashes, "nontrivial": nontrivial,
                    "samples": samples, "strategies": strat, "next": i, "max_steps": max_steps,
                    "steps": tot.steps, "switches": tot.switches, "preemptions": tot.preemptions, "stalls": tot.stalls,
                    "blocked": tot.blocked, "fibers": tot.fibers, "atomics": tot.atomics, "plains": tot.plains,
                    "cas_fail": tot.cas_fail, "parallel_steps": tot.parallel_steps, "pct_changes": tot.pct_changes,
                    "wall_ms": t_flush.elapsed().as_millis() as u64})
            ));
        };
    }
    while i < to {
        if unsafe { std::ptr::read_volatile(stop) } < i || t0.elapsed().as_millis() as u64 > budget_ms {
            break;
        }
        let (name, plan, sched) = gen_case(prop, tier, seed, i);
        set_index(i);
        alarm(20, 300);
        let r = run_case(&plan, &sched);
        ran += 1;
        *strat.entry(format!("{}/{}{}", name, sched.strategy, if sched.fine { "+fine" } else { "" })).or_default() += 1;
        let mut faults = r.stats.stalls;
        for (k, c) in &r.counts {
            if *c > 0 {
                *counts.entry(k.to_string()).or_default() += c;
                *fired.entry(k.to_string()).or_default() += 1;
            }
            if k.starts_with("fault:") {
                faults += c;
            }
        }
        let pv = to_value(&plan);
        let ph = hash_bytes(pv.to_string().as_bytes());
        if r.stats.preemptions + faults > 0 {
            nontrivial += 1;
            if hashes.len() < 400_000 {
                hashes.push(mix(ph ^ r.stats.sched_hash));
            }
        }
        if samples.len() < 2 && r.stats.preemptions > 0 && pv.to_string().len() < 3000 {
            samples.push(json!({"index": i, "scenario": name, "plan": pv, "sched": sched,
                "preemptions": r.stats.preemptions, "decisions": r.trace.iter().take(30).collect::<Vec<_>>()}));
        }
        max_steps = max_steps.max(r.stats.steps);
        macro_rules! add { ($($f:ident),*) => { $( tot.$f += r.stats.$f; )* } }
        add!(steps, switches, preemptions, stalls, blocked, fibers, atomics, plains, cas_fail, races, futex_waits,
             sleeps, parallel_steps, pct_changes, blocked_by_stall);
        let rel = relevant(prop, &r.viols);
        let rel: Vec<&Viol> = rel.into_iter().filter(|v| !wanted.iter().any(|w| *w == v.class)).collect();
        if !rel.is_empty() {
            out(&format!("VIOL {}", json!({"index": i, "viols": rel})));
            unsafe {
                if i < std::ptr::read_volatile(stop) {
                    std::ptr::write_volatile(stop, i);
                }
            }
            break;
        }
        i += stride;
        if t_flush.elapsed().as_secs() >= 3 {
            flush!(true);
            t_flush = std::time::Instant::now();
            (ran, nontrivial, max_steps) = (0, 0, 0);
            tot = Stats::default();
            counts.clear();
            fired.clear();
            strat.clear();
            hashes.clear();
        }
    }
    flush!(false);
}

fn map_stop(path: &str) -> *mut u64 {
    extern "C" {
        fn open(p: *const i8, fl: i32, ...) -> i32;
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = open(c.as_ptr(), 2);
        assert!(fd >= 0, "stop file");
        let p = mmap(std::ptr::null_mut(), 8, 3, 1, fd, 0) as *mut u64;
        assert!(p as isize != -1);
        set_stop_word(p);
        p
    }
}

/// One candidate after the other; a fatal outcome ends the process with a FATAL line.
fn exec_file(a: &[String]) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    if let Some(t) = a.get(1) {
        let c = std::ffi::CString::new(t.as_str()).unwrap();
        set_trace_path(&c);
        std::mem::forget(c);
    }
    let (_, p, s) = gen_case("C01", "quick", 1, 0);
    warm_up(&p, &s);
    for (i, c) in v["cases"].as_array().unwrap().iter().enumerate() {
        let case: Result<Case, _> = serde_json::from_value(c.clone());
        let Ok(case) = case else {
            out(&format!("RES {}", json!({"i": i, "bad": true})));
            continue;
        };
        let Ok(plan) = parse(&case.scenario, &case.plan) else {
            out(&format!("RES {}", json!({"i": i, "bad": true})));
            continue;
        };
        set_index(i as u64);
        alarm(20, 300);
        let r = run_case(&plan, &case.sched);
        out(&format!(
            "RES {}",
            json!({"i": i, "viols": r.viols, "trace": r.trace, "steps": r.stats.steps,
                "hash": format!("{:016x}", r.stats.sched_hash), "counts": r.counts,
                "parallel_steps": r.stats.parallel_steps})
        ));
    }
}

fn main() {
    install_panic_hook();
    install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("batch") => batch(&a[1..]),
        Some("exec") => exec_file(&a[1..]),
        Some("case") => {
            let (name, plan, sched) =
                gen_case(&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            out(&json!({"scenario": name, "plan": to_value(&plan), "sched": sched}).to_string());
        }
        // per-run digest of everything observable, for the determinism self-test
        Some("digest") => {
            let (prop, tier) = (a[1].as_str(), a[2].as_str());
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (_, p, s) = gen_case("C01", "quick", 1, 0);
            warm_up(&p, &s);
            let mut i = n(4);
            while i < n(5) {
                let (_, plan, sched) = gen_case(prop, tier, n(3), i);
                set_index(i);
                alarm(20, 300);
                let r = run_case(&plan, &sched);
                let mut counts = r.counts.clone();
                counts.sort();
                out(&format!(
                    "{} {:016x} {} {} {} {} {:016x}",
                    i, r.stats.sched_hash, r.stats.steps, r.stats.atomics, r.stats.plains, r.stats.heap_bytes,
                    hash_bytes(format!("{:?}{:?}{:?}", r.viols, counts, r.trace).as_bytes())
                ));
                i += n(6);
            }
        }
        _ => {
            eprintln!("usage: gsim batch|exec|case|digest ...");
            std::process::exit(70);
        }
    }
}
