//! Safe(ish) face of rt.c plus the per-run collectors of the harness.
use std::alloc::{GlobalAlloc, Layout};
use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct CCfg {
    pub strategy: u32,
    pub fine: u32,
    pub seed: u64,
    pub p_mille: u32,
    pub quantum: u32,
    pub pct_depth: u32,
    pub est_len: u32,
    pub nstalls: u32,
    pub race: u32,
    pub max_steps: u64,
    pub trace: usize,
    pub ntrace: u32,
    pub stall_max: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub blocked: u64,
    pub fibers: u64,
    pub max_live: u64,
    pub atomics: u64,
    pub plains: u64,
    pub cas_fail: u64,
    pub races: u64,
    pub futex_waits: u64,
    pub sleeps: u64,
    pub sched_hash: u64,
    pub heap_bytes: u64,
    pub parallel_steps: u64,
    pub pct_changes: u64,
    pub blocked_by_stall: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Race {
    pub kind: u32,
    pub fiber_a: u32,
    pub fiber_b: u32,
    pub write_a: u32,
    pub write_b: u32,
    pub size: u32,
    pub addr_off: u64,
    pub pc: u64,
    pub pc_b: u64,
}

extern "C" {
    fn rt_run(c: *const CCfg, f: extern "C" fn(*mut u8), arg: *mut u8) -> i32;
    fn rt_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
    fn rt_join(h: u32);
    fn rt_yield();
    fn rt_yield_forced();
    fn rt_nlive() -> u32;
    fn rt_quiet_inc();
    fn rt_quiet_dec();
    fn rt_quiet_get() -> i32;
    fn rt_quiet_set(q: i32);
    fn rt_gseq() -> u64;
    fn rt_on() -> i32;
    fn rt_self() -> u32;
    fn rt_self_step() -> u64;
    fn rt_num_stalled() -> u32;
    fn rt_set_panicking(cb: extern "C" fn() -> i32);
    fn rt_get_stats(o: *mut Stats);
    fn rt_get_races(o: *mut Race, max: u32) -> u32;
    fn rt_get_trace(o: *mut u64, max: u32) -> u32;
    fn rt_arena(on: i32);
    fn rt_arena_replace(pat: *const u32, new: *const u32, n: u32) -> u32;
    fn rt_random(seed: u64);
    fn rt_sysheap(d: i32) -> i32;
    fn rt_sysheap_set(v: i32);
    fn rt_alloc(size: u64, align: u64, zero: i32) -> *mut u8;
    fn rt_dealloc(p: *mut u8, size: u64, align: u64);
    fn rt_realloc(p: *mut u8, size: u64, align: u64, nsize: u64) -> *mut u8;
    fn rt_install_handlers();
    fn rt_thread_altstack();
    fn rt_set_index(i: u64);
    fn rt_set_note(p: *const u8, n: u64);
    fn rt_set_stop_word(p: *mut u64);
    fn rt_set_trace_path(p: *const u8);
    fn rt_alarm(cpu: u32, real: u32);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 0)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_dealloc(p, l.size() as u64, l.align() as u64)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 1)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt_realloc(p, l.size() as u64, l.align() as u64, n as u64)
    }
}

// ------------------------------------------------------------------ plain wrappers

pub fn on() -> bool {
    unsafe { rt_on() != 0 }
}
pub fn seq() -> u64 {
    unsafe { rt_gseq() }
}
pub fn me() -> u32 {
    unsafe { rt_self() }
}
pub fn own_step() -> u64 {
    unsafe { rt_self_step() }
}
pub fn yield_now() {
    unsafe { rt_yield() }
}
pub fn yield_forced() {
    unsafe { rt_yield_forced() }
}
pub fn nlive() -> u32 {
    unsafe { rt_nlive() }
}
pub fn num_stalled() -> u32 {
    unsafe { rt_num_stalled() }
}
pub fn install() {
    unsafe { rt_install_handlers() }
}
pub fn thread_altstack() {
    unsafe { rt_thread_altstack() }
}
pub fn set_index(i: u64) {
    unsafe { rt_set_index(i) }
}
pub fn note(s: &str) {
    unsafe { rt_set_note(s.as_ptr(), s.len() as u64) }
}
pub fn set_stop_word(p: *mut u64) {
    unsafe { rt_set_stop_word(p) }
}
pub fn set_trace_path(p: &std::ffi::CStr) {
    unsafe { rt_set_trace_path(p.as_ptr() as *const u8) }
}
pub fn alarm(cpu: u32, real: u32) {
    unsafe { rt_alarm(cpu, real) }
}
/// Decides every byte the operating system's random source gives in the coming run.
pub fn random(seed: u64) {
    unsafe { rt_random(seed) }
}

pub fn arena(on: bool) {
    unsafe { rt_arena(on as i32) }
}

/// Harness bookkeeping: no scheduling points, no race recording.  Nothing inside may unwind
/// into code that expects the counter to be balanced, hence the drop guard.
pub struct Quiet;
impl Quiet {
    #[inline]
    pub fn new() -> Quiet {
        unsafe { rt_quiet_inc() };
        Quiet
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        unsafe { rt_quiet_dec() };
    }
}
#[inline]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::new();
    f()
}

/// Quiet, and allocations come from the system heap (they outlive the run).
pub struct Sys(Quiet);
impl Sys {
    pub fn new() -> Sys {
        let q = Quiet::new();
        unsafe { rt_sysheap(1) };
        Sys(q)
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        unsafe { rt_sysheap(-1) };
    }
}
pub fn sys<R>(f: impl FnOnce() -> R) -> R {
    let _s = Sys::new();
    f()
}

// ------------------------------------------------------------------ per-run collectors

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Coll {
    pub viols: Vec<Viol>,
    pub counts: Vec<(&'static str, u64)>,
    pub last_panic: String,
    pub vals: Vals,
    pub plan_len: u64,
}

pub struct Single<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Single<T> {}
impl<T> Single<T> {
    pub const fn new() -> Self {
        Single(UnsafeCell::new(None))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { (*self.0.get()).as_mut().unwrap() }
    }
    pub fn set(&self, t: T) -> Option<T> {
        unsafe { (*self.0.get()).replace(t) }
    }
    pub fn take(&self) -> Option<T> {
        unsafe { (*self.0.get()).take() }
    }
    pub fn is_set(&self) -> bool {
        unsafe { (*self.0.get()).is_some() }
    }
}
pub static COLL: Single<Coll> = Single::new();

pub fn viol(prop: &str, class: &str, msg: String) {
    let _s = Sys::new();
    let c = COLL.get();
    if c.viols.len() < 40 {
        c.viols.push(Viol { prop: prop.to_string(), class: class.to_string(), msg: msg.as_str().to_string() });
    }
}
#[macro_export]
macro_rules! viol {
    ($p:expr, $c:expr, $($a:tt)*) => {{
        let _q = $crate::rt::Sys::new();
        $crate::rt::viol($p, $c, format!($($a)*));
    }};
}
pub fn count(name: &'static str, n: u64) {
    let _s = Sys::new();
    let c = COLL.get();
    for e in c.counts.iter_mut() {
        if e.0.as_ptr() == name.as_ptr() || e.0 == name {
            e.1 += n;
            return;
        }
    }
    c.counts.push((name, n));
}
pub fn hit(name: &'static str) {
    count(name, 1)
}

// ------------------------------------------------------------------ panics

/// Payload of every panic the harness injects.
pub struct Injected(pub u32);

pub enum Caught {
    Injected(u32),
    Other(String),
}

extern "C" fn panicking_cb() -> i32 {
    std::thread::panicking() as i32
}

pub fn install_panic_hook() {
    unsafe { rt_set_panicking(panicking_cb) };
    std::panic::set_hook(Box::new(|info| {
        if !on() {
            let m = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("gsim: panic outside simulation: {} at {:?}", m, info.location());
            return;
        }
        let _s = Sys::new();
        if !COLL.is_set() {
            return;
        }
        let m: &str = if let Some(s) = info.payload().downcast_ref::<String>() {
            s
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", m, loc);
        COLL.get().last_panic = text;
    }));
}

pub fn inject(id: u32) -> ! {
    hit("fault:panic");
    std::panic::panic_any(Injected(id))
}

/// Run code under test that may panic.  The quiet depth is restored on unwinding.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let q = unsafe { rt_quiet_get() };
    let sh = unsafe { rt_sysheap(0) };
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            unsafe {
                rt_quiet_set(q);
                rt_sysheap_set(sh)
            };
            Err(classify(p))
        }
    }
}
/// Run something inside a destructor that runs because of an injected panic.  An unwinding thread keeps the
/// processor, so this must not wait for others.
pub fn unwinding<F: FnOnce()>(f: F) {
    struct G<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for G<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    hit("fault:unwinding");
    let _ = attempt(|| {
        let _g = G(Some(f));
        inject(u32::MAX)
    });
}
pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    let _q = Quiet::new();
    if let Some(i) = p.downcast_ref::<Injected>() {
        let c = Caught::Injected(i.0);
        drop(p);
        return c;
    }
    let m = if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "non-string panic".to_string()
    };
    drop(p);
    Caught::Other(m)
}

// ------------------------------------------------------------------ fibers

struct SpawnBox<F: FnOnce()> {
    f: Option<F>,
}
extern "C" fn tramp<F: FnOnce()>(p: *mut u8) {
    let b = unsafe { &mut *(p as *mut SpawnBox<F>) };
    let f = b.f.take().unwrap();
    match attempt(f) {
        Ok(()) => {}
        Err(Caught::Injected(i)) => {
            viol!("*", "escaped-panic", "injected panic {} escaped a simulated thread", i)
        }
        Err(Caught::Other(_)) => {
            let m = COLL.get().last_panic.clone();
            viol!("*", "unexpected-panic", "unexpected panic in a simulated thread: {}", m)
        }
    }
}

/// Run the closures as simulated threads and wait for all of them.
pub fn threads<'a>(fs: Vec<Box<dyn FnOnce() + 'a>>) {
    type B<'a> = SpawnBox<Box<dyn FnOnce() + 'a>>;
    let mut boxes: Vec<B<'a>> = {
        let _q = Quiet::new();
        fs.into_iter().map(|f| SpawnBox { f: Some(f) }).collect()
    };
    let mut hs = {
        let _q = Quiet::new();
        Vec::with_capacity(boxes.len())
    };
    for b in boxes.iter_mut() {
        let h = unsafe { rt_spawn(tramp::<Box<dyn FnOnce() + 'a>>, b as *mut B<'a> as *mut u8) };
        quiet(|| hs.push(h));
    }
    for h in hs.iter() {
        unsafe { rt_join(*h) };
    }
    quiet(|| {
        drop(boxes);
        drop(hs);
    });
}

type Res<T> = Result<T, Box<dyn Any + Send>>;
struct Slot<F, T> {
    f: Option<F>,
    r: Option<Res<T>>,
}
fn caught<T>(f: impl FnOnce() -> T) -> Res<T> {
    let (q, sh) = unsafe { (rt_quiet_get(), rt_sysheap(0)) };
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        unsafe {
            rt_quiet_set(q);
            rt_sysheap_set(sh)
        }
    }
    r
}
extern "C" fn slot_tramp<F: FnOnce() -> T, T>(p: *mut u8) {
    let s = unsafe { &mut *(p as *mut Slot<F, T>) };
    let f = s.f.take().unwrap();
    s.r = Some(caught(f));
}
/// Runs both; `sa` / `sb` say which of them get a simulated thread of their own.  Panics are
/// delivered once both have finished, the first side's first.
pub fn join2<A, B, RA, RB>(a: A, b: B, sa: bool, sb: bool) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let mut a = Slot { f: Some(a), r: None };
    let mut b = Slot { f: Some(b), r: None };
    let ha = if sa { Some(unsafe { rt_spawn(slot_tramp::<A, RA>, &mut a as *mut _ as *mut u8) }) } else { None };
    let hb = if sb { Some(unsafe { rt_spawn(slot_tramp::<B, RB>, &mut b as *mut _ as *mut u8) }) } else { None };
    if ha.is_none() {
        slot_tramp::<A, RA>(&mut a as *mut _ as *mut u8);
    }
    if hb.is_none() {
        slot_tramp::<B, RB>(&mut b as *mut _ as *mut u8);
    }
    for h in [ha, hb].into_iter().flatten() {
        unsafe { rt_join(h) };
    }
    match (a.r.take().unwrap(), b.r.take().unwrap()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), _) | (_, Err(p)) => std::panic::resume_unwind(p),
    }
}

// ------------------------------------------------------------------ one run

pub struct RunOut {
    pub viols: Vec<Viol>,
    pub counts: Vec<(&'static str, u64)>,
    pub stats: Stats,
    pub races: Vec<Race>,
    pub trace: Vec<[u64; 3]>,
}

struct MainArg<'a> {
    f: Option<Box<dyn FnOnce() + 'a>>,
}
extern "C" fn main_tramp(p: *mut u8) {
    let a = unsafe { &mut *(p as *mut MainArg) };
    let f = a.f.take().unwrap();
    match attempt(f) {
        Ok(()) => {}
        Err(Caught::Injected(i)) => viol!("*", "escaped-panic", "injected panic {} escaped", i),
        Err(Caught::Other(_)) => {
            let m = COLL.get().last_panic.clone();
            viol!("*", "unexpected-panic", "unexpected panic: {}", m)
        }
    }
}

pub fn run(cfg: &CCfg, f: Box<dyn FnOnce() + '_>) -> RunOut {
    COLL.set(Coll::default());
    let mut a = MainArg { f: Some(f) };
    unsafe { rt_run(cfg, main_tramp, &mut a as *mut MainArg as *mut u8) };
    let coll = COLL.take().unwrap();
    let mut stats = Stats::default();
    unsafe { rt_get_stats(&mut stats) };
    let mut races = vec![Race::default(); 8];
    let n = unsafe { rt_get_races(races.as_mut_ptr(), 8) } as usize;
    races.truncate(n);
    let nt = unsafe { rt_get_trace(std::ptr::null_mut(), 0) } as usize;
    let mut trace = vec![[0u64; 3]; nt];
    unsafe { rt_get_trace(trace.as_mut_ptr() as *mut u64, nt as u32) };
    RunOut { viols: coll.viols, counts: coll.counts, stats, races, trace }
}

// ------------------------------------------------------------------ instrumented values

pub const ALIVE: u64 = 0x600d_0bec_7a11_a11e;
pub const DEAD: u64 = 0xdead_0bec_dead_dead;

#[derive(Default)]
pub struct Vals {
    /// per id: number of times dropped
    pub dropped: Vec<u8>,
    /// ids whose destructor panics (once)
    pub bombs: Vec<u32>,
    /// ids whose clone panics (once)
    pub clone_bombs: Vec<u32>,
    pub garbage: u32,
    pub no_bombs: bool,
}

/// A value with an identity whose every drop is recorded.
pub struct Val {
    pub magic: u64,
    pub id: u32,
    pub src: u32,
    pub payload: u64,
}

impl Val {
    pub fn new(payload: u64) -> Val {
        let _s = Sys::new();
        let v = &mut COLL.get().vals;
        let id = v.dropped.len() as u32;
        v.dropped.push(0);
        Val { magic: ALIVE, id, src: u32::MAX, payload }
    }
    #[inline]
    pub fn ok(&self) -> bool {
        self.magic == ALIVE
    }
    pub fn arm(&self) {
        let _s = Sys::new();
        COLL.get().vals.bombs.push(self.id);
    }
    pub fn arm_clone(&self) {
        let _s = Sys::new();
        COLL.get().vals.clone_bombs.push(self.id);
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        let fire = {
            let _s = Sys::new();
            let v = &mut COLL.get().vals;
            match v.clone_bombs.iter().position(|b| *b == self.id) {
                Some(p) => {
                    v.clone_bombs.swap_remove(p);
                    true
                }
                None => false,
            }
        };
        if fire {
            hit("fault:clone_panic");
            inject(self.id);
        }
        let mut n = Val::new(self.payload);
        n.src = self.id;
        n
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let fire = {
            let _s = Sys::new();
            let v = &mut COLL.get().vals;
            if self.magic != ALIVE || self.id as usize >= v.dropped.len() {
                v.garbage += 1;
                let kind = if self.magic == DEAD || self.magic == 0xDDDD_DDDD_DDDD_DDDD {
                    "a value was dropped after it had been dropped or its memory freed"
                } else {
                    "a destructor ran on memory that never held a value"
                };
                let m = format!("{} (magic {:#x})", kind, self.magic);
                viol("C09", "bad-drop", m.clone());
                viol("C08", "bad-drop", m.clone());
                viol("C19", "bad-drop", m);
                false
            } else {
                let d = &mut v.dropped[self.id as usize];
                *d += 1;
                if *d > 1 {
                    let m = format!("value {} dropped {} times", self.id, *d);
                    viol("C09", "double-drop", m);
                }
                self.magic = DEAD;
                match v.bombs.iter().position(|b| *b == self.id) {
                    Some(p) if !v.no_bombs && !std::thread::panicking() => {
                        v.bombs.swap_remove(p);
                        true
                    }
                    _ => false,
                }
            }
        };
        if fire {
            hit("fault:destructor_panic");
            inject(self.id);
        }
    }
}
pub fn vals() -> &'static mut Vals {
    &mut COLL.get().vals
}
pub fn was_dropped(id: u32) -> bool {
    vals().dropped[id as usize] > 0
}
pub fn disarm_all() {
    let v = vals();
    v.bombs.clear();
    v.clone_bombs.clear();
}

// ------------------------------------------------------------------ randomness for plans

#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0xabcdef))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    pub fn sel(&mut self) -> u32 {
        self.below(1 << 16) as u32
    }
}

/// Ages a table of the code under test: the one place in the run's heap that holds `pat` is overwritten with `new`.
pub fn heap_replace(pat: &[u32], new: &[u32]) -> bool {
    assert_eq!(pat.len(), new.len());
    unsafe { rt_arena_replace(pat.as_ptr(), new.as_ptr(), pat.len() as u32) == 1 }
}
