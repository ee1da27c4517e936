//! What the program pairs of S10 see.  The same face, without a body, is in ../probe/src/lib.rs.
include!("../probe/common.rs");
use crate::rt::{self, *};

pub struct Cx;

fn report(class: &str, msg: &str) {
    for p in ["C23", "C19"] {
        viol!(p, class, "{}", msg);
    }
}
fn overlap<A, B>(a: *const A, b: *const B) -> bool {
    let (x, n) = (a as usize, std::mem::size_of::<A>());
    let (y, m) = (b as usize, std::mem::size_of::<B>());
    x < y + m && y < x + n
}
impl Cx {
    pub fn par(&self, a: impl FnOnce() + Send, b: impl FnOnce()) {
        let v: Vec<Box<dyn FnOnce() + '_>> = quiet(|| {
            vec![
                Box::new(move || drop(attempt(a))) as Box<dyn FnOnce() + '_>,
                Box::new(move || drop(attempt(b))),
            ]
        });
        threads(v);
    }
    pub fn both<A, B>(&self, a: &A, b: &mut B) {
        rt::hit("probe:two_references");
        if overlap(a as *const A, b as *const B) {
            report("alias", "safe code holds a shared and a mutable reference to one value");
        }
    }
    pub fn both_mut<A, B>(&self, a: &mut A, b: &mut B) {
        rt::hit("probe:two_references");
        if overlap(a as *const A, b as *const B) {
            report("alias", "safe code holds two mutable references to one value");
        }
    }
    pub fn read(&self, x: &u64) {
        std::hint::black_box(unsafe { std::ptr::read_volatile(x) });
    }
    pub fn bump(&self, x: &mut u64) {
        unsafe { std::ptr::write_volatile(x, std::ptr::read_volatile(x).wrapping_add(1)) }
    }
    /// the value behind a shared reference must not change
    pub fn changed(&self, x: &u64, want: u64) {
        let v = unsafe { std::ptr::read_volatile(x) };
        if v != want {
            report("changed", "the value behind a shared reference changes while the reference is held");
        }
    }
    pub fn expect<T: PartialEq + std::fmt::Debug>(&self, a: T, b: T) {
        if a != b {
            report("wild", "safe code reads a value that was never stored there");
        }
    }
}
