//! The face of the simulator that the program pairs see, for asking the compiler about them.
include!("../common.rs");
pub struct Cx;
impl Cx {
    /// both at once: `a` on another thread, `b` on this one
    pub fn par(&self, _a: impl FnOnce() + Send, _b: impl FnOnce()) {}
    pub fn both<A, B>(&self, _: &A, _: &mut B) {}
    pub fn both_mut<A, B>(&self, _: &mut A, _: &mut B) {}
    pub fn read(&self, _: &u64) {}
    pub fn bump(&self, _: &mut u64) {}
    pub fn changed(&self, _: &u64, _: u64) {}
    pub fn expect<T: PartialEq + std::fmt::Debug>(&self, _: T, _: T) {}
}
