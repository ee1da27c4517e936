// What the program pairs are made of; shared by the crate that asks the compiler and by the simulator.
pub use goggles::system::ParList;
pub use goggles::rayon::iter::ParallelIterator;
pub use goggles::*;
pub use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
pub use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub trait Touch {
    fn touch(&self);
}
/// may be sent, must not be shared
#[derive(Default)]
pub struct No(Cell<u64>);
/// may be shared
#[derive(Default)]
pub struct Yes(AtomicU64);
/// must stay on its thread
#[derive(Default, Clone)]
pub struct Loc(Rc<Cell<u64>>);
/// may go anywhere
#[derive(Default, Clone)]
pub struct Glo(Arc<Yes>);
/// may be shared (nothing can be done through `&Tok`) but must not be sent; the two halves count together
pub struct Tok(Rc<Cell<u64>>);
unsafe impl Sync for Tok {}
/// the same, but may be sent
pub struct Atok(Arc<Yes>);
pub trait Halves: Sized {
    fn halves() -> (Self, Self);
    fn poke(&mut self);
}
impl Halves for Tok {
    fn halves() -> (Tok, Tok) {
        let r = Rc::new(Cell::new(0));
        (Tok(r.clone()), Tok(r))
    }
    fn poke(&mut self) {
        let r = self.0.clone();
        r.set(r.get() + 1);
    }
}
impl Halves for Atok {
    fn halves() -> (Atok, Atok) {
        let r = Arc::new(Yes::default());
        (Atok(r.clone()), Atok(r))
    }
    fn poke(&mut self) {
        let r = self.0.clone();
        r.touch();
    }
}
impl Touch for No {
    fn touch(&self) {
        self.0.set(self.0.get() + 1);
    }
}
impl Touch for Yes {
    fn touch(&self) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
impl Touch for Loc {
    fn touch(&self) {
        let r = self.0.clone();
        r.set(r.get() + 1);
    }
}
impl Touch for Glo {
    fn touch(&self) {
        let r = self.0.clone();
        r.touch();
    }
}
impl<'a, T: Touch> Touch for &'a T {
    fn touch(&self) {
        (**self).touch()
    }
}

macro_rules! comps {
    ($($n:ident = $s:ty;)*) => { $(
        #[derive(Default, Clone, Debug)]
        pub struct $n<T>(pub T);
        impl<T> Component for $n<T> {
            type Storage = $s;
        }
    )* };
}
comps! {
    CVec = VecStorage<CVec<T>>;
    CDense = DenseVecStorage<CDense<T>>;
    CHash = HashMapStorage<CHash<T>>;
    CFVec = Flagged<VecStorage<CFVec<T>>>;
    CFHash = Flagged<HashMapStorage<CFHash<T>>>;
}

pub struct NoErr;
impl SystemError for NoErr {
    fn combine(self, _: Self) -> Self {
        self
    }
}
type Res = RwResources<u32>;
pub struct Member<T>(pub T);
impl<T: Touch> System<()> for Member<T> {
    type Resources = Res;
    type Pool = RayonPool;
    type Error = NoErr;
    fn check_resources(&self) -> Result<Res, ResourceConflict> {
        Ok(Res::new())
    }
    fn run(&mut self, _: &RayonPool, _: ()) -> Result<(), NoErr> {
        self.0.touch();
        Ok(())
    }
}
pub struct Toucher;
impl<'a, T: Touch> System<&'a T> for Toucher {
    type Resources = Res;
    type Pool = RayonPool;
    type Error = NoErr;
    fn check_resources(&self) -> Result<Res, ResourceConflict> {
        Ok(Res::new())
    }
    fn run(&mut self, _: &RayonPool, t: &'a T) -> Result<(), NoErr> {
        t.touch();
        Ok(())
    }
}
/// a pool that counts what it is asked for
pub struct APool<T>(pub T);
impl<T: Touch> Pool for APool<T> {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.0.touch();
        RayonPool.join(a, b)
    }
}
pub struct Idle<T>(PhantomData<fn() -> T>);
pub fn idle<T>(_: &APool<T>) -> Idle<T> {
    Idle(PhantomData)
}
impl<T: Touch> System<()> for Idle<T> {
    type Resources = Res;
    type Pool = APool<T>;
    type Error = NoErr;
    fn check_resources(&self) -> Result<Res, ResourceConflict> {
        Ok(Res::new())
    }
    fn run(&mut self, _: &APool<T>, _: ()) -> Result<(), NoErr> {
        Ok(())
    }
}
