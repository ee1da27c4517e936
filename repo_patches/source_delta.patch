From bc620e1f97bf0d01a03bf1fa1763b0970f1c1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 01/13] fix: looking up an entity index beyond the bitset limit
 answers None instead of panicking

---
 src/entity.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..084290e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -47,6 +47,10 @@ impl Entity {
     }
 }
 
+// The number of indexes that fit in a (four layer) hierarchical bitset.  No entity can have an index
+// at or beyond this limit, and `AtomicBitSet::contains` must not be asked about one.
+const MAX_BITSET_LEN: usize = (8 * std::mem::size_of::<usize>()).pow(4);
+
 pub type LiveBitSet<'a> = BitSetOr<&'a BitSet, &'a AtomicBitSet>;
 
 #[derive(Debug, Default)]
@@ -134,7 +138,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if (index as usize) < MAX_BITSET_LEN && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
-- 
2.43.0


From 5e3ab2cebdea25e8a30741a5f41b617ab2d94149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 02/13] fix: get_or_insert_with leaves the index vacant when
 its closure panics

---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..6cad736 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // If `f` panics, the mask must not claim that there is a value here.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 28a7b39f98951cd4bf4bdcc9ec5708355af2a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 03/13] fix: a panicking component destructor no longer leaves
 the remaining components of dead entities behind

---
 src/world.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b086773..6c7c5be 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -1,7 +1,8 @@
 use std::{
-    any::TypeId,
+    any::{Any, TypeId},
     marker::PhantomData,
     ops::{Deref, DerefMut},
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
 };
 
 use atomic_refcell::{AtomicRef, AtomicRefMut};
@@ -50,9 +51,7 @@ impl World {
 
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &[e]);
-        }
+        self.remove_all_components(&[e]);
         Ok(())
     }
 
@@ -120,9 +119,9 @@ impl World {
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
                 let mut storage = resource_set.borrow_mut::<ComponentStorage<C>>();
-                for e in entities {
+                finish_then_panic(entities, |e| {
                     storage.remove(e.index());
-                }
+                });
             }),
         );
         self.components.insert(ComponentStorage::<C>::default())
@@ -207,10 +206,29 @@ impl World {
     /// No entity is actually removed until this method is called.
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &self.killed);
+        self.remove_all_components(&self.killed);
+    }
+
+    // A panic while removing one component must not leave behind the rest of the components, as
+    // they would end up belonging to later entities with the same indexes.
+    fn remove_all_components(&self, entities: &[Entity]) {
+        finish_then_panic(self.remove_components.values(), |remove_component| {
+            remove_component(&self.components, entities)
+        });
+    }
+}
+
+// Calls `f` for every item, even if some of the calls panic, and then resumes the first panic.
+fn finish_then_panic<T>(items: impl IntoIterator<Item = T>, mut f: impl FnMut(T)) {
+    let mut panic: Option<Box<dyn Any + Send>> = None;
+    for item in items {
+        if let Err(payload) = catch_unwind(AssertUnwindSafe(|| f(item))) {
+            panic.get_or_insert(payload);
         }
     }
+    if let Some(payload) = panic {
+        resume_unwind(payload);
+    }
 }
 
 pub struct Entities<'a>(&'a Allocator);
-- 
2.43.0


From efa79c38f5917427dda95b2efcd614474bfed790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 04/13] fix: inserting a component at the first index past the
 bitset limit is refused instead of corrupting the presence set

---
 src/entity.rs |  2 +-
 src/masked.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 084290e..c95d9b3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -49,7 +49,7 @@ impl Entity {
 
 // The number of indexes that fit in a (four layer) hierarchical bitset.  No entity can have an index
 // at or beyond this limit, and `AtomicBitSet::contains` must not be asked about one.
-const MAX_BITSET_LEN: usize = (8 * std::mem::size_of::<usize>()).pow(4);
+pub(crate) const MAX_BITSET_LEN: usize = (8 * std::mem::size_of::<usize>()).pow(4);
 
 pub type LiveBitSet<'a> = BitSetOr<&'a BitSet, &'a AtomicBitSet>;
 
diff --git a/src/masked.rs b/src/masked.rs
index 6cad736..2c429ff 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -3,6 +3,7 @@ use std::mem;
 use hibitset::{BitIter, BitSet, BitSetLike};
 
 use crate::{
+    entity::MAX_BITSET_LEN,
     join::{Index, Join},
     storage::{DenseStorage, RawStorage},
     tracked::{ModifiedBitSet, TrackedStorage},
@@ -81,7 +82,7 @@ impl<S: RawStorage> MaskedStorage<S> {
         if !self.mask.contains(index) {
             // If `f` panics, the mask must not claim that there is a value here.
             let v = f();
-            self.mask.add(index);
+            self.add_index(index);
             unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
@@ -92,7 +93,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             mem::swap(&mut v, unsafe { self.storage.get_mut(index) });
             Some(v)
         } else {
-            self.mask.add(index);
+            self.add_index(index);
             unsafe { self.storage.insert(index, v) };
             None
         }
@@ -106,6 +107,17 @@ impl<S: RawStorage> MaskedStorage<S> {
         }
     }
 
+    // `BitSet::add` panics for indexes that do not fit, but it accepts the very first one of them
+    // and then corrupts the set: removing that index hides unrelated ones from iteration.
+    fn add_index(&mut self, index: Index) {
+        assert!(
+            (index as usize) < MAX_BITSET_LEN,
+            "component index {} is too large",
+            index
+        );
+        self.mask.add(index);
+    }
+
     /// Returns an `IntoJoin` type whose values are `GuardedJoin` wrappers.
     ///
     /// A `GuardedJoin` wrapper does not automatically call `RawStorage::get_mut`, so it can be
-- 
2.43.0


From a2cd76a0302669476497db8facadc4373874ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 05/13] fix: applying an empty dynamic component set to a dead
 entity reports the wrong generation

---
 src/any_components.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/any_components.rs b/src/any_components.rs
index c7a117b..2f0a02e 100644
--- a/src/any_components.rs
+++ b/src/any_components.rs
@@ -97,6 +97,10 @@ impl AnyComponentSet {
         world: &mut World,
         entity: Entity,
     ) -> Result<bool, WrongGeneration> {
+        if !world.entities().is_alive(entity) {
+            return Err(WrongGeneration);
+        }
+
         let mut overwritten = false;
         for (_, component) in self.components {
             overwritten |= component.insert_into_world(world, entity)?;
@@ -177,6 +181,10 @@ impl AnyCloneComponentSet {
         world: &mut World,
         entity: Entity,
     ) -> Result<bool, WrongGeneration> {
+        if !world.entities().is_alive(entity) {
+            return Err(WrongGeneration);
+        }
+
         let mut overwritten = false;
         for (_, component) in &self.components {
             overwritten |= component.clone_into_world(world, entity)?;
-- 
2.43.0


From 7d06d5627ea19b61363fbbd257aa6d8491ad908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 06/13] fix: a write still subsumes a read of the same resource
 after a union of access sets

---
 src/resources.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..bab14c1 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -120,6 +120,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
+            self.reads.remove(w);
             self.writes.insert(w.clone());
         }
 
-- 
2.43.0


From bd2c3d2daaec2376adf75601218db78336aec553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 07/13] fix: negating the symmetric difference of two
 unconstrained masks no longer passes as constrained

---
 src/join.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index f00a9e2..cf0245a 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -369,7 +369,8 @@ define_bit_join!(impl<'a> for &'a dyn BitSetLike);
 /// * A `BitSetAll` is unconstrained.
 /// * A `BitSetNot` is constrained if its inner type is unconstrained, and vice versa.
 /// * A `BitSetAnd` is constrained if either of its inner sets is constrained.
-/// * A `BitSetOr` or `BitSetXor` is constrained if *both* of its inner sets are constrained.
+/// * A `BitSetOr` is constrained if *both* of its inner sets are constrained.
+/// * A `BitSetXor` is constrained if either both or neither of its inner sets are constrained.
 pub trait BitSetConstrained: BitSetLike {
     fn is_constrained(&self) -> bool;
 }
@@ -431,6 +432,6 @@ where
     B: BitSetConstrained,
 {
     fn is_constrained(&self) -> bool {
-        self.0.is_constrained() && self.1.is_constrained()
+        self.0.is_constrained() == self.1.is_constrained()
     }
 }
-- 
2.43.0


From 6e68458818a41a2c756773c439cf901e7598dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 08/13] fix: mapping an access set onto fewer resources keeps a
 write subsuming a read

---
 src/resources.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index bab14c1..5797204 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,14 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        let writes: HashSet<R2> = self.writes.iter().map(&f).collect();
+        let reads: HashSet<R2> = self
+            .reads
+            .iter()
+            .map(&f)
+            .filter(|r| !writes.contains(r))
+            .collect();
+        RwResources { reads, writes }
     }
 
     pub fn add_read(&mut self, r: R) {
-- 
2.43.0


From 75aaf83f32131dfe51525310923e07d06514a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 09/13] fix: refuse to allocate an entity beyond what the
 bitsets can hold, before any state has changed

---
 src/entity.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index c95d9b3..321c6be 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -2,7 +2,6 @@ use std::{
     iter,
     num::NonZeroI32,
     sync::atomic::{AtomicU32, Ordering},
-    u32,
 };
 
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
@@ -150,7 +149,10 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
+            let index_len = index
+                .checked_add(1)
+                .filter(|&len| len <= MAX_INDEX)
+                .expect("no entity left to allocate");
             *self.index_len.get_mut() = index_len;
             self.update_generation_length();
             index
@@ -295,7 +297,8 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
+// All entity indexes are strictly less than this, no index may be outside of what a bitset can hold.
+const MAX_INDEX: Index = MAX_BITSET_LEN as Index;
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
-- 
2.43.0


From 8e0ad5c07e54355e0ae87de71c1eab69a1c8869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 10/13] fix: references obtained from a GuardedElement borrow
 it, so they cannot alias

---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 2c429ff..c0d90bf 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -248,11 +248,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From 64bbdea4125b9e33bbc9ae54daa515239ff3088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 11/13] fix: mutable access to the raw storage of a
 MaskedStorage is unsafe, replacing it would invalidate the mask

---
 src/masked.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index c0d90bf..7d329f5 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -34,7 +34,12 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// Returns mutable access to the underlying storage.
+    ///
+    /// # Safety
+    /// The underlying storage must continue to contain exactly the elements whose indexes are in
+    /// `MaskedStorage::mask`.  In particular, it must not be replaced by a different storage.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From f6f409e0f48fe8693ff9f7e959dec3aa8239abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 12/13] fix: mutable joins and guarded elements may only go to
 another thread if their items may

---
 src/masked.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7d329f5..54cae17 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{marker::PhantomData, mem};
 
 use hibitset::{BitIter, BitSet, BitSetLike};
 
@@ -9,6 +9,10 @@ use crate::{
     tracked::{ModifiedBitSet, TrackedStorage},
 };
 
+// Mutable joins only keep a shared reference to the storage internally, but whether the mutable access
+// they give may be moved to or shared with another thread must be decided as for a mutable reference.
+type MutMarker<'a, S> = PhantomData<&'a mut S>;
+
 /// Wraps a `RawStorage` for some component with a `BitSet` mask to provide a safe, `Join`-able
 /// interface for component storage.
 pub struct MaskedStorage<S: RawStorage> {
@@ -73,6 +77,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(GuardedElement {
                 storage: &self.storage,
                 index,
+                marker: PhantomData,
             })
         } else {
             None
@@ -195,15 +200,15 @@ impl<'a, S: RawStorage> Join for &'a MaskedStorage<S> {
 
 impl<'a, S: RawStorage> Join for &'a mut MaskedStorage<S> {
     type Item = &'a mut S::Item;
-    type Access = &'a S;
+    type Access = (&'a S, MutMarker<'a, S>);
     type Mask = &'a BitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
-        (&self.mask, &self.storage)
+        (&self.mask, (&self.storage, PhantomData))
     }
 
     unsafe fn get(access: &Self::Access, index: Index) -> Self::Item {
-        access.get_mut(index)
+        access.0.get_mut(index)
     }
 }
 
@@ -232,17 +237,18 @@ pub struct GuardedJoin<'a, S: RawStorage>(&'a mut MaskedStorage<S>);
 
 impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
     type Item = GuardedElement<'a, S>;
-    type Access = &'a S;
+    type Access = (&'a S, MutMarker<'a, S>);
     type Mask = &'a BitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
-        (&self.0.mask, &self.0.storage)
+        (&self.0.mask, (&self.0.storage, PhantomData))
     }
 
     unsafe fn get(access: &Self::Access, index: Index) -> Self::Item {
         GuardedElement {
-            storage: *access,
+            storage: access.0,
             index,
+            marker: PhantomData,
         }
     }
 }
@@ -250,6 +256,7 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
 pub struct GuardedElement<'a, S> {
     storage: &'a S,
     index: Index,
+    marker: MutMarker<'a, S>,
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
@@ -295,17 +302,17 @@ pub struct ModifiedJoinMut<'a, S: RawStorage>(&'a mut MaskedStorage<S>);
 
 impl<'a, S: TrackedStorage> Join for ModifiedJoinMut<'a, S> {
     type Item = Option<&'a mut S::Item>;
-    type Access = (&'a BitSet, &'a S);
+    type Access = (&'a BitSet, &'a S, MutMarker<'a, S>);
     type Mask = &'a ModifiedBitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
         (
             &self.0.storage.modified_indexes(),
-            (&self.0.mask, &self.0.storage),
+            (&self.0.mask, &self.0.storage, PhantomData),
         )
     }
 
-    unsafe fn get((mask, storage): &Self::Access, index: Index) -> Self::Item {
+    unsafe fn get((mask, storage, _): &Self::Access, index: Index) -> Self::Item {
         if mask.contains(index) {
             Some(storage.get_mut(index))
         } else {
-- 
2.43.0


From fb04fa1ecdfb801344455c7d69f5ad79f51197db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 13/13] fix: an index whose generations are used up is retired
 instead of making creation panic

---
 src/entity.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 321c6be..bac9d64 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -95,7 +95,9 @@ impl Allocator {
             *generation = generation.killed();
         }
 
-        self.cache.push(entity.index);
+        if self.generations[entity.index as usize].is_raisable() {
+            self.cache.push(entity.index);
+        }
 
         Ok(())
     }
@@ -228,7 +230,13 @@ impl Allocator {
         }
         self.killed_atomic.clear();
 
-        self.cache.extend(killed.iter().map(|e| e.index));
+        let generations = &self.generations;
+        self.cache.extend(
+            killed
+                .iter()
+                .map(|e| e.index)
+                .filter(|&index| generations[index as usize].is_raisable()),
+        );
     }
 
     fn generation(&self, index: Index) -> Generation {
@@ -330,6 +338,12 @@ impl Generation {
         }
     }
 
+    // Whether there is a live generation to be raised to.  Once this is false for a dead generation,
+    // its index is used up and must never be handed out again.
+    fn is_raisable(self) -> bool {
+        self.0 > -GenId::MAX
+    }
+
     // If this generation is alive, returns the 'killed' version of this generation, otherwise just
     // returns the current dead generation.
     //
-- 
2.43.0

