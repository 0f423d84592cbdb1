From d5bc53493f56289046c87437ce606dc85036c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 01/13] fix: get_component_mut_dynamic returns None when the
 entity lacks the component

It indexed the component lookup and panicked instead of reporting absence,
although its return type is an Option.
---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..dbddb94 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -866,7 +866,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From ffb6d22208bf7e1378472233a93351653d08bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 02/13] fix: UntypedVec drops zero sized elements

Dropping the vec skipped its elements when nothing was allocated, which is
always the case for zero sized ones, and pop() on an empty vec of zero sized
elements ran the drop function and reported a popped value.
---
 untyped_vec/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..61b76b7 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -207,7 +207,7 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else if self.len >= self.type_info.layout.size() {
+        } else if self.len > 0 && self.len >= self.type_info.layout.size() {
             self.len -= self.type_info.layout.size();
             let ptr = self.data.as_ptr();
             // Safe because we're offsetting inside of the allocation
@@ -362,9 +362,10 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // ZSTs never allocate but may still need dropping
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From ce890adee447fc68a3517d0fe4483ec35f6488b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 03/13] fix: UntypedVec hands out aligned pointers for zero
 sized and empty vecs

An unallocated vec handed out address 1 whatever the alignment of the element,
so references to over-aligned zero sized components, and slices of empty vecs,
were misaligned. as_slice and as_slice_mut divided by zero for zero sized types.
---
 untyped_vec/src/lib.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 61b76b7..26d7261 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -55,6 +55,15 @@ impl UntypedVec {
         }
     }
 
+    /// Pointer to the first element, when nothing has been allocated (ZSTs never allocate) it is dangling but aligned for the element
+    fn data_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            self.type_info.layout.align() as *mut u8
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     pub fn get_type_info(&self) -> TypeInfo {
         self.type_info.clone()
     }
@@ -149,7 +158,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -176,7 +185,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -200,7 +209,7 @@ impl UntypedVec {
     pub fn pop(&mut self) -> bool {
         if self.type_info.layout.size() == 0 && self.len > 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.data_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -309,18 +318,12 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
-
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.data_ptr() as *const T, slice_len)
         }
     }
 
@@ -330,18 +333,12 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
-
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.data_ptr() as *mut T, slice_len)
         }
     }
 
@@ -349,14 +346,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 }
 
-- 
2.43.0


From 2c3bb31e99c701765b887ee107aa814a507ea9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 04/13] fix: querying a type that is registered but not in use
 yields nothing

It panicked on the missing lock of the type instead.
---
 arche_tape/src/static_query.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..dda7f11 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -53,9 +53,18 @@ macro_rules! impl_query_tuple {
             #[allow(non_snake_case)]
             pub(crate) fn new(world: &'a World) -> Self {
                 let fetches = (|| {
-                    Some([$(
+                    let fetches = [$(
                         $T::fetch_type(world)?,
-                    )*])
+                    )*];
+                    // A type that is registered but was never added to an entity has no lock and no archetypes
+                    if fetches
+                        .iter()
+                        .filter_map(|fetch| fetch.get_id())
+                        .any(|id| world.lock_lookup.get(&id).is_none())
+                    {
+                        return None;
+                    }
+                    Some(fetches)
                 })();
 
                 let guards = match &fetches {
-- 
2.43.0


From 095ce8d34b658399945b48bee687b12bbc8f53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 05/13] fix: EntityBuilder::build consumes the builder

Taking &mut self allowed building twice, which placed the same entity and the
same component values in the world a second time.
---
 arche_tape/src/entity_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..3f789a3 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -226,7 +226,7 @@ impl<'a> EntityBuilder<'a> {
         unsafe { self.with_dynamic_with_data(&mut component as *mut _ as *mut _, component_id) }
     }
 
-    pub fn build(&mut self) -> EcsId {
+    pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
-- 
2.43.0


From fd4ff1e5d9d24df1ed0614f383f48d723607cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 06/13] fix: abandoning an EntityBuilder frees its entity and
 its components

Dropping a builder without building leaked every component value given to it
and left its entity alive for ever, without any metadata.
---
 arche_tape/src/entity_builder.rs | 40 +++++++++++++++++++++++++++++++-
 arche_tape/src/world.rs          |  2 +-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 3f789a3..b30af00 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -22,11 +22,22 @@ pub struct EntityBuilder<'a> {
 
     num_components: usize,
 
+    /// Set once the entity and its components belong to the world
+    built: bool,
+
     world: &'a mut World,
 }
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // Dropped at the end of this function so that a panicking destructor does not stop us from giving the memory back
+        let _abandoned = if self.built {
+            Vec::new()
+        } else {
+            self.world.entities.despawn(self.entity);
+            self.take_components()
+        };
+
         // If it never allocated, don't drop
         if self.cap != 0 {
             if let None = self.world.entity_builder_reuse {
@@ -75,6 +86,7 @@ impl<'a> EntityBuilder<'a> {
             entity,
             world,
             num_components: 0,
+            built: false,
         }
     }
 
@@ -94,6 +106,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -129,6 +142,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -191,7 +205,6 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
-        self.comp_ids.push(component_id);
         let component_size = self
             .world
             .get_entity_meta(component_id)
@@ -214,6 +227,7 @@ impl<'a> EntityBuilder<'a> {
             );
         }
         self.len += component_size;
+        self.comp_ids.push(component_id);
         self.num_components += 1;
 
         self
@@ -228,6 +242,10 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+
+        // From here on the components are owned by the world
+        self.built = true;
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
@@ -304,6 +322,26 @@ impl<'a> EntityBuilder<'a> {
         self.entity
     }
 
+    /// Moves every component out of the builder
+    fn take_components(&mut self) -> Vec<UntypedVec> {
+        let mut components = Vec::new();
+        let mut data_ptr = self.data.as_ptr();
+        for comp_id in self.comp_ids.drain(..) {
+            let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
+            unsafe {
+                let mut component = UntypedVec::new_from_raw(TypeInfo::new(
+                    component_meta.layout,
+                    component_meta.drop_fn,
+                ));
+                component.push_raw(data_ptr.cast());
+                data_ptr = data_ptr.offset(component_meta.layout.size() as isize);
+                components.push(component);
+            }
+        }
+        self.len = 0;
+        components
+    }
+
     /// Creates an archetype and moves the built entity into it
     fn create_archetype(&mut self) -> Archetype {
         let mut component_storages = Vec::with_capacity(self.num_components);
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index dbddb94..3232fba 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -263,7 +263,7 @@ pub struct World {
     pub(crate) archetype_bitset: Bitsetsss,
     pub(crate) entities_bitvec: Bitvec,
 
-    entities: Entities,
+    pub(crate) entities: Entities,
 
     ecs_id_meta: Vec<Option<EntityMeta>>,
     pub(crate) type_id_to_ecs_id: HashMap<TypeId, EcsId, crate::utils::TypeIdHasherBuilder>,
-- 
2.43.0


From 428a06595f62013cc5a28e1ed392677e73a74f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 07/13] fix: EntityBuilder refuses duplicate components before
 changing the world

The check only ran when a new archetype was made, after locks were registered.
When an archetype with as many components as the list existed, the entity was
pushed into it first and the world was left inconsistent.
---
 arche_tape/src/entity_builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index b30af00..72ca2e1 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -243,6 +243,15 @@ impl<'a> EntityBuilder<'a> {
     pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
 
+        // This has to happen before anything in the world is changed
+        assert!(
+            self.comp_ids
+                .iter()
+                .enumerate()
+                .all(|(n, id)| self.comp_ids[..n].contains(id) == false),
+            "Attempted to add the same component twice in EntityBuilder"
+        );
+
         // From here on the components are owned by the world
         self.built = true;
 
-- 
2.43.0


From 94009c7eb9b825f31a2ce20293e99da8a1522d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 08/13] fix: a type can be used again after its component
 entity was despawned

The lookup kept returning the dead entity, so adding the type silently did
nothing and building an entity with it panicked.
---
 arche_tape/src/world.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 3232fba..1f6ffd6 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -440,7 +440,10 @@ impl World {
     pub fn get_or_create_type_id_ecsid<T: Component>(&mut self) -> EcsId {
         let comp_id = self.type_id_to_ecs_id.get(&TypeId::of::<T>());
         if let Some(comp_id) = comp_id {
-            return *comp_id;
+            // The entity of this type may have been despawned
+            if self.entities.is_alive(*comp_id) {
+                return *comp_id;
+            }
         }
 
         let entity = self.spawn().build();
-- 
2.43.0


From 50d9ca5cad2099f49f0b34994a4dddd5e6f2e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 09/13] fix: a panicking destructor leaves the world consistent

despawn and remove_component_dynamic ran destructors in the middle of their
bookkeeping, a panic there left an archetype with columns of different lengths
and metadata pointing at the wrong rows. Finish the bookkeeping first.
---
 arche_tape/src/world.rs | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 1f6ffd6..c8f77b0 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -59,6 +59,31 @@ impl AddRemoveCache {
         self.lookup.insert(component_id, archetype);
     }
 }
+
+/// Removes a row from all of the remaining storages when dropped
+struct RemoveRow<'a> {
+    storages: std::slice::IterMut<'a, (EcsId, UnsafeCell<UntypedVec>)>,
+    row: usize,
+}
+
+impl<'a> RemoveRow<'a> {
+    fn remove_next(&mut self) -> bool {
+        match self.storages.next() {
+            Some((_, storage)) => {
+                storage.get_mut().swap_remove(self.row);
+                true
+            }
+            None => false,
+        }
+    }
+}
+
+impl<'a> Drop for RemoveRow<'a> {
+    fn drop(&mut self) {
+        while self.remove_next() {}
+    }
+}
+
 pub struct Archetype {
     /// A lookup of a component's TypeId to the index into component_storages/type_ids
     pub(crate) comp_lookup: HashMap<EcsId, usize, crate::utils::TypeIdHasherBuilder>,
@@ -178,13 +203,6 @@ impl Archetype {
     ) -> bool {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
-        for storage in self
-            .component_storages
-            .iter_mut()
-            .map(|(_, cell)| cell.get_mut())
-        {
-            storage.swap_remove(entity_idx);
-        }
         entity_metas[entity.uindex()] = None;
 
         if let Some(&swapped_entity) = self.entities.get(entity_idx) {
@@ -195,6 +213,13 @@ impl Archetype {
                 .index = entity_idx;
         }
 
+        // This runs destructors so it has to be last, and all of the storages have to be visited even if one of them panics
+        let mut remaining = RemoveRow {
+            storages: self.component_storages.iter_mut(),
+            row: entity_idx,
+        };
+        while remaining.remove_next() {}
+
         false
     }
 
@@ -351,8 +376,8 @@ impl World {
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         self.entities.despawn(entity);
+        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         true
     }
 
@@ -828,11 +853,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -850,6 +870,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // This runs the destructor so it has to be last
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From e200e753f9b1ee2c8d98fc5d99d216a9619b19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 10/13] fix: dropping an UntypedVec finishes when a destructor
 panics

The remaining elements and the allocation were leaked.
---
 untyped_vec/src/lib.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 26d7261..4d57935 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -359,18 +359,30 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        // ZSTs never allocate but may still need dropping
-        while self.pop() {}
-
-        if self.cap > 0 {
-            let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
-            let ptr = self.data.as_ptr();
+        // If the destructor of an element panics the rest still get dropped and the allocation still gets freed
+        struct DropRest<'a>(&'a mut UntypedVec);
 
-            // Safe because we allocate this memory ourself so it must be from this allocator.
-            // Safe because when we allocate memory we set cap to the size we used in the layout and
-            // the align we use for the allocation is always self.type_info.layout.align()
-            unsafe { dealloc(ptr, layout) }
+        impl<'a> Drop for DropRest<'a> {
+            fn drop(&mut self) {
+                let vec = &mut *self.0;
+                while vec.pop() {}
+
+                if vec.cap > 0 {
+                    let layout =
+                        Layout::from_size_align(vec.cap, vec.type_info.layout.align()).unwrap();
+                    let ptr = vec.data.as_ptr();
+
+                    // Safe because we allocate this memory ourself so it must be from this allocator.
+                    // Safe because when we allocate memory we set cap to the size we used in the layout and
+                    // the align we use for the allocation is always self.type_info.layout.align()
+                    unsafe { dealloc(ptr, layout) }
+                }
+            }
         }
+
+        // ZSTs never allocate but may still need dropping
+        let rest = DropRest(self);
+        while rest.0.pop() {}
     }
 }
 
-- 
2.43.0


From 587c5c8414276b963fa9babfb868d7cc40d09353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 11/13] fix: despawning an entity removes it as a component
 from all entities

World::despawn hit a todo!() when the entity was in use as a component.
---
 arche_tape/src/world.rs | 127 +++++++++++++++++++++++++++++++++-------
 1 file changed, 105 insertions(+), 22 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index c8f77b0..4206b9a 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -201,6 +201,45 @@ impl Archetype {
         entity_idx: usize,
         entity_metas: &mut [Option<EntityMeta>],
     ) -> bool {
+        self.despawn_entity(entity, entity_idx, entity_metas);
+
+        // This runs destructors so it has to be last, and all of the storages have to be visited even if one of them panics
+        let mut remaining = RemoveRow {
+            storages: self.component_storages.iter_mut(),
+            row: entity_idx,
+        };
+        while remaining.remove_next() {}
+
+        false
+    }
+
+    /// Same as ``despawn`` except that the component values are returned, they are in the same order as component_storages
+    fn take_row(
+        &mut self,
+        entity: EcsId,
+        entity_idx: usize,
+        entity_metas: &mut [Option<EntityMeta>],
+    ) -> Vec<UntypedVec> {
+        self.despawn_entity(entity, entity_idx, entity_metas);
+
+        self.component_storages
+            .iter_mut()
+            .map(|(_, storage)| {
+                let storage = storage.get_mut();
+                let mut taken = UntypedVec::new_from_untyped_vec(storage);
+                // Safe because it was made from the same TypeInfo
+                unsafe { storage.swap_move_element_to_other_vec(&mut taken, entity_idx) };
+                taken
+            })
+            .collect()
+    }
+
+    fn despawn_entity(
+        &mut self,
+        entity: EcsId,
+        entity_idx: usize,
+        entity_metas: &mut [Option<EntityMeta>],
+    ) {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
         entity_metas[entity.uindex()] = None;
@@ -212,15 +251,6 @@ impl Archetype {
                 .instance_meta
                 .index = entity_idx;
         }
-
-        // This runs destructors so it has to be last, and all of the storages have to be visited even if one of them panics
-        let mut remaining = RemoveRow {
-            storages: self.component_storages.iter_mut(),
-            row: entity_idx,
-        };
-        while remaining.remove_next() {}
-
-        false
     }
 
     pub fn try_find_next_archetype(&mut self, id: EcsId) -> Option<usize> {
@@ -366,21 +396,60 @@ impl World {
             return false;
         }
 
-        // TODO: Remove `entity` component from all entities
-        for arch in &self.archetypes {
-            if let Some(_) = arch.comp_lookup.get(&entity) {
-                todo!();
-            }
-        }
-
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.entities.despawn(entity);
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
+        let is_component = self
+            .archetypes
+            .iter()
+            .any(|arch| arch.comp_lookup.contains_key(&entity));
+
+        if is_component {
+            // Destructors run when these get dropped which has to be after the world is updated
+            let mut removed =
+                self.archetypes[archetype.0].take_row(entity, index, &mut self.ecs_id_meta);
+            removed.push(self.detach_component(entity));
+            self.entities.despawn(entity);
+        } else {
+            self.entities.despawn(entity);
+            self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
+        }
+
         true
     }
 
+    /// Removes `component` from all entities, returns the removed values
+    ///
+    /// Panics if there is no archetype with `component`
+    fn detach_component(&mut self, component: EcsId) -> UntypedVec {
+        let mut detached = None;
+
+        for archetype_idx in 0..self.archetypes.len() {
+            let archetype = &mut self.archetypes[archetype_idx];
+            let storage_idx = match archetype.comp_lookup.get(&component) {
+                Some(&storage_idx) => storage_idx,
+                None => continue,
+            };
+
+            let detached = detached.get_or_insert_with(|| {
+                let (_, storage) = &mut archetype.component_storages[storage_idx];
+                UntypedVec::new_from_untyped_vec(storage.get_mut())
+            });
+
+            for entity in archetype.entities.clone() {
+                self.move_component_out(entity, component, Some(detached));
+            }
+
+            // The archetype is never used again, a new entity with the same index must not find it
+            self.archetype_bitset
+                .set_bit(component, archetype_idx, false);
+        }
+
+        self.lock_lookup.remove(&component);
+
+        detached.unwrap()
+    }
+
     pub fn is_alive(&self, entity: EcsId) -> bool {
         self.entities.is_alive(entity)
     }
@@ -766,6 +835,16 @@ impl World {
             return;
         }
 
+        self.move_component_out(entity, comp_id, None);
+    }
+
+    /// Moves a component from an entity to the end of `removed`, if there is no `removed` then the component is dropped
+    fn move_component_out(
+        &mut self,
+        entity: EcsId,
+        comp_id: EcsId,
+        removed: Option<&mut UntypedVec>,
+    ) {
         let (current_archetype_idx, entity_idx) = {
             let meta = self.get_entity_meta(entity).unwrap();
             (
@@ -871,11 +950,15 @@ impl World {
                 .index = entity_idx;
         }
 
-        // This runs the destructor so it has to be last
-        current_archetype.component_storages[skipped_storage.unwrap()]
+        let storage = current_archetype.component_storages[skipped_storage.unwrap()]
             .1
-            .get_mut()
-            .swap_remove(entity_idx);
+            .get_mut();
+        match removed {
+            // Safe because the caller gives us a vec for the values of `comp_id`
+            Some(removed) => unsafe { storage.swap_move_element_to_other_vec(removed, entity_idx) },
+            // This runs the destructor so it has to be last
+            None => storage.swap_remove(entity_idx),
+        }
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From a1f3f32c416c1e011ac9941c05c73d8651f6a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 12/13] fix: a panic while a query is live does not make later
 queries panic

The locks only guard access to the storages, there is no data in them that a
panic could leave in a bad state, so ignore their poisoning.
---
 arche_tape/src/dyn_query.rs    | 11 +++++++++--
 arche_tape/src/static_query.rs |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..0979c5e 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -1,6 +1,7 @@
 use crate::utils::EitherGuard;
 use crate::{world::Archetype, EcsId, World};
 use std::marker::PhantomData;
+use std::sync::PoisonError;
 
 struct IntraArchetypeIter<'a, const N: usize> {
     remaining: usize,
@@ -171,8 +172,14 @@ impl<'a, const N: usize> DynQuery<'a, N> {
             if let Some(&idx) = world.lock_lookup.get(ecs_id) {
                 let lock = &world.locks[idx];
                 match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
+                    FetchType::Mut(_) => {
+                        *guard =
+                            EitherGuard::Write(lock.write().unwrap_or_else(PoisonError::into_inner))
+                    }
+                    FetchType::Immut(_) => {
+                        *guard =
+                            EitherGuard::Read(lock.read().unwrap_or_else(PoisonError::into_inner))
+                    }
                     _ => (),
                 }
             } else {
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index dda7f11..6289189 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -1,5 +1,5 @@
 use crate::{utils::EitherGuard, world::Archetype, Component, EcsId, FetchType, World};
-use std::{any::TypeId, marker::PhantomData};
+use std::{any::TypeId, marker::PhantomData, sync::PoisonError};
 
 // If we remove the 'static bound here we are required to manually annotate 'static lifetimes for StaticQuery's in
 // arguments of functions even though QueryTuple has a 'static bound in its trait definition
@@ -71,8 +71,8 @@ macro_rules! impl_query_tuple {
                     Some([$($T,)*]) => {
                         [$(
                             match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
+                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap_or_else(PoisonError::into_inner)),
+                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap_or_else(PoisonError::into_inner)),
                                 FetchType::EcsId => EitherGuard::None,
                             },
                         )*]
-- 
2.43.0


From 23b29145b75c9032f0e4ef7299121f9ca73f913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 13/13] fix: a refused spawn_with_capacity does not lose the
 entity

---
 arche_tape/src/entity_builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 72ca2e1..9d19d63 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -126,7 +126,14 @@ impl<'a> EntityBuilder<'a> {
             return Self::new(world, entity, component_meta);
         }
 
-        let layout = Layout::from_size_align(cap, 1).unwrap();
+        let layout = match Layout::from_size_align(cap, 1) {
+            Ok(layout) => layout,
+            Err(_) => {
+                // There will be no builder that could despawn it
+                world.entities.despawn(entity);
+                panic!("Cannot allocate more than isize::MAX bytes")
+            }
+        };
         // Safe because layout size 0 is handed without allocating
         let ptr = unsafe { alloc(layout) };
         let data = NonNull::new(ptr).unwrap_or_else(|| handle_alloc_error(layout));
-- 
2.43.0

