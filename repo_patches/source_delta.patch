From 5cf2c6ad31d7994a25df4de7da38f647254c3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 01/51] fix: ISet::are_all_set no longer overflows for 64
 fields

---
 facet-reflect/src/wip/iset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..dde60ed 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,12 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        // shifting by 64 would overflow: a full set has every bit set
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From 9ecdf2515ad4b86f216673ec72664631e827da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 02/51] fix: NonZero integers use their own vtable, not the
 plain integer's

NonZero<T>::SHAPE was built with T's vtable, so parsing or defaulting a
non-zero slot could write zero into it.
---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..e860e1a 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -160,7 +160,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
-- 
2.43.0


From 4161af617cdc9001e981efe3fc14ea840cb987a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 03/51] fix: paths, PhantomData, RandomState and ConstTypeId
 get their own vtables

They were all described with the vtable of (), so dropping a PathBuf
through its shape leaked it, debugging it printed (), and default_in_place
claimed to initialise memory it never wrote.
---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs | 10 ++++++++--
 facet-core/src/impls_std/hashmap.rs |  5 ++++-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index e860e1a..dd3969f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
@@ -45,7 +48,10 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(
+                core::marker::PhantomData<T>,
+                |f, _opts| write!(f, "PhantomData")
+            ))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..1e10788 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -204,7 +204,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 808687764873438d8a24bd4d60894a41a4ed8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 04/51] fix: Weak<T> uses its own vtable and smart pointers
 name their pointee

Weak<T> was described with Arc<T>'s vtable (and called Arc), so dropping or
cloning a Weak through its shape decremented the strong count.
---
 facet-core/src/impls_alloc/smartptr.rs | 26 ++++++++++++++++++--------
 facet-core/src/impls_core/smartptr.rs  | 13 +++++++++----
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..74049a2 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -40,10 +40,15 @@ unsafe impl<T: Facet> Facet for alloc::sync::Arc<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
-                f,
-                "Arc"
-            )))
+            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "Arc<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "Arc<⋯>")
+                }
+            }))
             .build()
     };
 }
@@ -74,10 +79,15 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
-                f,
-                "Arc"
-            )))
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "Weak<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "Weak<⋯>")
+                }
+            }))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/smartptr.rs b/facet-core/src/impls_core/smartptr.rs
index 2f5685e..8eb4357 100644
--- a/facet-core/src/impls_core/smartptr.rs
+++ b/facet-core/src/impls_core/smartptr.rs
@@ -37,10 +37,15 @@ unsafe impl<T: Facet> Facet for core::ptr::NonNull<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, _opts| write!(
-                f,
-                "NonNull"
-            )))
+            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "NonNull<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "NonNull<⋯>")
+                }
+            }))
             .build()
     };
 }
-- 
2.43.0


From 3f7d1681f2ac445a14a6ea5947a898472f48796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 05/51] fix: cloning lists, maps and slices through their shape
 clones the value

clone_into wrote a reference to the source (8 bytes) into memory laid out
for the container, so the clone was garbage.
---
 facet-core/src/impls_alloc/btreemap.rs | 14 ++++++++++++--
 facet-core/src/impls_alloc/mod.rs      | 16 ++++++++++++++++
 facet-core/src/impls_alloc/vec.rs      | 16 ++++++++++++++--
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/impls_std/hashmap.rs    | 14 ++++++++++++--
 5 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..e63f606 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -5,6 +5,7 @@ use alloc::{
     collections::{BTreeMap, VecDeque},
 };
 
+use super::clone_value;
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
     Shape, ValueVTable,
@@ -80,8 +81,17 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<BTreeMap<K, V>>();
+                            let mut cloned = BTreeMap::<K, V>::new();
+                            for (k, v) in src {
+                                cloned.insert(clone_value(k), clone_value(v));
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/mod.rs b/facet-core/src/impls_alloc/mod.rs
index 93a6639..122c9b9 100644
--- a/facet-core/src/impls_alloc/mod.rs
+++ b/facet-core/src/impls_alloc/mod.rs
@@ -1,3 +1,19 @@
 mod btreemap;
 mod smartptr;
 mod vec;
+
+use crate::{Facet, PtrConst, PtrUninit};
+
+/// Clones a value through the `clone_into` of its own shape.
+///
+/// # Safety
+///
+/// `T::SHAPE` must offer `clone_into`.
+pub(crate) unsafe fn clone_value<T: Facet>(value: &T) -> T {
+    let mut slot = core::mem::MaybeUninit::<T>::uninit();
+    unsafe {
+        let clone_into = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+        clone_into(PtrConst::new(value), PtrUninit::new(slot.as_mut_ptr()));
+        slot.assume_init()
+    }
+}
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..de6130e 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -3,6 +3,8 @@ use core::{alloc::Layout, hash::Hash as _};
 
 use alloc::vec::Vec;
 
+use super::clone_value;
+
 unsafe impl<T> Facet for Vec<T>
 where
     T: Facet,
@@ -30,8 +32,18 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let mut cloned = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                cloned.push(clone_value(item));
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 1e10788..a45935e 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -5,6 +5,7 @@ use std::hash::RandomState;
 
 use crate::ptr::{PtrConst, PtrMut};
 
+use crate::impls_alloc::clone_value;
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
     ScalarDef, Shape, TypeParam, ValueVTable, value_vtable,
@@ -85,8 +86,17 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V>>();
+                            let mut cloned = HashMap::<K, V>::with_capacity(src.len());
+                            for (k, v) in src {
+                                cloned.insert(clone_value(k), clone_value(v));
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-- 
2.43.0


From 4380d7f7626ae6739783c6e791ccabc8ea101fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 06/51] fix: HashMap shapes describe the map's own hasher and
 hash independently of order

Every HashMap<K, V, S> was laid out and accessed as HashMap<K, V>, and
equal maps hashed differently because their iteration order differs.
---
 facet-core/src/impls_std/hashmap.rs | 49 ++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index a45935e..c163e43 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{BuildHasher, DefaultHasher, Hasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut};
 
@@ -20,12 +20,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -63,11 +63,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -89,8 +91,11 @@ where
                     if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
                     {
                         builder = builder.clone_into(|src, dst| unsafe {
-                            let src = src.get::<HashMap<K, V>>();
-                            let mut cloned = HashMap::<K, V>::with_capacity(src.len());
+                            let src = src.get::<HashMap<K, V, S>>();
+                            let mut cloned = HashMap::<K, V, S>::with_capacity_and_hasher(
+                                src.len(),
+                                S::default(),
+                            );
                             for (k, v) in src {
                                 cloned.insert(clone_value(k), clone_value(v));
                             }
@@ -100,8 +105,8 @@ where
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -118,18 +123,24 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // Entries come in no particular order, so they are hashed one by
+                            // one and combined with a commutative operation.
+                            let mut combined = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry_hasher = DefaultHasher::new();
+                                k.hash(&mut entry_hasher);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&raw mut entry_hasher),
+                                    |hasher, bytes| hasher.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                combined = combined.wrapping_add(entry_hasher.finish());
                             }
+                            combined.hash(&mut hasher);
                         });
                     }
 
@@ -148,25 +159,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -175,7 +186,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From 4a8c7a385131e9c21c3d3ce8448496bbcfaa4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 07/51] fix: tuples release their elements and gate debug and
 equality on their own traits

Tuple vtables had no drop_in_place, so tuples dropped through their shape
leaked; and they offered debug and eq whenever all elements are Eq, calling
an absent debug function when an element is not Debug.
---
 facet-core/src/impls_core/tuple.rs | 267 ++++++++++++++++++++---------
 facet-dev/src/tuples.rs            |  29 +++-
 2 files changed, 213 insertions(+), 83 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..3bf3b90 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -72,9 +73,11 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -122,6 +125,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -206,6 +212,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -325,6 +334,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -465,6 +478,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -642,6 +666,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -842,6 +878,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1065,6 +1114,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1311,6 +1374,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1582,6 +1660,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1888,6 +1982,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2202,42 +2313,15 @@ where
         }
 
         Shape::builder()
-            .id(ConstTypeId::of::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
-            .layout(Layout::new::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
+            .id(ConstTypeId::of::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
+            .layout(Layout::new::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
-                        .marker_traits({
-                            T0::SHAPE
-                                .vtable
-                                .marker_traits
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
+                        .marker_traits(                        {
+                            T0::SHAPE.vtable.marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
@@ -2249,96 +2333,119 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                                 .intersection(T11::SHAPE.vtable.marker_traits)
-                        });
+                    });
 
-                    if Characteristic::Eq.all(&[
-                        T0::SHAPE,
-                        T1::SHAPE,
-                        T2::SHAPE,
-                        T3::SHAPE,
-                        T4::SHAPE,
-                        T5::SHAPE,
-                        T6::SHAPE,
-                        T7::SHAPE,
-                        T8::SHAPE,
-                        T9::SHAPE,
-                        T10::SHAPE,
-                        T11::SHAPE,
+                    if Characteristic::Debug.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
                     ]) {
                         builder = builder.debug(|value, f| {
-                            let value = unsafe {
-                                value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
                             write!(f, "(")?;
                             unsafe {
                                 let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
-                            let a = unsafe {
-                                a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
-                            let b = unsafe {
-                                b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
+                            let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
 
                             // Compare element 0
                             unsafe {
@@ -2502,7 +2609,7 @@ where
                                 field!(8, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(9, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(10, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
-                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
+                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),)
                             ]
                         },
                     )
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..0e24142 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,14 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!(
+            "                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<{}>() }})\n",
+            if n == 1 {
+                "(T0,)".to_string()
+            } else {
+                format!("({})", type_params)
+            }
+        );
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
@@ -157,7 +165,7 @@ pub fn generate() -> String {
         }
 
         // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -198,10 +206,25 @@ pub fn generate() -> String {
             w!("                            }}?;\n");
         }
 
-        w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        if n == 1 {
+            w!("                            write!(f, \",)\")\n");
+        } else {
+            w!("                            write!(f, \")\")\n");
+        }
+        w!("                        }});\n");
+        w!("                    }}\n\n");
 
         // eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
+
         w!("                        builder = builder.eq(|a, b| {{\n");
         if n == 1 {
             w!("                            let a = unsafe {{ a.get::<(T0,)>() }};\n");
-- 
2.43.0


From 5e0c85b9b50fc31f61153b02576e3451f62f76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 08/51] fix: array get_item_ptr returns the requested element

It ignored the index and always returned a pointer to the first element.
---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From aca8ae91704c55c82e09ff45396fcda2b179e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 09/51] fix: slice references report their own marker traits

&[T] reported T's Send/Sync/Copy/Unpin.
---
 facet-core/src/impls_core/slice.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..9d51b37 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -52,7 +52,18 @@ where
                                 write!(f, "&[⋯]")
                             }
                         })
-                        .marker_traits(T::SHAPE.vtable.marker_traits)
+                        .marker_traits({
+                            // a shared reference is always `Copy` and `Unpin`, and it is
+                            // `Send` and `Sync` exactly when its target is `Sync`
+                            let mut traits = MarkerTraits::COPY.union(MarkerTraits::UNPIN);
+                            if T::SHAPE.vtable.marker_traits.contains(MarkerTraits::EQ) {
+                                traits = traits.union(MarkerTraits::EQ);
+                            }
+                            if T::SHAPE.vtable.marker_traits.contains(MarkerTraits::SYNC) {
+                                traits = traits.union(MarkerTraits::SEND).union(MarkerTraits::SYNC);
+                            }
+                            traits
+                        })
                         .default_in_place(|ptr| unsafe { ptr.put(&[] as &[T]) })
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
-- 
2.43.0


From d0dfd8fbfdc6e5703b4e7fe4bb6e26435696c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 10/51] fix: Wip drops exactly what was initialized, once

Partially built values leaked or were dropped twice when they were replaced,
re-selected, popped or abandoned: enums were never cleaned up, put/parse/
put_default/put_empty_* overwrote previous contents, put leaked its argument
on error, build freed the memory without dropping fields when it failed, and
state saved for freed memory was applied to whatever was allocated there next.
Re-entering a field of a value that was put as a whole also lost track of it.
---
 facet-reflect/src/wip/enum_.rs |  14 +-
 facet-reflect/src/wip/mod.rs   | 444 +++++++++++++++------------------
 2 files changed, 206 insertions(+), 252 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..76865b2 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -35,8 +35,8 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop the fields initialized so far since we're selecting a new variant
+        frame.deinit(&mut self.istates);
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
@@ -63,6 +63,14 @@ impl Wip<'_> {
         // Now that we've set the discriminant, we can store the variant
         frame.istate.variant = Some(variant);
 
+        // If we (and our ancestors) were fully initialized before, we may not be anymore
+        for i in (1..self.frames.len()).rev() {
+            let Some(index) = self.frames[i].field_index_in_parent else {
+                break;
+            };
+            self.frames[i - 1].istate.fields.unset(index);
+        }
+
         trace!(
             "[{}] Selecting variant {} of {} with discriminant {}",
             self.frames.len(),
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..7f8c85a 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,11 +6,10 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -135,31 +134,6 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
-            }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
-        }
-        self.dealloc_if_needed();
-    }
-
     /// Marks the frame as fully initialized
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
@@ -167,7 +141,13 @@ impl Frame {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                // whatever was selected before, the value now in place decides
+                let peek = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = *peek.active_variant();
+                    self.istate.variant = Some(variant);
                     self.istate.fields = ISet::all(variant.data.fields);
                 }
             }
@@ -176,9 +156,78 @@ impl Frame {
             }
         }
     }
+
+    /// The fields this frame can hold (for enums: those of the selected variant)
+    fn fields(&self) -> &'static [Field] {
+        match self.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => match &self.istate.variant {
+                Some(variant) => variant.data.fields,
+                None => &[],
+            },
+            _ => &[],
+        }
+    }
+
+    /// The ID under which the state of one of our fields is saved
+    fn field_id(&self, field: &Field) -> ValueId {
+        let ptr = unsafe { self.data.field_uninit_at(field.offset) };
+        ValueId::new(field.shape(), ptr.as_byte_ptr())
+    }
+
+    /// Drops everything that has been initialized in this frame and forgets the
+    /// saved state of its children: afterwards, the frame's memory is uninitialized
+    /// (but still allocated).
+    fn deinit(&mut self, istates: &mut FlatMap<ValueId, IState>) {
+        if self.istate.flags.contains(FrameFlags::MOVED)
+            || self.istate.mode == FrameMode::OptionNone
+        {
+            return;
+        }
+
+        if self.is_fully_initialized() {
+            self.evict_children(istates);
+            if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
+                unsafe { drop_in_place(self.data.assume_init()) };
+            }
+        } else {
+            for (i, field) in self.fields().iter().enumerate() {
+                let id = self.field_id(field);
+                let saved = istates.remove(&id).map(|i| Frame::recompose(id, i));
+                if self.istate.fields.has(i) {
+                    if let Some(child) = saved {
+                        child.evict_children(istates);
+                    }
+                    if let Some(drop_in_place) = id.shape.vtable.drop_in_place {
+                        unsafe { drop_in_place(PtrMut::new(id.ptr as *mut u8)) };
+                    }
+                } else if let Some(mut child) = saved {
+                    // a finished field would have been marked as such, so if it claims to
+                    // be finished it is somebody else's (a zero-sized neighbour's)
+                    if !child.is_fully_initialized() {
+                        child.deinit(istates);
+                    }
+                }
+            }
+        }
+
+        self.istate.variant = None;
+        ISet::clear(&mut self.istate.fields);
+    }
+
+    /// Forgets the saved state of all our children, without dropping anything
+    fn evict_children(&self, istates: &mut FlatMap<ValueId, IState>) {
+        for field in self.fields() {
+            let id = self.field_id(field);
+            if let Some(istate) = istates.remove(&id) {
+                Frame::recompose(id, istate).evict_children(istates);
+            }
+        }
+    }
 }
 
 /// Initialization state
+#[derive(Clone)]
 struct IState {
     /// Variant chosen — for everything except enums, this stays None
     variant: Option<Variant>,
@@ -332,6 +381,8 @@ impl<'a> Wip<'a> {
     }
 
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // whatever comes to live at this address next, our children's states aren't about it
+        frame.evict_children(&mut self.istates);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -380,24 +431,18 @@ impl<'a> Wip<'a> {
         let root_id = *root_id;
         // We need to *keep* the root istate for the check, so we clone it or get it immutably.
         // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
+        // It has to stay in there until we know the build succeeds: if it doesn't, our
+        // `Drop` implementation has to find it.
         let root_istate = self
             .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
+            .get(&root_id)
+            .expect("Root ID found but not present in istates, this is a bug")
+            .clone();
 
         let root_frame = Frame::recompose(root_id, root_istate);
         let root_shape = root_frame.shape;
         let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
 
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
         // 3. Initialize `to_check`
         let mut to_check = alloc::vec![root_frame];
 
@@ -447,7 +492,7 @@ impl<'a> Wip<'a> {
                         let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                         let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
+                        if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                             debug!(
                                 "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
                                 _i.to_string().bright_cyan(),
@@ -490,7 +535,7 @@ impl<'a> Wip<'a> {
                             let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                             let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
+                            if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                                 debug!(
                                     "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
                                     _i.to_string().bright_cyan(),
@@ -579,6 +624,12 @@ impl<'a> Wip<'a> {
 
         FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
 
+        // 6. Transfer ownership of the root data to the HeapValue
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
+
         Ok(HeapValue {
             guard: Some(guard),
             shape: root_shape,
@@ -655,7 +706,9 @@ impl<'a> Wip<'a> {
             index.yellow(),
             shape.blue(),
         );
-        if let Some(iset) = self.istates.remove(&frame.id()) {
+        let initialized = self.frames[self.frames.len() - 1].istate.fields.has(index);
+        let saved = self.istates.remove(&frame.id());
+        if let Some(iset) = saved {
             trace!(
                 "[{}] Restoring saved state for {} (istate.mode = {:?}, istate.fields = {:?}, istate.flags = {:?}, istate.depth = {:?})",
                 self.frames.len(),
@@ -676,6 +729,13 @@ impl<'a> Wip<'a> {
                 shape.blue(),
             );
         }
+        if initialized && !frame.is_fully_initialized() {
+            // the parent was initialized as a whole
+            unsafe { frame.mark_fully_initialized() };
+        } else if !initialized && frame.is_fully_initialized() {
+            // that wasn't our state, but that of a zero-sized neighbour
+            frame.istate = IState::new(self.frames.len(), FrameMode::Field, FrameFlags::EMPTY);
+        }
         self.frames.push(frame);
         Ok(self)
     }
@@ -754,7 +814,9 @@ impl<'a> Wip<'a> {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_ok() {
+            core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        }
         res
     }
 
@@ -774,12 +836,14 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let Some(frame) = self.frames.last_mut() else {
+        if self.frames.is_empty() {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
                 operation: "tried to put a value but there was no frame to put into",
             });
-        };
+        }
+        let can_init = self.check_can_init();
+        let frame = self.frames.last_mut().unwrap();
 
         // Check that the type matches
         if frame.shape != src_shape {
@@ -788,6 +852,7 @@ impl<'a> Wip<'a> {
             if let Def::Option(od) = frame.shape.def {
                 // Check if inner type matches
                 if od.t() == src_shape {
+                    can_init?;
                     debug!("Putting into an Option<T>!");
                     if frame.istate.fields.is_any_set() {
                         let data = unsafe { frame.data.assume_init() };
@@ -818,50 +883,10 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
+        can_init?;
 
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
+        // de-initialize partially initialized fields, if any
+        frame.deinit(&mut self.istates);
 
         unsafe {
             // Copy the contents from src to destination
@@ -898,6 +923,11 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
+
+        self.check_can_init()?;
+        let frame = self.frames.last_mut().unwrap();
+        frame.deinit(&mut self.istates);
+
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
                 unsafe {
@@ -918,13 +948,17 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(_) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to put value from fn but there was no frame",
             });
         };
 
+        self.check_can_init()?;
+        let frame = self.frames.last_mut().unwrap();
+        frame.deinit(&mut self.istates);
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -959,6 +993,33 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
+    /// Checks that the current frame can be initialized, see also
+    /// [`Self::mark_field_as_initialized`] which makes a note of it afterwards.
+    fn check_can_init(&self) -> Result<(), ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Ok(());
+        };
+        let shape = frame.shape;
+
+        if frame.istate.mode == FrameMode::OptionNone {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "tried to initialize the payload of an option that was set to None",
+            });
+        }
+
+        if let Some(index) = frame.field_index_in_parent {
+            let parent_index = self.frames.len().saturating_sub(2);
+            if self.frames[parent_index].istate.fields.has(index) {
+                return Err(ReflectError::OperationFailed {
+                    shape,
+                    operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
+                });
+            }
+        }
+        Ok(())
+    }
+
     /// Marks a field as initialized in the parent frame.
     fn mark_field_as_initialized(
         &mut self,
@@ -1058,6 +1119,10 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.check_can_init()?;
+        let frame = self.frames.last_mut().unwrap();
+        frame.deinit(&mut self.istates);
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1098,6 +1163,10 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.check_can_init()?;
+        let frame = self.frames.last_mut().unwrap();
+        frame.deinit(&mut self.istates);
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1312,6 +1381,8 @@ impl<'a> Wip<'a> {
             });
         }
 
+        // 2. Free the memory for the pushed value, including whatever is already in there
+        frame.deinit(&mut self.istates);
         frame.dealloc_if_needed();
 
         // 3. Pop the frame (this discards, doesn't propagate up)
@@ -1329,6 +1400,7 @@ impl<'a> Wip<'a> {
         // Safety: option frames are correctly sized, and data is valid
         unsafe {
             if let Some(default_fn) = parent_frame.shape.vtable.default_in_place {
+                parent_frame.deinit(&mut self.istates);
                 default_fn(parent_frame.data);
             } else {
                 return Err(ReflectError::OperationFailed {
@@ -1353,11 +1425,11 @@ impl<'a> Wip<'a> {
             data,
             shape: od.t(),
             field_index_in_parent: Some(0),
-            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
+            // there is no payload there, so it must never be tracked
+            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::MOVED),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
+        // nothing is missing
+        frame.istate.fields = ISet(u64::MAX);
 
         self.frames.push(frame);
 
@@ -1644,11 +1716,17 @@ impl<'a> Wip<'a> {
                                 parent_shape.blue()
                             );
                             unsafe {
-                                // Call the option's init_some function
-                                (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
-                                    PtrConst::new(frame.data.as_byte_ptr()),
-                                );
+                                let payload = PtrConst::new(frame.data.as_byte_ptr());
+                                if parent_frame.is_fully_initialized() {
+                                    // Don't forget to drop the previous value
+                                    (option_def.vtable.replace_with_fn)(
+                                        parent_frame.data.assume_init(),
+                                        Some(payload),
+                                    );
+                                } else {
+                                    // Call the option's init_some function
+                                    (option_def.vtable.init_some_fn)(parent_frame.data, payload);
+                                }
                                 trace!("Marking parent frame as fully initialized");
                                 parent_frame.mark_fully_initialized();
 
@@ -1858,162 +1936,30 @@ impl Drop for Wip<'_> {
     fn drop(&mut self) {
         trace!("🧹🧹🧹 WIP is dropping");
 
-        while let Some(frame) = self.frames.pop() {
-            self.track(frame);
+        // Innermost frames first: what's left of their parents is then cleaned up
+        // field by field.
+        while let Some(mut frame) = self.frames.pop() {
+            frame.deinit(&mut self.istates);
+            if let (FrameMode::Field, Some(index), Some(parent)) = (
+                frame.istate.mode,
+                frame.field_index_in_parent,
+                self.frames.last_mut(),
+            ) {
+                parent.istate.fields.unset(index);
+            }
+            frame.dealloc_if_needed();
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
+        // If the root was popped, then it was tracked
+        let root = self.istates.iter().find(|(_k, istate)| istate.depth == 0);
+        let Some((&root_id, _)) = root else {
             trace!("No root found, we probably built already");
             return;
         };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
+        if let Some(root_istate) = self.istates.remove(&root_id) {
+            let mut root = Frame::recompose(root_id, root_istate);
+            root.deinit(&mut self.istates);
+            root.dealloc_if_needed();
         }
     }
 }
-- 
2.43.0


From a811f5e5b79d5dbf8b24f069e3d00efb15602b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 11/51] fix: Wip refuses operations that would lose or invent
 values instead of panicking

Popping an unfinished list element, map value, option payload or a map key
silently dropped (and leaked) it, enum map keys made pop panic, the payload of
an option set to None could be written to, and most operations panicked once
the root had been popped.
---
 facet-reflect/src/wip/enum_.rs |  3 +-
 facet-reflect/src/wip/mod.rs   | 95 +++++++++++++++++++++++++++-------
 2 files changed, 77 insertions(+), 21 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index 76865b2..2e867e9 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -17,6 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
+        self.current_frame()?;
         let frame = self.frames.last_mut().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
@@ -93,7 +94,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or no variant with the given name exists.
     pub fn variant_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 7f8c85a..d2d1785 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -157,6 +157,31 @@ impl Frame {
         }
     }
 
+    /// The error to return if this frame isn't fully initialized
+    fn missing_part(&self) -> ReflectError {
+        let shape = self.shape;
+        let field = self
+            .fields()
+            .iter()
+            .enumerate()
+            .find(|(i, _)| !self.istate.fields.has(*i));
+        match (shape.def, &self.istate.variant, field) {
+            (Def::Struct(_), _, Some((_, field))) => ReflectError::UninitializedField {
+                shape,
+                field_name: field.name,
+            },
+            (Def::Enum(_), None, _) => ReflectError::NoVariantSelected { shape },
+            (Def::Enum(_), Some(variant), Some((_, field))) => {
+                ReflectError::UninitializedEnumField {
+                    shape,
+                    variant_name: variant.name,
+                    field_name: field.name,
+                }
+            }
+            _ => ReflectError::UninitializedValue { shape },
+        }
+    }
+
     /// The fields this frame can hold (for enums: those of the selected variant)
     fn fields(&self) -> &'static [Field] {
         match self.shape.def {
@@ -410,13 +435,50 @@ impl<'a> Wip<'a> {
         self.frames.last().unwrap().istate.mode
     }
 
+    /// Returns the current frame, provided there's something to initialize in there
+    fn current_frame(&self) -> Result<&Frame, ReflectError> {
+        let frame = self.frames.last().ok_or(ReflectError::OperationFailed {
+            shape: <()>::SHAPE,
+            operation: "tried to access the current frame but there was no frame",
+        })?;
+        if frame.istate.mode == FrameMode::OptionNone {
+            return Err(ReflectError::OperationFailed {
+                shape: frame.shape,
+                operation: "tried to initialize the payload of an option that was set to None",
+            });
+        }
+        Ok(frame)
+    }
+
+    /// Checks that the current frame can be popped: frames that are moved into their
+    /// parent when popped must be complete.
+    fn check_can_pop(&self) -> Result<(), ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Ok(());
+        };
+        match frame.istate.mode {
+            FrameMode::MapKey => Err(ReflectError::OperationFailed {
+                shape: frame.shape,
+                operation: "tried to pop a map key without pushing the corresponding value",
+            }),
+            FrameMode::ListElement | FrameMode::MapValue { .. } | FrameMode::OptionSome
+                if !frame.is_fully_initialized() =>
+            {
+                Err(frame.missing_part())
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Asserts everything is initialized and that invariants are upheld (if any)
     pub fn build(mut self) -> Result<HeapValue<'a>, ReflectError> {
         debug!("[{}] ⚒️ It's BUILD time", self.frames.len());
 
         // 1. Track all frames currently on the stack into istates
+        self.check_can_pop()?;
         while let Some(frame) = self.pop_inner() {
             self.track(frame);
+            self.check_can_pop()?;
         }
 
         // 2. Find the root frame
@@ -649,7 +711,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.current_frame()?;
         let shape = frame.shape;
 
         let (field, field_offset) = match shape.def {
@@ -776,7 +838,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let shape = frame.shape;
 
         // For enums, ensure a variant is selected
@@ -1067,7 +1129,7 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the element type for a list/array
     pub fn element_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let shape = frame.shape;
 
         match shape.def {
@@ -1081,7 +1143,7 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the key type for a map
     pub fn key_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let shape = frame.shape;
 
         match shape.def {
@@ -1183,12 +1245,8 @@ impl<'a> Wip<'a> {
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin pushback but there was no frame",
-            });
-        };
+        self.current_frame()?;
+        let frame = self.frames.last_mut().unwrap();
 
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
@@ -1219,12 +1277,8 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin map insertion but there was no frame",
-            });
-        };
+        self.current_frame()?;
+        let frame = self.frames.last_mut().unwrap();
 
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
@@ -1259,7 +1313,7 @@ impl<'a> Wip<'a> {
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a list
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let list_shape = frame.shape;
 
         if !matches!(list_shape.def, Def::List(_)) {
@@ -1306,7 +1360,7 @@ impl<'a> Wip<'a> {
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing an option
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let option_shape = frame.shape;
 
         // Get the option definition
@@ -1442,7 +1496,7 @@ impl<'a> Wip<'a> {
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a map
-        let frame = self.frames.last().unwrap();
+        let frame = self.current_frame()?;
         let map_shape = frame.shape;
 
         if !matches!(map_shape.def, Def::Map(_)) {
@@ -1569,6 +1623,7 @@ impl<'a> Wip<'a> {
 
     /// Pops the current frame — goes back up one level
     pub fn pop(mut self) -> Result<Self, ReflectError> {
+        self.check_can_pop()?;
         let Some(frame) = self.pop_inner() else {
             return Err(ReflectError::InvariantViolation {
                 invariant: "No frame to pop",
@@ -1656,7 +1711,7 @@ impl<'a> Wip<'a> {
                 let mut key_frame = self.frames.remove(key_frame_index);
 
                 // Make sure the key is fully initialized
-                if !key_frame.istate.fields.is_any_set() {
+                if !key_frame.is_fully_initialized() {
                     panic!("key is not initialized when popping value frame");
                 }
 
-- 
2.43.0


From f5f9bd113761346214f1e1bf3313e4ba8154d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 12/51] fix: comparing peeks and looking up map keys checks the
 type first

Peek::eq, Peek::partial_cmp, PeekMap::get and PeekMap::contains_key read the
other value as if it had their own type, whatever it was.
---
 facet-reflect/src/peek/map.rs   | 14 ++++++++++----
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..54e6755 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -69,16 +69,22 @@ impl<'mem> PeekMap<'mem> {
         self.len() == 0
     }
 
-    /// Check if the map contains a key
-    pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+    /// Check if the map contains a key (never the case for a key of another type)
+    pub fn contains_key<K: facet_core::Facet>(&self, key: &K) -> bool {
+        if self.def.k != K::SHAPE {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
         }
     }
 
-    /// Get a value from the map for the given key
-    pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+    /// Get a value from the map for the given key (never found for a key of another type)
+    pub fn get<K: facet_core::Facet>(&self, key: &K) -> Option<Peek<'mem>> {
+        if self.def.k != K::SHAPE {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..3a4f2e7 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if the two values are of different types, or if equality comparison is not
+    /// supported for this scalar type
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if the two values are of different types, or if comparison is not supported
+    /// for this scalar type
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 41dd13cbfd58c81aaab47e155bf3d5dbd4e03f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 13/51] fix: put_peek clones, and JSON struct defaults are
 moved rather than duplicated

put_peek copied the bits of a value it doesn't own, so the value was dropped
twice. facet-json did just that when filling the missing fields of a
#[facet(default)] struct.
---
 facet-json/src/deserialize.rs | 24 +---------
 facet-reflect/src/wip/mod.rs  | 83 +++++++++++++++++++++++++++++++++--
 2 files changed, 82 insertions(+), 25 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..ffa2af2 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -578,28 +578,8 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        // Take every missing field from the default value
+                        wip = wip.put_missing_fields_from_default().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index d2d1785..4111672 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -9,7 +9,8 @@ use alloc::format;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Characteristic, Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit,
+    Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -361,12 +362,33 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
+    /// Puts a clone of the value from a Peek into the current frame.
     pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::MissingCharacteristic {
+                shape,
+                characteristic: Characteristic::Clone,
+            });
+        };
+
+        let slot = shape.allocate();
+        let _guard = Guard {
+            ptr: slot.as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        let clone = unsafe { clone_into(peek.data, slot) };
+        let res = self.put_shape(clone.as_const(), shape);
+        if res.is_err() {
+            // it hasn't been moved
+            if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                unsafe { drop_in_place(clone) };
+            }
+        }
+        res
     }
 
     /// Returns the number of frames on the stack
@@ -1055,6 +1077,61 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
+    /// Initializes the fields of the current struct that haven't been so far from
+    /// the default value of that struct.
+    pub fn put_missing_fields_from_default(mut self) -> Result<Self, ReflectError> {
+        let shape = self.current_frame()?.shape;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+        let Some(default_in_place) = shape.vtable.default_in_place else {
+            return Err(ReflectError::MissingCharacteristic {
+                shape,
+                characteristic: Characteristic::Default,
+            });
+        };
+
+        let slot = shape.allocate();
+        let _guard = Guard {
+            ptr: slot.as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        unsafe { default_in_place(slot) };
+
+        let frame = self.frames.last_mut().unwrap();
+        for (i, field) in sd.fields.iter().enumerate() {
+            let field_shape = field.shape();
+            let default = unsafe { slot.field_init_at(field.offset) };
+            if frame.istate.fields.has(i) {
+                // that one isn't needed
+                if let Some(drop_in_place) = field_shape.vtable.drop_in_place {
+                    unsafe { drop_in_place(default) };
+                }
+                continue;
+            }
+
+            let id = frame.field_id(field);
+            if let Some(istate) = self.istates.remove(&id) {
+                let mut child = Frame::recompose(id, istate);
+                if !child.is_fully_initialized() {
+                    child.deinit(&mut self.istates);
+                }
+            }
+            unsafe {
+                frame
+                    .data
+                    .field_uninit_at(field.offset)
+                    .copy_from(default.as_const(), field_shape);
+            }
+            frame.istate.fields.set(i);
+        }
+
+        Ok(self)
+    }
+
     /// Checks that the current frame can be initialized, see also
     /// [`Self::mark_field_as_initialized`] which makes a note of it afterwards.
     fn check_can_init(&self) -> Result<(), ReflectError> {
-- 
2.43.0


From ddf4e081bf8c807aa9c489d33be75183a44f0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 14/51] fix: cloning through a shape clones the value, not the
 reference to it

---
 facet-core/src/spez/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..eeb6196 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,9 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From 926f176c9c22f78270288b0c9e74b8d586bce826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 15/51] fix: one-element tuples and &Path are named as the
 types they are

---
 facet-core/src/impls_core/tuple.rs | 2 +-
 facet-core/src/impls_std/path.rs   | 2 +-
 facet-dev/src/tuples.rs            | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 3bf3b90..9d36f2e 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -52,7 +52,7 @@ where
         where
             T0: Facet,
         {
-            write_type_name_list(f, opts, "(", ", ", ")", &[T0::SHAPE])
+            write_type_name_list(f, opts, "(", ", ", ",)", &[T0::SHAPE])
         }
 
         Shape::builder()
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 1232a95..5b36f81 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -32,7 +32,7 @@ unsafe impl Facet for &std::path::Path {
             ))
             .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
                 f,
-                "Path"
+                "&Path"
             )))
             .build()
     };
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 0e24142..3555f38 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -102,7 +102,8 @@ pub fn generate() -> String {
         w!("        {{\n");
         if n <= 3 {
             w!(
-                "            write_type_name_list(f, opts, \"(\", \", \", \")\", &[{}])\n",
+                "            write_type_name_list(f, opts, \"(\", \", \", \"{}\", &[{}])\n",
+                if n == 1 { ",)" } else { ")" },
                 shape_list
             );
         } else {
-- 
2.43.0


From 16148c5df52862506eed9b4303d64603b91296dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 16/51] fix: enums keep their declared invariants and container
 attributes

---
 facet-derive-emit/src/lib.rs          | 18 ++++++++++++++++
 facet-derive-emit/src/process_enum.rs | 30 +++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..67c220e 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -324,6 +324,24 @@ fn build_container_attributes(attributes: &[Attribute]) -> String {
     }
 }
 
+/// Returns statements checking each of the declared invariants against `value`
+fn build_invariant_tests(attributes: &[Attribute]) -> String {
+    attributes
+        .iter()
+        .filter_map(|attr| match &attr.body.content {
+            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
+                FacetInner::Invariants(invariant) => Some(format!(
+                    "if !value.{}() {{ return false; }}",
+                    invariant.value.as_str()
+                )),
+                _ => None,
+            },
+            _ => None,
+        })
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
 fn get_discriminant_value(lit: &Literal) -> i64 {
     let s = lit.to_string();
     get_discriminant_value_from_str(&s)
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..4fb33bf 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -164,6 +164,30 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
         String::new()
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
+    let set_attributes = build_container_attributes(&parsed.attributes);
+
+    let mut vtable = format!(
+        r#"::facet::value_vtable!(
+                Self,
+                |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
+            )"#
+    );
+    let invariants = build_invariant_tests(&parsed.attributes);
+    if !invariants.is_empty() {
+        vtable = format!(
+            r#"&const {{
+                unsafe fn invariants<'mem>(value: ::facet::PtrConst<'mem>) -> bool {{
+                    let value = value.get::<{enum_name}<{generics_use}>>();
+                    {invariants}
+                    true
+                }}
+
+                let mut vtable = *{vtable};
+                vtable.invariants = Some(invariants);
+                vtable
+            }}"#
+        );
+    }
 
     // Generate the impl
     let output = format!(
@@ -185,10 +209,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
             .id(::facet::ConstTypeId::of::<Self>())
             .layout(::core::alloc::Layout::new::<Self>())
             {type_params}
-            .vtable(::facet::value_vtable!(
-                Self,
-                |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
-            ))
+            .vtable({vtable})
             .def(::facet::Def::Enum(::facet::EnumDef::builder()
                 // Use variant expressions that just reference the shadow structs
                 // which are now defined above
@@ -196,6 +217,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
-- 
2.43.0


From f603bb31d660ef70d07be7d15c423d1c622fe1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 17/51] fix: JSON numbers keep every digit, accept exponents
 and never panic

---
 facet-json/src/deserialize.rs | 187 ++++++++++++++++++++++------------
 1 file changed, 120 insertions(+), 67 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index ffa2af2..cc2c47e 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -365,37 +365,53 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
-                        }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let number = match scan_number(&mut pos, input) {
+                            Ok(number) => number,
+                            Err(kind) => bail!(kind),
+                        };
                         trace!("Parsed {:?}", number.yellow());
 
-                        // Prefer try_put_f64 only if actually supported (can_put_f64)
-                        if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
-                        } else {
-                            // If string affinity (eg, expecting a string, but got number)
-                            let shape = wip.shape();
-                            if let Def::Scalar(sd) = shape.def {
-                                if let ScalarAffinity::String(_) = sd.affinity {
-                                    if shape.is_type::<String>() {
-                                        let value = number.to_string();
-                                        bail!(JsonErrorKind::StringAsNumber(value));
+                        let shape = wip.shape();
+                        let Def::Scalar(sd) = shape.def else {
+                            bail!(out_of_range(number));
+                        };
+                        match sd.affinity {
+                            ScalarAffinity::Number(_) => {
+                                let path = wip.path();
+                                let stored = if shape.is_type::<f64>() {
+                                    match number.parse::<f64>() {
+                                        Ok(value) if value.is_finite() => wip.put(value),
+                                        _ => bail!(out_of_range(number)),
                                     }
-                                }
+                                } else if shape.is_type::<f32>() {
+                                    match number.parse::<f32>() {
+                                        Ok(value) if value.is_finite() => wip.put(value),
+                                        _ => bail!(out_of_range(number)),
+                                    }
+                                } else {
+                                    // going through an f64 would lose digits
+                                    match integer_digits(number) {
+                                        Some(digits) => wip.parse(&digits),
+                                        None => bail!(out_of_range(number)),
+                                    }
+                                };
+                                wip = match stored {
+                                    Ok(wip) => wip,
+                                    Err(_) => {
+                                        return Err(JsonParseErrorWithContext::new(
+                                            out_of_range(number),
+                                            input,
+                                            pos,
+                                            path,
+                                        ));
+                                    }
+                                };
+                            }
+                            ScalarAffinity::String(_) => {
+                                // expecting a string, but got number
+                                bail!(JsonErrorKind::StringAsNumber(number.to_string()));
                             }
-                            // fallback for other shape mismatch (todo! or parse error)
-                            bail!(JsonErrorKind::NumberOutOfRange(number));
+                            _ => bail!(out_of_range(number)),
                         }
                         finished_value = Some(why);
                     }
@@ -737,46 +753,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
         }
         b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
-                *pos += 1;
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
-                *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                }
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
-                }
-            }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
-                    *pos += 1;
-                }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
-                }
-            }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
+            scan_number(pos, input)?;
         }
         _ => {
             return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
@@ -784,3 +761,79 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     }
     Ok(())
 }
+
+/// Scans a JSON number, `-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?`, and moves past it.
+fn scan_number<'input>(pos: &mut usize, input: &'input [u8]) -> Result<&'input str, JsonErrorKind> {
+    fn digits(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+        let start = *pos;
+        while let Some(b'0'..=b'9') = input.get(*pos) {
+            *pos += 1;
+        }
+        if *pos > start {
+            return Ok(());
+        }
+        Err(match input.get(*pos) {
+            Some(&c) => JsonErrorKind::UnexpectedCharacter(c as char),
+            None => JsonErrorKind::UnexpectedEof("in the middle of a number"),
+        })
+    }
+
+    let start = *pos;
+    if input.get(*pos) == Some(&b'-') {
+        *pos += 1;
+    }
+    if input.get(*pos) == Some(&b'0') {
+        *pos += 1;
+    } else {
+        digits(pos, input)?;
+    }
+    if input.get(*pos) == Some(&b'.') {
+        *pos += 1;
+        digits(pos, input)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
+            *pos += 1;
+        }
+        digits(pos, input)?;
+    }
+    core::str::from_utf8(&input[start..*pos]).map_err(|e| JsonErrorKind::InvalidUtf8(e.to_string()))
+}
+
+/// The plain digits of a JSON number (with its sign), if that number is an integer.
+fn integer_digits(number: &str) -> Option<String> {
+    let (sign, number) = match number.strip_prefix('-') {
+        Some(rest) => ("-", rest),
+        None => ("", number),
+    };
+    let (mantissa, exponent) = number.split_once(['e', 'E']).unwrap_or((number, "0"));
+    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+
+    let mut digits = format!("{whole}{fraction}");
+    if digits.bytes().all(|b| b == b'0') {
+        return Some(String::from("0"));
+    }
+    let shift = exponent
+        .parse::<i64>()
+        .ok()?
+        .checked_sub(fraction.len() as i64)?;
+    if shift > 40 {
+        // that's beyond even 128-bit integers
+        return None;
+    }
+    for _ in 0..shift {
+        digits.push('0');
+    }
+    for _ in shift..0 {
+        if digits.pop() != Some('0') {
+            return None;
+        }
+    }
+    Some(format!("{sign}{digits}"))
+}
+
+/// The error for a number its target cannot hold
+fn out_of_range(number: &str) -> JsonErrorKind {
+    JsonErrorKind::NumberOutOfRange(number.parse().unwrap_or(f64::NAN))
+}
-- 
2.43.0


From 0119c9415d5d70654ffaeb9e20675b660ce98426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 18/51] fix: try_put_f64 refuses numbers beyond 64-bit limits
 and accepts negative non-zero integers

---
 facet-reflect/src/wip/put_f64.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..5363f19 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -5,6 +5,12 @@ use core::num::{
 };
 use facet_core::{Def, ScalarAffinity};
 
+/// The smallest number that no longer fits an integer with the given number of value bits.
+/// (`u64::MAX as f64` rounds up to 2^64, which itself does not fit a `u64`)
+fn upper_bound(value_bits: u32) -> f64 {
+    (1u128 << value_bits) as f64
+}
+
 impl Wip<'_> {
     /// Returns true if the current frame can accept a f64 into a supported numeric type.
     pub fn can_put_f64(&self) -> bool {
@@ -72,7 +78,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
+            if (0.0..upper_bound(u64::BITS)).contains(&number) {
                 self.put(number as u64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -81,7 +87,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
+            if (0.0..upper_bound(usize::BITS)).contains(&number) {
                 self.put(number as usize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -117,7 +123,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
+            if (i64::MIN as f64..upper_bound(i64::BITS - 1)).contains(&number) {
                 self.put(number as i64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -126,7 +132,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
+            if (isize::MIN as f64..upper_bound(isize::BITS - 1)).contains(&number) {
                 self.put(number as isize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -176,7 +182,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
+            if (1.0..upper_bound(u64::BITS)).contains(&number) {
                 let value = NonZeroU64::new(number as u64).unwrap();
                 self.put(value)
             } else {
@@ -186,7 +192,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
+            if (1.0..upper_bound(usize::BITS)).contains(&number) {
                 let value = NonZeroUsize::new(number as usize).unwrap();
                 self.put(value)
             } else {
@@ -196,7 +202,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
+            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) && number as i8 != 0 {
                 let value = NonZeroI8::new(number as i8).unwrap();
                 self.put(value)
             } else {
@@ -206,7 +212,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
+            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) && number as i16 != 0 {
                 let value = NonZeroI16::new(number as i16).unwrap();
                 self.put(value)
             } else {
@@ -216,7 +222,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
+            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) && number as i32 != 0 {
                 let value = NonZeroI32::new(number as i32).unwrap();
                 self.put(value)
             } else {
@@ -226,7 +232,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
+            if (i64::MIN as f64..upper_bound(i64::BITS - 1)).contains(&number) && number as i64 != 0
+            {
                 let value = NonZeroI64::new(number as i64).unwrap();
                 self.put(value)
             } else {
@@ -236,7 +243,9 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
+            if (isize::MIN as f64..upper_bound(isize::BITS - 1)).contains(&number)
+                && number as isize != 0
+            {
                 let value = NonZeroIsize::new(number as isize).unwrap();
                 self.put(value)
             } else {
-- 
2.43.0


From 0a7266ddb5804b6d5aac50cf0d035cf11317ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 19/51] fix: JSON string escapes are decoded, malformed strings
 refused

---
 facet-json/src/deserialize.rs | 175 ++++++++++++++++++----------------
 1 file changed, 95 insertions(+), 80 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index cc2c47e..9954f2e 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -2,6 +2,7 @@ use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, Sha
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use alloc::vec::Vec;
@@ -201,58 +202,9 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'"' => {
-                        pos += 1;
-                        let start = pos;
-                        // Our value is a string: collect bytes first
-                        let mut bytes = Vec::new();
-                        loop {
-                            let Some(c) = input.get(pos).copied() else {
-                                bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
-                            };
-                            match c {
-                                b'"' => {
-                                    break;
-                                }
-                                b'\\' => {
-                                    // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
-                                        }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
-                                    }
-                                }
-                                _ => {
-                                    if !bytes.is_empty() {
-                                        bytes.push(c);
-                                    }
-                                    pos += 1;
-                                }
-                            }
-                        }
-                        let end = pos;
-                        pos += 1;
-
-                        let value = if bytes.is_empty() {
-                            match core::str::from_utf8(&input[start..end]) {
-                                Ok(it) => alloc::borrow::Cow::Borrowed(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
-                        } else {
-                            // Convert collected bytes to string at once
-                            match alloc::string::String::from_utf8(bytes) {
-                                Ok(it) => alloc::borrow::Cow::Owned(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
+                        let value = match scan_string(&mut pos, input) {
+                            Ok(value) => value,
+                            Err(kind) => bail!(kind),
                         };
 
                         trace!(
@@ -700,33 +652,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
         }
         b'"' => {
-            // Skip a string, with escape processing
-            *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
-                        *pos += 1;
-                        break;
-                    }
-                    _ => {
-                        *pos += 1;
-                    }
-                }
-            }
-            if *pos > bytes.len() {
-                return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
-                ));
-            }
+            scan_string(pos, input)?;
         }
         b't' => {
             // Expect "true"
@@ -762,6 +688,95 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     Ok(())
 }
 
+/// Scans a JSON string starting at its opening quote, decodes it, and moves past it.
+fn scan_string<'input>(
+    pos: &mut usize,
+    input: &'input [u8],
+) -> Result<Cow<'input, str>, JsonErrorKind> {
+    *pos += 1;
+    let mut start = *pos;
+    // what comes before `start`, if there has been any escape sequence
+    let mut decoded: Option<String> = None;
+
+    loop {
+        match input.get(*pos) {
+            None => return Err(JsonErrorKind::UnexpectedEof("nothing after \"")),
+            Some(b'"') => {
+                let rest = utf8(&input[start..*pos])?;
+                *pos += 1;
+                return Ok(match decoded {
+                    Some(decoded) => Cow::Owned(decoded + rest),
+                    None => Cow::Borrowed(rest),
+                });
+            }
+            Some(b'\\') => {
+                let decoded = decoded.get_or_insert_default();
+                decoded.push_str(utf8(&input[start..*pos])?);
+                *pos += 1;
+                decoded.push(scan_escape(pos, input)?);
+                start = *pos;
+            }
+            Some(&c) if c < 0x20 => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            Some(_) => *pos += 1,
+        }
+    }
+}
+
+/// Decodes what follows the backslash of an escape sequence, and moves past it.
+fn scan_escape(pos: &mut usize, input: &[u8]) -> Result<char, JsonErrorKind> {
+    let Some(&c) = input.get(*pos) else {
+        return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+    };
+    *pos += 1;
+    Ok(match c {
+        b'"' | b'\\' | b'/' => c as char,
+        b'b' => '\u{08}',
+        b'f' => '\u{0C}',
+        b'n' => '\n',
+        b'r' => '\r',
+        b't' => '\t',
+        b'u' => {
+            let mut code = scan_hex4(pos, input)?;
+            // a high surrogate only makes sense together with a low one
+            if (0xD800..0xDC00).contains(&code) && input[*pos..].starts_with(b"\\u") {
+                *pos += 2;
+                let low = scan_hex4(pos, input)?;
+                if !(0xDC00..0xE000).contains(&low) {
+                    return Err(lone_surrogate(code));
+                }
+                code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+            }
+            char::from_u32(code).ok_or_else(|| lone_surrogate(code))?
+        }
+        _ => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+    })
+}
+
+/// Reads the four hexadecimal digits of a `\u` escape sequence, and moves past them.
+fn scan_hex4(pos: &mut usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
+    let mut code = 0;
+    for _ in 0..4 {
+        let Some(&c) = input.get(*pos) else {
+            return Err(JsonErrorKind::UnexpectedEof("in the middle of a \\u"));
+        };
+        let Some(digit) = (c as char).to_digit(16) else {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        };
+        code = code * 16 + digit;
+        *pos += 1;
+    }
+    Ok(code)
+}
+
+fn lone_surrogate(code: u32) -> JsonErrorKind {
+    JsonErrorKind::InvalidUtf8(format!("lone surrogate: \\u{code:04x}"))
+}
+
+fn utf8(bytes: &[u8]) -> Result<&str, JsonErrorKind> {
+    core::str::from_utf8(bytes)
+        .map_err(|e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e)))
+}
+
 /// Scans a JSON number, `-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?`, and moves past it.
 fn scan_number<'input>(pos: &mut usize, input: &'input [u8]) -> Result<&'input str, JsonErrorKind> {
     fn digits(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
@@ -798,7 +813,7 @@ fn scan_number<'input>(pos: &mut usize, input: &'input [u8]) -> Result<&'input s
         }
         digits(pos, input)?;
     }
-    core::str::from_utf8(&input[start..*pos]).map_err(|e| JsonErrorKind::InvalidUtf8(e.to_string()))
+    utf8(&input[start..*pos])
 }
 
 /// The plain digits of a JSON number (with its sign), if that number is an integer.
-- 
2.43.0


From d7afaa4d9e2a5a4c9391720d4e90ac5c8ce9fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 20/51] fix: JSON documents that don't match the target are
 refused with an error

---
 facet-json/src/deserialize.rs       | 182 ++++++++++++++++------------
 facet-json/src/deserialize/error.rs |   4 +
 2 files changed, 110 insertions(+), 76 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 9954f2e..a83936e 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,5 +1,5 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
-use facet_reflect::{HeapValue, Wip};
+use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_reflect::{HeapValue, ReflectError, Wip};
 use log::trace;
 
 use alloc::borrow::Cow;
@@ -32,7 +32,14 @@ pub fn from_str<T: Facet>(json: &str) -> Result<T, JsonParseErrorWithContext<'_>
 pub fn from_slice<T: Facet>(json: &[u8]) -> Result<T, JsonParseErrorWithContext<'_>> {
     let wip = Wip::alloc::<T>();
     let heap_value = from_slice_wip(wip, json)?;
-    Ok(heap_value.materialize::<T>().unwrap())
+    heap_value.materialize::<T>().map_err(|e| {
+        JsonParseErrorWithContext::new(
+            JsonErrorKind::ReflectError(e),
+            json,
+            json.len(),
+            String::from("$"),
+        )
+    })
 }
 
 /// Deserialize a JSON string into a Wip object.
@@ -66,6 +73,25 @@ pub fn from_slice_wip<'input, 'a>(
             return err!($kind)
         };
     }
+    /// Unwraps the result of an operation that consumes the `Wip`.
+    macro_rules! reflect {
+        ($result:expr) => {
+            reflect!($result, at String::from("$"))
+        };
+        ($result:expr, at $path:expr) => {
+            match $result {
+                Ok(it) => it,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e),
+                        input,
+                        pos,
+                        $path,
+                    ));
+                }
+            }
+        };
+    }
 
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -113,32 +139,27 @@ pub fn from_slice_wip<'input, 'a>(
     stack.push(Expect::Value(WhyValue::TopLevel));
 
     loop {
-        // skip over whitespace
-        while let Some(c) = input.get(pos).copied() {
-            match c {
-                b' ' | b'\t' | b'\n' | b'\r' => {
-                    pos += 1;
-                }
-                _ => break,
-            }
-        }
+        skip_whitespace(&mut pos, input);
 
         let frame_count = wip.frames_count();
         let expect = match stack.pop() {
             Some(expect) => expect,
             None => {
-                if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
-                } else {
-                    trace!("frame_count isn't 1, it's {}", frame_count);
-                    bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
+                // the whole value has been parsed: nothing may come after it
+                if let Some(&c) = input.get(pos) {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
                 }
+                let path = wip.path();
+                return Ok(reflect!(wip.build(), at path));
             }
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // popping doesn't need any input
+            None if expect == Expect::PopOption => b' ',
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
@@ -150,15 +171,25 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
-                    stack.push(Expect::PopOption);
+                if why == WhyValue::ObjectKey && c != b'"' {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
+
+                if why != WhyValue::ObjectKey && c != b'n' {
+                    while let Def::Option(_) = wip.shape().def {
+                        wip = reflect!(wip.push_some());
+                        stack.push(Expect::PopOption);
+                    }
                 }
 
                 match c {
                     b'{' => {
                         trace!("Object starting");
+                        let Def::Struct(_) = wip.shape().def else {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        };
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -179,12 +210,16 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'[' => {
+                        let Def::List(_) = wip.shape().def else {
+                            bail!(JsonErrorKind::UnexpectedCharacter('['));
+                        };
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        wip = reflect!(wip.begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -196,7 +231,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
@@ -218,9 +253,10 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    wip = reflect!(wip.put::<String>(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    let path = wip.path();
+                                    wip = reflect!(wip.parse(&value), at path);
                                 }
                                 finished_value = Some(why);
                             }
@@ -229,7 +265,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 let shape = wip.shape();
 
                                 if let Def::Struct(struct_def) = shape.def {
-                                    let field = struct_def.fields.iter().find(|f| {
+                                    let field = struct_def.fields.iter().position(|f| {
                                         // Check original name
                                         if f.name == value {
                                             return true;
@@ -245,9 +281,17 @@ pub fn from_slice_wip<'input, 'a>(
                                         })
                                     });
 
-                                    if let Some(field) = field {
-                                        trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                    if let Some(index) = field {
+                                        trace!("found field {:?}", struct_def.fields[index].blue());
+                                        if wip.is_field_set(index).unwrap_or(false) {
+                                            bail!(JsonErrorKind::ReflectError(
+                                                ReflectError::OperationFailed {
+                                                    shape,
+                                                    operation: "field appears more than once",
+                                                }
+                                            ));
+                                        }
+                                        wip = reflect!(wip.field(index));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -260,12 +304,7 @@ pub fn from_slice_wip<'input, 'a>(
                                             expect_colon,
                                             Some(Expect::Separator(Separator::Colon))
                                         ));
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace(&mut pos, input);
                                         // skip over colon
                                         if let Some(b':') = input.get(pos) {
                                             pos += 1;
@@ -278,12 +317,7 @@ pub fn from_slice_wip<'input, 'a>(
                                                     .unwrap_or('\0')
                                             ));
                                         }
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace(&mut pos, input);
                                         // pop Expect::Value
                                         let expect_value = stack.pop();
                                         assert!(matches!(
@@ -311,7 +345,8 @@ pub fn from_slice_wip<'input, 'a>(
                                         value.blue(),
                                         wip.shape()
                                     );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    let path = wip.path();
+                                    wip = reflect!(wip.field_named(&value), at path);
                                 }
                             }
                         }
@@ -375,7 +410,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        wip = reflect!(wip.put::<bool>(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -392,7 +427,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        wip = reflect!(wip.put::<bool>(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -411,10 +446,13 @@ pub fn from_slice_wip<'input, 'a>(
                         // wow it's a null — probably
                         let slice_rest = &input[pos..];
                         if slice_rest.starts_with(b"null") {
+                            let Def::Option(_) = wip.shape().def else {
+                                bail!(JsonErrorKind::UnexpectedCharacter('n'));
+                            };
                             pos += 4;
 
-                            // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            // the default of an option is `None`
+                            wip = reflect!(wip.put_default());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -441,7 +479,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -466,9 +504,7 @@ pub fn from_slice_wip<'input, 'a>(
                         match why {
                             WhyComma::Array => {
                                 // we finished the array, neat
-                                if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
-                                }
+                                finished_value = Some(WhyValue::ArrayElement);
                             }
                             _ => {
                                 bail!(JsonErrorKind::UnexpectedCharacter(c as char));
@@ -499,7 +535,7 @@ pub fn from_slice_wip<'input, 'a>(
                     // Ensure all struct fields are set before popping
                     if let Def::Struct(sd) = wip.shape().def {
                         for i in 0..sd.fields.len() {
-                            if !wip.is_field_set(i).unwrap() {
+                            if !reflect!(wip.is_field_set(i)) {
                                 let missing_field: &'static str = sd.fields[i].name;
                                 if struct_has_default {
                                     has_missing_fields = true;
@@ -513,22 +549,15 @@ pub fn from_slice_wip<'input, 'a>(
                                     {
                                         match attr {
                                             Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                wip = reflect!(wip.field(i));
+                                                wip = reflect!(wip.put_from_fn(*fun));
+                                                wip = reflect!(wip.pop());
                                             }
                                             None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                wip = reflect!(wip.field(i));
+                                                let path = wip.path();
+                                                wip = reflect!(wip.put_default(), at path);
+                                                wip = reflect!(wip.pop());
                                             }
                                         }
                                     } else {
@@ -541,19 +570,14 @@ pub fn from_slice_wip<'input, 'a>(
 
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
                         // Take every missing field from the default value
-                        wip = wip.put_missing_fields_from_default().unwrap();
+                        let path = wip.path();
+                        wip = reflect!(wip.put_missing_fields_from_default(), at path);
                     }
 
-                    if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
-                    } else {
-                        wip = wip.pop().unwrap();
+                    // the outermost value stays: it's about to be built
+                    if !stack.is_empty() {
+                        wip = reflect!(wip.pop());
                     }
                 }
             }
@@ -561,6 +585,12 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+fn skip_whitespace(pos: &mut usize, input: &[u8]) {
+    while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos) {
+        *pos += 1;
+    }
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..15334f1 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -2,6 +2,7 @@
 use alloc::format;
 #[cfg(feature = "alloc")]
 use alloc::string::String;
+use facet_reflect::ReflectError;
 
 #[cfg(feature = "rich-diagnostics")]
 use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
@@ -45,6 +46,7 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
+            JsonErrorKind::ReflectError(e) => format!("Cannot store value: {}", e),
         }
     }
 }
@@ -66,6 +68,8 @@ pub enum JsonErrorKind {
     UnknownField(String),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
+    /// The JSON value could not be stored in the target type.
+    ReflectError(ReflectError),
 }
 
 #[cfg(not(feature = "rich-diagnostics"))]
-- 
2.43.0


From a262f4b0675726f5fe7ad5255d88953450b22bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:40 +0000
Subject: [PATCH 21/51] fix: renamed fields are no longer matched by their
 original name in JSON

---
 facet-json/src/deserialize.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index a83936e..7bef2d3 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -266,19 +266,15 @@ pub fn from_slice_wip<'input, 'a>(
 
                                 if let Def::Struct(struct_def) = shape.def {
                                     let field = struct_def.fields.iter().position(|f| {
-                                        // Check original name
-                                        if f.name == value {
-                                            return true;
-                                        }
-
-                                        // Check rename attribute
-                                        f.attributes.iter().any(|attr| {
+                                        // A renamed field only goes by its new name
+                                        let rename = f.attributes.iter().find_map(|attr| {
                                             if let &FieldAttribute::Rename(rename) = attr {
-                                                rename == value
+                                                Some(rename)
                                             } else {
-                                                false
+                                                None
                                             }
-                                        })
+                                        });
+                                        rename.unwrap_or(f.name) == value
                                     });
 
                                     if let Some(index) = field {
-- 
2.43.0


From d886acfd11f89c5141315d6746682b8b85e7c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 22/51] fix: skipped JSON values are checked, rendering a JSON
 error never panics

---
 facet-json/src/deserialize.rs       | 29 ++++++++++++++++++++++++-----
 facet-json/src/deserialize/error.rs | 25 +++++++++++++++++++------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 7bef2d3..1dde4e7 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -321,7 +321,7 @@ pub fn from_slice_wip<'input, 'a>(
                                             Some(Expect::Value(WhyValue::ObjectValue))
                                         ));
                                         // skip over value
-                                        skip_over_value(&mut pos, input).map_err(|e| {
+                                        skip_over_value(&mut pos, input, 0).map_err(|e| {
                                             JsonParseErrorWithContext::new(
                                                 e,
                                                 input,
@@ -587,9 +587,18 @@ fn skip_whitespace(pos: &mut usize, input: &[u8]) {
     }
 }
 
-fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+/// How deeply arrays and objects may nest in a value that's skipped over
+const MAX_SKIP_DEPTH: usize = 512;
+
+fn skip_over_value(pos: &mut usize, input: &[u8], depth: usize) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
+    if depth > MAX_SKIP_DEPTH {
+        return Err(JsonErrorKind::UnexpectedCharacter(
+            bytes.get(*pos).map_or('\0', |&c| c as char),
+        ));
+    }
+
     // Helper for skipping whitespace
     let skip_whitespace = |pos: &mut usize| {
         while *pos < bytes.len() {
@@ -619,7 +628,17 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
             loop {
                 // Skip key
-                skip_over_value(pos, input)?;
+                match bytes.get(*pos) {
+                    Some(b'"') => {
+                        scan_string(pos, input)?;
+                    }
+                    Some(&c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+                    None => {
+                        return Err(JsonErrorKind::UnexpectedEof(
+                            "while skipping over value: EOF instead of an object key",
+                        ));
+                    }
+                }
                 skip_whitespace(pos);
                 // Expect colon between key and value
                 if *pos >= bytes.len() || bytes[*pos] != b':' {
@@ -630,7 +649,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                 *pos += 1;
                 skip_whitespace(pos);
                 // Skip value
-                skip_over_value(pos, input)?;
+                skip_over_value(pos, input, depth + 1)?;
                 skip_whitespace(pos);
                 if *pos >= bytes.len() {
                     return Err(JsonErrorKind::UnexpectedEof(
@@ -658,7 +677,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                 return Ok(());
             }
             loop {
-                skip_over_value(pos, input)?;
+                skip_over_value(pos, input, depth + 1)?;
                 skip_whitespace(pos);
                 if *pos >= bytes.len() {
                     return Err(JsonErrorKind::UnexpectedEof(
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 15334f1..2d752a5 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -94,19 +94,32 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
 
         let source_id = "json";
 
-        let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
+        let pos = self.pos.min(input_str.len());
+        let (mut span_start, mut span_end) = match &self.kind {
+            JsonErrorKind::StringAsNumber(s) => (pos.saturating_sub(s.len()), pos),
+            JsonErrorKind::UnknownField(f) => {
+                // the position is that of whatever follows the closing quote
+                let end = pos.saturating_sub(1);
+                (end.saturating_sub(f.len()), end)
+            }
             _ => {
-                let span_end = if self.pos < self.input.len() {
-                    self.pos + 1
+                let span_end = if pos < self.input.len() {
+                    pos + 1
                 } else {
                     self.input.len()
                 };
-                (self.pos, span_end)
+                (pos, span_end)
             }
         };
 
+        // a span has to start and end between characters
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
+
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
             .with_config(Config::new().with_index_type(IndexType::Byte));
-- 
2.43.0


From 061387047d340d67904590619a52d92638c289ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 23/51] fix: JSON output is well-formed for floats, map keys
 and enum variants

---
 facet-json/src/serialize.rs | 63 ++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..d096d47 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Characteristic, Def, Facet, Field, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -128,9 +128,11 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
+        ensure_finite(value.is_finite())?;
         write!(writer, "{}", value)
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
+        ensure_finite(value.is_finite())?;
         write!(writer, "{}", value)
     } else {
         Err(io::Error::new(
@@ -140,6 +142,33 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// JSON has no way to write infinities and NaNs
+fn ensure_finite(finite: bool) -> io::Result<()> {
+    if finite {
+        Ok(())
+    } else {
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            "Non-finite numbers cannot be represented in JSON",
+        ))
+    }
+}
+
+/// The name a field goes by in JSON
+fn field_key(field: &Field) -> &'static str {
+    field
+        .attributes
+        .iter()
+        .find_map(|attr| {
+            if let FieldAttribute::Rename(name) = attr {
+                Some(*name)
+            } else {
+                None
+            }
+        })
+        .unwrap_or(field.name)
+}
+
 /// Serializes a struct to JSON
 fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
     let struct_peek = peek
@@ -155,21 +184,8 @@ fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
         }
         first = false;
 
-        // Check for rename attribute
-        let field_name = field
-            .attributes
-            .iter()
-            .find_map(|attr| {
-                if let FieldAttribute::Rename(name) = attr {
-                    Some(*name)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(field.name);
-
-        // Write field name
-        write_json_string(writer, field_name)?;
+        // Write field name (or what it's been renamed to)
+        write_json_string(writer, field_key(&field))?;
         write!(writer, ":")?;
 
         // Write field value
@@ -221,14 +237,14 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
 
         // For map, keys must be converted to strings
         match key.shape().def {
-            Def::Scalar(_) => {
+            Def::Scalar(_) if key.shape().is(Characteristic::Display) => {
                 // Try to convert key to string
                 if key.shape().is_type::<String>() {
                     let key_str = key.get::<String>().unwrap();
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &format!("{}", key))?;
                 }
             }
             _ => {
@@ -270,19 +286,14 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write!(writer, ":")?;
 
         // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
+        let is_struct = variant.data.kind == StructKind::Struct;
+        if variant.data.fields.len() == 1 && !is_struct {
             let field = enum_peek.field(0).ok_or_else(|| {
                 io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
             })?;
             serialize(&field, writer)?;
         } else {
             // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
             if is_struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
@@ -295,7 +306,7 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                             format!("Failed to access enum field {}", i),
                         )
                     })?;
-                    let field_name = variant.data.fields[i].name;
+                    let field_name = field_key(&variant.data.fields[i]);
 
                     if !first {
                         write!(writer, ",")?;
-- 
2.43.0


From daab2a33c2390672033173bfc34b8807df39e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 24/51] fix: escapes in renames are decoded

---
 facet-derive-emit/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 67c220e..9a35cf8 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,17 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
-                            attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                            let value = attr_str[equal_pos + 1..].trim();
+                            if value.contains('"') {
+                                // that's a string literal: rustc knows about its escapes
+                                attribute_list
+                                    .push(format!("::facet::FieldAttribute::Rename({value})"));
+                            } else {
+                                attribute_list.push(format!(
+                                    r#"::facet::FieldAttribute::Rename({:?})"#,
+                                    value
+                                ));
+                            }
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0


From 86e6999ac49a6593b14b88cb26ec1a6143ffa885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 25/51] fix: MessagePack decoding handles every integer format
 and skips every value

---
 facet-msgpack/src/from_msgpack.rs | 299 ++++++++++++------------------
 1 file changed, 118 insertions(+), 181 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..d5182fc 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -136,33 +136,41 @@ impl<'input> Decoder<'input> {
         Ok(value)
     }
 
-    /// Decodes a MessagePack-encoded unsigned 64-bit integer.
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
+        if self.offset + 8 > self.input.len() {
+            return Err(DecodeError::InsufficientData);
+        }
+        let value =
+            u64::from_be_bytes(self.input[self.offset..self.offset + 8].try_into().unwrap());
+        self.offset += 8;
+        Ok(value)
+    }
+
+    /// Decodes a MessagePack-encoded integer into the given integer type.
     /// Handles the following MessagePack types:
     /// - positive fixint (0x00 - 0x7f): single-byte positive integer
-    /// - uint8 (0xcc): 8-bit unsigned integer
-    /// - uint16 (0xcd): 16-bit unsigned integer (big-endian)
-    /// - uint32 (0xce): 32-bit unsigned integer (big-endian)
-    /// - uint64 (0xcf): 64-bit unsigned integer (big-endian)
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
+    /// - uint8, uint16, uint32, uint64 (0xcc - 0xcf): unsigned integers (big-endian)
+    /// - int8, int16, int32, int64 (0xd0 - 0xd3): signed integers (big-endian)
     ///
     /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
-    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
-        match self.decode_u8()? {
-            MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
-            MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
-            MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
-            }
-            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
-            _ => Err(DecodeError::UnexpectedType),
-        }
+    fn decode_int<N: TryFrom<i128>>(&mut self) -> Result<N, DecodeError> {
+        let value = match self.decode_u8()? {
+            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
+            MSGPACK_UINT8 => self.decode_u8()? as i128,
+            MSGPACK_UINT16 => self.decode_u16()? as i128,
+            MSGPACK_UINT32 => self.decode_u32()? as i128,
+            MSGPACK_UINT64 => self.decode_u64()? as i128,
+            MSGPACK_INT8 => self.decode_u8()? as i8 as i128,
+            MSGPACK_INT16 => self.decode_u16()? as i16 as i128,
+            MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
+            MSGPACK_INT64 => self.decode_u64()? as i64 as i128,
+            prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => prefix as i8 as i128,
+            _ => return Err(DecodeError::UnexpectedType),
+        };
+        N::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
     }
 
     /// Decodes a MessagePack-encoded string.
@@ -271,132 +279,68 @@ impl<'input> Decoder<'input> {
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
-        let prefix = self.decode_u8()?;
-
-        match prefix {
-            // String formats
-            prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
-                let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR8 => {
-                let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR16 => {
-                let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR32 => {
-                let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-
-            // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
+        // Number of values still to be skipped, nested ones included
+        let mut pending = 1u64;
+
+        while pending > 0 {
+            pending -= 1;
+
+            // Bytes that follow, and values that follow
+            let (len, values) = match self.decode_u8()? {
+                // Integer formats
+                MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => (0, 0),
+                MSGPACK_UINT8 | MSGPACK_INT8 => (1, 0),
+                MSGPACK_UINT16 | MSGPACK_INT16 => (2, 0),
+                MSGPACK_UINT32 | MSGPACK_INT32 => (4, 0),
+                MSGPACK_UINT64 | MSGPACK_INT64 => (8, 0),
+
+                // Float formats
+                MSGPACK_FLOAT32 => (4, 0),
+                MSGPACK_FLOAT64 => (8, 0),
+
+                // Boolean and nil
+                MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => (0, 0),
+
+                // String and binary formats
+                prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => ((prefix & 0x1f) as usize, 0),
+                MSGPACK_STR8 | MSGPACK_BIN8 => (self.decode_u8()? as usize, 0),
+                MSGPACK_STR16 | MSGPACK_BIN16 => (self.decode_u16()? as usize, 0),
+                MSGPACK_STR32 | MSGPACK_BIN32 => (self.decode_u32()? as usize, 0),
+
+                // Extension formats: a type byte comes before the data
+                MSGPACK_FIXEXT1 => (1 + 1, 0),
+                MSGPACK_FIXEXT2 => (1 + 2, 0),
+                MSGPACK_FIXEXT4 => (1 + 4, 0),
+                MSGPACK_FIXEXT8 => (1 + 8, 0),
+                MSGPACK_FIXEXT16 => (1 + 16, 0),
+                MSGPACK_EXT8 => (1 + self.decode_u8()? as usize, 0),
+                MSGPACK_EXT16 => (1 + self.decode_u16()? as usize, 0),
+                MSGPACK_EXT32 => (1 + self.decode_u32()? as usize, 0),
+
+                // Map format: a key and a value per entry
+                prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => (0, 2 * (prefix & 0x0f) as u64),
+                MSGPACK_MAP16 => (0, 2 * self.decode_u16()? as u64),
+                MSGPACK_MAP32 => (0, 2 * self.decode_u32()? as u64),
+
+                // Array format
+                prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => (0, (prefix & 0x0f) as u64),
+                MSGPACK_ARRAY16 => (0, self.decode_u16()? as u64),
+                MSGPACK_ARRAY32 => (0, self.decode_u32()? as u64),
+
+                // Negative fixint
+                prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => (0, 0),
+
+                _ => return Err(DecodeError::UnexpectedType),
+            };
+
+            if len > self.input.len() - self.offset {
+                return Err(DecodeError::InsufficientData);
             }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-
-            _ => Err(DecodeError::UnexpectedType),
+            self.offset += len;
+            pending += values;
         }
+
+        Ok(())
     }
 
     fn deserialize_value(&mut self, wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
@@ -406,49 +350,41 @@ impl<'input> Decoder<'input> {
         let wip = match shape.def {
             Def::Scalar(_) => {
                 trace!("Deserializing scalar");
-                if shape.is_type::<String>() {
+                let put = if shape.is_type::<String>() {
                     let s = self.decode_string()?;
-                    wip.put(s).unwrap()
+                    wip.put(s)
                 } else if shape.is_type::<u64>() {
-                    let n = self.decode_u64()?;
-                    wip.put(n).unwrap()
+                    let n: u64 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<u32>() {
-                    let n = self.decode_u64()?;
-                    if n > u32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u32).unwrap()
+                    let n: u32 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<u16>() {
-                    let n = self.decode_u64()?;
-                    if n > u16::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u16).unwrap()
+                    let n: u16 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<u8>() {
-                    let n = self.decode_u64()?;
-                    if n > u8::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u8).unwrap()
+                    let n: u8 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n: i64 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n: i32 = self.decode_int()?;
+                    wip.put(n)
+                } else if shape.is_type::<i16>() {
+                    let n: i16 = self.decode_int()?;
+                    wip.put(n)
+                } else if shape.is_type::<i8>() {
+                    let n: i8 = self.decode_int()?;
+                    wip.put(n)
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
-                    wip.put(b).unwrap()
+                    wip.put(b)
                 } else {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
-                }
+                };
+                // Fails if the field was already set: the key appears twice
+                put.map_err(|_| DecodeError::InvalidData)?
             }
             Def::Struct(_) => {
                 trace!("Deserializing struct");
@@ -459,10 +395,11 @@ impl<'input> Decoder<'input> {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
+                            let field = wip.field(index).map_err(|_| DecodeError::InvalidData)?;
                             wip = self
-                                .deserialize_value(wip.field(index).unwrap())?
+                                .deserialize_value(field)?
                                 .pop()
-                                .unwrap();
+                                .map_err(|_| DecodeError::InvalidData)?;
                         }
                         None => {
                             // Skip unknown field value
-- 
2.43.0


From 08d7f7d97fc0f8f0c30cc8639719249f6f37c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 26/51] fix: TOML options and enum payloads no longer leave the
 builder inside them

---
 facet-toml/src/lib.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..895f4b6 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -94,11 +94,8 @@ fn deserialize_as_struct<'a>(
             Some(field_item) => wip = deserialize_item(wip, field_item)?,
             None => {
                 if let Def::Option(..) = field.shape().def {
-                    // TODO: how to push none
-                    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
-                    wip = wip
-                        .pop_some_push_none()
-                        .map_err(|e| AnyErr(e.to_string()))?;
+                    // The default of an option is none
+                    wip = wip.put_default().map_err(|e| AnyErr(e.to_string()))?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -220,18 +217,30 @@ fn build_enum_from_variant_name<'a>(
             };
 
             // Try to get the TOML field matching the Rust name
-            let Some(field) = item.get(field_name) else {
-                return Err(format!("TOML field '{}' not found", field_name).into());
-            };
-
-            wip = deserialize_item(wip, field)?;
-
-            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+            match item.get(field_name) {
+                Some(field_item) => wip = deserialize_item(wip, field_item)?,
+                None if matches!(field.shape().def, Def::Option(..)) => {
+                    // The default of an option is none
+                    wip = wip.put_default().map_err(|e| AnyErr(e.to_string()))?;
+                }
+                None => return Err(format!("TOML field '{}' not found", field_name).into()),
+            }
         } else if item.is_value() {
+            // A single value can't fill multiple fields
+            if variant.data.fields.len() > 1 {
+                return Err(format!(
+                    "Variant '{variant_name}' has multiple fields, got a single {}",
+                    item.type_name()
+                )
+                .into());
+            }
+
             wip = deserialize_item(wip, item)?;
         } else {
             return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
+
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
 
     Ok(wip)
@@ -366,6 +375,8 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From 11187cc5f25da2ec47590dfa742eca0154c4efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 27/51] fix: TOML floats are no longer truncated to integers or
 saturated to infinity

---
 facet-toml/src/to_scalar.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..87d8e5c 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -17,6 +17,7 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
 
     match v {
         Value::Float(r) => Ok(T::from(*r.value())
+            .filter(|n| is_kept(*r.value(), n))
             .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
         Value::Integer(i) => Ok(T::from(*i.value())
             .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
@@ -24,6 +25,16 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     }
 }
 
+/// Whether `number` still is the TOML float it was cast from, up to rounding.
+fn is_kept<T: NumCast>(float: f64, number: &T) -> bool {
+    let is_integer = T::from(0.5).and_then(|half| half.to_f64()) == Some(0.0);
+    if is_integer {
+        float.fract() == 0.0
+    } else {
+        float.is_infinite() || number.to_f64().is_none_or(|n| !n.is_infinite())
+    }
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From 5067c55c67ceb680dbae221a2e123f1ebeed84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 28/51] fix: TOML decoding refuses smart pointers, arrays of
 tables as enums and names of variants with fields

---
 facet-toml/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 895f4b6..5e51e7d 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -113,7 +113,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => return Err(AnyErr("Expected enum, got nothing".into())),
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -152,7 +152,17 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            let wip = build_enum_from_variant_name(wip, variant_name, item)?;
+
+            // The name alone doesn't hold the fields
+            match wip.selected_variant() {
+                Some(variant) if !variant.data.fields.is_empty() => {
+                    return Err(AnyErr(format!(
+                        "Variant '{variant_name}' has fields, got only its name"
+                    )));
+                }
+                _ => wip,
+            }
         }
 
         Item::Table(table) => {
@@ -174,7 +184,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_array_of_tables) => {
+            return Err(AnyErr(format!("Expected enum, got {}", item.type_name())));
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -382,12 +394,10 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
+fn deserialize_as_smartpointer<'a>(wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "smart pointer".blue());
 
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
+    Err(AnyErr(format!("Unsupported type: {}", wip.shape())))
 }
 
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
-- 
2.43.0


From ea175eac32713ece90851c3897572ac63237422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 29/51] fix: TOML arrays of tables are decoded as lists

---
 facet-toml/src/lib.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 5e51e7d..e318ebd 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -55,7 +55,7 @@ fn deserialize_as_struct<'a>(
     trace!("Deserializing {}", "struct".blue());
 
     // Parse as a the inner struct type if item is a single value and the struct is a unit struct
-    if item.is_value() && !item.is_inline_table() {
+    if (item.is_value() && !item.is_inline_table()) || item.is_array_of_tables() {
         // Only allow unit structs
         let shape = wip.shape();
         if let Def::Struct(def) = shape.def {
@@ -237,7 +237,7 @@ fn build_enum_from_variant_name<'a>(
                 }
                 None => return Err(format!("TOML field '{}' not found", field_name).into()),
             }
-        } else if item.is_value() {
+        } else if item.is_value() || item.is_array_of_tables() {
             // A single value can't fill multiple fields
             if variant.data.fields.len() > 1 {
                 return Err(format!(
@@ -261,15 +261,20 @@ fn build_enum_from_variant_name<'a>(
 fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "list".blue());
 
-    // Get the TOML item as an array
-    let Some(item) = item.as_array() else {
+    // Get the TOML items of an array, or of an array of tables
+    // TODO: remove clones
+    let items: Vec<Item> = if let Some(array) = item.as_array() {
+        array.iter().cloned().map(Item::Value).collect()
+    } else if let Some(tables) = item.as_array_of_tables() {
+        tables.iter().cloned().map(Item::Table).collect()
+    } else {
         return Err(AnyErr(format!(
             "Item is not an array but a {}",
             item.type_name()
         )));
     };
 
-    if item.is_empty() {
+    if items.is_empty() {
         // Only put an empty list
         return wip
             .put_empty_list()
@@ -282,17 +287,13 @@ fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, Any
         .map_err(|e| format!("Can not start filling list: {e}"))?;
 
     // Loop over all items in the TOML list
-    for value in item.iter() {
+    for item in &items {
         // Start the field
         wip = wip
             .push()
             .map_err(|e| format!("Can not start field: {e}"))?;
 
-        wip = deserialize_item(
-            wip,
-            // TODO: remove clone
-            &Item::Value(value.clone()),
-        )?;
+        wip = deserialize_item(wip, item)?;
 
         // Finish the field
         wip = wip
-- 
2.43.0


From f1d195f16cf5b26b6c9acd170447f5316f50c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 30/51] fix: YAML decoding refuses negative integers and
 unsupported types

---
 facet-yaml/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..60367d7 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr(format!("Integer {} does not fit u64", i)))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
@@ -92,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -113,7 +113,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From 68bd9fc7968add890aaf45a210f723aaee7093d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 31/51] fix: malformed URL-encoded keys no longer reach fields,
 deeply nested ones no longer overflow the stack

---
 facet-urlencoded/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..4b67f2a 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -108,6 +108,9 @@ fn initialize_nested_structures(nested: &mut NestedValues) {
     }
 }
 
+/// How deeply keys may be nested
+const MAX_DEPTH: usize = 128;
+
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
@@ -126,12 +129,17 @@ impl NestedValues {
 
     fn insert(&mut self, key: &str, value: String) {
         // For bracket notation like user[name] or user[address][city]
-        if let Some(open_bracket) = key.find('[') {
+        if key.matches('[').count() > MAX_DEPTH {
+            // No structure is that deep, and neither should our recursion be
+        } else if let Some(open_bracket) = key.find('[') {
             if let Some(close_bracket) = key.find(']') {
-                if open_bracket < close_bracket {
+                let remainder = &key[(close_bracket + 1)..];
+                if open_bracket < close_bracket
+                    && !key[(open_bracket + 1)..close_bracket].contains('[')
+                    && (remainder.is_empty() || remainder.starts_with('['))
+                {
                     let parent_key = &key[0..open_bracket];
                     let nested_key = &key[(open_bracket + 1)..close_bracket];
-                    let remainder = &key[(close_bracket + 1)..];
 
                     let nested = self
                         .nested
-- 
2.43.0


From eb64568b852b060d65149c74836ffbea58c3e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 32/51] fix: positional arguments after the first reach the
 positional fields after the first

---
 facet-args/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..ea1782b 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -64,6 +64,11 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
             };
 
             for (field_index, f) in sd.fields.iter().enumerate() {
+                // Earlier positional arguments are taken already
+                if wip.is_field_set(field_index).unwrap() {
+                    continue;
+                }
+
                 if f.attributes
                     .iter()
                     .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-- 
2.43.0


From c3f9352c0b3b7014b41d9b959fd61ede3b32bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 33/51] fix: positional arguments no field is left for are
 refused

---
 facet-args/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index ea1782b..2b1f120 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -63,6 +63,7 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 panic!("Expected struct definition");
             };
 
+            let mut placed = false;
             for (field_index, f) in sd.fields.iter().enumerate() {
                 // Earlier positional arguments are taken already
                 if wip.is_field_set(field_index).unwrap() {
@@ -75,9 +76,13 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 {
                     let field = wip.field(field_index).unwrap();
                     wip = parse_field(field, token).unwrap();
+                    placed = true;
                     break;
                 }
             }
+            if !placed {
+                panic!("Unexpected positional argument: {}", token);
+            }
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From b60358e2734eb3909c68949ac6eda425f1b2b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 34/51] fix: deeply nested YAML no longer overflows the stack

---
 facet-yaml/src/lib.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index 60367d7..3328199 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -3,6 +3,7 @@
 
 use facet_core::{Def, Facet};
 use facet_reflect::Wip;
+use yaml_rust2::parser::{Event, Parser};
 use yaml_rust2::{Yaml, YamlLoader};
 
 /// Deserializes a YAML string into a value of type `T` that implements `Facet`.
@@ -69,7 +70,32 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
     }
 }
 
+/// How deeply collections may be nested
+const MAX_DEPTH: usize = 128;
+
+/// The loader recurses into nested collections, so refuse what would overflow its stack.
+fn check_depth(yaml: &str) -> Result<(), AnyErr> {
+    let mut parser = Parser::new_from_str(yaml);
+    let mut depth = 0;
+    loop {
+        match parser.next_token() {
+            Ok((Event::SequenceStart(..) | Event::MappingStart(..), _)) => depth += 1,
+            Ok((Event::SequenceEnd | Event::MappingEnd, _)) => depth -= 1,
+            Ok((Event::StreamEnd, _)) => return Ok(()),
+            Ok(_) => {}
+            Err(e) => return Err(AnyErr(e.to_string())),
+        }
+        if depth > MAX_DEPTH {
+            return Err(AnyErr(format!(
+                "Collections are nested deeper than {} levels",
+                MAX_DEPTH
+            )));
+        }
+    }
+}
+
 fn from_str_value<'a>(wip: Wip<'a>, yaml: &str) -> Result<Wip<'a>, AnyErr> {
+    check_depth(yaml)?;
     let docs = YamlLoader::load_from_str(yaml).map_err(|e| e.to_string())?;
     if docs.len() != 1 {
         return Err("Expected exactly one YAML document".into());
-- 
2.43.0


From 9da3b0d9478c5cc0410741799c4317677a422697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 35/51] fix: sensitive fields of enum variants are redacted
 when pretty-printed

---
 facet-pretty/src/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..73ca95f 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -522,6 +522,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Sensitive fields are redacted in variants just like in structs
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 3a53875c2e8a04007b1a65fb2e3c7245d238d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 36/51] fix: sensitive fields inside arrays, slices and smart
 pointers are not shown through Debug

---
 facet-pretty/src/printer.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 73ca95f..b54a4e7 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -9,7 +9,7 @@ use core::{
 use std::{collections::HashMap, hash::DefaultHasher};
 use yansi::Paint as _;
 
-use facet_core::{Def, Facet, FieldFlags, StructKind, TypeNameOpts};
+use facet_core::{Def, Facet, Field, FieldFlags, Shape, StructKind, TypeNameOpts};
 use facet_reflect::{Peek, ValueId};
 
 use crate::color::ColorGenerator;
@@ -54,6 +54,31 @@ struct StackItem<'a> {
     state: StackState,
 }
 
+/// Returns true if values of that shape may hold a field marked sensitive, at any nesting
+fn has_sensitive_parts(shape: &'static Shape, seen: &mut Vec<&'static Shape>) -> bool {
+    if seen.contains(&shape) {
+        return false;
+    }
+    seen.push(shape);
+
+    let mut fields_do = |fields: &'static [Field]| {
+        fields.iter().any(|field| {
+            field.flags.contains(FieldFlags::SENSITIVE) || has_sensitive_parts(field.shape(), seen)
+        })
+    };
+    match shape.def {
+        Def::Struct(def) => fields_do(def.fields),
+        Def::Enum(def) => def.variants.iter().any(|v| fields_do(v.data.fields)),
+        Def::Map(def) => has_sensitive_parts(def.k, seen) || has_sensitive_parts(def.v, seen),
+        Def::List(def) => has_sensitive_parts(def.t(), seen),
+        Def::Array(def) => has_sensitive_parts(def.t(), seen),
+        Def::Slice(def) => has_sensitive_parts(def.t(), seen),
+        Def::Option(def) => has_sensitive_parts(def.t(), seen),
+        Def::SmartPointer(def) => def.pointee.is_some_and(|t| has_sensitive_parts(t, seen)),
+        _ => false,
+    }
+}
+
 impl PrettyPrinter {
     /// Create a new PrettyPrinter with default settings
     pub fn new() -> Self {
@@ -366,6 +391,12 @@ impl PrettyPrinter {
                                 }
                             }
                         }
+                        _ if has_sensitive_parts(item.value.shape(), &mut Vec::new()) => {
+                            // The value's own `Debug` knows nothing about sensitive fields
+                            self.write_type_name(f, &item.value)?;
+                            write!(f, " ")?;
+                            self.write_redacted(f, "[REDACTED]")?;
+                        }
                         _ => {
                             write!(f, "unsupported peek variant: {:?}", item.value)?;
                         }
-- 
2.43.0


From a555fc202bde78e0c19afc413d28d83f4dc85519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 37/51] fix: repeated zero-sized values are not printed as a
 cycle

---
 facet-pretty/src/printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index b54a4e7..cad95bf 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -169,6 +169,10 @@ impl PrettyPrinter {
                         }
                     }
 
+                    // Values we are done with can't be part of a cycle, and their address and
+                    // shape may well come up again (zero-sized elements all share one address)
+                    visited.retain(|_, type_depth| *type_depth < item.type_depth);
+
                     // Check for cycles - if we've seen this value before at a different type_depth
                     if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
                         // If the current type_depth is significantly deeper than when we first saw this value,
-- 
2.43.0


From 2359e80ed326aa0d3c2d17e8a496e4998dbdd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 38/51] fix: the bracket of a value cut at the maximum depth is
 closed

---
 facet-pretty/src/printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index cad95bf..03e543b 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -165,6 +165,7 @@ impl PrettyPrinter {
                         if item.format_depth > max_depth {
                             self.write_punctuation(f, "[")?;
                             write!(f, "...")?;
+                            self.write_punctuation(f, "]")?;
                             continue;
                         }
                     }
-- 
2.43.0


From b85799f6b59484caefe44e4104957aa0d08ef9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 39/51] fix: every line of a byte list is indented to its level
 and its colors are reset

---
 facet-pretty/src/printer.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 03e543b..b086272 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -281,8 +281,6 @@ impl PrettyPrinter {
                             if list.def().t().is_type::<u8>() && self.list_u8_as_bytes {
                                 // Push back the item with the next state to continue processing list items
                                 item.state = StackState::ProcessBytesItem { item_index: 0 };
-                                writeln!(f)?;
-                                write!(f, " ")?;
 
                                 // TODO: write all the bytes here instead?
                             } else {
@@ -637,23 +635,12 @@ impl PrettyPrinter {
                 StackState::ProcessBytesItem { item_index } => {
                     let list = item.value.into_list().unwrap();
                     if item_index >= list.len() {
-                        // All items processed, write closing bracket
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = (item.format_depth - 1) * self.indent_size
-                        )?;
+                        // All items processed
                         continue;
                     }
 
-                    // On the first byte, write the opening byte sequence indicator
-                    if item_index == 0 {
-                        write!(f, " ")?;
-                    }
-
                     // Only display 16 bytes per line
-                    if item_index > 0 && item_index % 16 == 0 {
+                    if item_index % 16 == 0 {
                         writeln!(f)?;
                         write!(
                             f,
@@ -661,7 +648,7 @@ impl PrettyPrinter {
                             "",
                             width = item.format_depth * self.indent_size
                         )?;
-                    } else if item_index > 0 {
+                    } else {
                         write!(f, " ")?;
                     }
 
@@ -685,7 +672,9 @@ impl PrettyPrinter {
                     write!(f, "{:02x}", *byte)?;
 
                     // Reset color if needed
-                    // Reset color already handled by stylize
+                    if self.use_colors {
+                        write!(f, "\x1b[0m")?;
+                    }
 
                     // Push back current item to continue after formatting byte
                     item.state = StackState::ProcessBytesItem {
-- 
2.43.0


From 9f8001af8b2c151f1aceb26a86cdf1d7cd2d97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 40/51] fix: a nested value with doc comments keeps its
 indentation

---
 facet-pretty/src/printer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index b086272..57714bb 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -248,6 +248,12 @@ impl PrettyPrinter {
                                 for line in doc_comments {
                                     self.write_comment(f, &format!("///{}", line))?;
                                     writeln!(f)?;
+                                    write!(
+                                        f,
+                                        "{:width$}",
+                                        "",
+                                        width = item.format_depth * self.indent_size
+                                    )?;
                                 }
                             }
 
@@ -323,12 +329,24 @@ impl PrettyPrinter {
                             for line in doc_comments {
                                 self.write_comment(f, &format!("///{}", line))?;
                                 writeln!(f)?;
+                                write!(
+                                    f,
+                                    "{:width$}",
+                                    "",
+                                    width = item.format_depth * self.indent_size
+                                )?;
                             }
 
                             // Show variant docs
                             for line in variant.doc {
                                 self.write_comment(f, &format!("///{}", line))?;
                                 writeln!(f)?;
+                                write!(
+                                    f,
+                                    "{:width$}",
+                                    "",
+                                    width = item.format_depth * self.indent_size
+                                )?;
                             }
 
                             // Print the enum name and separator
-- 
2.43.0


From 5c272e57ba5b7ebf0a127fb01899de1b8006d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 41/51] fix: the entries of maps are pretty-printed

---
 facet-pretty/src/printer.rs | 63 ++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 57714bb..89c7de1 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -10,7 +10,7 @@ use std::{collections::HashMap, hash::DefaultHasher};
 use yansi::Paint as _;
 
 use facet_core::{Def, Facet, Field, FieldFlags, Shape, StructKind, TypeNameOpts};
-use facet_reflect::{Peek, ValueId};
+use facet_reflect::{Peek, PeekMapIter, ValueId};
 
 use crate::color::ColorGenerator;
 
@@ -36,12 +36,13 @@ impl Default for PrettyPrinter {
 }
 
 /// Stack state for iterative formatting
-enum StackState {
+enum StackState<'a> {
     Start,
     ProcessStructField { field_index: usize },
     ProcessListItem { item_index: usize },
     ProcessBytesItem { item_index: usize },
-    ProcessMapEntry,
+    ProcessMapEntry { entries: PeekMapIter<'a> },
+    ProcessMapValue { value: Peek<'a> },
     Finish,
     OptionFinish,
 }
@@ -51,7 +52,7 @@ struct StackItem<'a> {
     value: Peek<'a>,
     format_depth: usize,
     type_depth: usize,
-    state: StackState,
+    state: StackState<'a>,
 }
 
 /// Returns true if values of that shape may hold a field marked sensitive, at any nesting
@@ -301,14 +302,16 @@ impl PrettyPrinter {
                             stack.push_back(item);
                         }
                         Def::Map(_) => {
-                            let _map = item.value.into_map().unwrap();
+                            let map = item.value.into_map().unwrap();
                             // Print the map name
                             self.write_type_name(f, &item.value)?;
                             self.write_punctuation(f, " {")?;
                             writeln!(f)?;
 
                             // Push back the item with the next state to continue processing map
-                            item.state = StackState::ProcessMapEntry;
+                            item.state = StackState::ProcessMapEntry {
+                                entries: map.iter(),
+                            };
                             item.format_depth += 1;
                             // When recursing into a map, always increment format_depth
                             item.type_depth += 1; // Always increment type_depth for map operations
@@ -700,8 +703,18 @@ impl PrettyPrinter {
                     };
                     stack.push_back(item);
                 }
-                StackState::ProcessMapEntry => {
-                    // TODO: Implement proper map iteration when available in facet
+                StackState::ProcessMapEntry { mut entries } => {
+                    let Some((key, value)) = entries.next() else {
+                        // Closing brace with proper indentation
+                        write!(
+                            f,
+                            "{:width$}{}",
+                            "",
+                            self.style_punctuation("}"),
+                            width = (item.format_depth - 1) * self.indent_size
+                        )?;
+                        continue;
+                    };
 
                     // Indent
                     write!(
@@ -710,17 +723,30 @@ impl PrettyPrinter {
                         "",
                         width = item.format_depth * self.indent_size
                     )?;
-                    write!(f, "{}", self.style_comment("/* Map contents */"))?;
-                    writeln!(f)?;
 
-                    // Closing brace with proper indentation
-                    write!(
-                        f,
-                        "{:width$}{}",
-                        "",
-                        self.style_punctuation("}"),
-                        width = (item.format_depth - 1) * self.indent_size
-                    )?;
+                    // The key, then the value, then the rest of the entries
+                    let format_depth = item.format_depth;
+                    let type_depth = item.type_depth + 1;
+                    item.state = StackState::ProcessMapEntry { entries };
+                    stack.push_back(item);
+                    for (peek, state) in [
+                        (value, StackState::Finish),
+                        (key, StackState::ProcessMapValue { value }),
+                        (key, StackState::Start),
+                    ] {
+                        stack.push_back(StackItem {
+                            value: peek,
+                            format_depth,
+                            type_depth,
+                            state,
+                        });
+                    }
+                }
+                StackState::ProcessMapValue { value } => {
+                    self.write_punctuation(f, ": ")?;
+                    item.value = value;
+                    item.state = StackState::Start;
+                    stack.push_back(item);
                 }
                 StackState::Finish => {
                     // Add comma and newline for struct fields and list items
@@ -843,6 +869,7 @@ impl PrettyPrinter {
     }
 
     /// Style a comment and return it as a string
+    #[allow(dead_code)]
     fn style_comment(&self, text: &str) -> String {
         let mut result = String::new();
         self.write_comment(&mut result, text).unwrap();
-- 
2.43.0


From 53496b62854929a6604eb09611e9d702d9556aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 42/51] fix: only a single string literal is taken as the value
 of a rename

---
 facet-derive-emit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 9a35cf8..487dd8d 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -170,14 +170,14 @@ pub(crate) fn gen_struct_field(
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
                             let value = attr_str[equal_pos + 1..].trim();
-                            if value.contains('"') {
-                                // that's a string literal: rustc knows about its escapes
+                            if tt.len() == 3 && value.contains('"') {
+                                // just a string literal: rustc knows about its escapes
                                 attribute_list
                                     .push(format!("::facet::FieldAttribute::Rename({value})"));
                             } else {
                                 attribute_list.push(format!(
                                     r#"::facet::FieldAttribute::Rename({:?})"#,
-                                    value
+                                    value.trim_matches('"')
                                 ));
                             }
                         } else {
-- 
2.43.0


From 12052a9ce033f8384abef6ae6f9941ed8559dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 43/51] fix: payload types of enum variants keep their words
 apart

---
 facet-derive-parse/src/lib.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index ecc857c..10fcbeb 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -407,9 +407,7 @@ impl core::fmt::Display for AngleTokenTree {
         match &self.0 {
             Either::First(it) => {
                 write!(f, "<")?;
-                for it in it.second.iter() {
-                    write!(f, "{}", it.second)?;
-                }
+                write_tokens(f, it.second.iter().map(|it| &it.second))?;
                 write!(f, ">")?;
             }
             Either::Second(it) => write!(f, "{}", it)?,
@@ -425,11 +423,26 @@ pub struct VerbatimDisplay<'a, C>(pub &'a VerbatimUntil<C>);
 
 impl<C> core::fmt::Display for VerbatimDisplay<'_, C> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for tt in self.0.0.iter() {
-            write!(f, "{}", tt.value.second)?;
+        write_tokens(f, self.0.0.iter().map(|tt| &tt.value.second))
+    }
+}
+
+/// Writes tokens one after the other, keeping words apart
+fn write_tokens<'a>(
+    f: &mut core::fmt::Formatter<'_>,
+    tokens: impl Iterator<Item = &'a AngleTokenTree>,
+) -> core::fmt::Result {
+    let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let mut after_word = false;
+    for token in tokens {
+        let token = token.to_string();
+        if after_word && token.starts_with(is_word) {
+            write!(f, " ")?;
         }
-        Ok(())
+        write!(f, "{token}")?;
+        after_word = token.ends_with(is_word);
     }
+    Ok(())
 }
 
 impl core::fmt::Display for ConstOrMut {
-- 
2.43.0


From 4fcad41a10e080a7b2a3fddc867533331f315bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 44/51] fix: raw identifiers are named without r#, and repr(C)
 enums have their explicit discriminants

---
 facet-derive-emit/src/lib.rs          |  9 +++++++-
 facet-derive-emit/src/process_enum.rs | 30 +++++++++++++++++----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 487dd8d..5ef1100 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -71,6 +71,11 @@ fn generics_split_for_impl(generics: Option<&GenericParams>) -> (String, String)
     (generics_impl, generics_target)
 }
 
+/// The name of an identifier, without the `r#` prefix of raw identifiers
+pub(crate) fn unraw(ident: &str) -> &str {
+    ident.strip_prefix("r#").unwrap_or(ident)
+}
+
 /// Converts PascalCase to UPPER_SNAKE_CASE
 pub(crate) fn to_upper_snake_case(input: &str) -> String {
     input
@@ -215,10 +220,12 @@ pub(crate) fn gen_struct_field(
         .map(|offset| format!(" + {offset}"))
         .unwrap_or_default();
 
+    let display_name = unraw(field_name);
+
     // Generate each field definition
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{display_name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4fb33bf..1d52ce1 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -254,10 +254,17 @@ fn process_c_style_enum(
     let shadow_discriminant_name = format!("__ShadowDiscriminant{enum_name}");
     let all_variant_names = variants
         .iter()
-        .map(|var_like| match &var_like.value.variant {
-            EnumVariantData::Unit(unit) => unit.name.to_string(),
-            EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
-            EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+        .map(|var_like| {
+            let variant_name = match &var_like.value.variant {
+                EnumVariantData::Unit(unit) => unit.name.to_string(),
+                EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
+                EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+            };
+            // explicit discriminants may change the size of the enum
+            match &var_like.value.discriminant {
+                Some(x) => format!("{variant_name} = {}", x.second),
+                None => variant_name,
+            }
         })
         .collect::<Vec<_>>()
         .join(", ");
@@ -278,7 +285,8 @@ fn process_c_style_enum(
         })
         .map(|variant_name| {
             format!(
-                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{variant_name}>"
+                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{}>",
+                unraw(&variant_name)
             )
         })
         .collect::<Vec<_>>()
@@ -307,7 +315,7 @@ fn process_c_style_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = unraw(&unit.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -327,7 +335,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = unraw(&tuple.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -392,7 +400,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = unraw(&struct_var.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
@@ -497,7 +505,7 @@ fn process_primitive_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = unraw(&unit.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 variant_expressions.push(format!(
@@ -510,7 +518,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = unraw(&tuple.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -573,7 +581,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = unraw(&struct_var.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
-- 
2.43.0


From 7f0c4b10e7b53ffbdd25d4de6a877413354d0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:37 +0000
Subject: [PATCH 45/51] fix: the derive takes an enum whose last discriminant
 is i64::MAX

---
 facet-derive-emit/src/process_enum.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 1d52ce1..93ee3fe 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -308,7 +308,7 @@ fn process_c_style_enum(
 
     // Discriminant values are either manually defined, or incremented from the last one
     // See: <https://doc.rust-lang.org/reference/items/enumerations.html#implicit-discriminants>
-    let mut discriminant_value = 0;
+    let mut discriminant_value = 0i64;
     for var_like in variants.iter() {
         if let Some(x) = &var_like.value.discriminant {
             discriminant_value = get_discriminant_value(&x.second);
@@ -464,7 +464,7 @@ fn process_c_style_enum(
                 ));
             }
         }
-        discriminant_value += 1;
+        discriminant_value = discriminant_value.wrapping_add(1);
     }
 
     ProcessedEnumBody {
@@ -498,7 +498,7 @@ fn process_primitive_enum(
 
     // Discriminant values are either manually defined, or incremented from the last one
     // See: <https://doc.rust-lang.org/reference/items/enumerations.html#implicit-discriminants>
-    let mut discriminant_value = 0;
+    let mut discriminant_value = 0i64;
     for var_like in variants.iter() {
         if let Some(x) = &var_like.value.discriminant {
             discriminant_value = get_discriminant_value(&x.second);
@@ -645,7 +645,7 @@ fn process_primitive_enum(
                 ));
             }
         }
-        discriminant_value += 1;
+        discriminant_value = discriminant_value.wrapping_add(1);
     }
 
     ProcessedEnumBody {
-- 
2.43.0


From 6e4fcbbc3adadd95e641980d8a018593ca8103cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 46/51] fix: a raw string in a doc attribute is documentation
 too

---
 facet-derive-emit/src/lib.rs  | 6 +++---
 facet-derive-parse/src/lib.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 5ef1100..7ab6d69 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -107,7 +107,7 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     let doc_lines: Vec<_> = attrs
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.to_string()),
             _ => None,
         })
         .collect();
@@ -133,7 +133,7 @@ pub(crate) fn gen_struct_field(
     // Determine field flags
     let mut flags = "::facet::FieldFlags::EMPTY";
     let mut attribute_list: Vec<String> = vec![];
-    let mut doc_lines: Vec<&str> = vec![];
+    let mut doc_lines: Vec<String> = vec![];
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
@@ -199,7 +199,7 @@ pub(crate) fn gen_struct_field(
                     }
                 }
             },
-            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.to_string()),
             AttributeInner::Repr(_) => {
                 // muffin
             }
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index 10fcbeb..a8cdcbf 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -161,8 +161,8 @@ unsynn! {
         pub _kw_doc: KDoc,
         /// The equality operator.
         pub _eq: Eq,
-        /// The documentation content as a literal string.
-        pub value: LiteralString,
+        /// The documentation content as a string literal, raw or not.
+        pub value: Literal,
     }
 
     /// Represents the inner content of a `repr` attribute, typically used for specifying
-- 
2.43.0


From b599f1abbfc7f1093d2b8018444825f56e228cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 47/51] fix: &Utf8Path is named as the reference it is

---
 facet-core/src/impls_camino.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index 39c4421..cb324ed 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -32,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "&Utf8Path")))
             .build()
     };
 }
-- 
2.43.0


From 690eeb2b804c547b59cc271fac1662224905e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 48/51] fix: feed the length when hashing slices and arrays,
 like their own implementation

---
 facet-core/src/impls_core/array.rs | 3 ++-
 facet-core/src/impls_core/slice.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..6ab7091 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
@@ -145,6 +145,7 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 9d51b37..b949dfd 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -154,6 +154,9 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From 2f1bc8b958fafe8cf649935aef68d9cb7299d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 49/51] fix: refuse positional flags that are neither true nor
 false

---
 facet-args/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index 2b1f120..e9dafd1 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -15,7 +15,11 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
                 wip.put(value.to_string())
             } else if shape.is_type::<bool>() {
                 log::trace!("Boolean field detected, setting to true");
-                wip.put(value.to_lowercase() == "true")
+                match value.to_lowercase().as_str() {
+                    "true" => wip.put(true),
+                    // anything but "false" isn't a boolean
+                    other => wip.parse(other),
+                }
             } else {
                 wip.parse(value)
             }
-- 
2.43.0


From 8d4b9f81f7e07b5c9c48ac17e43e7f6efcd52b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 50/51] fix: hash shapes by their id, so that equal shapes hash
 alike

---
 facet-core/src/types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 6180589..99f10d6 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -216,8 +216,8 @@ impl Eq for Shape {}
 
 impl core::hash::Hash for Shape {
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        self.def.hash(state);
-        self.layout.hash(state);
+        // equal shapes have to hash alike, and only the id decides whether they are equal
+        self.id.hash(state);
     }
 }
 
-- 
2.43.0


From fd34d35e8f36cd28c9c2a9275e82dc6ffe461c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 51/51] fix: a HashMap is only Send, Sync or Unpin if its
 hasher is

---
 facet-core/src/impls_std/hashmap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index c163e43..1c0e1a4 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -51,6 +51,8 @@ where
                             arg_dependent_traits
                                 .intersection(V::SHAPE.vtable.marker_traits)
                                 .intersection(K::SHAPE.vtable.marker_traits)
+                                // the hasher is part of the map, but not of its comparison
+                                .intersection(S::SHAPE.vtable.marker_traits.union(MarkerTraits::EQ))
                         })
                         .type_name(|f, opts| {
                             if let Some(opts) = opts.for_children() {
-- 
2.43.0

