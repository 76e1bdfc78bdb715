From 88dd49cb71b36abb532aa83a4305174466a190be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 01/42] fix: keep tokens apart when the derive re-emits a field
 type or bound

VerbatimDisplay concatenated tokens, so `&'a str` in an enum variant (whose
field types are copied into the shadow structs) came out as `&'astr` and
`dyn Trait` as `dynTrait`.
---
 facet-derive-parse/src/lib.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index ecc857c..81a0fe8 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -402,14 +402,33 @@ unsynn! {
     }
 }
 
+/// Writes tokens one after the other, separating them with a space so that e.g. `&'a str` or
+/// `dyn Trait` don't get glued together. No space follows a joint punctuation character: it forms
+/// a single token together with whatever comes next (`::`, `->`, `'a`).
+fn write_spaced<'a>(
+    f: &mut core::fmt::Formatter<'_>,
+    tokens: impl Iterator<Item = &'a AngleTokenTree>,
+) -> core::fmt::Result {
+    let mut needs_space = false;
+    for tt in tokens {
+        if needs_space {
+            write!(f, " ")?;
+        }
+        write!(f, "{tt}")?;
+        needs_space = !matches!(
+            &tt.0,
+            Either::Second(TokenTree::Punct(p)) if p.spacing() == Spacing::Joint
+        );
+    }
+    Ok(())
+}
+
 impl core::fmt::Display for AngleTokenTree {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         match &self.0 {
             Either::First(it) => {
                 write!(f, "<")?;
-                for it in it.second.iter() {
-                    write!(f, "{}", it.second)?;
-                }
+                write_spaced(f, it.second.iter().map(|it| &it.second))?;
                 write!(f, ">")?;
             }
             Either::Second(it) => write!(f, "{}", it)?,
@@ -425,10 +444,7 @@ pub struct VerbatimDisplay<'a, C>(pub &'a VerbatimUntil<C>);
 
 impl<C> core::fmt::Display for VerbatimDisplay<'_, C> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for tt in self.0.0.iter() {
-            write!(f, "{}", tt.value.second)?;
-        }
-        Ok(())
+        write_spaced(f, self.0.0.iter().map(|tt| &tt.value.second))
     }
 }
 
-- 
2.43.0


From 2e0c638dae1bb93c68b46f3e62f4ffc0abdefd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 02/42] fix: describe HashMap<K, V, S> with its own hasher type

The shape used HashMap<K, V> for the layout and every vtable function, so a
map with another hasher had the wrong size and was read as another type.
---
 facet-core/src/impls_std/hashmap.rs | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..0d9386c 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{BuildHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut};
 
@@ -19,12 +19,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +62,11 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V, S>>() });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -86,12 +86,12 @@ where
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
                     builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V, S>>()) });
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -108,7 +108,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -138,25 +138,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -165,7 +165,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From edb04c9ddca6da986039ec69aad81ad001fb6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 03/42] fix: clone_into writes a clone of the value, not a
 reference to it

Spez wraps a reference, so cloning the wrapped value copied the reference
into memory that is then read as the value itself.
---
 facet-core/src/spez/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..eeb6196 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,9 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From a3e9366a09e3ce9bd61a1e2823012d40dfe8526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 04/42] fix: clone_into of a slice reference copies the slice
 reference, not its address

---
 facet-core/src/impls_core/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
-- 
2.43.0


From c378a8915ec839e64e42d9d79142ef56373107ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 05/42] fix: clone_into of Vec, BTreeMap and HashMap clones the
 collection

It stored a reference to the source where a collection was expected, and was
offered even when the elements cannot be cloned.  RandomState, needed to clone
a HashMap, no longer borrows the vtable of ().
---
 facet-core/src/impls_alloc/btreemap.rs | 24 +++++++++++++---
 facet-core/src/impls_alloc/vec.rs      | 19 ++++++++++--
 facet-core/src/impls_std/hashmap.rs    | 40 ++++++++++++++++++++++----
 3 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..84d1f28 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,24 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = BTreeMap::<K, V>::new();
+                            for (k, v) in src.get::<BTreeMap<K, V>>() {
+                                let mut key = MaybeUninit::<K>::uninit();
+                                (k_clone)(PtrConst::new(k), PtrUninit::new(key.as_mut_ptr()));
+                                let key = key.assume_init();
+                                let mut val = MaybeUninit::<V>::uninit();
+                                (v_clone)(PtrConst::new(v), PtrUninit::new(val.as_mut_ptr()));
+                                cloned.insert(key, val.assume_init());
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..9615cb7 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -30,8 +30,23 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let t_clone = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = Vec::<T>::with_capacity(src.len());
+                            for (i, item) in src.iter().enumerate() {
+                                (t_clone)(
+                                    PtrConst::new(item),
+                                    PtrUninit::new(cloned.as_mut_ptr().add(i)),
+                                );
+                                cloned.set_len(i + 1);
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 0d9386c..b77e9b9 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,9 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
 use std::hash::{BuildHasher, RandomState};
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -85,8 +85,35 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V, S>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some()
+                        && V::SHAPE.vtable.clone_into.is_some()
+                        && S::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V, S>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let s_clone = S::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut hasher = MaybeUninit::<S>::uninit();
+                            (s_clone)(
+                                PtrConst::new(src.hasher()),
+                                PtrUninit::new(hasher.as_mut_ptr()),
+                            );
+                            let mut cloned = HashMap::<K, V, S>::with_capacity_and_hasher(
+                                src.len(),
+                                hasher.assume_init(),
+                            );
+                            for (k, v) in src {
+                                let mut key = MaybeUninit::<K>::uninit();
+                                (k_clone)(PtrConst::new(k), PtrUninit::new(key.as_mut_ptr()));
+                                let key = key.assume_init();
+                                let mut val = MaybeUninit::<V>::uninit();
+                                (v_clone)(PtrConst::new(v), PtrUninit::new(val.as_mut_ptr()));
+                                cloned.insert(key, val.assume_init());
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
@@ -204,7 +231,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
-- 
2.43.0


From b9f1b2cad90915fdabdd1c876bfbf886e2c628a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 06/42] fix: an array's get_item_ptr returns the requested
 element, not the first

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From 67a5f1110c5d13399d534dbb38310a057150e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 07/42] fix: give Weak its own vtable instead of Arc's

Drop, clone and comparison through the shape read a Weak as an Arc.
---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From 24da820bd24f7b636f2642b0ab71a0aeb0306997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 08/42] fix: scalars use the vtable of their own type

NonZero borrowed the integer's (default wrote a zero), paths, ConstTypeId and
PhantomData borrowed that of () (drop leaked, eq was always true).
---
 facet-core/src/impls_camino.rs      | 4 ++--
 facet-core/src/impls_core/scalar.rs | 6 +++---
 facet-core/src/impls_std/path.rs    | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..542c312 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,7 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "Utf8PathBuf")))
             .build()
     };
 }
@@ -29,7 +29,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..8c24f37 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,7 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "ConstTypeId")))
             .build()
     };
 }
@@ -45,7 +45,7 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "PhantomData")))
             .build()
     };
 }
@@ -160,7 +160,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..4bfd9dc 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,7 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "PathBuf")))
             .build()
     };
 }
@@ -27,7 +27,7 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "Path")))
             .build()
     };
 }
-- 
2.43.0


From a0d99b16b31a9b3d19bf01caa0941f1795fde6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 09/42] fix: tuples drop their elements and offer debug/eq only
 when every element does

Debug and eq were offered when the elements were Eq and then unwrapped the
elements' debug function unchecked; without drop_in_place tuples leaked.
---
 facet-core/src/impls_core/tuple.rs | 265 ++++++++++++++++++++---------
 facet-dev/src/tuples.rs            |  25 ++-
 2 files changed, 208 insertions(+), 82 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..31c0eb6 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -61,10 +61,11 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() })
                         .type_name(type_name::<T0>)
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -74,7 +75,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -121,6 +124,7 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() })
                         .type_name(type_name::<T0, T1>)
                         .marker_traits({
                             T0::SHAPE
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -205,6 +211,7 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() })
                         .type_name(type_name::<T0, T1, T2>)
                         .marker_traits({
                             T0::SHAPE
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -324,6 +333,7 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3)>() })
                         .type_name(type_name::<T0, T1, T2, T3>)
                         .marker_traits({
                             T0::SHAPE
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -464,6 +477,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
                         .marker_traits({
                             T0::SHAPE
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -641,6 +665,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
                         .marker_traits({
                             T0::SHAPE
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -841,6 +877,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
                         .marker_traits({
                             T0::SHAPE
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1064,6 +1113,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
                         .marker_traits({
                             T0::SHAPE
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1310,6 +1373,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
                         .marker_traits({
                             T0::SHAPE
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1581,6 +1659,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
                         .marker_traits({
                             T0::SHAPE
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1887,6 +1981,9 @@ where
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
                         .marker_traits({
                             T0::SHAPE
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2202,42 +2313,15 @@ where
         }
 
         Shape::builder()
-            .id(ConstTypeId::of::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
-            .layout(Layout::new::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
+            .id(ConstTypeId::of::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
+            .layout(Layout::new::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
-                        .marker_traits({
-                            T0::SHAPE
-                                .vtable
-                                .marker_traits
+                        .marker_traits(                        {
+                            T0::SHAPE.vtable.marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
@@ -2249,96 +2333,119 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                                 .intersection(T11::SHAPE.vtable.marker_traits)
-                        });
+                    });
 
-                    if Characteristic::Eq.all(&[
-                        T0::SHAPE,
-                        T1::SHAPE,
-                        T2::SHAPE,
-                        T3::SHAPE,
-                        T4::SHAPE,
-                        T5::SHAPE,
-                        T6::SHAPE,
-                        T7::SHAPE,
-                        T8::SHAPE,
-                        T9::SHAPE,
-                        T10::SHAPE,
-                        T11::SHAPE,
+                    if Characteristic::Debug.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
                     ]) {
                         builder = builder.debug(|value, f| {
-                            let value = unsafe {
-                                value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
                             write!(f, "(")?;
                             unsafe {
                                 let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
-                            let a = unsafe {
-                                a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
-                            let b = unsafe {
-                                b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
+                            let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
 
                             // Compare element 0
                             unsafe {
@@ -2502,7 +2609,7 @@ where
                                 field!(8, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(9, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(10, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
-                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
+                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),)
                             ]
                         },
                     )
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..56fae7c 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -138,6 +138,13 @@ pub fn generate() -> String {
         w!("            .vtable(\n");
         w!("                &const {{\n");
         w!("                    let mut builder = ValueVTable::builder()\n");
+        w!("                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<");
+        if n == 1 {
+            w!("(T0,)")
+        } else {
+            w!("({})", type_params)
+        }
+        w!(">() }})\n");
         w!(
             "                        .type_name(type_name::<{}>)\n",
             type_params
@@ -156,8 +163,8 @@ pub fn generate() -> String {
             w!("                    }});\n\n");
         }
 
-        // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        // Conditional debug implementation
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -199,7 +206,19 @@ pub fn generate() -> String {
         }
 
         w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        // Conditional eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
 
         // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
-- 
2.43.0


From 18479383208671f7d2bddc2654d93b749a47ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 10/42] fix: marker traits of &[T] follow the reference, not
 the element

---
 facet-core/src/impls_core/slice.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..504e8c9 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -52,7 +52,18 @@ where
                                 write!(f, "&[⋯]")
                             }
                         })
-                        .marker_traits(T::SHAPE.vtable.marker_traits)
+                        .marker_traits({
+                            // a shared reference: `Send` and `Sync` both need `T: Sync`
+                            let elem = T::SHAPE.vtable.marker_traits;
+                            let traits = MarkerTraits::COPY
+                                .union(MarkerTraits::UNPIN)
+                                .union(elem.intersection(MarkerTraits::EQ));
+                            if elem.contains(MarkerTraits::SYNC) {
+                                traits.union(MarkerTraits::SEND).union(MarkerTraits::SYNC)
+                            } else {
+                                traits
+                            }
+                        })
                         .default_in_place(|ptr| unsafe { ptr.put(&[] as &[T]) })
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
-- 
2.43.0


From 82d62c4c893a731eec44f6cb1fcac96e9af54f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 11/42] fix: hash a Shape by its id, which is what equality
 compares

The definition hashes function addresses, which may differ between two copies
of the same shape that compare equal.
---
 facet-core/src/types/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 6180589..786a30c 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -216,8 +216,7 @@ impl Eq for Shape {}
 
 impl core::hash::Hash for Shape {
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        self.def.hash(state);
-        self.layout.hash(state);
+        self.id.hash(state);
     }
 }
 
-- 
2.43.0


From e9492e90ce5a849c9be60b0fe6a2d76b09597735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 12/42] fix: equal HashMaps hash equally

The entries were fed to the hasher in iteration order, which differs between
equal maps.
---
 facet-core/src/impls_std/hashmap.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index b77e9b9..4b27538 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
-use std::hash::{BuildHasher, RandomState};
+use std::hash::{BuildHasher, DefaultHasher, Hasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -139,14 +139,20 @@ where
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // equal maps may iterate in different orders: combine the
+                            // entries' hashes with an operation that does not care
+                            let mut entries = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry = DefaultHasher::new();
+                                k.hash(&mut entry);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&mut entry as *mut DefaultHasher),
+                                    |entry, bytes| entry.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                entries = entries.wrapping_add(entry.finish());
                             }
+                            entries.hash(&mut hasher);
                         });
                     }
 
-- 
2.43.0


From 8c22fb871b452e5328ac6ab8c4f9b76bce34af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 13/42] fix: keep the container attributes of enums in their
 shape

---
 facet-derive-emit/src/process_enum.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..36e0f0d 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -72,6 +72,7 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
     let (generics_def, generics_use) = generics_split_for_impl(parsed.generics.as_ref());
     let where_clauses = build_where_clauses(parsed.clauses.as_ref(), parsed.generics.as_ref());
     let type_params = build_type_params(parsed.generics.as_ref());
+    let set_attributes = build_container_attributes(&parsed.attributes);
 
     // collect all `#repr(..)` attrs
     // either multiple attrs, or a single attr with multiple values
@@ -196,6 +197,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
-- 
2.43.0


From 4b6ce412ef67eee04bd31f713d27ac93dda39ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 14/42] fix: give #[facet(transparent)] the shape attribute the
 derive emits

---
 facet-core/src/types/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 786a30c..b6f421d 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -85,6 +85,8 @@ pub enum ShapeAttribute {
     DenyUnknownFields,
     /// Indicates the shape has a default value
     Default,
+    /// Indicates the type is a transparent wrapper around its single field
+    Transparent,
     /// Custom field attribute containing arbitrary text
     Arbitrary(&'static str),
 }
-- 
2.43.0


From 2ae1435c6336f51ee5b4db113f057ac9cb30855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 15/42] fix: Peek compares and looks up only values of the same
 shape

---
 facet-reflect/src/peek/map.rs   | 20 ++++++++++++++------
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..afe532a 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -1,4 +1,4 @@
-use facet_core::{MapDef, PtrConst, PtrMut};
+use facet_core::{MapDef, PtrMut};
 
 use super::Peek;
 
@@ -70,18 +70,26 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Check if the map contains a key
+    ///
+    /// A key of another type than the map's keys is never contained.
     pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
-        unsafe {
-            let key_ptr = PtrConst::new(key);
-            (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
+        let key = Peek::new(key);
+        if key.shape != self.def.k {
+            return false;
         }
+        unsafe { (self.def.vtable.contains_key_fn)(self.value.data(), key.data) }
     }
 
     /// Get a value from the map for the given key
+    ///
+    /// Returns `None` for a key of another type than the map's keys.
     pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+        let key = Peek::new(key);
+        if key.shape != self.def.k {
+            return None;
+        }
         unsafe {
-            let key_ptr = PtrConst::new(key);
-            let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
+            let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key.data)?;
             Some(Peek {
                 data: value_ptr,
                 shape: self.def.v,
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..58b325c 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if the two values have different shapes, or if equality comparison is not
+    /// supported for this scalar type
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if the two values have different shapes, or if comparison is not supported for
+    /// this scalar type
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From b7501a74bfca119d2b5aace31b8362a339f3383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 16/42] fix: fields missing from JSON are moved out of the
 default value, put_peek clones

---
 facet-json/src/deserialize.rs | 24 ++------------
 facet-reflect/src/wip/mod.rs  | 60 +++++++++++++++++++++++++++++++++--
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..55bb7ef 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -578,28 +578,8 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        // Move every missing field over from the default value
+                        wip = wip.fill_unset_fields_from_default().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..60550a4 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -287,12 +287,68 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
+    /// Puts a clone of the value from a Peek into the current frame.
+    ///
+    /// The peeked value is only borrowed, so its type has to be `Clone` or `Copy`.
     pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            if shape.is_copy() {
+                return self.put_shape(peek.data, shape);
+            }
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "tried to put a peek but the type is neither Clone nor Copy",
+            });
+        };
+
+        let mut clone = HeapValue {
+            guard: Some(Guard {
+                ptr: shape.allocate().as_mut_byte_ptr(),
+                layout: shape.layout,
+            }),
+            shape,
+            phantom: PhantomData,
+        };
+        let ptr = clone.guard.as_ref().unwrap().ptr;
+        unsafe { clone_into(peek.data, PtrUninit::new(ptr)) };
+        let wip = self.put_shape(PtrConst::new(ptr), shape)?;
+        drop(clone.guard.take()); // free memory (but don't drop in place): the clone was moved
+        Ok(wip)
+    }
+
+    /// Fills every field of the current struct frame that isn't set yet with the one of the
+    /// struct's default value.
+    pub fn fill_unset_fields_from_default(mut self) -> Result<Self, ReflectError> {
+        let shape = self.shape();
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+
+        let mut default = Wip::alloc_shape(shape).put_default()?.build()?;
+        // each field of the default value is either moved into the frame or dropped
+        let guard = default.guard.take().unwrap();
+        for (i, field) in sd.fields.iter().enumerate() {
+            let data = PtrMut::new(unsafe { guard.ptr.add(field.offset) });
+            if self.is_field_set(i)? {
+                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
+                    unsafe { drop_fn(data) };
+                }
+            } else {
+                self = self
+                    .field(i)?
+                    .put_shape(data.as_const(), field.shape())?
+                    .pop()?;
+            }
+        }
+        drop(guard); // free memory (but don't drop in place)
+        Ok(self)
     }
 
     /// Returns the number of frames on the stack
-- 
2.43.0


From f0d0092189b820ed02b215e1febfa9baccac67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 17/42] fix: a Peek into a HeapValue borrows the HeapValue

---
 facet-reflect/src/wip/heap_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/heap_value.rs b/facet-reflect/src/wip/heap_value.rs
index 31f67b5..3df6446 100644
--- a/facet-reflect/src/wip/heap_value.rs
+++ b/facet-reflect/src/wip/heap_value.rs
@@ -26,7 +26,7 @@ impl Drop for HeapValue<'_> {
 
 impl<'a> HeapValue<'a> {
     /// Returns a peek that allows exploring the heap value.
-    pub fn peek(&self) -> Peek<'a> {
+    pub fn peek(&self) -> Peek<'_> {
         unsafe { Peek::unchecked_new(PtrConst::new(self.guard.as_ref().unwrap().ptr), self.shape) }
     }
 
-- 
2.43.0


From bd56d385ac80a28be2bf14f4cee95b07d7bf1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 18/42] fix: PeekList::new and PeekMap::new trust their
 definition, so they are unsafe

---
 facet-reflect/src/peek/list.rs | 7 ++++++-
 facet-reflect/src/peek/map.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/peek/list.rs b/facet-reflect/src/peek/list.rs
index e15c1b1..a7ef5e0 100644
--- a/facet-reflect/src/peek/list.rs
+++ b/facet-reflect/src/peek/list.rs
@@ -46,7 +46,12 @@ pub struct PeekList<'mem> {
 
 impl<'mem> PeekList<'mem> {
     /// Creates a new peek list
-    pub fn new(value: Peek<'mem>, def: ListDef) -> Self {
+    ///
+    /// # Safety
+    ///
+    /// `def` must be the list definition of `value`'s own shape: its vtable is called on
+    /// `value`'s data.
+    pub unsafe fn new(value: Peek<'mem>, def: ListDef) -> Self {
         Self { value, def }
     }
 
diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index afe532a..5f2cb78 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -55,7 +55,12 @@ pub struct PeekMap<'mem> {
 
 impl<'mem> PeekMap<'mem> {
     /// Constructor
-    pub fn new(value: Peek<'mem>, def: MapDef) -> Self {
+    ///
+    /// # Safety
+    ///
+    /// `def` must be the map definition of `value`'s own shape: its vtable is called on
+    /// `value`'s data.
+    pub unsafe fn new(value: Peek<'mem>, def: MapDef) -> Self {
         Self { value, def }
     }
 
-- 
2.43.0


From cc370f5010b88cfbaff0d4b7d99eabc26907420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 19/42] fix: a Wip of a struct with 64 fields is only
 initialized once they all are

1 << 64 overflows: in release builds are_all_set(64) held whatever was set.
---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From 83dec20ed5318a755ee43b57753103d85823456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 20/42] fix: a Wip knows the variant of an enum that was put
 whole

---
 facet-reflect/src/wip/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 60550a4..3a11178 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -161,14 +161,21 @@ impl Frame {
     }
 
     /// Marks the frame as fully initialized
+    ///
+    /// Safety: the frame's memory must hold a value of the frame's shape
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
             Def::Struct(sd) => {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                // the value was written as a whole: its variant is whichever one it holds
+                let data = unsafe { self.data.assume_init() };
+                let peek = unsafe { crate::Peek::unchecked_new(data.as_const(), self.shape) };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = *peek.active_variant();
                     self.istate.fields = ISet::all(variant.data.fields);
+                    self.istate.variant = Some(variant);
                 }
             }
             _ => {
-- 
2.43.0


From 94f7ea11e66fff6466e201db04f9374e012f8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 21/42] fix: a Wip releases what it still owns, once, whether
 it's built or dropped

Dropping a Wip dropped some values twice (an element whose fields were set one by
one, unless it was popped) or after they had been freed (the fields of an element
that was pushed to its list), and leaked others (partially initialized enums,
anything left out of tree). A failed build() freed the root without dropping
what was initialized in it.
---
 facet-reflect/src/wip/mod.rs | 326 +++++++++++------------------------
 1 file changed, 99 insertions(+), 227 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 3a11178..54f308f 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,11 +6,10 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -117,6 +116,22 @@ impl fmt::Debug for Frame {
     }
 }
 
+/// Returns the fields a value of the given shape and state is made of, if it's a struct or an
+/// enum with a selected variant
+fn fields_of(shape: &'static Shape, istate: &IState) -> &'static [Field] {
+    match shape.def {
+        Def::Struct(sd) => sd.fields,
+        Def::Enum(_) => istate.variant.map_or(&[], |variant| variant.data.fields),
+        _ => &[],
+    }
+}
+
+/// Returns the value ID of the given field of the value at `data`
+fn field_id(data: PtrUninit<'static>, field: &'static Field) -> ValueId {
+    let ptr = unsafe { data.field_uninit_at(field.offset) };
+    ValueId::new(field.shape(), ptr.as_byte_ptr())
+}
+
 impl Frame {
     /// Returns the value ID for a frame
     fn id(&self) -> ValueId {
@@ -186,6 +201,7 @@ impl Frame {
 }
 
 /// Initialization state
+#[derive(Clone)]
 struct IState {
     /// Variant chosen — for everything except enums, this stays None
     variant: Option<Variant>,
@@ -395,6 +411,8 @@ impl<'a> Wip<'a> {
     }
 
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // what was tracked for its fields moved along with it
+        self.evict_fields(frame.data, frame.shape, &frame.istate);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -441,26 +459,17 @@ impl<'a> Wip<'a> {
         };
 
         let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
+        // The states stay where they are during the checks: if one of them fails, Drop needs them
         let root_istate = self
             .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
+            .get(&root_id)
+            .cloned()
+            .expect("Root ID found but not present in istates, this is a bug");
 
         let root_frame = Frame::recompose(root_id, root_istate);
         let root_shape = root_frame.shape;
         let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
 
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
         // 3. Initialize `to_check`
         let mut to_check = alloc::vec![root_frame];
 
@@ -510,7 +519,7 @@ impl<'a> Wip<'a> {
                         let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                         let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
+                        if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                             debug!(
                                 "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
                                 _i.to_string().bright_cyan(),
@@ -553,7 +562,7 @@ impl<'a> Wip<'a> {
                             let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                             let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
+                            if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                                 debug!(
                                     "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
                                     _i.to_string().bright_cyan(),
@@ -640,7 +649,15 @@ impl<'a> Wip<'a> {
             );
         }
 
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
+        // 6. Transfer ownership of the root data to the HeapValue: Drop must leave it alone, and
+        // clean up what isn't part of it
+        if let Some(istate) = self.istates.remove(&root_id) {
+            self.evict_tree(Frame::recompose(root_id, istate));
+        }
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
 
         Ok(HeapValue {
             guard: Some(guard),
@@ -1748,68 +1765,70 @@ impl<'a> Wip<'a> {
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
     pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        match frame.shape.def {
-            Def::Struct(sd) => {
-                for f in sd.fields {
-                    let id = ValueId {
-                        shape: f.shape(),
-                        ptr: unsafe { frame.data.field_uninit_at(f.offset) }.as_byte_ptr(),
-                    };
-                    if let Some(istate) = self.istates.remove(&id) {
-                        let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
-                    } else {
-                        trace!("No istate found for field {}", f.name);
-                    }
-                }
+        self.evict_fields(frame.data, frame.shape, &frame.istate);
+        frame
+    }
+
+    /// Evict the children of a frame from istates, along with all of their own children
+    fn evict_fields(&mut self, data: PtrUninit<'static>, shape: &'static Shape, istate: &IState) {
+        for field in fields_of(shape, istate) {
+            let id = field_id(data, field);
+            if let Some(field_istate) = self.istates.remove(&id) {
+                trace!(
+                    "Evicting field '{}' (shape {}) of {}",
+                    field.name.bright_blue(),
+                    id.shape.green(),
+                    shape.blue()
+                );
+                self.evict_tree(Frame::recompose(id, field_istate));
+            } else {
+                trace!("No istate found for field {}", field.name);
             }
-            Def::Enum(_ed) => {
-                // Check if a variant is selected in the istate
-                if let Some(variant) = &frame.istate.variant {
-                    trace!(
-                        "Evicting enum {} variant '{}' fields",
-                        frame.shape.blue(),
-                        variant.name.yellow()
-                    );
-                    // Iterate over the fields of the selected variant
-                    for field in variant.data.fields {
-                        // Calculate the pointer to the field within the enum's data payload
-                        let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
-                        let field_shape = field.shape();
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
+        }
+    }
 
-                        // Try to remove the field's state from istates
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            trace!(
-                                "Evicting field '{}' (shape {}) of enum variant '{}'",
-                                field.name.bright_blue(),
-                                field_shape.green(),
-                                variant.name.yellow()
-                            );
-                            // Recompose the frame for the field
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
-                        } else {
-                            trace!(
-                                "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
-                                field.name.red(),
-                                field_shape.red(),
-                                variant.name.yellow()
-                            );
-                        }
-                    }
-                } else {
-                    // No variant selected, nothing to evict within the enum
-                    trace!(
-                        "Enum {} has no variant selected, no fields to evict.",
-                        frame.shape.blue()
-                    );
+    /// Drops everything that's initialized in the frame's memory — all at once if the frame is
+    /// fully initialized, field by field otherwise — and deallocates it if the frame owns it.
+    fn clean(&mut self, mut frame: Frame) {
+        trace!(
+            "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
+            frame.shape.blue(),
+            frame.data.as_byte_ptr(),
+            frame.istate.flags.bright_magenta(),
+            frame.istate.mode.yellow(),
+            if frame.is_fully_initialized() {
+                "✅"
+            } else {
+                "❌"
+            }
+        );
+
+        if frame.istate.flags.contains(FrameFlags::MOVED) {
+            trace!(
+                "{}",
+                "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
+            );
+            return;
+        }
+
+        if frame.is_fully_initialized() {
+            let frame = self.evict_tree(frame);
+            unsafe { frame.drop_and_dealloc_if_needed() };
+            return;
+        }
+
+        for (i, field) in fields_of(frame.shape, &frame.istate).iter().enumerate() {
+            let id = field_id(frame.data, field);
+            if let Some(istate) = self.istates.remove(&id) {
+                // that field might have been partially initialized, in-place
+                self.clean(Frame::recompose(id, istate));
+            } else if frame.istate.fields.has(i) {
+                if let Some(drop_in_place) = id.shape.vtable.drop_in_place {
+                    unsafe { drop_in_place(PtrMut::new(id.ptr as *mut u8)) };
                 }
             }
-            _ => {}
         }
-        frame
+        frame.dealloc_if_needed();
     }
 
     #[allow(rustdoc::broken_intra_doc_links)]
@@ -1925,158 +1944,11 @@ impl Drop for Wip<'_> {
             self.track(frame);
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
+        // Parents go before their fields: dropping a fully initialized value drops its fields too
+        while let Some((id, _)) = self.istates.iter().min_by_key(|(_id, istate)| istate.depth) {
+            let id = *id;
+            let istate = self.istates.remove(&id).unwrap();
+            self.clean(Frame::recompose(id, istate));
         }
     }
 }
-- 
2.43.0


From 851738ea603b550eb8baf7e3d002b8e2f2d0d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 22/42] fix: writing to a Wip drops what was there, and keeps
 track of it

- a value that's overwritten (by put, parse, put_default, put_empty_list, another
  variant, another Some...) is dropped, and the values it's a part of aren't fully
  initialized anymore until it's written again
- the None frame of an option is the option itself: it had the shape of the payload
- fields of a value that was put whole are initialized
---
 facet-reflect/src/wip/enum_.rs |   9 +-
 facet-reflect/src/wip/mod.rs   | 301 +++++++++++++--------------------
 2 files changed, 122 insertions(+), 188 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..ba48fb8 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -17,7 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.frames.last().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -35,8 +35,9 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Whatever was there goes away since we're selecting a new variant
+        self.deinit();
+        let frame = self.frames.last_mut().unwrap();
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 54f308f..a0a3b70 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -292,8 +292,8 @@ pub enum FrameMode {
     },
     /// Frame represents the Some variant of an option (that we allocated)
     OptionSome,
-    /// Frame represents the None variant of an option (no allocation needed)
-    /// Any `put` should fail
+    /// Frame represents the None variant of an option (no allocation needed): it's the option
+    /// itself
     OptionNone,
 }
 
@@ -422,6 +422,38 @@ impl<'a> Wip<'a> {
         self.istates.remove(&frame.id());
     }
 
+    /// Drops what the current frame's memory holds, if anything: something else is about to be
+    /// written to it.
+    fn deinit(&mut self) {
+        let Some(frame) = self.frames.last_mut() else {
+            return;
+        };
+
+        let empty = IState {
+            variant: None,
+            fields: ISet::default(),
+            ..frame.istate.clone()
+        };
+        let mut istate = core::mem::replace(&mut frame.istate, empty);
+        // the memory itself is kept
+        istate.flags.remove(FrameFlags::ALLOCATED);
+        let old = Frame {
+            data: frame.data,
+            shape: frame.shape,
+            field_index_in_parent: None,
+            istate,
+        };
+        self.clean(old);
+
+        // whatever that value is part of isn't fully initialized anymore
+        for i in (1..self.frames.len()).rev() {
+            let Some(index) = self.frames[i].field_index_in_parent else {
+                break;
+            };
+            self.frames[i - 1].istate.fields.unset(index);
+        }
+    }
+
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
         self.frames.last().unwrap().shape
@@ -719,6 +751,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let is_set = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -746,6 +779,9 @@ impl<'a> Wip<'a> {
                 iset.depth
             );
             frame.istate = iset;
+        } else if is_set {
+            // it was initialized along with the rest of the struct or enum
+            unsafe { frame.mark_fully_initialized() };
         } else {
             trace!(
                 "[{}] no saved state for field {} ({}#{}) of {}",
@@ -854,7 +890,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
                 operation: "tried to put a value but there was no frame to put into",
@@ -869,25 +905,13 @@ impl<'a> Wip<'a> {
                 // Check if inner type matches
                 if od.t() == src_shape {
                     debug!("Putting into an Option<T>!");
-                    if frame.istate.fields.is_any_set() {
-                        let data = unsafe { frame.data.assume_init() };
-                        unsafe { (od.vtable.replace_with_fn)(data, Some(src)) };
-                    } else {
-                        let data = frame.data;
-                        unsafe { (od.vtable.init_some_fn)(data, src) };
-                    }
+                    let data = frame.data;
+                    self.deinit();
                     unsafe {
-                        frame.mark_fully_initialized();
+                        (od.vtable.init_some_fn)(data, src);
+                        self.mark_initialized();
                     }
 
-                    let shape = frame.shape;
-                    let index = frame.field_index_in_parent;
-
-                    // mark the field as initialized
-                    self.mark_field_as_initialized(shape, index)?;
-
-                    debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
-
                     return Ok(self);
                 }
             }
@@ -898,71 +922,26 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
-
+        let data = frame.data;
+        self.deinit();
         unsafe {
             // Copy the contents from src to destination
-            frame.data.copy_from(src, frame.shape);
-            frame.mark_fully_initialized();
+            data.copy_from(src, src_shape);
+            self.mark_initialized();
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
+        debug!(
+            "[{}] Just put a {} value",
+            self.frames.len(),
+            src_shape.green()
+        );
 
         Ok(self)
     }
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to parse value but there was no frame",
@@ -970,23 +949,19 @@ impl<'a> Wip<'a> {
         };
 
         let shape = frame.shape;
-        let index = frame.field_index_in_parent;
 
-        let Some(parse_fn) = frame.shape.vtable.parse else {
+        let Some(parse_fn) = shape.vtable.parse else {
             return Err(ReflectError::OperationFailed {
-                shape: frame.shape,
+                shape,
                 operation: "type does not implement Parse",
             });
         };
-        match unsafe { (parse_fn)(s, frame.data) } {
-            Ok(_res) => {
-                unsafe {
-                    frame.mark_fully_initialized();
-                }
-
-                // mark the field as initialized
-                self.mark_field_as_initialized(shape, index)?;
 
+        let data = frame.data;
+        self.deinit();
+        match unsafe { (parse_fn)(s, data) } {
+            Ok(_res) => {
+                unsafe { self.mark_initialized() };
                 Ok(self)
             }
             Err(_) => Err(ReflectError::OperationFailed {
@@ -998,24 +973,20 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to put value from fn but there was no frame",
             });
         };
 
+        let data = frame.data;
+        self.deinit();
         unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
+            default_in_place(data);
+            self.mark_initialized();
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
         Ok(self)
     }
 
@@ -1039,49 +1010,20 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
-    /// Marks a field as initialized in the parent frame.
-    fn mark_field_as_initialized(
-        &mut self,
-        shape: &'static Shape,
-        index: Option<usize>,
-    ) -> Result<(), ReflectError> {
-        if let Some(index) = index {
-            let parent_index = self.frames.len().saturating_sub(2);
-            #[cfg(feature = "log")]
-            let num_frames = self.frames.len();
-            let Some(parent) = self.frames.get_mut(parent_index) else {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but there was no parent frame",
-                });
-            };
-            #[cfg(feature = "log")]
-            let parent_shape = parent.shape;
-            trace!(
-                "[{}] {}.{} initialized with {}",
-                num_frames,
-                parent_shape.blue(),
-                index.yellow(),
-                shape.green()
-            );
-
-            if matches!(parent.shape.def, Def::Enum(_)) && parent.istate.variant.is_none() {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame was an enum and didn't have a variant chosen",
-                });
-            }
-
-            if parent.istate.fields.has(index) {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
-                });
-            }
+    /// Marks the current frame as fully initialized, and, if it's a field, marks that field as
+    /// initialized in the parent frame.
+    ///
+    /// Safety: the frame's memory must hold a value of the frame's shape
+    unsafe fn mark_initialized(&mut self) {
+        let Some(frame) = self.frames.last_mut() else {
+            return;
+        };
+        unsafe { frame.mark_fully_initialized() };
 
-            parent.istate.fields.set(index);
+        if let Some(index) = frame.field_index_in_parent {
+            let parent_index = self.frames.len() - 2;
+            self.frames[parent_index].istate.fields.set(index);
         }
-        Ok(())
     }
 
     /// Returns the shape of the element type for a list/array
@@ -1114,7 +1056,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty list but there was no frame",
@@ -1138,23 +1080,19 @@ impl<'a> Wip<'a> {
             });
         };
 
+        let data = frame.data;
+        self.deinit();
         unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
+            default_in_place(data);
+            self.mark_initialized();
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
         Ok(self)
     }
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty map but there was no frame",
@@ -1178,17 +1116,13 @@ impl<'a> Wip<'a> {
             });
         };
 
+        let data = frame.data;
+        self.deinit();
         unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
+            default_in_place(data);
+            self.mark_initialized();
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
         Ok(self)
     }
 
@@ -1392,46 +1326,43 @@ impl<'a> Wip<'a> {
             });
         }
 
-        frame.dealloc_if_needed();
-
-        // 3. Pop the frame (this discards, doesn't propagate up)
-        let _frame = self.frames.pop().expect("frame already checked");
+        // 2. & 3. Pop the frame (this discards, doesn't propagate up)
+        let frame = self.frames.pop().expect("frame already checked");
+        self.clean(frame);
 
         // 4. Set parent option (which we just popped into) to default (None)
-        let parent_frame = self
-            .frames
-            .last_mut()
-            .ok_or(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to pop_some_push_none but there was no parent frame",
-            })?;
+        let parent_frame = self.frames.last().ok_or(ReflectError::OperationFailed {
+            shape: <()>::SHAPE,
+            operation: "tried to pop_some_push_none but there was no parent frame",
+        })?;
+        let data = parent_frame.data;
+        let shape = parent_frame.shape;
 
-        // Safety: option frames are correctly sized, and data is valid
-        unsafe {
-            if let Some(default_fn) = parent_frame.shape.vtable.default_in_place {
-                default_fn(parent_frame.data);
-            } else {
-                return Err(ReflectError::OperationFailed {
-                    shape: parent_frame.shape,
-                    operation: "option type does not implement Default",
-                });
-            }
-            parent_frame.mark_fully_initialized();
+        if !matches!(shape.def, Def::Option(_)) {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "pop_some_push_none and the parent isn't of type Option???",
+            });
         }
 
-        let Def::Option(od) = parent_frame.shape.def else {
+        let Some(default_fn) = shape.vtable.default_in_place else {
             return Err(ReflectError::OperationFailed {
-                shape: parent_frame.shape,
-                operation: "pop_some_push_none and the parent isn't of type Option???",
+                shape,
+                operation: "option type does not implement Default",
             });
         };
 
-        // Now push a `None` frame
-        let data = parent_frame.data;
+        self.deinit();
+        // Safety: option frames are correctly sized, and data is valid
+        unsafe {
+            default_fn(data);
+            self.mark_initialized();
+        }
 
+        // Now push a `None` frame: it's the option itself
         let mut frame = Frame {
             data,
-            shape: od.t(),
+            shape,
             field_index_in_parent: Some(0),
             istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
         };
@@ -1712,7 +1643,7 @@ impl<'a> Wip<'a> {
                     // Get parent frame
                     #[cfg(feature = "log")]
                     let frames_len = self.frames.len();
-                    let parent_frame = self.frames.last_mut().unwrap();
+                    let parent_frame = self.frames.last().unwrap();
                     let parent_shape = parent_frame.shape;
 
                     // Make sure the parent is an option
@@ -1725,12 +1656,14 @@ impl<'a> Wip<'a> {
                             );
                             unsafe {
                                 // Call the option's init_some function
+                                let data = parent_frame.data;
+                                self.deinit();
                                 (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
+                                    data,
                                     PtrConst::new(frame.data.as_byte_ptr()),
                                 );
                                 trace!("Marking parent frame as fully initialized");
-                                parent_frame.mark_fully_initialized();
+                                self.mark_initialized();
 
                                 self.mark_moved_out_of(&mut frame);
                             }
-- 
2.43.0


From fdbdb7413ca7110bb905c7f4b0466f0960a8e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 23/42] fix: a value that a Wip refuses is dropped

---
 facet-reflect/src/wip/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index a0a3b70..e557382 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -7,7 +7,7 @@ use owo_colors::OwoColorize;
 
 use alloc::format;
 use bitflags::bitflags;
-use core::{fmt, marker::PhantomData};
+use core::{fmt, marker::PhantomData, mem::ManuallyDrop};
 use facet_core::{
     Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
@@ -868,9 +868,13 @@ impl<'a> Wip<'a> {
         'a: 'val,
     {
         let shape = T::SHAPE;
-        let ptr_const = PtrConst::new(&t as *const T as *const u8);
+        let t = ManuallyDrop::new(t); // avoid double drop; ownership moves into Wip
+        let ptr_const = PtrConst::new(&*t as *const T as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_err() {
+            // it wasn't put anywhere
+            drop(ManuallyDrop::into_inner(t));
+        }
         res
     }
 
-- 
2.43.0


From 00704ba1a8057913f194af93f1ceb64685710c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 24/42] fix: Wip methods that trust what they're given are
 unsafe

put_shape copies from any pointer and put_from_fn writes with any function: neither
can be safe. facet-json, which denies unsafe code, asks for a field's default instead.
---
 facet-json/src/deserialize.rs | 33 ++++----------------
 facet-reflect/src/wip/mod.rs  | 59 ++++++++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 55bb7ef..72482b7 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -536,33 +536,12 @@ pub fn from_slice_wip<'input, 'a>(
                                 if struct_has_default {
                                     has_missing_fields = true;
                                 } else {
-                                    let field = sd.fields[i];
-                                    if let Some(attr) =
-                                        field.attributes.iter().find_map(|attr| match attr {
-                                            FieldAttribute::Default(d) => Some(d),
-                                            _ => None,
-                                        })
-                                    {
-                                        match attr {
-                                            Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                            None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                        }
+                                    let has_default = sd.fields[i]
+                                        .attributes
+                                        .iter()
+                                        .any(|attr| matches!(attr, FieldAttribute::Default(_)));
+                                    if has_default {
+                                        wip = wip.put_field_default(i).unwrap();
                                     } else {
                                         bail!(JsonErrorKind::MissingField(missing_field));
                                     }
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index e557382..9a4ffe9 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -9,7 +9,8 @@ use alloc::format;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData, mem::ManuallyDrop};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldAttribute, FieldError, PtrConst, PtrMut, PtrUninit,
+    Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -320,7 +321,7 @@ impl<'a> Wip<'a> {
         let shape = peek.shape;
         let Some(clone_into) = shape.vtable.clone_into else {
             if shape.is_copy() {
-                return self.put_shape(peek.data, shape);
+                return unsafe { self.put_shape(peek.data, shape) };
             }
             return Err(ReflectError::OperationFailed {
                 shape,
@@ -338,7 +339,7 @@ impl<'a> Wip<'a> {
         };
         let ptr = clone.guard.as_ref().unwrap().ptr;
         unsafe { clone_into(peek.data, PtrUninit::new(ptr)) };
-        let wip = self.put_shape(PtrConst::new(ptr), shape)?;
+        let wip = unsafe { self.put_shape(PtrConst::new(ptr), shape) }?;
         drop(clone.guard.take()); // free memory (but don't drop in place): the clone was moved
         Ok(wip)
     }
@@ -364,10 +365,8 @@ impl<'a> Wip<'a> {
                     unsafe { drop_fn(data) };
                 }
             } else {
-                self = self
-                    .field(i)?
-                    .put_shape(data.as_const(), field.shape())?
-                    .pop()?;
+                let wip = self.field(i)?;
+                self = unsafe { wip.put_shape(data.as_const(), field.shape()) }?.pop()?;
             }
         }
         drop(guard); // free memory (but don't drop in place)
@@ -870,7 +869,7 @@ impl<'a> Wip<'a> {
         let shape = T::SHAPE;
         let t = ManuallyDrop::new(t); // avoid double drop; ownership moves into Wip
         let ptr_const = PtrConst::new(&*t as *const T as *const u8);
-        let res = self.put_shape(ptr_const, shape);
+        let res = unsafe { self.put_shape(ptr_const, shape) };
         if res.is_err() {
             // it wasn't put anywhere
             drop(ManuallyDrop::into_inner(t));
@@ -886,7 +885,12 @@ impl<'a> Wip<'a> {
     }
 
     /// Puts a value from a `PtrConst` with the given shape into the current frame.
-    pub fn put_shape<'val>(
+    ///
+    /// # Safety
+    ///
+    /// `src` must point to a value of shape `src_shape`, which the caller must not use or drop
+    /// afterwards, unless an error is returned.
+    pub unsafe fn put_shape<'val>(
         mut self,
         src: PtrConst<'val>,
         src_shape: &'static Shape,
@@ -976,7 +980,14 @@ impl<'a> Wip<'a> {
     }
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
-    pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
+    ///
+    /// # Safety
+    ///
+    /// The function must write a value of the current frame's shape.
+    pub unsafe fn put_from_fn(
+        mut self,
+        default_in_place: DefaultInPlaceFn,
+    ) -> Result<Self, ReflectError> {
         let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -994,6 +1005,32 @@ impl<'a> Wip<'a> {
         Ok(self)
     }
 
+    /// Sets a field of the current struct frame to its default value: what its `default` attribute
+    /// makes if it has one, the default value of its type otherwise.
+    pub fn put_field_default(self, index: usize) -> Result<Self, ReflectError> {
+        let Def::Struct(sd) = self.shape().def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: self.shape(),
+            });
+        };
+
+        let wip = self.field(index)?;
+        let default_fn = sd.fields[index]
+            .attributes
+            .iter()
+            .find_map(|attr| match attr {
+                FieldAttribute::Default(default_fn) => *default_fn,
+                _ => None,
+            });
+        match default_fn {
+            // Safety: that function makes values of the field's type
+            Some(default_fn) => unsafe { wip.put_from_fn(default_fn) }?,
+            None => wip.put_default()?,
+        }
+        .pop()
+    }
+
     /// Puts the default value in the current frame.
     pub fn put_default(self) -> Result<Self, ReflectError> {
         let Some(frame) = self.frames.last() else {
@@ -1011,7 +1048,7 @@ impl<'a> Wip<'a> {
             });
         };
 
-        self.put_from_fn(default_in_place)
+        unsafe { self.put_from_fn(default_in_place) }
     }
 
     /// Marks the current frame as fully initialized, and, if it's a field, marks that field as
-- 
2.43.0


From 288dc7499a9bd026f31427877ac4c9940046987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 25/42] fix: try_put_f64 only puts numbers that the type can
 hold

1.5 was put as 1, 2^64 as u64::MAX, and negative numbers were refused for NonZeroI*.
---
 facet-reflect/src/wip/put_f64.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..e5ecb88 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -43,6 +43,15 @@ impl Wip<'_> {
             }
         }
 
+        // Integers can't hold anything but whole numbers
+        let is_float = shape.is_type::<f32>() || shape.is_type::<f64>();
+        if !is_float && number % 1.0 != 0.0 {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "number is not an integer",
+            });
+        }
+
         // Match on the concrete Rust type
         if shape.is_type::<u8>() {
             if (0.0..=u8::MAX as f64).contains(&number) {
@@ -72,7 +81,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
+            if (0.0..u64::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as u64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -81,7 +90,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
+            if (0.0..usize::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as usize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -117,7 +126,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
+            if (i64::MIN as f64..i64::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as i64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -126,7 +135,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
+            if (isize::MIN as f64..isize::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as isize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -176,7 +185,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
+            if (1.0..u64::MAX as f64 + 1.0).contains(&number) {
                 let value = NonZeroU64::new(number as u64).unwrap();
                 self.put(value)
             } else {
@@ -186,7 +195,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
+            if (1.0..usize::MAX as f64 + 1.0).contains(&number) {
                 let value = NonZeroUsize::new(number as usize).unwrap();
                 self.put(value)
             } else {
@@ -196,7 +205,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
+            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) && number != 0.0 {
                 let value = NonZeroI8::new(number as i8).unwrap();
                 self.put(value)
             } else {
@@ -206,7 +215,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
+            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) && number != 0.0 {
                 let value = NonZeroI16::new(number as i16).unwrap();
                 self.put(value)
             } else {
@@ -216,7 +225,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
+            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) && number != 0.0 {
                 let value = NonZeroI32::new(number as i32).unwrap();
                 self.put(value)
             } else {
@@ -226,7 +235,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
+            if (i64::MIN as f64..i64::MAX as f64 + 1.0).contains(&number) && number != 0.0 {
                 let value = NonZeroI64::new(number as i64).unwrap();
                 self.put(value)
             } else {
@@ -236,7 +245,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
+            if (isize::MIN as f64..isize::MAX as f64 + 1.0).contains(&number) && number != 0.0 {
                 let value = NonZeroIsize::new(number as isize).unwrap();
                 self.put(value)
             } else {
-- 
2.43.0


From 51c0ad1ad967844a4424458d4c24c6ee36e417c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 26/42] fix: JSON numbers keep their value

Integers above 2^53 lost their last digits on the way through f64. Numbers that don't
fit are now errors rather than panics.
---
 facet-json/src/deserialize.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 72482b7..b29db96 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -376,13 +376,29 @@ pub fn from_slice_wip<'input, 'a>(
                             }
                         }
                         let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let text = core::str::from_utf8(number).unwrap();
+                        let Ok(number) = text.parse::<f64>() else {
+                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                        };
                         trace!("Parsed {:?}", number.yellow());
 
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
                         if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                            let path = wip.path();
+                            let put = if text.contains('.') {
+                                wip.try_put_f64(number)
+                            } else {
+                                // not every integer can be represented exactly as a f64
+                                wip.parse(text)
+                            };
+                            wip = put.map_err(|_| {
+                                JsonParseErrorWithContext::new(
+                                    JsonErrorKind::NumberOutOfRange(number),
+                                    input,
+                                    pos,
+                                    path,
+                                )
+                            })?;
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
                             let shape = wip.shape();
-- 
2.43.0


From ae54d728ae6b46813691539091b2944af90083e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 27/42] fix: non-finite floats and quotes in map keys are valid
 JSON

---
 facet-json/src/serialize.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..d8afb16 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -128,10 +128,20 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no notation for those
+            write!(writer, "null")
+        }
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no notation for those
+            write!(writer, "null")
+        }
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -228,7 +238,7 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &key.to_string())?;
                 }
             }
             _ => {
-- 
2.43.0


From 4e198e4342e8c5825d1921dd597d78cbc4bb3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 28/42] fix: renamed fields of enum variants are renamed in
 JSON too

---
 facet-json/src/serialize.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index d8afb16..f365447 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -150,6 +150,21 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// Returns the name of a field in JSON: the one of its rename attribute, if it has one
+fn field_name(field: &Field) -> &'static str {
+    field
+        .attributes
+        .iter()
+        .find_map(|attr| {
+            if let FieldAttribute::Rename(name) = attr {
+                Some(*name)
+            } else {
+                None
+            }
+        })
+        .unwrap_or(field.name)
+}
+
 /// Serializes a struct to JSON
 fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
     let struct_peek = peek
@@ -165,21 +180,8 @@ fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
         }
         first = false;
 
-        // Check for rename attribute
-        let field_name = field
-            .attributes
-            .iter()
-            .find_map(|attr| {
-                if let FieldAttribute::Rename(name) = attr {
-                    Some(*name)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(field.name);
-
         // Write field name
-        write_json_string(writer, field_name)?;
+        write_json_string(writer, field_name(field))?;
         write!(writer, ":")?;
 
         // Write field value
@@ -305,7 +307,7 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                             format!("Failed to access enum field {}", i),
                         )
                     })?;
-                    let field_name = variant.data.fields[i].name;
+                    let field_name = field_name(&variant.data.fields[i]);
 
                     if !first {
                         write!(writer, ",")?;
-- 
2.43.0


From 901e045bc32f7978705547e844b94124a3136cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 29/42] fix: JSON escape sequences stand for the characters
 JSON gives them

\n was read as n, and \u0041 as u0041.
---
 facet-json/src/deserialize.rs | 49 ++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index b29db96..72647ae 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -219,8 +219,28 @@ pub fn from_slice_wip<'input, 'a>(
                                         if bytes.is_empty() {
                                             bytes.extend(&input[start..pos]);
                                         }
-                                        bytes.push(next);
                                         pos += 2;
+                                        match next {
+                                            b'"' | b'\\' | b'/' => bytes.push(next),
+                                            b'b' => bytes.push(0x08),
+                                            b'f' => bytes.push(0x0c),
+                                            b'n' => bytes.push(b'\n'),
+                                            b'r' => bytes.push(b'\r'),
+                                            b't' => bytes.push(b'\t'),
+                                            b'u' => {
+                                                let Some(c) = unicode_escape(&mut pos, input)
+                                                else {
+                                                    bail!(JsonErrorKind::UnexpectedCharacter('u'));
+                                                };
+                                                let mut buf = [0; 4];
+                                                bytes.extend(c.encode_utf8(&mut buf).as_bytes());
+                                            }
+                                            c => {
+                                                bail!(JsonErrorKind::UnexpectedCharacter(
+                                                    c as char
+                                                ));
+                                            }
+                                        }
                                     } else {
                                         bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
                                     }
@@ -588,6 +608,33 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// Parses what follows `\u` in a string, including a second escape sequence if the first one is
+/// the first half of a surrogate pair.
+fn unicode_escape(pos: &mut usize, input: &[u8]) -> Option<char> {
+    fn hex4(pos: &mut usize, input: &[u8]) -> Option<u32> {
+        let mut code = 0;
+        for &digit in input.get(*pos..*pos + 4)? {
+            code = code * 16 + (digit as char).to_digit(16)?;
+        }
+        *pos += 4;
+        Some(code)
+    }
+
+    let code = hex4(pos, input)?;
+    if !(0xd800..0xdc00).contains(&code) {
+        return char::from_u32(code);
+    }
+    if input.get(*pos..*pos + 2)? != b"\\u" {
+        return None;
+    }
+    *pos += 2;
+    let low = hex4(pos, input)?;
+    if !(0xdc00..0xe000).contains(&low) {
+        return None;
+    }
+    char::from_u32(0x10000 + (code - 0xd800) * 0x400 + (low - 0xdc00))
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From de31f686ab12203d0b176504a51ad6d820d93df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 30/42] fix: negative integers can be read back from
 MessagePack

---
 facet-msgpack/src/from_msgpack.rs | 77 ++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..3a8c31d 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -150,21 +150,54 @@ impl<'input> Decoder<'input> {
             MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
             MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
             MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
-            }
+            MSGPACK_UINT64 => self.decode_8_bytes(),
             prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
             _ => Err(DecodeError::UnexpectedType),
         }
     }
 
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_8_bytes(&mut self) -> Result<u64, DecodeError> {
+        if self.offset + 8 > self.input.len() {
+            return Err(DecodeError::InsufficientData);
+        }
+        let value =
+            u64::from_be_bytes(self.input[self.offset..self.offset + 8].try_into().unwrap());
+        self.offset += 8;
+        Ok(value)
+    }
+
+    /// Decodes a MessagePack-encoded signed 64-bit integer.
+    /// Handles everything [`Self::decode_u64`] does, and the following MessagePack types:
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
+    ///
+    /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
+    fn decode_i64(&mut self) -> Result<i64, DecodeError> {
+        let start = self.offset;
+        match self.decode_u8()? {
+            MSGPACK_INT8 => Ok(self.decode_u8()? as i8 as i64),
+            MSGPACK_INT16 => Ok(self.decode_u16()? as i16 as i64),
+            MSGPACK_INT32 => Ok(self.decode_u32()? as i32 as i64),
+            MSGPACK_INT64 => Ok(self.decode_8_bytes()? as i64),
+            prefix
+                if prefix as i8 >= MSGPACK_NEGFIXINT_MIN
+                    && prefix as i8 <= MSGPACK_NEGFIXINT_MAX =>
+            {
+                Ok(prefix as i8 as i64)
+            }
+            _ => {
+                self.offset = start;
+                let n = self.decode_u64()?;
+                i64::try_from(n).map_err(|_| DecodeError::IntegerOverflow)
+            }
+        }
+    }
+
     /// Decodes a MessagePack-encoded string.
     /// Handles the following MessagePack types:
     /// - fixstr (0xa0 - 0xbf): string up to 31 bytes
@@ -431,18 +464,20 @@ impl<'input> Decoder<'input> {
                     }
                     wip.put(n as u8).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_i64()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n = self.decode_i64()?;
+                    let n = i32::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_i64()?;
+                    let n = i16::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_i64()?;
+                    let n = i8::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
-- 
2.43.0


From edde3b20ec2aa90430cb207fca449706ac4284e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 31/42] fix: booleans can be written to MessagePack, since they
 can be read from it

---
 facet-msgpack/src/to_msgpack.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..4bed20d 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -1,3 +1,5 @@
+use crate::constants::{MSGPACK_FALSE, MSGPACK_TRUE};
+
 use facet_core::{Def, Facet};
 
 use facet_reflect::Peek;
@@ -47,6 +49,9 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
                     .get::<i8>()
                     .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
                 write_i8(writer, *value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                writer.write_all(&[if *value { MSGPACK_TRUE } else { MSGPACK_FALSE }])
             } else {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From 2d2da4d617f3a8f15074296163b0eebe7d6be0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 32/42] fix: unknown MessagePack fields are skipped whatever
 their type

---
 facet-msgpack/src/from_msgpack.rs | 73 +++++++++++++++++++------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 3a8c31d..0048459 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -301,6 +301,15 @@ impl<'input> Decoder<'input> {
         Ok(self.input[self.offset] == MSGPACK_NIL)
     }
 
+    /// Skips the given number of bytes.
+    fn skip_bytes(&mut self, len: usize) -> Result<(), DecodeError> {
+        if len > self.input.len() - self.offset {
+            return Err(DecodeError::InsufficientData);
+        }
+        self.offset += len;
+        Ok(())
+    }
+
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
@@ -342,39 +351,49 @@ impl<'input> Decoder<'input> {
             }
 
             // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
+            MSGPACK_UINT8 | MSGPACK_INT8 => self.skip_bytes(1),
+            MSGPACK_UINT16 | MSGPACK_INT16 => self.skip_bytes(2),
+            MSGPACK_UINT32 | MSGPACK_INT32 => self.skip_bytes(4),
+            MSGPACK_UINT64 | MSGPACK_INT64 => self.skip_bytes(8),
+            // Fixed integers, positive and negative, are their own prefix
+            MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX | 0xe0..=0xff => Ok(()),
+
+            // Float formats
+            MSGPACK_FLOAT32 => self.skip_bytes(4),
+            MSGPACK_FLOAT64 => self.skip_bytes(8),
+
+            // Binary formats
+            MSGPACK_BIN8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
+            MSGPACK_BIN16 => {
+                let len = self.decode_u16()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
+            MSGPACK_BIN32 => {
+                let len = self.decode_u32()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
+
+            // Extension formats: a type, then data
+            MSGPACK_FIXEXT1 => self.skip_bytes(1 + 1),
+            MSGPACK_FIXEXT2 => self.skip_bytes(1 + 2),
+            MSGPACK_FIXEXT4 => self.skip_bytes(1 + 4),
+            MSGPACK_FIXEXT8 => self.skip_bytes(1 + 8),
+            MSGPACK_FIXEXT16 => self.skip_bytes(1 + 16),
+            MSGPACK_EXT8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(1 + len)
             }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
+            MSGPACK_EXT16 => {
+                let len = self.decode_u16()? as usize;
+                self.skip_bytes(1 + len)
             }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
+            MSGPACK_EXT32 => {
+                let len = self.decode_u32()? as usize;
+                self.skip_bytes(1 + len)
             }
-            // Fixed integers are already handled by decode_u8
 
             // Boolean and nil
             MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-- 
2.43.0


From 7af37e423c01e94c43d9a80e9862b407d0cb5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 33/42] fix: YAML integers and shapes that aren't supported are
 errors

A negative integer was read as a huge u64; lists, maps and enums panicked.
---
 facet-yaml/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..1e52947 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr(format!("Integer {} doesn't fit in a u64", i)))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
@@ -92,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -113,7 +113,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From bea266e69c211ff9b3d26649a951d92b87d28f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 34/42] fix: reading a TOML option or enum gets back to where
 it was

The frames of options and of the fields of enum variants were left behind, and the
fields that came next were looked up in them.
---
 facet-toml/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..a1d2ad1 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -99,6 +99,8 @@ fn deserialize_as_struct<'a>(
                     wip = wip
                         .pop_some_push_none()
                         .map_err(|e| AnyErr(e.to_string()))?;
+                    // Finish the none, we're back to the option
+                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -225,13 +227,14 @@ fn build_enum_from_variant_name<'a>(
             };
 
             wip = deserialize_item(wip, field)?;
-
-            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
         } else if item.is_value() {
             wip = deserialize_item(wip, item)?;
         } else {
             return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
+
+        // Finish the field
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
 
     Ok(wip)
@@ -366,6 +369,9 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    // Finish the value, we're back to the option
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From a01a0ed3d62ecf6e62713f0be551a1e5ab565105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 35/42] fix: a TOML number with a fractional part isn't an
 integer

---
 facet-toml/src/to_scalar.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..ecf6e70 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -16,8 +16,14 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
         .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?;
 
     match v {
-        Value::Float(r) => Ok(T::from(*r.value())
-            .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
+        Value::Float(r) => {
+            let r = *r.value();
+            // `T::from` drops the fractional part if `T` can't hold it
+            let is_integer = T::from(0.5).and_then(|half| half.to_f64()) != Some(0.5);
+            Ok(T::from(r)
+                .filter(|_| !is_integer || r.fract() == 0.0)
+                .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?)
+        }
         Value::Integer(i) => Ok(T::from(*i.value())
             .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
         _ => Err(format!("Cannot convert {} to a number", v.type_name()).into()),
-- 
2.43.0


From 1e8681a01952df15a8bdf73a5ee24868d85a9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 36/42] fix: a map key without fields is complete as it is

Popping a map value panicked when the key was a struct with no fields: no bit of
its field set is ever set. Ask whether the key is fully initialized instead.
---
 facet-reflect/src/wip/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 9a4ffe9..e46e617 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1636,7 +1636,7 @@ impl<'a> Wip<'a> {
                 let mut key_frame = self.frames.remove(key_frame_index);
 
                 // Make sure the key is fully initialized
-                if !key_frame.istate.fields.is_any_set() {
+                if !key_frame.is_fully_initialized() {
                     panic!("key is not initialized when popping value frame");
                 }
 
-- 
2.43.0


From 4f2653bcc3e39ea146754e724ee1ac42f1ccbd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 37/42] fix: refuse MessagePack strings and maps too long for
 their length field instead of truncating it

---
 facet-msgpack/src/to_msgpack.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 4bed20d..1b72e61 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -101,11 +101,17 @@ fn write_str<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
             writer.write_all(&[0xda])?;
             writer.write_all(&(len as u16).to_be_bytes())?;
         }
-        _ => {
+        65536..=4294967295 => {
             // str32
             writer.write_all(&[0xdb])?;
             writer.write_all(&(len as u32).to_be_bytes())?;
         }
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "string too long for MessagePack",
+            ));
+        }
     }
     writer.write_all(bytes)
 }
@@ -343,10 +349,14 @@ fn write_map_len<W: Write>(writer: &mut W, len: usize) -> io::Result<()> {
             writer.write_all(&[0xde])?;
             writer.write_all(&(len as u16).to_be_bytes())
         }
-        _ => {
+        65536..=4294967295 => {
             // map32
             writer.write_all(&[0xdf])?;
             writer.write_all(&(len as u32).to_be_bytes())
         }
+        _ => Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "map too long for MessagePack",
+        )),
     }
 }
-- 
2.43.0


From e8628f441ca23c709466d2bd1701eab03b5289d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 38/42] fix: facet-json writes tuple variants as arrays and
 struct variants as objects

---
 facet-json/src/serialize.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index f365447..6a7d0a5 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, Field, FieldAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -281,20 +281,16 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write_json_string(writer, variant_name)?;
         write!(writer, ":")?;
 
+        let is_struct = variant.data.kind == StructKind::Struct;
+
         // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
+        if !is_struct && variant.data.fields.len() == 1 {
             let field = enum_peek.field(0).ok_or_else(|| {
                 io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
             })?;
             serialize(&field, writer)?;
         } else {
-            // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
+            // Output as an array or object depending on variant type
             if is_struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
-- 
2.43.0


From 14aa99d873b90e308061a8a1d43f11f46caf7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 39/42] fix: JSON input that doesn't fit its type is an error,
 not a panic

---
 facet-json/src/deserialize.rs       | 60 +++++++++++++++++++----------
 facet-json/src/deserialize/error.rs | 22 +++++++++--
 2 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 72647ae..8e11968 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -65,6 +65,23 @@ pub fn from_slice_wip<'input, 'a>(
             return err!($kind)
         };
     }
+    // What the input asks for can be something the type doesn't have
+    macro_rules! reflect {
+        ($result:expr) => {{
+            let path = wip.path();
+            match $result {
+                Ok(value) => value,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e.to_string()),
+                        input,
+                        pos,
+                        path,
+                    ));
+                }
+            }
+        }};
+    }
 
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -127,7 +144,7 @@ pub fn from_slice_wip<'input, 'a>(
             Some(expect) => expect,
             None => {
                 if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
+                    return Ok(reflect!(wip.build()));
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
@@ -150,7 +167,7 @@ pub fn from_slice_wip<'input, 'a>(
             }
             Expect::Value(why) => {
                 if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
+                    wip = reflect!(wip.push_some());
                     stack.push(Expect::PopOption);
                 }
 
@@ -183,7 +200,7 @@ pub fn from_slice_wip<'input, 'a>(
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        wip = reflect!(wip.begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -195,7 +212,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
@@ -286,9 +303,9 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    wip = reflect!(wip.put::<String>(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    wip = reflect!(wip.parse(&value));
                                 }
                                 finished_value = Some(why);
                             }
@@ -315,7 +332,7 @@ pub fn from_slice_wip<'input, 'a>(
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                        wip = reflect!(wip.field_named(field.name));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -379,7 +396,7 @@ pub fn from_slice_wip<'input, 'a>(
                                         value.blue(),
                                         wip.shape()
                                     );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    wip = reflect!(wip.field_named(&value));
                                 }
                             }
                         }
@@ -443,7 +460,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        wip = reflect!(wip.put::<bool>(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -460,7 +477,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        wip = reflect!(wip.put::<bool>(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -482,7 +499,7 @@ pub fn from_slice_wip<'input, 'a>(
                             pos += 4;
 
                             // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            wip = reflect!(wip.pop_some_push_none());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -509,7 +526,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(wip.push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -535,7 +552,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 // we finished the array, neat
                                 if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
+                                    wip = reflect!(wip.pop());
                                 }
                             }
                             _ => {
@@ -567,7 +584,7 @@ pub fn from_slice_wip<'input, 'a>(
                     // Ensure all struct fields are set before popping
                     if let Def::Struct(sd) = wip.shape().def {
                         for i in 0..sd.fields.len() {
-                            if !wip.is_field_set(i).unwrap() {
+                            if !reflect!(wip.is_field_set(i)) {
                                 let missing_field: &'static str = sd.fields[i].name;
                                 if struct_has_default {
                                     has_missing_fields = true;
@@ -577,7 +594,7 @@ pub fn from_slice_wip<'input, 'a>(
                                         .iter()
                                         .any(|attr| matches!(attr, FieldAttribute::Default(_)));
                                     if has_default {
-                                        wip = wip.put_field_default(i).unwrap();
+                                        wip = reflect!(wip.put_field_default(i));
                                     } else {
                                         bail!(JsonErrorKind::MissingField(missing_field));
                                     }
@@ -589,18 +606,19 @@ pub fn from_slice_wip<'input, 'a>(
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
                         if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
+                            bail!(JsonErrorKind::ReflectError(format!(
+                                "{} has missing fields but does not implement Default",
+                                wip.shape()
+                            )));
                         }
                         // Move every missing field over from the default value
-                        wip = wip.fill_unset_fields_from_default().unwrap();
+                        wip = reflect!(wip.fill_unset_fields_from_default());
                     }
 
                     if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
+                        return Ok(reflect!(wip.build()));
                     } else {
-                        wip = wip.pop().unwrap();
+                        wip = reflect!(wip.pop());
                     }
                 }
             }
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..edc99ca 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -45,6 +45,7 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
+            JsonErrorKind::ReflectError(e) => format!("Error while building the value: {}", e),
         }
     }
 }
@@ -66,6 +67,8 @@ pub enum JsonErrorKind {
     UnknownField(String),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
+    /// A value that cannot be put where the input has it
+    ReflectError(String),
 }
 
 #[cfg(not(feature = "rich-diagnostics"))]
@@ -90,9 +93,12 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
 
         let source_id = "json";
 
-        let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
+        let (mut span_start, mut span_end) = match &self.kind {
+            JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
+            JsonErrorKind::UnknownField(f) => {
+                let span_end = self.pos.saturating_sub(1);
+                (span_end.saturating_sub(f.len()), span_end)
+            }
             _ => {
                 let span_end = if self.pos < self.input.len() {
                     self.pos + 1
@@ -103,6 +109,16 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
             }
         };
 
+        // Only whole characters can be pointed at
+        span_start = span_start.min(input_str.len());
+        span_end = span_end.min(input_str.len());
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
+
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
             .with_config(Config::new().with_index_type(IndexType::Byte));
-- 
2.43.0


From d19664043555516fa1c57a6e8e5211e73287f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 40/42] fix: an object key is not what an option is filled with
 (panic on an unknown key where the type is Option<Option<T>>)

---
 facet-json/src/deserialize.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 8e11968..72ee589 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -166,9 +166,12 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = reflect!(wip.push_some());
-                    stack.push(Expect::PopOption);
+                // (a key is never what goes into the option)
+                if why != WhyValue::ObjectKey {
+                    if let Def::Option(_) = wip.shape().def {
+                        wip = reflect!(wip.push_some());
+                        stack.push(Expect::PopOption);
+                    }
                 }
 
                 match c {
-- 
2.43.0


From 4cbffb099b84710e5ae29e3e2ac437962fd8282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 41/42] fix: sensitive fields of enum variants are redacted, as
 those of structs are

---
 facet-pretty/src/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..ac9a9d5 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -522,6 +522,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Check if field is sensitive
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 5a10713b30fc56da824dbef6124b8fa50066b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 42/42] fix: TOML items and types that aren't supported are
 errors, not todo!()

---
 facet-toml/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index a1d2ad1..978d5e9 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -118,7 +118,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => {
+            return Err(AnyErr("Expected an enum variant, got nothing".to_string()));
+        }
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -179,7 +181,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_) => {
+            return Err(AnyErr("Cannot parse enum from array of tables".to_string()));
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -377,12 +381,11 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
-    trace!("Deserializing {}", "smart pointer".blue());
-
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
+fn deserialize_as_smartpointer<'a>(wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
+    Err(AnyErr(format!(
+        "Smart pointers are not supported yet: {}",
+        wip.shape()
+    )))
 }
 
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
-- 
2.43.0

