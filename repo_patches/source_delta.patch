From 6a28809e7308aea9be29566b3e8043c43e9f72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 1/5] fix: cloned parts iterators keep the capacity iteration
 relies on

Cloning an RcSliceParts/ArcSliceParts cloned its deque with just enough
capacity for the current elements, so the next call to next()/next_back()
that had to subdivide more than once panicked in builds with debug
assertions ('deque doesn't need to re-allocate').
---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..2c3ead4 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -25,6 +24,22 @@ pub struct BinaryPartsIter<S> {
     deque: VecDeque<S>,
 }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // Not derived, b/c VecDeque's clone only has enough capacity for the
+        // slices it currently holds. The clone needs the same spare capacity
+        // as the original to finish iterating w/o growing.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 /// A marker trait that indicates that a type's BinarySplitOff impl acts
 /// like splitting a slice. Succintly, this means the type's impls of
 /// BinarySplitOff and Deref<Target=[T]> commute with each other. More
-- 
2.43.0


From f8185edd454dca728291ef42e2b25e81e1e0ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 2/5] fix: empty unique slices don't keep the allocation alive

split_off_right on a unique slice of length one moves its only item to the
right part but left the allocation with the now empty left part, so the
memory stayed allocated until that empty handle was dropped, unlike every
other way of ending up with an empty handle.
---
 src/arc/arc_slice_mut.rs | 9 ++++++++-
 src/rc/rc_slice_mut.rs   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice_mut.rs b/src/arc/arc_slice_mut.rs
index cedecac..6e0a099 100644
--- a/src/arc/arc_slice_mut.rs
+++ b/src/arc/arc_slice_mut.rs
@@ -66,7 +66,14 @@ impl<T> ArcSliceMut<T> {
 
     pub fn split_off_right(this: &mut Self) -> Self {
         let new_items = this.items.split_off_right();
-        let alloc = if new_items.len() > 0 { this.alloc.clone() } else { None };
+        let alloc = if this.items.len() == 0 {
+            // Everything went right. Don't hold onto SliceAlloc for zero items.
+            this.alloc.take()
+        } else if new_items.len() > 0 {
+            this.alloc.clone()
+        } else {
+            None
+        };
         Self { items: new_items, alloc }
     }
 
diff --git a/src/rc/rc_slice_mut.rs b/src/rc/rc_slice_mut.rs
index afeed02..3b44ff1 100644
--- a/src/rc/rc_slice_mut.rs
+++ b/src/rc/rc_slice_mut.rs
@@ -83,7 +83,14 @@ impl<T> RcSliceMut<T> {
 
     pub fn split_off_right(this: &mut Self) -> Self {
         let new_items = this.items.split_off_right();
-        let alloc = if new_items.len() > 0 { this.alloc.clone() } else { None };
+        let alloc = if this.items.len() == 0 {
+            // Everything went right. Don't hold onto SliceAlloc for zero items.
+            this.alloc.take()
+        } else if new_items.len() > 0 {
+            this.alloc.clone()
+        } else {
+            None
+        };
         Self { items: new_items, alloc }
     }
 
-- 
2.43.0


From 481bf9a8741c97bb64023aa20d8db15042e58edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 3/5] fix: WeakSlices can't invalidate ArcSlice::get_mut and
 ArcSlice::into_mut

get_mut ignored WeakSlices for descendants as well as clones of WeakSlices
that outlived the DataGuard, downgrade and upgrade raced w/ get_mut and into_mut,
and nothing synchronized w/ the drop of the refs that get_mut no longer sees.
---
 src/arc/arc_slice.rs | 158 +++++++++++++++++++++++++------------------
 src/internal/gate.rs |  20 +++---
 2 files changed, 101 insertions(+), 77 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..3df09a7 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,11 +1,11 @@
 use core::{
     iter::FusedIterator,
     marker::PhantomData,
-    mem,
+    mem::{self, ManuallyDrop},
     ops::Deref,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{self, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -15,7 +15,7 @@ use alloc::{
 use crate::{
     internal::{
         bin_parts_iter::{BinaryPartsIter, BinarySplitOff, SplitAsSlice},
-        gate::Gate,
+        gate::{Gate, Latch},
         slice_model::SliceAlloc,
     },
     arc::ArcSliceMut,
@@ -45,16 +45,17 @@ pub (in crate::arc) struct ArcSliceData<T> {
     phantom_child: PhantomData<Self>,
 }
 
-/// Signals the presence of child ArcSlices or WeakSlices for the same
-/// data subslice. Part of detecting which mutations are possible.
+/// Signals the presence of ArcSlices or WeakSlices for the same data
+/// subslice or any part of it. Part of detecting which mutations are
+/// possible.
 struct DataGuard {
-    // Not used except in the fact that a child DataGuard keeps its parent
-    // DataGuard alive.
-    _parent: Option<Arc<Self>>,
-    // A Gate controlling whether clone_left and clone_right are allowed
-    clone_child_gate: Gate,
-    // A Gate controlling whether downgrade is allowed
-    downgrade_gate: Gate,
+    // A child DataGuard keeps its parent DataGuard alive.
+    parent: Option<Arc<Self>>,
+    // A Gate that's closed while a WeakSlice is being upgraded or an ArcSlice
+    // is being converted into an ArcSliceMut. Only the Gate of the root of each
+    // hierarchy gets used, so that the two exclude each other no matter which
+    // subslices they're for.
+    upgrade_gate: Gate,
 }
 
 /// An atomically reference counted slice that tracks reference counts
@@ -68,8 +69,10 @@ pub struct ArcSlice<T> {
 /// to std::sync::Weak<[T]>.
 pub struct WeakSlice<T> {
     data: Weak<ArcSliceData<T>>,
-    // Not used except as part of signaling the presence of WeakSlices to ArcSlice:;get_mut
-    _data_guard: Weak<DataGuard>,
+    // A strong ref, so that this signals the presence of this WeakSlice to
+    // ArcSlice::get_mut for this subslice or for any ancestor of it. None if
+    // constructed via WeakSlice::new().
+    data_guard: Option<Arc<DataGuard>>,
 }
 
 /// A double-ended iterator over roughly-even subslices of a starting ArcSlice.
@@ -204,6 +207,31 @@ impl<T> ArcSliceData<T> {
         (ptr, self.len - (self.len >> 1))
     }
 
+    /// Determines whether the given Arc is the only strong ref to its data and
+    /// there are no strong refs to any of its descendants other than the ones
+    /// from their parents. Calling code must prevent WeakSlices to any of these
+    /// from being upgraded for the result to be meaningful.
+    fn is_unshared(self: &Arc<Self>) -> bool {
+        if 1 != Arc::strong_count(self) {
+            return false;
+        }
+        // Synchronize w/ the drop of whichever strong refs used to exist, so we're
+        // sure to see any child they created and whatever they did to the items.
+        atomic::fence(Ordering::Acquire);
+        // An ArcSlice that's not for this data anymore can only be for a descendant.
+        // So checking parents before children can't miss any.
+        Self::is_child_unshared(&self.left_child) && Self::is_child_unshared(&self.right_child)
+    }
+
+    fn is_child_unshared(child: &AtomicPtr<()>) -> bool {
+        let child = child.load(Ordering::Acquire);
+        child.is_null() || {
+            // ManuallyDrop b/c the parent keeps its strong ref to the child.
+            let child = ManuallyDrop::new(unsafe { Arc::from_raw(child as *const Self) });
+            child.is_unshared()
+        }
+    }
+
     /// Convert this ArcSliceData into an ArcSliceMut. Unsafe b/c calling
     /// code must ensure that there are no strong refs to any other ArcSliceData
     /// overlapping this one.
@@ -294,9 +322,8 @@ impl DataGuard {
             let parent_guard = data.parent.upgrade()
                 .map(|parent_data| Self::guard(&parent_data));
             let guard = Arc::new(Self {
-                _parent: parent_guard,
-                clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
+                parent: parent_guard,
+                upgrade_gate: Gate::new(),
             });
             let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
             let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
@@ -315,6 +342,16 @@ impl DataGuard {
         }
         existing_guard.unwrap_or_else(|| unreachable!())
     }
+
+    /// Prevent upgrading any WeakSlice in the whole hierarchy that this DataGuard
+    /// belongs to until the returned Latch is dropped.
+    fn close_upgrade_gate(&self) -> Latch<'_> {
+        let mut root = self;
+        while let Some(parent) = &root.parent {
+            root = parent;
+        }
+        root.upgrade_gate.close()
+    }
 }
 
 impl<T> ArcSlice<T> {
@@ -332,12 +369,10 @@ impl<T> ArcSlice<T> {
     }
 
     pub fn clone_left(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_left())
     }
 
     pub fn clone_right(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_right())
     }
 
@@ -360,66 +395,52 @@ impl<T> ArcSlice<T> {
     }
 
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
-        // We do the same basic checks as RcSlice::get_mut, but we also have to
-        // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
-
-        // Check for no weak refs first.
-        this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-                    if 1 == Arc::strong_count(&this.data_guard) {
-                        if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
-                            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                )
-            } else {
-                None
-            }
-        )
+        // We need to check for any ArcSlices referencing our own ArcSliceData or
+        // an ancestor of it, and for any ArcSlices or WeakSlices referencing our own
+        // ArcSliceData or any of its descendants. The former all show in the strong
+        // count of our data and the latter all show in the strong count of our guard.
+        //
+        // The order matters: Once we're the only strong ref to our data, new refs can
+        // only come from ArcSlices and WeakSlices that show in the strong count of our
+        // guard for as long as they exist. So if there are none of those afterwards
+        // then none can be created anymore either, and there are no races to avoid.
+        if 1 != Arc::strong_count(&this.data) {
+            return None;
+        }
+        atomic::fence(Ordering::Acquire);
+        if 1 != Arc::strong_count(&this.data_guard) {
+            return None;
+        }
+        // Synchronize w/ the drop of whichever refs used to exist.
+        atomic::fence(Ordering::Acquire);
+        // Safe to mutate
+        unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
     }
 
     pub fn into_mut(this: Self) -> Result<ArcSliceMut<T>, Self> {
-        // We do the same basic checks as RcSlice::into_mut, but as w/
-        // get_mut above, we need to do locking to avoid race conditions.
+        // As in RcSlice::into_mut, we don't care about WeakSlices. But we have to
+        // prevent them from being upgraded while we check for any ArcSlices referencing
+        // our ArcSliceData, or an ancestor or descendant of it.
 
         let ArcSlice { data, data_guard } = this;
-        let slice_mut = match (*data_guard).clone_child_gate.try_close() {
-            Some(_clone_child_latch) => {
-                if 1 == Arc::strong_count(&data_guard) {
-                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
-                } else {
-                    Err(data)
-                }
-            },
-            None => Err(data)
+        let slice_mut = {
+            let _latch = data_guard.close_upgrade_gate();
+            if data.is_unshared() {
+                Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
+            } else {
+                Err(data)
+            }
         };
         slice_mut.map_err(|data| ArcSlice { data, data_guard })
     }
 
     pub fn downgrade(this: &Self) -> WeakSlice<T> {
-        this.downgrade_gate().wait_till_open();
-        WeakSlice { data: Arc::downgrade(&this.data), _data_guard: Arc::downgrade(&this.data_guard) }
+        WeakSlice { data: Arc::downgrade(&this.data), data_guard: Some(this.data_guard.clone()) }
     }
 
     // TODO: unsplit
     // TODO: make_mut
     // TODO: into_boxed_slice, into_vec
-
-    fn clone_child_gate(&self) -> &Gate {
-        &(*self.data_guard).clone_child_gate
-    }
-
-    fn downgrade_gate(&self) -> &Gate {
-        &(*self.data_guard).downgrade_gate
-    }
 }
 
 impl<T> Clone for ArcSlice<T> {
@@ -467,19 +488,22 @@ impl<T> WeakSlice<T> {
     /// Constructs a new `WeakSlice<T>`, without allocating any memory.
     /// Calling `upgrade` on the return value always gives `None`.
     pub fn new() -> Self {
-        Self { data: Weak::new(), _data_guard: Weak::new() }
+        Self { data: Weak::new(), data_guard: None }
     }
 
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
         // TODO: This suffers from the same limitations as
         // crate::rc::WeakSlice::upgrade does.
-        self.data.upgrade().map(ArcSlice::from_data)
+        self.data_guard.as_ref().and_then(|data_guard| {
+            let _latch = data_guard.close_upgrade_gate();
+            self.data.upgrade().map(|data| ArcSlice { data, data_guard: data_guard.clone() })
+        })
     }
 }
 
 impl<T> Clone for WeakSlice<T> {
     fn clone(&self) -> Self {
-        Self { data: self.data.clone(), _data_guard: self._data_guard.clone() }
+        Self { data: self.data.clone(), data_guard: self.data_guard.clone() }
     }
 }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..f1cf36d 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -1,4 +1,7 @@
-use core::sync::atomic::{AtomicBool, Ordering};
+use core::{
+    hint,
+    sync::atomic::{AtomicBool, Ordering},
+};
 
 /// A simple syncrhonization primitive.
 pub struct Gate {
@@ -12,16 +15,13 @@ impl Gate {
         Self { is_closed: AtomicBool::new(false) }
     }
 
-    pub fn wait_till_open(&self) {
-        while self.is_closed.load(Ordering::SeqCst) {}
-    }
-
-    pub fn try_close(&self) -> Option<Latch<'_>> {
-        if self.is_closed.swap(true, Ordering::SeqCst) {
-            None
-        } else {
-            Some(Latch(self))
+    /// Wait till this Gate is open, then close it. It opens again once the
+    /// returned Latch is dropped.
+    pub fn close(&self) -> Latch<'_> {
+        while self.is_closed.swap(true, Ordering::SeqCst) {
+            hint::spin_loop();
         }
+        Latch(self)
     }
 }
 
-- 
2.43.0


From 6b6006af49e1da38704cce945338862017ece666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 4/5] fix: ArcSliceData frees the weak ref to its guard

Each ArcSliceData leaked a boxed Weak<DataGuard> per guard it ever had and
thereby the DataGuards' allocations.
---
 src/arc/arc_slice.rs | 58 +++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 3df09a7..02e4d7a 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -37,10 +37,10 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    // Obtained via Weak::<DataGuard>::into_raw(). Owned by this ArcSliceData and
+    // only accessed while guard_gate is closed.
+    guard: AtomicPtr<DataGuard>,
+    guard_gate: Gate,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -96,7 +96,7 @@ impl<T> ArcSliceData<T> {
     }
 
     fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
+        let guard = AtomicPtr::new(Weak::<DataGuard>::into_raw(Weak::new()) as _);
         Self {
             ptr,
             len,
@@ -105,6 +105,7 @@ impl<T> ArcSliceData<T> {
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
             guard,
+            guard_gate: Gate::new(),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -257,6 +258,8 @@ impl<T> ArcSliceData<T> {
 
 impl<T> Drop for ArcSliceData<T> {
     fn drop(&mut self) {
+        // Drop our weak ref to our guard.
+        drop(unsafe { Weak::from_raw(*self.guard.get_mut()) });
         // Move the children out to decrement their strong counts and
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
@@ -312,35 +315,36 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl DataGuard {
     fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
+        Self::existing_guard(data).unwrap_or_else(|| {
             // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
+            // a new guard as we do for RcSliceData and then putting the new
+            // guard into place.
             let parent_guard = data.parent.upgrade()
                 .map(|parent_data| Self::guard(&parent_data));
             let guard = Arc::new(Self {
                 parent: parent_guard,
                 upgrade_gate: Gate::new(),
             });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-            }
-        }
-        existing_guard.unwrap_or_else(|| unreachable!())
+            Self::init_guard(data, guard)
+        })
+    }
+
+    fn existing_guard<T>(data: &ArcSliceData<T>) -> Option<Arc<Self>> {
+        let _latch = data.guard_gate.close();
+        // ManuallyDrop b/c data keeps its weak ref.
+        let guard = ManuallyDrop::new(unsafe { Weak::from_raw(data.guard.load(Ordering::Acquire)) });
+        guard.upgrade()
+    }
+
+    /// Make the given guard the guard for the given data unless it has a
+    /// live one already, i.e. unless we lost a race to guard this slice data.
+    /// Returns whichever guard is for the given data now.
+    fn init_guard<T>(data: &ArcSliceData<T>, guard: Arc<Self>) -> Arc<Self> {
+        let _latch = data.guard_gate.close();
+        let existing_guard = unsafe { Weak::from_raw(data.guard.load(Ordering::Acquire)) };
+        let guard = existing_guard.upgrade().unwrap_or(guard);
+        data.guard.store(Weak::into_raw(Arc::downgrade(&guard)) as _, Ordering::Release);
+        guard
     }
 
     /// Prevent upgrading any WeakSlice in the whole hierarchy that this DataGuard
-- 
2.43.0


From a7e7c05b826226eb0da524d546690d9fae9e519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 5/5] fix: don't offset pointers into a freed allocation in
 SliceItemsParts

An iterator over the parts of a unique slice that has only empty parts left
doesn't keep the allocation alive, but as_slice, next, next_back and drop still
computed in-bounds offsets from its start. Use wrapping pointer arithmetic,
which is fine for pointers that aren't dereferenced.
---
 src/internal/slice_model/slice_items.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/internal/slice_model/slice_items.rs b/src/internal/slice_model/slice_items.rs
index b05f792..1a14011 100644
--- a/src/internal/slice_model/slice_items.rs
+++ b/src/internal/slice_model/slice_items.rs
@@ -307,7 +307,7 @@ impl<T> Iterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 }
@@ -338,7 +338,7 @@ impl<T> DoubleEndedIterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 } else {
@@ -417,7 +417,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize + count) as _)
             } else {
-                Self(self.0.add(count))
+                Self(self.0.wrapping_add(count))
             }
         }
 
@@ -426,7 +426,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize - count) as _)
             } else {
-                Self(self.0.sub(count))
+                Self(self.0.wrapping_sub(count))
             }
         }
     }
@@ -450,12 +450,10 @@ mod zst_utils {
                 Self { start: PtrOrIdx(0 as _), end: PtrOrIdx(len as _) }
             } else {
                 let ptr = ptr.as_ptr();
-                // Safety: As long as calling code adheres to the safety guarantees
-                // in the comment above, the pointer `add` below is safe for the same
-                // reasons it's safe in the impl of, say, [T]'s as_ptr_range.
-                // See https://doc.rust-lang.org/std/primitive.slice.html#method.as_ptr_range
-                // and follow link from there to src.
-                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.add(len)) }
+                // Use wrapping_add here and above since a SliceItemsParts whose remaining
+                // parts are all empty may outlive the allocation its orig_ptr points to.
+                // Merely computing `ptr.add(len)` would be undefined behavior then.
+                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.wrapping_add(len)) }
             }
         }
 
-- 
2.43.0

