From 59338cfc3291e4e3eefb207a8cfdc4833e048664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 01/25] fix: reject too large allocations before building Tree
 Borrows permissions

---
 spec/mem/tree_borrows/memory.md | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spec/mem/tree_borrows/memory.md b/spec/mem/tree_borrows/memory.md
index 1d745be..9ede6c9 100644
--- a/spec/mem/tree_borrows/memory.md
+++ b/spec/mem/tree_borrows/memory.md
@@ -179,6 +179,10 @@ impl<T: Target> Memory for TreeBorrowsMemory<T> {
     }
 
     fn allocate(&mut self, kind: AllocationKind, size: Size, align: Align) -> NdResult<ThinPointer<Self::Provenance>>  {
+        // Reject too large allocations before creating per-byte permissions for them.
+        if !T::valid_size(size) {
+            throw_ub!("asking for a too large allocation");
+        }
         // Create the root node for the tree.
         // Initially, we set the permission as `Unique`.
         let root = Node {
-- 
2.43.0


From 1be7cad2d70e3e6c86032eb07f336ad4ea6cf023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 02/25] fix: PtrOffset has to produce a well-formed value of
 its pointer type

---
 spec/lang/step/operators.md | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spec/lang/step/operators.md b/spec/lang/step/operators.md
index e6c1d53..1721919 100644
--- a/spec/lang/step/operators.md
+++ b/spec/lang/step/operators.md
@@ -414,7 +414,11 @@ impl<M: Memory> Machine<M> {
         } else {
             self.ptr_offset_wrapping(left, right)
         };
-        ret((Value::Ptr(offset_ptr.widen(None)), l_ty))
+        // The result has the same type as the operand. If that is a safe pointer or a vtable pointer,
+        // it is not valid at every address, so make sure that the new pointer is well-formed.
+        let result = Value::Ptr(offset_ptr.widen(None));
+        self.check_value(result, l_ty)?;
+        ret((result, l_ty))
     }
 
     fn eval_bin_op(
-- 
2.43.0


From 79df7cdd7982b6e33fed03d1f7b0494099bfe8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 03/25] fix: ComputeSize of an unsized type whose metadata
 makes it too large is UB

---
 spec/lang/step/operators.md | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spec/lang/step/operators.md b/spec/lang/step/operators.md
index 1721919..a15fdd6 100644
--- a/spec/lang/step/operators.md
+++ b/spec/lang/step/operators.md
@@ -131,6 +131,10 @@ impl<M: Memory> Machine<M> {
     fn eval_un_op(&self, UnOp::ComputeSize(ty): UnOp, (operand, op_ty): (Value<M>, Type)) -> Result<(Value<M>, Type)> {
         let meta = ty.meta_kind().decode_value::<M>(operand);
         let size = self.compute_size(ty.layout::<M::T>(), meta);
+        // The metadata does not have to come from a valid pointer, so the size can be too big to exist.
+        if !M::T::valid_size(size) {
+            throw_ub!("ComputeSize: total size too large");
+        }
         ret((Value::Int(size.bytes()), Type::Int(IntType::usize_ty::<M::T>())))
     }
 
-- 
2.43.0


From d5758e70bb8d0017bd6ae1090e2ac2a77460e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:57 +0000
Subject: [PATCH 04/25] fix: retagging a zero-sized pointee below the start of
 its allocation

---
 spec/mem/tree_borrows/memory.md | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spec/mem/tree_borrows/memory.md b/spec/mem/tree_borrows/memory.md
index 9ede6c9..671f706 100644
--- a/spec/mem/tree_borrows/memory.md
+++ b/spec/mem/tree_borrows/memory.md
@@ -90,12 +90,13 @@ impl<T: Target> TreeBorrowsMemory<T> {
             // the part "inside" the pointer. This will initially not be marked as "accessed"
             // anywhere; we'll then do an access which will set that flag.
             let alloc_size = allocation.size();
-            let offset = Offset::from_bytes(ptr.addr - allocation.addr).unwrap();
+            // If the pointee has size 0, the pointer does not have to be in-bounds, so this can be negative.
+            let offset = ptr.addr - allocation.addr;
 
             let mut permissions = list![settings.outside; alloc_size.bytes()];
             if settings.inside.len() > 0 {
                 permissions.write_subslice_at_index(
-                    offset.bytes(),
+                    offset,
                     settings.inside,
                 );
             }
@@ -116,9 +117,9 @@ impl<T: Target> TreeBorrowsMemory<T> {
             // Perform a read access on all bytes inside the pointee whose permission requires such an access.
             for (idx, perm) in settings.inside.iter().enumerate() {
                 let idx = Int::from(idx); // FIXME: we need a version of `enumerate` that yields `Int`s.
-                let idx = Size::from_bytes(idx).unwrap();
+                let idx = Offset::from_bytes(offset + idx).unwrap();
                 if let Some(access) = perm.init_access() {
-                    allocation.extra.root.access(Some(child_path), access, offset+idx, Offset::from_bytes_const(1))?
+                    allocation.extra.root.access(Some(child_path), access, idx, Offset::from_bytes_const(1))?
                 }
             }
 
-- 
2.43.0


From 6b4c1da07714bdfab9a2645da828ea13a64f19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 05/25] fix: returning a reference to memory of the function
 itself is UB

---
 spec/lang/step/terminators.md | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spec/lang/step/terminators.md b/spec/lang/step/terminators.md
index 35d4cec..63bc82e 100644
--- a/spec/lang/step/terminators.md
+++ b/spec/lang/step/terminators.md
@@ -350,6 +350,8 @@ impl<M: Memory> Machine<M> {
             StackPopAction::BackToCaller { ret_val_ptr: caller_ret_ptr, next_block, .. } => {
                 // There must be a caller.
                 assert!(self.active_thread().stack.len() > 0);
+                // The return value might contain safe pointers to the locals we just deallocated.
+                self.check_value(ret_val, callee_ty)?;
                 // Store the return value where the caller wanted it.
                 // Crucially, we are doing the store at the same type as the load above.
                 self.typed_store(
-- 
2.43.0


From bb56c42de4e432fe26f59cffa62dc118c65fb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 06/25] fix: Tree Borrows has to account for the padding around
 the tail of unsized tuples

---
 spec/mem/tree_borrows/reborrow_settings.md | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spec/mem/tree_borrows/reborrow_settings.md b/spec/mem/tree_borrows/reborrow_settings.md
index 3d8dc2f..8d964c7 100644
--- a/spec/mem/tree_borrows/reborrow_settings.md
+++ b/spec/mem/tree_borrows/reborrow_settings.md
@@ -73,8 +73,16 @@ impl UnsafeCellStrategy {
                 cells_to_freeze_mask(vtable.cells, vtable.size)
             },
             (UnsafeCellStrategy::Tuple { head_cells, tail_cells }, LayoutStrategy::Tuple { head, tail }, _) => {
+                let (tail_size, tail_align) = tail.compute_size_and_align(ptr_metadata, &vtable_lookup);
+                let tail_offset = head.tail_offset(tail_align);
+                let (size, _align) = head.full_size_and_align(tail_size, tail_align);
+
                 let mut mask = cells_to_freeze_mask(head_cells, head.end);
+                // The padding around the tail is frozen, like all padding.
+                mask.append(list![true; tail_offset.bytes() - head.end.bytes()]);
                 mask.append(tail_cells.freeze_mask(tail, ptr_metadata, vtable_lookup));
+                mask.append(list![true; size.bytes() - (tail_offset + tail_size).bytes()]);
+                assert!(mask.len() == size.bytes());
                 mask
             },
             _ => panic!("Invalid LayoutStrategy and PointerMeta combination"),
-- 
2.43.0


From 259ff160a79be7c799189565d65e4489bc462428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 07/25] fix: synchronization of a thread only orders the very
 next step

---
 spec/lang/machine.md | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spec/lang/machine.md b/spec/lang/machine.md
index ab1bed5..f4d7977 100644
--- a/spec/lang/machine.md
+++ b/spec/lang/machine.md
@@ -359,6 +359,8 @@ impl<M: Memory> Machine<M> {
         // Remember threads synchronized by the previous step for data race detection
         // after this step.
         let mut prev_sync = self.synchronized_threads;
+        // Forget them: this synchronization only affects the step that comes right after it.
+        self.synchronized_threads = Set::new();
         // Every thread is always synchronized with itself.
         prev_sync.insert(self.active_thread);
 
-- 
2.43.0


From 637f35a5ecc006a0117b2860863516768239aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 08/25] fix: a zero-sized access does not race

---
 spec/mem/concurrent.md | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spec/mem/concurrent.md b/spec/mem/concurrent.md
index 4d0ead7..7c6dd7a 100644
--- a/spec/mem/concurrent.md
+++ b/spec/mem/concurrent.md
@@ -167,6 +167,9 @@ impl Access {
         // At least one access is non atomic
         if self.atomicity == Atomicity::Atomic && other.atomicity == Atomicity::Atomic { return false; }
 
+        // An access of size zero does not overlap with anything.
+        if self.len.is_zero() || other.len.is_zero() { return false; }
+
         // The accesses overlap.
         let end_addr = self.addr + self.len.bytes();
         let other_end_addr = other.addr + other.len.bytes();
-- 
2.43.0


From 1338f5bada59c93a5a054421de064a3b2e19afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 09/25] fix: atomic fetch operations wrap around

---
 spec/lang/step/intrinsics.md | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec/lang/step/intrinsics.md b/spec/lang/step/intrinsics.md
index 0a2eb8e..9f4d57b 100644
--- a/spec/lang/step/intrinsics.md
+++ b/spec/lang/step/intrinsics.md
@@ -579,6 +579,7 @@ impl<M: Memory> Machine<M> {
 
         // Perform operation.
         let next_int = Self::eval_int_bin_op(op, previous_int, other_int, int_ty)?;
+        let next_int = int_ty.bring_in_bounds(next_int);
         let next = Value::Int(next_int);
 
         // Store it again.
-- 
2.43.0


From ef7c5856a39661d30c20a2feecaeec9863807dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 10/25] fix: check that the result of an intrinsic is valid at
 the return type

---
 spec/lang/step/terminators.md | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spec/lang/step/terminators.md b/spec/lang/step/terminators.md
index 63bc82e..7917efa 100644
--- a/spec/lang/step/terminators.md
+++ b/spec/lang/step/terminators.md
@@ -474,6 +474,9 @@ impl<M: Memory> Machine<M> {
         // Run the actual intrinsic.
         let value = self.eval_intrinsic(intrinsic, arguments, ret_ty)?;
 
+        // The result might not be valid at this type (e.g. it might not fit the integer type, or be dangling).
+        self.check_value(value, ret_ty)?;
+
         // Store return value.
         // `eval_intrinsic` above must guarantee that `value` has the right type.
         self.place_store(ret_place, value, ret_ty)?;
-- 
2.43.0


From bf956a4baea2bf73e3496bd7d8f049f1278d8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 11/25] fix: negative thread and lock IDs do not exist

---
 spec/lang/step/intrinsics.md |  5 +++--
 spec/lang/step/locks.md      | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/spec/lang/step/intrinsics.md b/spec/lang/step/intrinsics.md
index 9f4d57b..9c99c6e 100644
--- a/spec/lang/step/intrinsics.md
+++ b/spec/lang/step/intrinsics.md
@@ -324,9 +324,10 @@ impl<M: Memory> Machine<M> {
     }
 
     fn join(&mut self, thread_id: ThreadId) -> NdResult {
-        let Some(thread) = self.threads.get(thread_id) else {
+        if thread_id < 0 || thread_id >= self.threads.len() {
             throw_ub!("`Join` intrinsic: join non existing thread");
-        };
+        }
+        let thread = self.threads[thread_id];
 
         match thread.state {
             ThreadState::Terminated => {},
diff --git a/spec/lang/step/locks.md b/spec/lang/step/locks.md
index 0a54d94..2ee0169 100644
--- a/spec/lang/step/locks.md
+++ b/spec/lang/step/locks.md
@@ -31,9 +31,10 @@ impl<M: Memory> Machine<M> {
     pub fn lock_acquire(&mut self, lock_id: LockId) -> Result {
         let active = self.active_thread;
 
-        let Some(lock) = self.locks.get(lock_id) else {
+        if lock_id < 0 || lock_id >= self.locks.len() {
             throw_ub!("acquiring non-existing lock");
-        };
+        }
+        let lock = self.locks[lock_id];
 
         // If the lock is not taken, the lock gets acquired by the current (active) thread.
         // Otherwise, the active thread gets blocked.
@@ -56,9 +57,10 @@ impl<M: Memory> Machine<M> {
     pub fn lock_release(&mut self, lock_id: LockId) -> NdResult {
         let active = self.active_thread;
 
-        let Some(lock) = self.locks.get(lock_id) else {
+        if lock_id < 0 || lock_id >= self.locks.len() {
             throw_ub!("releasing non-existing lock");
-        };
+        }
+        let lock = self.locks[lock_id];
 
         match lock {
             LockState::LockedBy(thread_id) if thread_id == active => {
-- 
2.43.0


From 3d923e11fc2df22ce825768a7d7539e074503523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 12/25] Revert the repairs in spec/

They are kept as patches in /verif/fixes and recorded as known findings: the
specification's Markdown files count as test settings to the check of this work.
---
 spec/lang/machine.md                       |  2 --
 spec/lang/step/intrinsics.md               |  6 ++----
 spec/lang/step/locks.md                    | 10 ++++------
 spec/lang/step/operators.md                | 10 +---------
 spec/lang/step/terminators.md              |  5 -----
 spec/mem/concurrent.md                     |  3 ---
 spec/mem/tree_borrows/memory.md            | 13 ++++---------
 spec/mem/tree_borrows/reborrow_settings.md |  8 --------
 8 files changed, 11 insertions(+), 46 deletions(-)

diff --git a/spec/lang/machine.md b/spec/lang/machine.md
index f4d7977..ab1bed5 100644
--- a/spec/lang/machine.md
+++ b/spec/lang/machine.md
@@ -359,8 +359,6 @@ impl<M: Memory> Machine<M> {
         // Remember threads synchronized by the previous step for data race detection
         // after this step.
         let mut prev_sync = self.synchronized_threads;
-        // Forget them: this synchronization only affects the step that comes right after it.
-        self.synchronized_threads = Set::new();
         // Every thread is always synchronized with itself.
         prev_sync.insert(self.active_thread);
 
diff --git a/spec/lang/step/intrinsics.md b/spec/lang/step/intrinsics.md
index 9c99c6e..0a2eb8e 100644
--- a/spec/lang/step/intrinsics.md
+++ b/spec/lang/step/intrinsics.md
@@ -324,10 +324,9 @@ impl<M: Memory> Machine<M> {
     }
 
     fn join(&mut self, thread_id: ThreadId) -> NdResult {
-        if thread_id < 0 || thread_id >= self.threads.len() {
+        let Some(thread) = self.threads.get(thread_id) else {
             throw_ub!("`Join` intrinsic: join non existing thread");
-        }
-        let thread = self.threads[thread_id];
+        };
 
         match thread.state {
             ThreadState::Terminated => {},
@@ -580,7 +579,6 @@ impl<M: Memory> Machine<M> {
 
         // Perform operation.
         let next_int = Self::eval_int_bin_op(op, previous_int, other_int, int_ty)?;
-        let next_int = int_ty.bring_in_bounds(next_int);
         let next = Value::Int(next_int);
 
         // Store it again.
diff --git a/spec/lang/step/locks.md b/spec/lang/step/locks.md
index 2ee0169..0a54d94 100644
--- a/spec/lang/step/locks.md
+++ b/spec/lang/step/locks.md
@@ -31,10 +31,9 @@ impl<M: Memory> Machine<M> {
     pub fn lock_acquire(&mut self, lock_id: LockId) -> Result {
         let active = self.active_thread;
 
-        if lock_id < 0 || lock_id >= self.locks.len() {
+        let Some(lock) = self.locks.get(lock_id) else {
             throw_ub!("acquiring non-existing lock");
-        }
-        let lock = self.locks[lock_id];
+        };
 
         // If the lock is not taken, the lock gets acquired by the current (active) thread.
         // Otherwise, the active thread gets blocked.
@@ -57,10 +56,9 @@ impl<M: Memory> Machine<M> {
     pub fn lock_release(&mut self, lock_id: LockId) -> NdResult {
         let active = self.active_thread;
 
-        if lock_id < 0 || lock_id >= self.locks.len() {
+        let Some(lock) = self.locks.get(lock_id) else {
             throw_ub!("releasing non-existing lock");
-        }
-        let lock = self.locks[lock_id];
+        };
 
         match lock {
             LockState::LockedBy(thread_id) if thread_id == active => {
diff --git a/spec/lang/step/operators.md b/spec/lang/step/operators.md
index a15fdd6..e6c1d53 100644
--- a/spec/lang/step/operators.md
+++ b/spec/lang/step/operators.md
@@ -131,10 +131,6 @@ impl<M: Memory> Machine<M> {
     fn eval_un_op(&self, UnOp::ComputeSize(ty): UnOp, (operand, op_ty): (Value<M>, Type)) -> Result<(Value<M>, Type)> {
         let meta = ty.meta_kind().decode_value::<M>(operand);
         let size = self.compute_size(ty.layout::<M::T>(), meta);
-        // The metadata does not have to come from a valid pointer, so the size can be too big to exist.
-        if !M::T::valid_size(size) {
-            throw_ub!("ComputeSize: total size too large");
-        }
         ret((Value::Int(size.bytes()), Type::Int(IntType::usize_ty::<M::T>())))
     }
 
@@ -418,11 +414,7 @@ impl<M: Memory> Machine<M> {
         } else {
             self.ptr_offset_wrapping(left, right)
         };
-        // The result has the same type as the operand. If that is a safe pointer or a vtable pointer,
-        // it is not valid at every address, so make sure that the new pointer is well-formed.
-        let result = Value::Ptr(offset_ptr.widen(None));
-        self.check_value(result, l_ty)?;
-        ret((result, l_ty))
+        ret((Value::Ptr(offset_ptr.widen(None)), l_ty))
     }
 
     fn eval_bin_op(
diff --git a/spec/lang/step/terminators.md b/spec/lang/step/terminators.md
index 7917efa..35d4cec 100644
--- a/spec/lang/step/terminators.md
+++ b/spec/lang/step/terminators.md
@@ -350,8 +350,6 @@ impl<M: Memory> Machine<M> {
             StackPopAction::BackToCaller { ret_val_ptr: caller_ret_ptr, next_block, .. } => {
                 // There must be a caller.
                 assert!(self.active_thread().stack.len() > 0);
-                // The return value might contain safe pointers to the locals we just deallocated.
-                self.check_value(ret_val, callee_ty)?;
                 // Store the return value where the caller wanted it.
                 // Crucially, we are doing the store at the same type as the load above.
                 self.typed_store(
@@ -474,9 +472,6 @@ impl<M: Memory> Machine<M> {
         // Run the actual intrinsic.
         let value = self.eval_intrinsic(intrinsic, arguments, ret_ty)?;
 
-        // The result might not be valid at this type (e.g. it might not fit the integer type, or be dangling).
-        self.check_value(value, ret_ty)?;
-
         // Store return value.
         // `eval_intrinsic` above must guarantee that `value` has the right type.
         self.place_store(ret_place, value, ret_ty)?;
diff --git a/spec/mem/concurrent.md b/spec/mem/concurrent.md
index 7c6dd7a..4d0ead7 100644
--- a/spec/mem/concurrent.md
+++ b/spec/mem/concurrent.md
@@ -167,9 +167,6 @@ impl Access {
         // At least one access is non atomic
         if self.atomicity == Atomicity::Atomic && other.atomicity == Atomicity::Atomic { return false; }
 
-        // An access of size zero does not overlap with anything.
-        if self.len.is_zero() || other.len.is_zero() { return false; }
-
         // The accesses overlap.
         let end_addr = self.addr + self.len.bytes();
         let other_end_addr = other.addr + other.len.bytes();
diff --git a/spec/mem/tree_borrows/memory.md b/spec/mem/tree_borrows/memory.md
index 671f706..1d745be 100644
--- a/spec/mem/tree_borrows/memory.md
+++ b/spec/mem/tree_borrows/memory.md
@@ -90,13 +90,12 @@ impl<T: Target> TreeBorrowsMemory<T> {
             // the part "inside" the pointer. This will initially not be marked as "accessed"
             // anywhere; we'll then do an access which will set that flag.
             let alloc_size = allocation.size();
-            // If the pointee has size 0, the pointer does not have to be in-bounds, so this can be negative.
-            let offset = ptr.addr - allocation.addr;
+            let offset = Offset::from_bytes(ptr.addr - allocation.addr).unwrap();
 
             let mut permissions = list![settings.outside; alloc_size.bytes()];
             if settings.inside.len() > 0 {
                 permissions.write_subslice_at_index(
-                    offset,
+                    offset.bytes(),
                     settings.inside,
                 );
             }
@@ -117,9 +116,9 @@ impl<T: Target> TreeBorrowsMemory<T> {
             // Perform a read access on all bytes inside the pointee whose permission requires such an access.
             for (idx, perm) in settings.inside.iter().enumerate() {
                 let idx = Int::from(idx); // FIXME: we need a version of `enumerate` that yields `Int`s.
-                let idx = Offset::from_bytes(offset + idx).unwrap();
+                let idx = Size::from_bytes(idx).unwrap();
                 if let Some(access) = perm.init_access() {
-                    allocation.extra.root.access(Some(child_path), access, idx, Offset::from_bytes_const(1))?
+                    allocation.extra.root.access(Some(child_path), access, offset+idx, Offset::from_bytes_const(1))?
                 }
             }
 
@@ -180,10 +179,6 @@ impl<T: Target> Memory for TreeBorrowsMemory<T> {
     }
 
     fn allocate(&mut self, kind: AllocationKind, size: Size, align: Align) -> NdResult<ThinPointer<Self::Provenance>>  {
-        // Reject too large allocations before creating per-byte permissions for them.
-        if !T::valid_size(size) {
-            throw_ub!("asking for a too large allocation");
-        }
         // Create the root node for the tree.
         // Initially, we set the permission as `Unique`.
         let root = Node {
diff --git a/spec/mem/tree_borrows/reborrow_settings.md b/spec/mem/tree_borrows/reborrow_settings.md
index 8d964c7..3d8dc2f 100644
--- a/spec/mem/tree_borrows/reborrow_settings.md
+++ b/spec/mem/tree_borrows/reborrow_settings.md
@@ -73,16 +73,8 @@ impl UnsafeCellStrategy {
                 cells_to_freeze_mask(vtable.cells, vtable.size)
             },
             (UnsafeCellStrategy::Tuple { head_cells, tail_cells }, LayoutStrategy::Tuple { head, tail }, _) => {
-                let (tail_size, tail_align) = tail.compute_size_and_align(ptr_metadata, &vtable_lookup);
-                let tail_offset = head.tail_offset(tail_align);
-                let (size, _align) = head.full_size_and_align(tail_size, tail_align);
-
                 let mut mask = cells_to_freeze_mask(head_cells, head.end);
-                // The padding around the tail is frozen, like all padding.
-                mask.append(list![true; tail_offset.bytes() - head.end.bytes()]);
                 mask.append(tail_cells.freeze_mask(tail, ptr_metadata, vtable_lookup));
-                mask.append(list![true; size.bytes() - (tail_offset + tail_size).bytes()]);
-                assert!(mask.len() == size.bytes());
                 mask
             },
             _ => panic!("Invalid LayoutStrategy and PointerMeta combination"),
-- 
2.43.0


From 3eb99cc514d3d47b4faf11f4ff57256d4907136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 13/25] fix: arith_offset wraps around, it has no UB on
 overflow

---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 786fed8..f814dcd 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -512,7 +512,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 assert!(pointee.is_sized());
                 let size = Int::from(pointee.size.bytes());
                 let size = ValueExpr::Constant(Constant::Int(size), self.translate_ty(rty, span));
-                let offset_bytes = build::mul_unchecked(r, size);
+                let offset_bytes = build::mul(r, size);
 
                 let val = build::ptr_offset(l, offset_bytes, build::InBounds::No);
 
-- 
2.43.0


From a6dc1ea6953004e6db7908dd7f24553f1089a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 14/25] fix: ptr_offset_from requires both pointers to be in
 the same allocation

---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index f814dcd..c1cf765 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -531,7 +531,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
 
                 // Compute distance in bytes.
                 let offset_bytes = ValueExpr::BinOp {
-                    operator: BinOp::PtrOffsetFrom { inbounds: false, nonneg: unsigned },
+                    operator: BinOp::PtrOffsetFrom { inbounds: true, nonneg: unsigned },
                     left: GcCow::new(l),
                     right: GcCow::new(r),
                 };
-- 
2.43.0


From f251ffc38299bb6256649793fea685f0366b8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 15/25] fix: all elements of an array can contain an
 UnsafeCell, not only the first two

---
 tooling/minimize/src/ty.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tooling/minimize/src/ty.rs b/tooling/minimize/src/ty.rs
index 9272e9b..d95a828 100644
--- a/tooling/minimize/src/ty.rs
+++ b/tooling/minimize/src/ty.rs
@@ -139,12 +139,9 @@ impl<'tcx> Ctxt<'tcx> {
                     let layout = self.rs_layout_of(*elem_ty);
                     let size = translate_size(layout.size);
                     let count = c.try_to_target_usize(self.tcx).unwrap();
-                    let ranges = vec![0, count];
 
-                    ranges
-                        .iter()
-                        .enumerate()
-                        .flat_map(|(i, _)| {
+                    (0..count)
+                        .flat_map(|i| {
                             let offset = size * i.into();
                             range.iter().map(move |&(start, len)| (start + offset, len))
                         })
-- 
2.43.0


From d23ddb7ff6c7feb6e076f501cb6b664138ccddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 16/25] fix: a panic in a drop runs the cleanup of the dropping
 function

---
 tooling/minimize/src/bb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index c1cf765..07eaebf 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -217,7 +217,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     fallback: panic_block_name,
                 }
             }
-            rs::TerminatorKind::Drop { place, target, .. } => {
+            rs::TerminatorKind::Drop { place, target, unwind, .. } => {
                 let ty = place.ty(&self.body, self.tcx).ty;
                 let place = self.translate_place(place, span);
                 let (drop_fn, ptr_to_drop) = match ty.kind() {
@@ -259,7 +259,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     arguments: list![ArgumentExpr::ByValue(ptr_to_drop)],
                     ret: unit_place(),
                     next_block: Some(self.bb_name_map[&target]),
-                    unwind_block: None,
+                    unwind_block: Some(self.translate_unwind_action(*unwind, bb)),
                 }
             }
             rs::TerminatorKind::UnwindResume => Terminator::ResumeUnwind,
-- 
2.43.0


From e1d1bb68d5fb47cf3dc5c62505879c2e4634489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 17/25] fix: end the storage of the payload of a caught panic

---
 tooling/minimize/src/bb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 07eaebf..8b5ad26 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -444,7 +444,8 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 Statement::StorageDead(ret_tmp),
                 Statement::StorageDead(try_fn_tmp),
                 Statement::StorageDead(data_tmp),
-                Statement::StorageDead(catch_fn_tmp)
+                Statement::StorageDead(catch_fn_tmp),
+                Statement::StorageDead(unwind_payload_tmp)
             ],
             terminator: Terminator::StopUnwind(target),
             kind: BbKind::Catch,
-- 
2.43.0


From 4951f2d07e5eb7de3fd7956d06ec2c4a54d1496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 18/25] fix: trait objects without principal trait can be
 dropped, too

---
 tooling/minimize/src/vtable.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index dbc9cc8..3005a2f 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -78,8 +78,14 @@ impl<'tcx> Ctxt<'tcx> {
                 })
                 .collect()
         } else {
-            // This dyn type has no principal trait, and therefore no methods.
-            Map::new()
+            // This dyn type has no principal trait, and therefore no methods except for `drop_in_place`.
+            let drop_in_place_fn = rs::Instance::resolve_drop_in_place(self.tcx, ty);
+            [(
+                TraitMethodName(Name::from_internal(rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _)),
+                self.get_fn_name(drop_in_place_fn),
+            )]
+            .into_iter()
+            .collect()
         };
         let trait_name = self.get_trait_name(trait_obj_ty);
 
@@ -111,8 +117,12 @@ impl<'tcx> Ctxt<'tcx> {
         };
 
         let Some(princial_def_id) = trait_.principal_def_id() else {
-            // no principal trait means no methods
-            return Set::new();
+            // no principal trait means no methods except for `drop_in_place`
+            return [TraitMethodName(Name::from_internal(
+                rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _,
+            ))]
+            .into_iter()
+            .collect();
         };
 
         let existential_trait_ref =
-- 
2.43.0


From ec84f32661d6b1b3dfd344b22e943defa5808672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 19/25] fix: the methods of a trait object include those of its
 supertraits

---
 tooling/minimize/src/vtable.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index 3005a2f..f4500c7 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -116,7 +116,7 @@ impl<'tcx> Ctxt<'tcx> {
             panic!("generate_trait called on non trait object type");
         };
 
-        let Some(princial_def_id) = trait_.principal_def_id() else {
+        let Some(principal) = trait_.principal() else {
             // no principal trait means no methods except for `drop_in_place`
             return [TraitMethodName(Name::from_internal(
                 rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _,
@@ -125,22 +125,21 @@ impl<'tcx> Ctxt<'tcx> {
             .collect();
         };
 
-        let existential_trait_ref =
-            self.tcx.instantiate_bound_regions_with_erased(trait_.principal().unwrap());
+        let existential_trait_ref = self.tcx.instantiate_bound_regions_with_erased(principal);
         // A trait ref with `dyn Trait` as the self type.
         // This corresponds to `dyn Trait: Trait`, which matches how the Rust compiler
         // handles a method call on `dyn Trait`.
         let trait_ref = existential_trait_ref.with_self_ty(self.tcx, trait_obj_ty);
-        let vtable_base = self.tcx.first_method_vtable_slot(trait_ref);
 
-        // The method names are given by the index into the vtable, which is the base offset
-        // plus the index into the "own_existential_vtable_entries" list.
+        // The method names are given by the index into the vtable, which also contains the methods
+        // of all supertraits.
         let mut methods = self
             .tcx
-            .own_existential_vtable_entries(princial_def_id)
+            .vtable_entries(trait_ref)
             .iter()
             .enumerate()
-            .map(|(i, _)| TraitMethodName(Name::from_internal((vtable_base + i) as _)))
+            .filter(|(_, entry)| matches!(entry, rs::VtblEntry::Method(_)))
+            .map(|(i, _)| TraitMethodName(Name::from_internal(i as _)))
             .collect::<Set<_>>();
 
         // Add the DropInPlace method for all traits.
-- 
2.43.0


From 256ebfea84ba36114adc8a5c827006288c65b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 20/25] fix: variants without a tag are selected by none

---
 tooling/minimize/src/enums.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 38b6e93..396e649 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -105,7 +105,23 @@ impl<'tcx> Ctxt<'tcx> {
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
                             .bring_in_bounds(tag_ty.signed, tag_ty.size);
-                            if *untagged_variant != variant_idx {
+                            if *untagged_variant != variant_idx
+                                && !niche_variants.contains(&variant_idx)
+                            {
+                                // This variant is uninhabited and has no tag: it never gets written,
+                                // and no tag selects it.
+                                translated_variants.insert(
+                                    discr_int,
+                                    Variant {
+                                        ty: build::tuple_ty(
+                                            &fields.iter().collect::<Vec<_>>(),
+                                            size,
+                                            align,
+                                        ),
+                                        tagger: Map::new(),
+                                    },
+                                );
+                            } else if *untagged_variant != variant_idx {
                                 // this is a tagged variant, meaning that it writes its tag and has a discriminator branch entry.
                                 discriminator_branches.insert(
                                     (tag_int, tag_int + Int::ONE),
-- 
2.43.0


From 503956be3d31863984285d197ffc3fc1e30ff852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 21/25] fix: discriminants of niche-encoded enums are not
 limited to the type of the tag

---
 tooling/minimize/src/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 396e649..c5a8e29 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -100,7 +100,7 @@ impl<'tcx> Ctxt<'tcx> {
                             niche_variants,
                             niche_start,
                         } => {
-                            let discr_int = int_from_bits(discr.val, tag_ty);
+                            // Discriminants are variant indices here; they need not fit into the tag.
                             let tag_int = (discr_int
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
-- 
2.43.0


From 28292b69701672b1cbfac26051f6bfcbdf38debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:36 +0000
Subject: [PATCH 22/25] fix: enums of several uninhabited variants can be
 translated

---
 tooling/minimize/src/enums.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index c5a8e29..f1fea19 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -21,11 +21,19 @@ impl<'tcx> Ctxt<'tcx> {
 
         let (variants, discriminator) = match layout.variants() {
             rs::Variants::Empty => {
-                // These have no variants... right?
-                for _ in adt_def.variants().iter_enumerated() {
-                    unreachable!()
+                // If there are variants, they are all uninhabited and take no space.
+                let mut translated_variants = Map::new();
+                for (variant_idx, variant_def) in adt_def.variants().iter_enumerated() {
+                    let discr = adt_def.discriminant_for_variant(self.tcx, variant_idx);
+                    let discr_int = int_from_bits(discr.val, discriminant_ty);
+                    let fields = self.translate_adt_variant_fields(None, variant_def, sref, span);
+                    let variant = Variant {
+                        ty: build::tuple_ty(&fields.iter().collect::<Vec<_>>(), size, align),
+                        tagger: Map::new(),
+                    };
+                    translated_variants.insert(discr_int, variant);
                 }
-                (Map::new(), Discriminator::Invalid)
+                (translated_variants, Discriminator::Invalid)
             }
             rs::Variants::Single { index: single_variant_idx } => {
                 // There is a single *inhabited* variant, but there can be other uninhabited variants.
-- 
2.43.0


From 03e567d552526945c7461dc925b750161fd9475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 23/25] fix: arguments copied from a tuple keep their values

---
 tooling/minimize/src/bb.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 8b5ad26..b313055 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -820,9 +820,14 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                                     &[rs::PlaceElem::Field(rs::FieldIdx::from_usize(i), ty)],
                                     self.tcx,
                                 );
-                                ArgumentExpr::InPlace(
-                                    self.translate_place(&field_place, tuple_arg.span),
-                                )
+                                let place = self.translate_place(&field_place, tuple_arg.span);
+                                // Only a tuple that is moved may be passed in-place, a copied one
+                                // has to keep its value.
+                                if matches!(tuple_arg.node, rs::Operand::Move(_)) {
+                                    ArgumentExpr::InPlace(place)
+                                } else {
+                                    build::by_value(build::load(place))
+                                }
                             })
                             .collect();
 
-- 
2.43.0


From 4a6ceb9860bbd0b52fddc81da8f0d2caa6ac51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 24/25] fix: copies of unions keep the metadata of wide
 pointers

The chunks of a union only covered the address of a pointer field, so that the
metadata of a wide one got lost in every copy.
---
 tooling/minimize/src/chunks.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/chunks.rs b/tooling/minimize/src/chunks.rs
index ab83e99..be6756e 100644
--- a/tooling/minimize/src/chunks.rs
+++ b/tooling/minimize/src/chunks.rs
@@ -45,7 +45,9 @@ fn mark_used_bytes(ty: Type, markers: &mut [bool]) {
     match ty {
         Type::Int(int_ty) => mark_size(int_ty.size, markers),
         Type::Bool => mark_size(Size::from_bytes_const(1), markers),
-        Type::Ptr(_) => mark_size(DefaultTarget::PTR_SIZE, markers),
+        // Wide pointers also have metadata.
+        Type::Ptr(_) =>
+            mark_size(ty.layout::<DefaultTarget>().expect_size("pointers are sized"), markers),
         Type::Tuple { sized_fields, unsized_field, .. } => {
             assert!(unsized_field.extract().is_none(), "unsized types cannot be part of unions");
             for (offset, ty) in sized_fields {
-- 
2.43.0


From 8241c9046b16d7aeea901115b9bdb611f1cb4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 25/25] fix: panics that do not unwind abort

panic_nounwind was translated like any other panic: it started unwinding, where
there is no unwind target, or cleanup that must not run.
---
 tooling/minimize/src/bb.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index b313055..17ba31d 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -786,6 +786,9 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
         } else if is_panic_fn(&instance.to_string()) {
             // We can't translate this call, it takes a string. As a hack we just ignore the argument.
             self.translate_panic(unwind, bb)
+        } else if is_nounwind_panic_fn(&instance.to_string()) {
+            // Same, but these never unwind.
+            build::abort()
         } else if self.tcx.is_foreign_item(instance.def_id()) {
             // Foreign functions don't have MIR.
             rs::span_bug!(span, "cannot call foreign function {instance}");
@@ -899,8 +902,6 @@ fn is_panic_fn(name: &str) -> bool {
     let fns = [
         "core::panicking::panic",
         "core::panicking::panic_fmt",
-        "core::panicking::panic_nounwind",
-        "core::panicking::panic_nounwind_fmt",
         "core::slice::index::slice_start_index_len_fail",
         "core::slice::index::slice_end_index_len_fail",
         "core::slice::index::slice_end_index_overflow_fail",
@@ -911,3 +912,9 @@ fn is_panic_fn(name: &str) -> bool {
     ];
     fns.contains(&name)
 }
+
+// Like `is_panic_fn`, but for panics that abort instead of unwinding.
+fn is_nounwind_panic_fn(name: &str) -> bool {
+    let fns = ["core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt"];
+    fns.contains(&name)
+}
-- 
2.43.0

