From ad4d4481a41bee53ad39078466b25ab7e4ba6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 01/22] fix: keep the metadata of wide pointers inside unions

---
 tooling/minimize/src/chunks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/chunks.rs b/tooling/minimize/src/chunks.rs
index ab83e99..a9a1a38 100644
--- a/tooling/minimize/src/chunks.rs
+++ b/tooling/minimize/src/chunks.rs
@@ -45,7 +45,11 @@ fn mark_used_bytes(ty: Type, markers: &mut [bool]) {
     match ty {
         Type::Int(int_ty) => mark_size(int_ty.size, markers),
         Type::Bool => mark_size(Size::from_bytes_const(1), markers),
-        Type::Ptr(_) => mark_size(DefaultTarget::PTR_SIZE, markers),
+        // Use the layout rather than `PTR_SIZE`, since wide pointers also contain metadata.
+        Type::Ptr(ptr_ty) => {
+            let layout = Type::Ptr(ptr_ty).layout::<DefaultTarget>();
+            mark_size(layout.expect_size("pointers are sized"), markers)
+        }
         Type::Tuple { sized_fields, unsized_field, .. } => {
             assert!(unsized_field.extract().is_none(), "unsized types cannot be part of unions");
             for (offset, ty) in sized_fields {
-- 
2.43.0


From 1a7cdda1e9b510f33677503a1810bdb47d40a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 02/22] fix: compute the UnsafeCell ranges of arrays for all
 elements

---
 tooling/minimize/src/ty.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tooling/minimize/src/ty.rs b/tooling/minimize/src/ty.rs
index 9272e9b..d95a828 100644
--- a/tooling/minimize/src/ty.rs
+++ b/tooling/minimize/src/ty.rs
@@ -139,12 +139,9 @@ impl<'tcx> Ctxt<'tcx> {
                     let layout = self.rs_layout_of(*elem_ty);
                     let size = translate_size(layout.size);
                     let count = c.try_to_target_usize(self.tcx).unwrap();
-                    let ranges = vec![0, count];
 
-                    ranges
-                        .iter()
-                        .enumerate()
-                        .flat_map(|(i, _)| {
+                    (0..count)
+                        .flat_map(|i| {
                             let offset = size * i.into();
                             range.iter().map(move |&(start, len)| (start + offset, len))
                         })
-- 
2.43.0


From fde4c280cdd28d53bcbdea71048efc92da173822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 03/22] fix: support references to types containing pattern
 types

---
 tooling/minimize/src/ty.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tooling/minimize/src/ty.rs b/tooling/minimize/src/ty.rs
index d95a828..d3bc625 100644
--- a/tooling/minimize/src/ty.rs
+++ b/tooling/minimize/src/ty.rs
@@ -108,6 +108,8 @@ impl<'tcx> Ctxt<'tcx> {
             rs::TyKind::FnPtr(..) => Vec::new(),
             rs::TyKind::FnDef(..) => Vec::new(),
             rs::TyKind::Never => Vec::new(),
+            // A pattern type has the same representation as its base type.
+            rs::TyKind::Pat(inner, _pat) => self.cells_in_sized_ty(*inner, span),
             rs::TyKind::Tuple(..) => {
                 let layout = self.rs_layout_of(ty);
                 self.cells_from_layout(layout, span)
-- 
2.43.0


From fcd7d25b587819c6c8c05a2e5d618182c4a75484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 04/22] fix: let panics in drop glue unwind

---
 tooling/minimize/src/bb.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 786fed8..d6eece1 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -217,7 +217,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     fallback: panic_block_name,
                 }
             }
-            rs::TerminatorKind::Drop { place, target, .. } => {
+            rs::TerminatorKind::Drop { place, target, unwind, .. } => {
                 let ty = place.ty(&self.body, self.tcx).ty;
                 let place = self.translate_place(place, span);
                 let (drop_fn, ptr_to_drop) = match ty.kind() {
@@ -253,13 +253,15 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     }
                 };
 
+                let unwind_block = Some(self.translate_unwind_action(*unwind, bb));
+
                 Terminator::Call {
                     callee: drop_fn,
                     calling_convention: CallingConvention::Rust,
                     arguments: list![ArgumentExpr::ByValue(ptr_to_drop)],
                     ret: unit_place(),
                     next_block: Some(self.bb_name_map[&target]),
-                    unwind_block: None,
+                    unwind_block,
                 }
             }
             rs::TerminatorKind::UnwindResume => Terminator::ResumeUnwind,
-- 
2.43.0


From a98ce48417d4eb1385d308e3f3ae272fdcba9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:11 +0000
Subject: [PATCH 05/22] fix: do not give uninhabited variants outside the niche
 range a tag

---
 tooling/minimize/src/enums.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 38b6e93..fcdb2e4 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -105,7 +105,9 @@ impl<'tcx> Ctxt<'tcx> {
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
                             .bring_in_bounds(tag_ty.signed, tag_ty.size);
-                            if *untagged_variant != variant_idx {
+                            if *untagged_variant != variant_idx
+                                && niche_variants.contains(&variant_idx)
+                            {
                                 // this is a tagged variant, meaning that it writes its tag and has a discriminator branch entry.
                                 discriminator_branches.insert(
                                     (tag_int, tag_int + Int::ONE),
@@ -126,7 +128,8 @@ impl<'tcx> Ctxt<'tcx> {
                                     },
                                 );
                             } else {
-                                // this is the untagged variant
+                                // this is the untagged variant, or an uninhabited variant outside the
+                                // niche range, for which there is no tag
                                 translated_variants.insert(
                                     discr_int,
                                     Variant {
-- 
2.43.0


From 7e9a9c4dc59320ed355b7656e2691a029be2cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 06/22] fix: interpret discriminants of niche-encoded enums in
 the discriminant type

---
 tooling/minimize/src/enums.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index fcdb2e4..eaa7496 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -100,7 +100,6 @@ impl<'tcx> Ctxt<'tcx> {
                             niche_variants,
                             niche_start,
                         } => {
-                            let discr_int = int_from_bits(discr.val, tag_ty);
                             let tag_int = (discr_int
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
-- 
2.43.0


From 3326ac0ffd2b50868505e8af30b84afd177d3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 07/22] fix: include supertrait methods in the trait of a trait
 object

---
 tooling/minimize/src/vtable.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index dbc9cc8..ef25a94 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -110,27 +110,28 @@ impl<'tcx> Ctxt<'tcx> {
             panic!("generate_trait called on non trait object type");
         };
 
-        let Some(princial_def_id) = trait_.principal_def_id() else {
+        let Some(principal) = trait_.principal() else {
             // no principal trait means no methods
             return Set::new();
         };
 
-        let existential_trait_ref =
-            self.tcx.instantiate_bound_regions_with_erased(trait_.principal().unwrap());
         // A trait ref with `dyn Trait` as the self type.
         // This corresponds to `dyn Trait: Trait`, which matches how the Rust compiler
         // handles a method call on `dyn Trait`.
-        let trait_ref = existential_trait_ref.with_self_ty(self.tcx, trait_obj_ty);
-        let vtable_base = self.tcx.first_method_vtable_slot(trait_ref);
+        let trait_ref = principal.with_self_ty(self.tcx, trait_obj_ty);
+        let trait_ref = self
+            .tcx
+            .erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(trait_ref));
 
-        // The method names are given by the index into the vtable, which is the base offset
-        // plus the index into the "own_existential_vtable_entries" list.
+        // The method names are given by the index into the vtable.
+        // This includes the methods of the supertraits.
         let mut methods = self
             .tcx
-            .own_existential_vtable_entries(princial_def_id)
+            .vtable_entries(trait_ref)
             .iter()
             .enumerate()
-            .map(|(i, _)| TraitMethodName(Name::from_internal((vtable_base + i) as _)))
+            .filter(|(_, entry)| matches!(entry, rs::VtblEntry::Method(_)))
+            .map(|(idx, _)| TraitMethodName(Name::from_internal(idx as _)))
             .collect::<Set<_>>();
 
         // Add the DropInPlace method for all traits.
-- 
2.43.0


From 9858ff022d98494fc32229a6f2e0fd4ee3858071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 08/22] fix: detect ptr_offset_from across allocations

---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index d6eece1..9d3c6f9 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -533,7 +533,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
 
                 // Compute distance in bytes.
                 let offset_bytes = ValueExpr::BinOp {
-                    operator: BinOp::PtrOffsetFrom { inbounds: false, nonneg: unsigned },
+                    operator: BinOp::PtrOffsetFrom { inbounds: true, nonneg: unsigned },
                     left: GcCow::new(l),
                     right: GcCow::new(r),
                 };
-- 
2.43.0


From 691983ab6eb740af04fb083da7393fa5f1a14b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 09/22] fix: close the parentheses of unary operators in the
 pretty-printer

---
 tooling/miniutil/src/pretty/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/miniutil/src/pretty/expr.rs b/tooling/miniutil/src/pretty/expr.rs
index e308da2..45e2ecb 100644
--- a/tooling/miniutil/src/pretty/expr.rs
+++ b/tooling/miniutil/src/pretty/expr.rs
@@ -142,9 +142,9 @@ pub(super) fn fmt_value_expr(v: ValueExpr, comptypes: &mut Vec<CompType>) -> Fmt
             let operand = fmt_value_expr(operand.extract(), comptypes).to_string();
             match operator {
                 UnOp::Int(IntUnOp::Neg) => FmtExpr::NonAtomic(format!("-({operand})")),
-                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand}")),
+                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand})")),
                 UnOp::Int(IntUnOp::CountOnes) =>
-                    FmtExpr::NonAtomic(format!("count_ones({operand}")),
+                    FmtExpr::NonAtomic(format!("count_ones({operand})")),
                 UnOp::Cast(CastOp::IntToInt(int_ty)) => {
                     let int_ty = fmt_int_type(int_ty);
                     FmtExpr::Atomic(format!("int2int<{int_ty}>({operand})"))
-- 
2.43.0


From 3ade871442430a4d4cd1b0c12538010954ab2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 10/22] fix: print StopUnwind as such

---
 tooling/miniutil/src/pretty/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/miniutil/src/pretty/function.rs b/tooling/miniutil/src/pretty/function.rs
index 3e56613..5980ec7 100644
--- a/tooling/miniutil/src/pretty/function.rs
+++ b/tooling/miniutil/src/pretty/function.rs
@@ -226,7 +226,7 @@ fn fmt_terminator(t: Terminator, comptypes: &mut Vec<CompType>) -> String {
         }
         Terminator::StopUnwind(block_name) => {
             let bb_name = fmt_bb_name(block_name);
-            format!("    start unwind -> unwind: {bb_name} ")
+            format!("    stop unwind -> {bb_name}")
         }
         Terminator::ResumeUnwind => {
             format!("    resume")
-- 
2.43.0


From d65a4133f760a00739a6f1cd371f5f00dafae819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 11/22] fix: print AddrOf for all pointer types

---
 tooling/miniutil/src/pretty/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tooling/miniutil/src/pretty/expr.rs b/tooling/miniutil/src/pretty/expr.rs
index 45e2ecb..58e5994 100644
--- a/tooling/miniutil/src/pretty/expr.rs
+++ b/tooling/miniutil/src/pretty/expr.rs
@@ -135,8 +135,11 @@ pub(super) fn fmt_value_expr(v: ValueExpr, comptypes: &mut Vec<CompType>) -> Fmt
             };
             FmtExpr::NonAtomic(format!("&{mutbl}{target}"))
         }
-        ValueExpr::AddrOf { target: _, ptr_ty: _ } => {
-            panic!("unsupported ptr_ty for AddrOr!")
+        ValueExpr::AddrOf { target, ptr_ty } => {
+            let target = target.extract();
+            let target = fmt_place_expr(target, comptypes).to_string();
+            let ptr_ty = fmt_ptr_type(ptr_ty).to_string();
+            FmtExpr::Atomic(format!("addr_of<{ptr_ty}>({target})"))
         }
         ValueExpr::UnOp { operator, operand } => {
             let operand = fmt_value_expr(operand.extract(), comptypes).to_string();
-- 
2.43.0


From 8b23a913ef60afc667962d91c8f4d459bc5f52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 12/22] fix: do not block spawn while joining in the native
 intrinsics

---
 tooling/minimize/intrinsics/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/intrinsics/src/lib.rs b/tooling/minimize/intrinsics/src/lib.rs
index 92ff8d2..aa007db 100644
--- a/tooling/minimize/intrinsics/src/lib.rs
+++ b/tooling/minimize/intrinsics/src/lib.rs
@@ -63,8 +63,8 @@ pub fn spawn(fn_ptr: extern "C" fn(*const ()), data_ptr: *const ()) -> usize {
 // Here a thread can only be joined once, while in MiniRust
 // a single thread can be joined many times.
 pub fn join(thread_id: usize) {
-    let mut join_handles = JOIN_HANDLES.lock().unwrap();
-    let handle = join_handles[thread_id].take().unwrap();
+    // Do not hold the lock while we wait: the thread we are waiting for may itself spawn or join.
+    let handle = JOIN_HANDLES.lock().unwrap()[thread_id].take().unwrap();
     handle.join().unwrap();
 }
 
-- 
2.43.0


From 203110d9dcbc73581b887fafdb785f37665e9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 13/22] fix: lost wake-ups of the native locks

---
 tooling/minimize/intrinsics/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/intrinsics/src/lib.rs b/tooling/minimize/intrinsics/src/lib.rs
index aa007db..15f0505 100644
--- a/tooling/minimize/intrinsics/src/lib.rs
+++ b/tooling/minimize/intrinsics/src/lib.rs
@@ -103,8 +103,9 @@ pub fn acquire(lock_id: usize) {
             return;
         }
 
-        drop(locks);
+        // Register before giving up `LOCKS`, so that whoever opens the lock finds us in `WAITING`.
         WAITING.lock().unwrap().push(thread::current());
+        drop(locks);
         // In principle another thread could call `unpark` here, before we
         // `park` ourselves. However, in that case the next `park` of this thread
         // is guaranteed to return immediately.
-- 
2.43.0


From 810758a0c601d4e21d3bc5906e64ba3213ba20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 14/22] fix: let wrapping pointer offsets overflow

---
 tooling/minimize/src/bb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 9d3c6f9..d944afa 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -514,7 +514,8 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 assert!(pointee.is_sized());
                 let size = Int::from(pointee.size.bytes());
                 let size = ValueExpr::Constant(Constant::Int(size), self.translate_ty(rty, span));
-                let offset_bytes = build::mul_unchecked(r, size);
+                // `arith_offset` is the wrapping variant: overflow is allowed here.
+                let offset_bytes = build::mul(r, size);
 
                 let val = build::ptr_offset(l, offset_bytes, build::InBounds::No);
 
-- 
2.43.0


From fb4e351b2392fe162968a9ee3a06b35da837edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 15/22] fix: respect disabled overflow checks in functions that
 inherit them

Functions with rustc_inherit_overflow_checks, such as i32::abs, contain the
overflow assertions in their MIR in any case; code generation skips them when
overflow checks are disabled. So i16::MIN.abs() panicked with
-Coverflow-checks=off, where it must wrap.
---
 tooling/minimize/src/bb.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index d944afa..f656f7b 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -194,6 +194,13 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 Terminator::Switch { value, cases, fallback }
             }
             rs::TerminatorKind::Unreachable => Terminator::Unreachable,
+            rs::TerminatorKind::Assert { msg, target, .. }
+                if !self.tcx.sess.overflow_checks() && msg.is_optional_overflow_check() =>
+            {
+                // Functions that inherit the overflow checks (such as `abs`) always contain them,
+                // even if they are disabled for this session.
+                Terminator::Goto(self.bb_name_map[target])
+            }
             rs::TerminatorKind::Assert { cond, expected, target, unwind, .. } => {
                 let mut condition = self.translate_operand(cond, span);
                 // Check equality of `condition` and `expected`.
-- 
2.43.0


From 1841f5107f899bee4e74b3bdf7a7cf556dbabad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 16/22] fix: pass the arguments of rust-call functions by copy
 where they are copied

The tuple of a rust-call was always spread in place; copied tuples and
constants are now evaluated like other arguments, and the tuple is spread
for function pointers as well.
---
 tooling/minimize/src/bb.rs | 121 +++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 66 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index f656f7b..c1ebbc7 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -703,6 +703,59 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
         }
     }
 
+    /// Translates the arguments of a call to a function with the given ABI:
+    /// for the "rust-call" ABI, the last argument is a tuple that gets spread.
+    fn translate_args(
+        &mut self,
+        rs_args: &[rs::Spanned<rs::Operand<'tcx>>],
+        abi: rustc_abi::ExternAbi,
+    ) -> List<ArgumentExpr> {
+        let (tuple_arg, args) = match rs_args.split_last() {
+            Some((last, rest)) if abi == rustc_abi::ExternAbi::RustCall => (Some(last), rest),
+            _ => (None, rs_args),
+        };
+        let mut args: List<ArgumentExpr> = args
+            .iter()
+            .map(|x| {
+                match &x.node {
+                    rs::Operand::Move(place) =>
+                        ArgumentExpr::InPlace(self.translate_place(&place, x.span)),
+                    op => ArgumentExpr::ByValue(self.translate_operand(op, x.span)),
+                }
+            })
+            .collect();
+        let Some(tuple_arg) = tuple_arg else { return args };
+
+        let tuple_ty = tuple_arg.node.ty(&self.body, self.tcx);
+        let rs::TyKind::Tuple(tuple_tys) = tuple_ty.kind() else {
+            panic!("Expected tuple for rust-call last argument");
+        };
+        match &tuple_arg.node {
+            rs::Operand::Move(tuple_place) | rs::Operand::Copy(tuple_place) =>
+                for (i, ty) in tuple_tys.iter().enumerate() {
+                    let field_place = tuple_place.project_deeper(
+                        &[rs::PlaceElem::Field(rs::FieldIdx::from_usize(i), ty)],
+                        self.tcx,
+                    );
+                    let field_place = self.translate_place(&field_place, tuple_arg.span);
+                    args.push(match &tuple_arg.node {
+                        rs::Operand::Move(_) => ArgumentExpr::InPlace(field_place),
+                        // A copied tuple can still be used, so its fields must not be passed in-place.
+                        _ => build::by_value(build::load(field_place)),
+                    });
+                },
+            op => {
+                let ValueExpr::Tuple(fields, _) = self.translate_operand(op, tuple_arg.span) else {
+                    panic!("Expected tuple value for constant rust-call tuple argument");
+                };
+                for field in fields.iter() {
+                    args.push(ArgumentExpr::ByValue(field));
+                }
+            }
+        }
+        args
+    }
+
     fn translate_call(
         &mut self,
         func: &rs::Operand<'tcx>,
@@ -726,18 +779,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 let abi = self.fn_abi_of_fn_ptr(signature, rs::List::empty());
                 let conv = translate_calling_convention(abi.conv);
 
-                // FIXME: deduplicate this with the argument handling below. In particular,
-                // technically we also need the tuple argument handling here...
-                let args: List<_> = rs_args
-                    .iter()
-                    .map(|x| {
-                        match &x.node {
-                            rs::Operand::Move(place) =>
-                                ArgumentExpr::InPlace(self.translate_place(&place, x.span)),
-                            op => ArgumentExpr::ByValue(self.translate_operand(op, x.span)),
-                        }
-                    })
-                    .collect();
+                let args = self.translate_args(rs_args, fn_ty.fn_sig(self.tcx).abi());
 
                 let unwind_block = Some(self.translate_unwind_action(unwind, bb));
 
@@ -807,60 +849,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
             let conv = translate_calling_convention(abi.conv);
 
             let fn_sig = fn_ty.fn_sig(self.tcx);
-            let mut args: List<ArgumentExpr> = if fn_sig.abi() == rustc_abi::ExternAbi::RustCall
-                && !rs_args.is_empty()
-            {
-                // Untuple the last argument
-                let (tuple_arg, other_args) = rs_args.split_last().unwrap();
-
-                match &tuple_arg.node {
-                    rs::Operand::Move(tuple_place) | rs::Operand::Copy(tuple_place) => {
-                        let tuple_ty = tuple_arg.node.ty(&self.body, self.tcx);
-
-                        let rs::TyKind::Tuple(tuple_tys) = tuple_ty.kind() else {
-                            panic!("Expected tuple for rust-call last argument");
-                        };
-
-                        let tuple_args: Vec<_> = tuple_tys
-                            .iter()
-                            .enumerate()
-                            .map(|(i, ty)| {
-                                let field_place = tuple_place.project_deeper(
-                                    &[rs::PlaceElem::Field(rs::FieldIdx::from_usize(i), ty)],
-                                    self.tcx,
-                                );
-                                ArgumentExpr::InPlace(
-                                    self.translate_place(&field_place, tuple_arg.span),
-                                )
-                            })
-                            .collect();
-
-                        other_args
-                            .iter()
-                            .map(|x| {
-                                match &x.node {
-                                    rs::Operand::Move(place) =>
-                                        ArgumentExpr::InPlace(self.translate_place(&place, x.span)),
-                                    op => ArgumentExpr::ByValue(self.translate_operand(op, x.span)),
-                                }
-                            })
-                            .chain(tuple_args)
-                            .collect()
-                    }
-                    _ => panic!("Expected Move or Copy operand for rust-call tuple argument"),
-                }
-            } else {
-                rs_args
-                    .iter()
-                    .map(|x| {
-                        match &x.node {
-                            rs::Operand::Move(place) =>
-                                ArgumentExpr::InPlace(self.translate_place(&place, x.span)),
-                            op => ArgumentExpr::ByValue(self.translate_operand(op, x.span)),
-                        }
-                    })
-                    .collect()
-            };
+            let mut args = self.translate_args(rs_args, fn_sig.abi());
 
             let unwind_block = Some(self.translate_unwind_action(unwind, bb));
 
-- 
2.43.0


From 38855d24b59f66c10b8df7ab49f6171499a867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 17/22] fix: let trait objects without principal trait be
 dropped

---
 tooling/minimize/src/vtable.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index ef25a94..65cb7ca 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -78,8 +78,9 @@ impl<'tcx> Ctxt<'tcx> {
                 })
                 .collect()
         } else {
-            // This dyn type has no principal trait, and therefore no methods.
-            Map::new()
+            // This dyn type has no principal trait, and therefore no methods (but it can be dropped).
+            let drop_in_place_fn = rs::Instance::resolve_drop_in_place(self.tcx, ty);
+            [(drop_method_name(), self.get_fn_name(drop_in_place_fn))].into_iter().collect()
         };
         let trait_name = self.get_trait_name(trait_obj_ty);
 
@@ -111,8 +112,8 @@ impl<'tcx> Ctxt<'tcx> {
         };
 
         let Some(principal) = trait_.principal() else {
-            // no principal trait means no methods
-            return Set::new();
+            // no principal trait means no methods, except for DropInPlace
+            return [drop_method_name()].into_iter().collect();
         };
 
         // A trait ref with `dyn Trait` as the self type.
@@ -142,3 +143,8 @@ impl<'tcx> Ctxt<'tcx> {
         methods
     }
 }
+
+/// The name of the DropInPlace method, which exists for all traits.
+fn drop_method_name() -> TraitMethodName {
+    TraitMethodName(Name::from_internal(rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _))
+}
-- 
2.43.0


From 53bb090a175dc2858d093e16b9b61681169a4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 18/22] fix: keep vtables and traits in agreement about their
 methods

A method with an auto trait among its where clauses was in the vtables
but not in the trait, and the program was ill-formed.
---
 tooling/minimize/src/vtable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index 65cb7ca..4003e17 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -46,7 +46,7 @@ impl<'tcx> Ctxt<'tcx> {
         let cells = cells.into_iter().collect::<List<(Offset, Size)>>();
 
         // Get the methods of the principal trait, create a method name wrapping the index in its vtable.
-        let methods = if let Some(trait_) = trait_.principal() {
+        let methods: Map<_, _> = if let Some(trait_) = trait_.principal() {
             let trait_ref = trait_.with_self_ty(self.tcx, ty);
             let trait_ref = self.tcx.erase_and_anonymize_regions(
                 self.tcx.instantiate_bound_regions_with_erased(trait_ref),
@@ -84,6 +84,10 @@ impl<'tcx> Ctxt<'tcx> {
         };
         let trait_name = self.get_trait_name(trait_obj_ty);
 
+        // A method with a `where` clause on an auto trait can exist for this type but not for the trait object.
+        let trait_methods = self.traits.get(trait_name).unwrap();
+        let methods = methods.iter().filter(|(name, _)| trait_methods.contains(*name)).collect();
+
         VTable { trait_name, size, align, cells, methods }
     }
 
-- 
2.43.0


From 87373b6e642ca9652fb74bf7153688527ac5e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:32 +0000
Subject: [PATCH 19/22] fix: translate enums all of whose variants are absent

Such as Result<Infallible, V> for an uninhabited V, which occurs when
the ? operator is used on errors that cannot happen.
---
 tooling/minimize/src/enums.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index eaa7496..1a73e07 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -21,11 +21,19 @@ impl<'tcx> Ctxt<'tcx> {
 
         let (variants, discriminator) = match layout.variants() {
             rs::Variants::Empty => {
-                // These have no variants... right?
-                for _ in adt_def.variants().iter_enumerated() {
-                    unreachable!()
+                // All variants (if there are any) are absent: they are uninhabited and zero-sized.
+                let mut translated_variants = Map::new();
+                for (variant_idx, variant_def) in adt_def.variants().iter_enumerated() {
+                    let discr = adt_def.discriminant_for_variant(self.tcx, variant_idx);
+                    let discr_int = int_from_bits(discr.val, discriminant_ty);
+                    let fields = self.translate_adt_variant_fields(None, variant_def, sref, span);
+                    let variant = Variant {
+                        ty: build::tuple_ty(&fields.iter().collect::<Vec<_>>(), size, align),
+                        tagger: Map::new(),
+                    };
+                    translated_variants.insert(discr_int, variant);
                 }
-                (Map::new(), Discriminator::Invalid)
+                (translated_variants, Discriminator::Invalid)
             }
             rs::Variants::Single { index: single_variant_idx } => {
                 // There is a single *inhabited* variant, but there can be other uninhabited variants.
-- 
2.43.0


From e9da1124b8ea4e655a7e45246b0699d11458ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:24 +0000
Subject: [PATCH 20/22] fix: let methods of trait objects become function
 pointers

---
 tooling/minimize/src/rvalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/rvalue.rs b/tooling/minimize/src/rvalue.rs
index 4034fa9..6f09d63 100644
--- a/tooling/minimize/src/rvalue.rs
+++ b/tooling/minimize/src/rvalue.rs
@@ -339,7 +339,8 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                         else {
                             panic!()
                         };
-                        let instance = smir::Instance::resolve(f, &substs_ref).unwrap();
+                        // Methods of trait objects need a shim that does the dynamic dispatch.
+                        let instance = smir::Instance::resolve_for_fn_ptr(f, &substs_ref).unwrap();
 
                         build::fn_ptr_internal(self.cx.get_fn_name_smir(instance).0.get_internal())
                     }
-- 
2.43.0


From 9ed407e9a0bb612df9331703c383ef45af86d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:24 +0000
Subject: [PATCH 21/22] fix: give types that are not enums discriminant 0

---
 tooling/minimize/src/rvalue.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/rvalue.rs b/tooling/minimize/src/rvalue.rs
index 6f09d63..ae8ac88 100644
--- a/tooling/minimize/src/rvalue.rs
+++ b/tooling/minimize/src/rvalue.rs
@@ -202,10 +202,18 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     _ => rs::span_bug!(span, "Rvalue::Len only supported for arrays & slices"),
                 }
             }
-            smir::Rvalue::Discriminant(place) =>
+            smir::Rvalue::Discriminant(place) => {
+                let ty = smir::internal(self.tcx, place.ty(&self.locals_smir).unwrap());
+                if !ty.is_enum() {
+                    // In generic code, this can be about any type: those that are not an enum have discriminant 0.
+                    let discriminant_ty = ty.discriminant_ty(self.tcx);
+                    let discriminant_ty = self.translate_ty(discriminant_ty, span);
+                    return ValueExpr::Constant(Constant::Int(Int::ZERO), discriminant_ty);
+                }
                 ValueExpr::GetDiscriminant {
                     place: GcCow::new(self.translate_place_smir(place, span)),
-                },
+                }
+            }
             smir::Rvalue::Repeat(op, c) => {
                 let c = c.eval_target_usize().unwrap();
                 let c = Int::from(c);
-- 
2.43.0


From 02ca5bed7be683a3a7ff54cfb395265b3afbd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:24 +0000
Subject: [PATCH 22/22] fix: end the program at panics that must not unwind

---
 tooling/minimize/src/bb.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index c1ebbc7..1beb865 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -837,6 +837,9 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
         } else if is_panic_fn(&instance.to_string()) {
             // We can't translate this call, it takes a string. As a hack we just ignore the argument.
             self.translate_panic(unwind, bb)
+        } else if is_nounwind_panic_fn(&instance.to_string()) {
+            // These end the program, no matter the panic strategy.
+            build::abort()
         } else if self.tcx.is_foreign_item(instance.def_id()) {
             // Foreign functions don't have MIR.
             rs::span_bug!(span, "cannot call foreign function {instance}");
@@ -892,8 +895,6 @@ fn is_panic_fn(name: &str) -> bool {
     let fns = [
         "core::panicking::panic",
         "core::panicking::panic_fmt",
-        "core::panicking::panic_nounwind",
-        "core::panicking::panic_nounwind_fmt",
         "core::slice::index::slice_start_index_len_fail",
         "core::slice::index::slice_end_index_len_fail",
         "core::slice::index::slice_end_index_overflow_fail",
@@ -904,3 +905,9 @@ fn is_panic_fn(name: &str) -> bool {
     ];
     fns.contains(&name)
 }
+
+// HACK like `is_panic_fn`, but for panics that do not unwind.
+fn is_nounwind_panic_fn(name: &str) -> bool {
+    let fns = ["core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt"];
+    fns.contains(&name)
+}
-- 
2.43.0

