From 9a334b7111e2f1e989a9b4b1ab3e4772280dabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:42 +0000
Subject: [PATCH 01/15] fix: count the metadata bytes of wide pointers when
 computing union chunks

---
 tooling/minimize/src/chunks.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/chunks.rs b/tooling/minimize/src/chunks.rs
index ab83e99..c772e21 100644
--- a/tooling/minimize/src/chunks.rs
+++ b/tooling/minimize/src/chunks.rs
@@ -45,7 +45,9 @@ fn mark_used_bytes(ty: Type, markers: &mut [bool]) {
     match ty {
         Type::Int(int_ty) => mark_size(int_ty.size, markers),
         Type::Bool => mark_size(Size::from_bytes_const(1), markers),
-        Type::Ptr(_) => mark_size(DefaultTarget::PTR_SIZE, markers),
+        // Wide pointers also have metadata bytes.
+        Type::Ptr(_) =>
+            mark_size(ty.layout::<DefaultTarget>().expect_size("pointers are sized"), markers),
         Type::Tuple { sized_fields, unsized_field, .. } => {
             assert!(unsized_field.extract().is_none(), "unsized types cannot be part of unions");
             for (offset, ty) in sized_fields {
-- 
2.43.0


From d2c31742b2fa33bdb538a1df622e102f158314fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 02/15] fix: collect the cells of every array element, not just
 of the first two

---
 tooling/minimize/src/ty.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tooling/minimize/src/ty.rs b/tooling/minimize/src/ty.rs
index 9272e9b..d95a828 100644
--- a/tooling/minimize/src/ty.rs
+++ b/tooling/minimize/src/ty.rs
@@ -139,12 +139,9 @@ impl<'tcx> Ctxt<'tcx> {
                     let layout = self.rs_layout_of(*elem_ty);
                     let size = translate_size(layout.size);
                     let count = c.try_to_target_usize(self.tcx).unwrap();
-                    let ranges = vec![0, count];
 
-                    ranges
-                        .iter()
-                        .enumerate()
-                        .flat_map(|(i, _)| {
+                    (0..count)
+                        .flat_map(|i| {
                             let offset = size * i.into();
                             range.iter().map(move |&(start, len)| (start + offset, len))
                         })
-- 
2.43.0


From a40b13c3e0416ebf9971233392bb1a8ef6e78b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 03/15] fix: offset_from requires both pointers to be in bounds
 of the same allocation

---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 786fed8..e1c3d23 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -531,7 +531,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
 
                 // Compute distance in bytes.
                 let offset_bytes = ValueExpr::BinOp {
-                    operator: BinOp::PtrOffsetFrom { inbounds: false, nonneg: unsigned },
+                    operator: BinOp::PtrOffsetFrom { inbounds: true, nonneg: unsigned },
                     left: GcCow::new(l),
                     right: GcCow::new(r),
                 };
-- 
2.43.0


From ca24d84c346a55bf94bd81d8eced9f8150ccf846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 04/15] fix: let panicking drops unwind into the cleanup block

---
 tooling/minimize/src/bb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index e1c3d23..e51ec5b 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -217,7 +217,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     fallback: panic_block_name,
                 }
             }
-            rs::TerminatorKind::Drop { place, target, .. } => {
+            rs::TerminatorKind::Drop { place, target, unwind, .. } => {
                 let ty = place.ty(&self.body, self.tcx).ty;
                 let place = self.translate_place(place, span);
                 let (drop_fn, ptr_to_drop) = match ty.kind() {
@@ -259,7 +259,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     arguments: list![ArgumentExpr::ByValue(ptr_to_drop)],
                     ret: unit_place(),
                     next_block: Some(self.bb_name_map[&target]),
-                    unwind_block: None,
+                    unwind_block: Some(self.translate_unwind_action(*unwind, bb)),
                 }
             }
             rs::TerminatorKind::UnwindResume => Terminator::ResumeUnwind,
-- 
2.43.0


From 0728dd275ca5b713ea34a0b305d91ce8e9e4b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 05/15] fix: key niche-encoded variants by discriminant, not by
 a value truncated to the tag type

---
 tooling/minimize/src/enums.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 38b6e93..39f4d7b 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -100,7 +100,6 @@ impl<'tcx> Ctxt<'tcx> {
                             niche_variants,
                             niche_start,
                         } => {
-                            let discr_int = int_from_bits(discr.val, tag_ty);
                             let tag_int = (discr_int
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
-- 
2.43.0


From 59bd4ae4bdf4bff34b4b13471b52b5da4480d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 06/15] fix: print the closing parenthesis of BitNot and
 CountOnes

---
 tooling/miniutil/src/pretty/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/miniutil/src/pretty/expr.rs b/tooling/miniutil/src/pretty/expr.rs
index e308da2..45e2ecb 100644
--- a/tooling/miniutil/src/pretty/expr.rs
+++ b/tooling/miniutil/src/pretty/expr.rs
@@ -142,9 +142,9 @@ pub(super) fn fmt_value_expr(v: ValueExpr, comptypes: &mut Vec<CompType>) -> Fmt
             let operand = fmt_value_expr(operand.extract(), comptypes).to_string();
             match operator {
                 UnOp::Int(IntUnOp::Neg) => FmtExpr::NonAtomic(format!("-({operand})")),
-                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand}")),
+                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand})")),
                 UnOp::Int(IntUnOp::CountOnes) =>
-                    FmtExpr::NonAtomic(format!("count_ones({operand}")),
+                    FmtExpr::NonAtomic(format!("count_ones({operand})")),
                 UnOp::Cast(CastOp::IntToInt(int_ty)) => {
                     let int_ty = fmt_int_type(int_ty);
                     FmtExpr::Atomic(format!("int2int<{int_ty}>({operand})"))
-- 
2.43.0


From 365943c5872deb978ca566cbfbb93b03b27bd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 07/15] fix: include the methods of supertraits in the
 translated trait

---
 tooling/minimize/src/vtable.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index dbc9cc8..50e59c9 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -110,27 +110,28 @@ impl<'tcx> Ctxt<'tcx> {
             panic!("generate_trait called on non trait object type");
         };
 
-        let Some(princial_def_id) = trait_.principal_def_id() else {
+        let Some(principal) = trait_.principal() else {
             // no principal trait means no methods
             return Set::new();
         };
 
-        let existential_trait_ref =
-            self.tcx.instantiate_bound_regions_with_erased(trait_.principal().unwrap());
         // A trait ref with `dyn Trait` as the self type.
         // This corresponds to `dyn Trait: Trait`, which matches how the Rust compiler
         // handles a method call on `dyn Trait`.
-        let trait_ref = existential_trait_ref.with_self_ty(self.tcx, trait_obj_ty);
-        let vtable_base = self.tcx.first_method_vtable_slot(trait_ref);
+        let trait_ref = principal.with_self_ty(self.tcx, trait_obj_ty);
+        let trait_ref = self.tcx.erase_and_anonymize_regions(
+            self.tcx.instantiate_bound_regions_with_erased(trait_ref),
+        );
 
-        // The method names are given by the index into the vtable, which is the base offset
-        // plus the index into the "own_existential_vtable_entries" list.
+        // The method names are given by the index into the vtable. This includes the methods
+        // inherited from supertraits, which are part of the vtable as well.
         let mut methods = self
             .tcx
-            .own_existential_vtable_entries(princial_def_id)
+            .vtable_entries(trait_ref)
             .iter()
             .enumerate()
-            .map(|(i, _)| TraitMethodName(Name::from_internal((vtable_base + i) as _)))
+            .filter(|(_, entry)| matches!(entry, rs::VtblEntry::Method(_)))
+            .map(|(i, _)| TraitMethodName(Name::from_internal(i as _)))
             .collect::<Set<_>>();
 
         // Add the DropInPlace method for all traits.
-- 
2.43.0


From efdaa1f6d544b94814172e4c47d58a6cb3d9e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 08/15] fix: give trait objects without a principal trait a
 drop method

---
 tooling/minimize/src/vtable.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index 50e59c9..73d2286 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -78,8 +78,14 @@ impl<'tcx> Ctxt<'tcx> {
                 })
                 .collect()
         } else {
-            // This dyn type has no principal trait, and therefore no methods.
-            Map::new()
+            // This dyn type has no principal trait, and therefore no methods besides DropInPlace.
+            let drop_in_place_fn = rs::Instance::resolve_drop_in_place(self.tcx, ty);
+            let mut methods = Map::new();
+            methods.insert(
+                TraitMethodName(Name::from_internal(rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _)),
+                self.get_fn_name(drop_in_place_fn),
+            );
+            methods
         };
         let trait_name = self.get_trait_name(trait_obj_ty);
 
@@ -110,9 +116,13 @@ impl<'tcx> Ctxt<'tcx> {
             panic!("generate_trait called on non trait object type");
         };
 
+        // The DropInPlace method is part of all traits.
+        let drop_in_place =
+            TraitMethodName(Name::from_internal(rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _));
+
         let Some(principal) = trait_.principal() else {
-            // no principal trait means no methods
-            return Set::new();
+            // no principal trait means no other methods
+            return [drop_in_place].into_iter().collect();
         };
 
         // A trait ref with `dyn Trait` as the self type.
@@ -134,10 +144,7 @@ impl<'tcx> Ctxt<'tcx> {
             .map(|(i, _)| TraitMethodName(Name::from_internal(i as _)))
             .collect::<Set<_>>();
 
-        // Add the DropInPlace method for all traits.
-        methods.insert(TraitMethodName(Name::from_internal(
-            rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _,
-        )));
+        methods.insert(drop_in_place);
 
         methods
     }
-- 
2.43.0


From e16eaf9c2fb915760ce77fc34f9dce79296862bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 09/15] fix: print enum variants, vtable methods and switch
 cases in a stable order

---
 tooling/miniutil/src/pretty/function.rs | 7 ++++++-
 tooling/miniutil/src/pretty/ty.rs       | 7 ++++++-
 tooling/miniutil/src/pretty/vtables.rs  | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/tooling/miniutil/src/pretty/function.rs b/tooling/miniutil/src/pretty/function.rs
index 3e56613..bdaa8e7 100644
--- a/tooling/miniutil/src/pretty/function.rs
+++ b/tooling/miniutil/src/pretty/function.rs
@@ -177,8 +177,13 @@ fn fmt_terminator(t: Terminator, comptypes: &mut Vec<CompType>) -> String {
         }
         Terminator::Switch { value, cases, fallback } => {
             let branch_expr = fmt_value_expr(value, comptypes).to_string();
+
+            // The cases are formatted in the order of their values.
+            let mut cases: Vec<(Int, BbName)> = cases.iter().collect();
+            cases.sort_by_key(|(constant, _successor)| *constant);
+
             let mut case_strs = cases
-                .iter()
+                .into_iter()
                 .map(|(constant, successor)| format!("{}: {}", constant, fmt_bb_name(successor)))
                 .collect::<Vec<String>>();
             case_strs.push(format!("otherwise: {}", fmt_bb_name(fallback)));
diff --git a/tooling/miniutil/src/pretty/ty.rs b/tooling/miniutil/src/pretty/ty.rs
index 140bf4b..7c74ce1 100644
--- a/tooling/miniutil/src/pretty/ty.rs
+++ b/tooling/miniutil/src/pretty/ty.rs
@@ -187,7 +187,12 @@ fn fmt_comptype(i: CompTypeIndex, t: CompType, comptypes: &mut Vec<CompType>) ->
         Type::Enum { variants, discriminant_ty, .. } => {
             let discr = fmt_int_type(discriminant_ty);
             s += &format!("  Discriminant: {discr}\n");
-            variants.iter().for_each(|(discriminant, v)| {
+
+            // The variants are formatted in the order of their discriminants.
+            let mut variants: Vec<(Int, Variant)> = variants.iter().collect();
+            variants.sort_by_key(|(discriminant, _variant)| *discriminant);
+
+            variants.into_iter().for_each(|(discriminant, v)| {
                 let typ = fmt_type(v.ty, comptypes).to_string();
                 s += &format!("  Variant {discriminant}: {typ}\n");
             });
diff --git a/tooling/miniutil/src/pretty/vtables.rs b/tooling/miniutil/src/pretty/vtables.rs
index 7db16b0..b5b4895 100644
--- a/tooling/miniutil/src/pretty/vtables.rs
+++ b/tooling/miniutil/src/pretty/vtables.rs
@@ -27,7 +27,12 @@ fn fmt_vtable(vname: VTableName, vtable: VTable) -> String {
     out += &format!("  size = {},\n", vtable.size.bytes());
     out += &format!("  align = {},\n", vtable.align.bytes());
 
-    for (meth, impel) in vtable.methods {
+    let mut methods: Vec<(TraitMethodName, FnName)> = vtable.methods.iter().collect();
+
+    // The methods are formatted in the order of their names.
+    methods.sort_by_key(|(TraitMethodName(name), _)| *name);
+
+    for (meth, impel) in methods {
         out += &format!(
             "  {meth}() = {f},\n",
             meth = fmt_trait_method_name(meth),
-- 
2.43.0


From 360c7d9a8b85789aba232c642381bb4b810aebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 10/15] fix: print StopUnwind as stop unwind, not as start
 unwind

---
 tooling/miniutil/src/pretty/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/miniutil/src/pretty/function.rs b/tooling/miniutil/src/pretty/function.rs
index bdaa8e7..e2d5cdb 100644
--- a/tooling/miniutil/src/pretty/function.rs
+++ b/tooling/miniutil/src/pretty/function.rs
@@ -231,7 +231,7 @@ fn fmt_terminator(t: Terminator, comptypes: &mut Vec<CompType>) -> String {
         }
         Terminator::StopUnwind(block_name) => {
             let bb_name = fmt_bb_name(block_name);
-            format!("    start unwind -> unwind: {bb_name} ")
+            format!("    stop unwind -> {bb_name}")
         }
         Terminator::ResumeUnwind => {
             format!("    resume")
-- 
2.43.0


From a816473d6696395c44cb82e04fea098b62693643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:29 +0000
Subject: [PATCH 11/15] fix: print AddrOf with any pointer type instead of
 panicking

---
 tooling/miniutil/src/pretty/expr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tooling/miniutil/src/pretty/expr.rs b/tooling/miniutil/src/pretty/expr.rs
index 45e2ecb..e775b3e 100644
--- a/tooling/miniutil/src/pretty/expr.rs
+++ b/tooling/miniutil/src/pretty/expr.rs
@@ -135,8 +135,10 @@ pub(super) fn fmt_value_expr(v: ValueExpr, comptypes: &mut Vec<CompType>) -> Fmt
             };
             FmtExpr::NonAtomic(format!("&{mutbl}{target}"))
         }
-        ValueExpr::AddrOf { target: _, ptr_ty: _ } => {
-            panic!("unsupported ptr_ty for AddrOr!")
+        ValueExpr::AddrOf { target, ptr_ty } => {
+            let target = fmt_place_expr(target.extract(), comptypes).to_string();
+            let ptr_ty = fmt_ptr_type(ptr_ty).to_string();
+            FmtExpr::Atomic(format!("addr_of<{ptr_ty}>({target})"))
         }
         ValueExpr::UnOp { operator, operand } => {
             let operand = fmt_value_expr(operand.extract(), comptypes).to_string();
-- 
2.43.0


From 1a2e9616c40aa1d1eb2b28b84caea8575fc6193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 12/15] fix: let arith_offset wrap when the byte offset
 overflows

`wrapping_offset` is allowed to overflow, but the multiplication of the count with the
size of the pointee was translated to unchecked arithmetic, which is UB on overflow.
---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index e51ec5b..07eaebf 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -512,7 +512,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 assert!(pointee.is_sized());
                 let size = Int::from(pointee.size.bytes());
                 let size = ValueExpr::Constant(Constant::Int(size), self.translate_ty(rty, span));
-                let offset_bytes = build::mul_unchecked(r, size);
+                let offset_bytes = build::mul(r, size);
 
                 let val = build::ptr_offset(l, offset_bytes, build::InBounds::No);
 
-- 
2.43.0


From 64af3484314d569b866dc5c38063899cf0f9fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 13/15] fix: abort in panic_nounwind and panic_nounwind_fmt
 instead of unwinding

---
 tooling/minimize/src/bb.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 07eaebf..29441fb 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -782,6 +782,9 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 ret: self.translate_place(&destination, span),
                 next_block: target.as_ref().map(|t| self.bb_name_map[t]),
             }
+        } else if is_panic_nounwind_fn(&instance.to_string()) {
+            // These never unwind, no matter the panic strategy.
+            build::abort()
         } else if is_panic_fn(&instance.to_string()) {
             // We can't translate this call, it takes a string. As a hack we just ignore the argument.
             self.translate_panic(unwind, bb)
@@ -893,8 +896,6 @@ fn is_panic_fn(name: &str) -> bool {
     let fns = [
         "core::panicking::panic",
         "core::panicking::panic_fmt",
-        "core::panicking::panic_nounwind",
-        "core::panicking::panic_nounwind_fmt",
         "core::slice::index::slice_start_index_len_fail",
         "core::slice::index::slice_end_index_len_fail",
         "core::slice::index::slice_end_index_overflow_fail",
@@ -905,3 +906,9 @@ fn is_panic_fn(name: &str) -> bool {
     ];
     fns.contains(&name)
 }
+
+// The panic functions that abort the program instead of unwinding.
+fn is_panic_nounwind_fn(name: &str) -> bool {
+    let fns = ["core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt"];
+    fns.contains(&name)
+}
-- 
2.43.0


From d0bc873fc7f820d7e552ddd1555e43aa3def80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 14/15] fix: skip optional overflow checks if overflow checks
 are disabled

Standard library functions marked with `rustc_inherit_overflow_checks` contain overflow
assertions, which are ignored by codegen when overflow checks are off.
---
 tooling/minimize/src/bb.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 29441fb..c33de45 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -194,6 +194,11 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 Terminator::Switch { value, cases, fallback }
             }
             rs::TerminatorKind::Unreachable => Terminator::Unreachable,
+            // Code using `#[rustc_inherit_overflow_checks]` has overflow checks in its MIR which
+            // are only enforced if the current session has overflow checks enabled.
+            rs::TerminatorKind::Assert { msg, target, .. }
+                if !self.tcx.sess.overflow_checks() && msg.is_optional_overflow_check() =>
+                Terminator::Goto(self.bb_name_map[target]),
             rs::TerminatorKind::Assert { cond, expected, target, unwind, .. } => {
                 let mut condition = self.translate_operand(cond, span);
                 // Check equality of `condition` and `expected`.
-- 
2.43.0


From 862663b24a7415ada30497d248b765ec06fbfbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:04 +0000
Subject: [PATCH 15/15] fix: pass the fields of a copied argument tuple by
 value

---
 tooling/minimize/src/bb.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index c33de45..7564b00 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -827,9 +827,12 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                                     &[rs::PlaceElem::Field(rs::FieldIdx::from_usize(i), ty)],
                                     self.tcx,
                                 );
-                                ArgumentExpr::InPlace(
-                                    self.translate_place(&field_place, tuple_arg.span),
-                                )
+                                let place = self.translate_place(&field_place, tuple_arg.span);
+                                match &tuple_arg.node {
+                                    rs::Operand::Move(_) => ArgumentExpr::InPlace(place),
+                                    // A copied tuple can still be used after the call.
+                                    _ => build::by_value(build::load(place)),
+                                }
                             })
                             .collect();
 
-- 
2.43.0

