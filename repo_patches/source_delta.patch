From 7c2bd80d7279bed9fbb24baee35207f7bf1baf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:12 +0000
Subject: [PATCH 01/35] fix: include transitive control dependencies of a
 mutation

A mutation nested in several branches was only made dependent on the
innermost ones, so e.g. 'match (a, b) { (true, true) => x = 1, _ => {} }'
lost the dependency of x on a.
---
 crates/flowistry/src/infoflow/analysis.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..d56ee21 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -3,7 +3,7 @@ use std::{cell::RefCell, rc::Rc};
 // use indexical::impls::RustcIndexMatrix as IndexMatrix;
 use indexical::bitset::rustc::IndexMatrix;
 use log::{debug, trace};
-use rustc_data_structures::fx::FxHashMap as HashMap;
+use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{BodyId, def_id::DefId};
 use rustc_middle::{
   mir::{visit::Visitor, *},
@@ -179,9 +179,25 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     }
 
     // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
+    // Control-dependence is transitive: if executing this block depends on a branch, then it also
+    // depends on every branch which decides whether that branch is executed.
+    let controlled_by = {
+      let mut blocks = Vec::new();
+      let mut seen = HashSet::default();
+      let mut worklist = vec![location.block];
+      while let Some(block) = worklist.pop() {
+        let direct = self.control_dependencies.dependent_on(block);
+        for parent in direct.into_iter().flat_map(|set| set.iter()) {
+          if seen.insert(parent) {
+            blocks.push(parent);
+            worklist.push(parent);
+          }
+        }
+      }
+      blocks
+    };
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    for block in controlled_by {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From 6ef9ada0add5d36d0ccd43fcf4377d69647809e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:33 +0000
Subject: [PATCH 02/35] fix: the index of an array access influences the access

Neither 'x = a[i]' nor 'a[i] = x' depended on the value of i.
---
 crates/flowistry/src/infoflow/analysis.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index d56ee21..dfda282 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -117,7 +117,16 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
         });
-    conflicts.chain(provenance).copied().collect()
+    // An access to `p[i]` is also influenced by the value of `i`.
+    let indices = place.projection.iter().filter_map(|elem| match elem {
+      PlaceElem::Index(local) => Some(Place::from_local(local, self.tcx)),
+      _ => None,
+    });
+    conflicts
+      .chain(provenance)
+      .copied()
+      .chain(indices)
+      .collect()
   }
 
   /// Returns all the dependencies of `place` within `state`.
-- 
2.43.0


From 3d8b96103200a96866a6b45aa35d3b6b01deb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:59 +0000
Subject: [PATCH 03/35] fix: the effects of a call depend on which function is
 called

When calling through a function pointer, the pointer was not an input of
the call's mutations.
---
 crates/flowistry/src/infoflow/mutation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..dcb1feb 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -184,7 +184,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -199,7 +199,12 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        // The callee is also an input when it is not statically known, i.e. a function pointer.
+        let arg_inputs = arg_places
+          .iter()
+          .copied()
+          .chain(func.as_place())
+          .collect::<Vec<_>>();
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From 4dadd004ac6e4602c9991fe7faa7892838b5b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 04/35] fix: dependencies of an indirect place include the
 place itself

deps_for and forward slices only looked at the direct places reachable
from the queried place. For a query like '*r' where r is a reference
that set is empty.
---
 crates/flowistry/src/infoflow/analysis.rs     |  2 ++
 crates/flowistry/src/infoflow/dependencies.rs | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index dfda282..7bab298 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -139,10 +139,12 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     place: Place<'tcx>,
   ) -> LocationOrArgSet {
     let mut deps = LocationOrArgSet::new(self.location_domain());
+    // Note that `place` is not in its own `reachable_values` if it's indirect.
     for subplace in self
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
+      .chain([&place])
       .flat_map(|place| self.influences(*place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..ea83c33 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -41,10 +41,12 @@ impl TargetDeps {
     // let mut backward = LocationSet::new(location_domain);
 
     let expanded_targets = targets.iter().flat_map(|(place, location)| {
-      place_info
-        .reachable_values(*place, Mutability::Not)
-        .iter()
-        .map(move |reachable| (*reachable, *location))
+      // An indirect place is not in its own `reachable_values`.
+      let mut values = place_info.reachable_values(*place, Mutability::Not).clone();
+      values.insert(*place);
+      values
+        .into_iter()
+        .map(move |reachable| (reachable, *location))
     });
 
     let all_forward = expanded_targets
-- 
2.43.0


From 6aee0ae609a1ba7206b095c831a5c0f9f382063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 05/35] fix: use the right field indices when copying structs
 with hidden fields

Copying a struct whose private fields come before the visible ones
enumerated only the visible fields, so every visible field was confused
with an earlier one.
---
 crates/flowistry/src/infoflow/mutation.rs | 34 ++++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index dcb1feb..131dd0b 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -6,7 +6,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -137,13 +137,33 @@ where
           && adt_def.is_struct()
         {
           let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
-            .enumerate()
-            .map(|(i, field_def)| {
-              PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-            });
+            .non_enum_variant()
+            .fields
+            .iter_enumerated()
+            .filter(|(_, field_def)| {
+              field_def.vis.is_accessible_from(self.place_info.def_id, tcx)
+            })
+            .map(|(i, field_def)| (i, PlaceElem::Field(i, field_def.ty(tcx, substs))))
+            .collect::<Vec<_>>();
+
+          // If a hidden field comes before a visible one, then the visible field is not
+          // among the `PlaceInfo::children` of the struct. So don't destructure.
+          let hidden_first = fields.iter().enumerate().any(|(i, (j, _))| i != j.as_usize());
+          if hidden_first {
+            let inputs = fields
+              .iter()
+              .map(|(_, field)| place.project_deeper(&[*field], tcx));
+            (self.f)(location, vec![Mutation {
+              mutated: *mutated,
+              inputs: [*place].into_iter().chain(inputs).collect(),
+              status: MutationStatus::Definitely,
+            }]);
+            return;
+          }
+
           let mut mutations = fields
-            .map(|field| {
+            .into_iter()
+            .map(|(_, field)| {
               let mutated_field = mutated.project_deeper(&[field], tcx);
               let input_field = place.project_deeper(&[field], tcx);
               Mutation {
-- 
2.43.0


From 752e985a789ec42c97cda8baf3a50df998999bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 06/35] fix: compute the parents of an indirect place from the
 innermost reference

conflicts() stopped at the first dereference from the root of the place
instead of walking outwards up to the innermost one, so '(*x).0' did not
conflict with '*x'. As a result, a mutation of '*x' as a whole (e.g.
through a call) was not a dependency of '(*x).0'.
---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 7bab298..2823478 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     // An access to `p[i]` is also influenced by the value of `i`.
     let indices = place.projection.iter().filter_map(|elem| match elem {
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..b6be623 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -124,6 +124,8 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
           };
           (place, elem)
         })
+        // walk outwards from `place`, stopping at the innermost reference
+        .rev()
         .take_while(|(place, elem)| {
           place.ty(self.body.local_decls(), self.tcx).ty.is_box()
             || !matches!(elem, PlaceElem::Deref)
-- 
2.43.0


From 7eccbaf7d457111cf05c5597761ca5cc1e31d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:59 +0000
Subject: [PATCH 07/35] fix: writing one element of an array does not overwrite
 the others

'v[i] = a; v[j] = b' made v independent of a, because all elements share
one normalized place and the write was treated as a strong update.
---
 crates/flowistry/src/infoflow/analysis.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 2823478..2ff40ba 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -229,8 +229,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Clear sub-places of mutated place (if sound to do so)
+      // Note that all elements of an array are represented by the same normalized place.
+      let is_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          PlaceElem::Index(..)
+            | PlaceElem::ConstantIndex { .. }
+            | PlaceElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
         && self.place_info.aliases(mt.mutated).len() == 1
+        && !is_element
       {
         for sub in self.place_info.children(mt.mutated).iter() {
           state.clear_row(&self.place_info.normalize(*sub));
-- 
2.43.0


From 2b1ff7c77a6eaa34438ff1ae7c5af0ccf4fa133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:07 +0000
Subject: [PATCH 08/35] fix: a call reads everything reachable from its
 arguments

---
 crates/flowistry/src/infoflow/mutation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 131dd0b..773f95e 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -1,5 +1,7 @@
 //! Identifies the mutated places in a MIR instruction via modular approximation based on types.
 
+use std::iter;
+
 use log::debug;
 use rustc_abi::FieldIdx;
 use rustc_middle::{
@@ -219,10 +221,16 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
+        // The callee can read everything reachable from its arguments, not just the arguments
+        // themselves. For example, a change to `*w.r` is not a change to `w`, but it is to `f(w)`.
         // The callee is also an input when it is not statically known, i.e. a function pointer.
         let arg_inputs = arg_places
           .iter()
-          .copied()
+          .flat_map(|arg| {
+            let reachable = self.place_info.reachable_values(*arg, Mutability::Not);
+            let pointees = reachable.iter().copied().filter(move |place| place != arg);
+            iter::once(*arg).chain(pointees)
+          })
           .chain(func.as_place())
           .collect::<Vec<_>>();
 
-- 
2.43.0


From 5c5e7189ee25f562b52820450f1387a30bb38b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 09/35] fix: a branch on a part of an enum is in the forward
 slice of the enum

---
 crates/flowistry/src/infoflow/dependencies.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index ea83c33..9f8ea9e 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -148,9 +148,7 @@ pub fn compute_dependencies<'tcx>(
 
     for location in body.all_locations() {
       let state = results.state_at(location);
-      let check = |place| {
-        let deps = deps(state, aliases, place);
-
+      let check = |deps: &LocationOrArgSet| {
         for (target_deps, outputs) in
           iter::zip(&all_target_deps, &mut *outputs.borrow_mut())
         {
@@ -170,12 +168,14 @@ pub fn compute_dependencies<'tcx>(
           ..
         }) => {
           if let Some(place) = discr.as_place() {
-            check(place);
+            // Unlike a mutated place, the discriminant can be a part of the places
+            // (e.g. an enum) which the state describes.
+            check(&results.analysis.deps_for(state, place));
           }
         }
         _ => ModularMutationVisitor::new(&results.analysis.place_info, |_, mutations| {
           for Mutation { mutated, .. } in mutations {
-            check(mutated);
+            check(deps(state, aliases, mutated));
           }
         })
         .visit_location(body, location),
-- 
2.43.0


From 39d4fd3b1b099783de59faeb90f7ff048c8803b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:35 +0000
Subject: [PATCH 10/35] fix: translate places of a callee into the regions of
 the caller

---
 crates/flowistry/src/infoflow/recursive.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..10327bc 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -182,18 +182,15 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The field's type must be expressed in the regions of the parent, not those of the child,
+        // because the region of a reference determines what it points to.
         let elem = match elem {
-          ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
+          ProjectionElem::Field(field, _) => {
+            ProjectionElem::Field(field, PlaceTy::field_ty(tcx, ty.ty, ty.variant_index, field))
+          }
           elem => elem,
         };
+        ty = ty.projection_ty(tcx, elem);
         projection.push(elem);
       }
 
-- 
2.43.0


From 8487ea3dbba29791e7f1e8e67868315c857e7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:35 +0000
Subject: [PATCH 11/35] fix: parts of a returned value do not erase each other
 when recursing into calls

---
 crates/flowistry/src/infoflow/recursive.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 10327bc..1f62e5f 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -1,5 +1,7 @@
 #![allow(unused)]
 
+use std::iter;
+
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
@@ -222,13 +224,18 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       Some(Mutation {
         mutated: parent,
         inputs: parent_deps.clone(),
-        status: if was_return {
-          MutationStatus::Definitely
-        } else {
-          MutationStatus::Possibly
-        },
+        status: MutationStatus::Possibly,
       })
-    }).collect::<Vec<_>>();
+    });
+
+    // The destination is overwritten once, and then filled from each part of the returned value.
+    // Several parts can translate to overlapping places, so one must not clear another.
+    let overwrite = Mutation {
+      mutated: *destination,
+      inputs: Vec::new(),
+      status: MutationStatus::Definitely,
+    };
+    let mutations = iter::once(overwrite).chain(mutations).collect::<Vec<_>>();
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0


From ea286cb89eab4dee1b2d787df6b913d1ef765620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 12/35] fix: a reference argument which the body can reassign
 has the aliases of its region

---
 crates/flowistry/src/mir/aliases.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 84104e7..d7a20e1 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -351,6 +351,17 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     contains
   }
 
+  /// Returns true if the body could change the value of `place`, where `place` is rooted in an argument.
+  fn is_reassignable(&self, place: PlaceRef<'tcx>) -> bool {
+    let local_decl = &self.body.local_decls[place.local];
+    local_decl.mutability.is_mut()
+      || place.iter_projections().any(|(base, elem)| {
+        let base_ty = base.ty(self.body.local_decls(), self.tcx).ty;
+        matches!(elem, PlaceElem::Deref)
+          && matches!(base_ty.ref_mutability(), Some(Mutability::Mut))
+      })
+  }
+
   /// Given a `place`, returns the set of direct places it could refer to.
   ///
   /// For example, in the program:
@@ -371,16 +382,17 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     let mut aliases = HashSet::default();
     aliases.insert(place);
 
-    // Places with no derefs, or derefs from arguments, have no aliases
-    if place.is_direct(self.body, self.tcx) {
+    // Places with no derefs have no aliases
+    // place = after[*ptr]
+    let Some((ptr, after)) = place.refs_in_projection(self.body, self.tcx).last() else {
       return aliases;
-    }
+    };
 
-    // place = after[*ptr]
-    let (ptr, after) = place
-      .refs_in_projection(self.body, self.tcx)
-      .last()
-      .unwrap();
+    // Derefs from arguments have no aliases, as long as the dereferenced pointer
+    // cannot be changed by the body.
+    if place.is_direct(self.body, self.tcx) && !self.is_reassignable(ptr) {
+      return aliases;
+    }
 
     // ptr : &'region orig_ty
     let ptr_ty = ptr.ty(self.body.local_decls(), self.tcx).ty;
-- 
2.43.0


From 723c43dde4ce0585e56b7fca428473129465c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 13/35] fix: copying a struct keeps the dependencies of its
 hidden fields

---
 crates/flowistry/src/infoflow/mutation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 773f95e..dedb8f2 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -148,10 +148,9 @@ where
             .map(|(i, field_def)| (i, PlaceElem::Field(i, field_def.ty(tcx, substs))))
             .collect::<Vec<_>>();
 
-          // If a hidden field comes before a visible one, then the visible field is not
-          // among the `PlaceInfo::children` of the struct. So don't destructure.
-          let hidden_first = fields.iter().enumerate().any(|(i, (j, _))| i != j.as_usize());
-          if hidden_first {
+          // If some field is hidden, then there is no place to hold its dependencies other than
+          // the struct itself. So don't destructure.
+          if fields.len() != adt_def.non_enum_variant().fields.len() {
             let inputs = fields
               .iter()
               .map(|(_, field)| place.project_deeper(&[*field], tcx));
-- 
2.43.0


From 550662fb103ff46f43635cc78ad102a9f094c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 14/35] fix: the effects of a call depend on which of several
 returns is taken when recursing into it

---
 crates/flowistry/src/infoflow/recursive.rs | 43 +++++++++++++++-------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 1f62e5f..2349e0f 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -8,7 +8,10 @@ use rustc_middle::{
   ty::{ClosureKind, GenericArgKind, TyKind},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{
+  OperandExt, PlaceExt,
+  mir::{borrowck_facts::get_body_with_borrowck_facts, location_or_arg::index::LocationOrArgSet},
+};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
@@ -127,20 +130,33 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     });
     let body = &body_with_facts.body;
 
+    let return_locs = body
+      .basic_blocks
+      .iter_enumerated()
+      .filter_map(|(bb, data)| match data.terminator().kind {
+        TerminatorKind::Return => Some(body.terminator_loc(bb)),
+        _ => None,
+      })
+      .collect::<Vec<_>>();
+
     let mut return_state = FlowDomain::new(flow.analysis.location_domain());
-    {
-      let return_locs = body
-        .basic_blocks
-        .iter_enumerated()
-        .filter_map(|(bb, data)| match data.terminator().kind {
-          TerminatorKind::Return => Some(body.terminator_loc(bb)),
-          _ => None,
-        });
+    for loc in &return_locs {
+      return_state.join(flow.state_at(*loc));
+    }
 
-      for loc in return_locs {
-        return_state.join(flow.state_at(loc));
+    // If there are several ways to return, then the effects of the call also depend on
+    // the branches which decide between them.
+    let mut return_deps = LocationOrArgSet::new(flow.analysis.location_domain());
+    if return_locs.len() > 1 {
+      for (bb, data) in body.basic_blocks.iter_enumerated() {
+        if let TerminatorKind::SwitchInt { discr, .. } = &data.terminator().kind
+          && let Some(discr_place) = discr.as_place()
+        {
+          let switch_state = flow.state_at(body.terminator_loc(bb));
+          return_deps.union(&flow.analysis.deps_for(switch_state, discr_place));
+        }
       }
-    };
+    }
 
     let translate_child_to_parent = |child: Place<'tcx>,
                                      mutated: bool|
@@ -210,7 +226,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         return None;
       }
 
-      let child_deps = return_state.row_set(child);
+      let mut child_deps = return_deps.clone();
+      child_deps.union(return_state.row_set(child));
       let parent_deps = return_state
         .rows()
         .filter(|(_, deps)| child_deps.is_superset(deps))
-- 
2.43.0


From cdfdc435a1e2e7bbe41feaa5b5168c3c2f738ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 15/35] fix: ifc reports show the parameter at which a flow
 starts or ends

---
 crates/flowistry_ifc/src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..f0b8c64 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -130,7 +130,7 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(body_id.hir_id);
+    let body_span = tcx.hir_span_with_body(tcx.hir_body_owner(*body_id));
     let src_span = decls[src.local].source_info.span.as_local(body_span);
     let dst_span = decls[dst.local].source_info.span.as_local(body_span);
 
-- 
2.43.0


From b634ef115c403c16f9b581b8f934bca5750fe2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 16/35] fix: ifc considers flows at every point of every
 function, not only where it returns

---
 crates/flowistry_ifc/src/analysis.rs | 57 +++++++++++++++++++---------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index f0b8c64..071c3ec 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -11,7 +11,6 @@ use rustc_middle::{
   mir::*,
   ty::{ParamEnv, Ty, TyCtxt, TypingMode},
 };
-use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_span::FileName;
 use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
 use rustc_utils::{BodyExt, PlaceExt, SpanExt};
@@ -37,7 +36,10 @@ pub enum IssueFound {
   No,
 }
 
-pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
+pub fn analyze<'tcx>(
+  body_id: &BodyId,
+  results: &FlowResults<'_, 'tcx>,
+) -> Result<IssueFound> {
   let tcx = results.analysis.tcx;
   let body = results.analysis.body;
   let def_id = tcx.hir_body_owner_def_id(*body_id).to_def_id();
@@ -96,22 +98,43 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
-    .all_returns()
-    .map(|location| results.state_at(location).clone())
-    .reduce(|mut a, b| {
-      a.join(&b);
-      a
-    })
-    .unwrap();
+  // A place may be leaked and overwritten later, or leaked in a function which never
+  // returns, so consider its dependencies at every point where it has any.
+  let deps_at_any_point = |place: Place<'tcx>| {
+    let mut all_deps = Vec::new();
+    for location in body.all_locations() {
+      let deps = results
+        .analysis
+        .deps_for(results.state_at(location), place);
+      if !deps.is_empty() && !all_deps.contains(&deps) {
+        all_deps.push(deps);
+      }
+    }
+    all_deps
+  };
+
+  let insecure_deps = insecure_places
+    .iter()
+    .map(|insecure| (insecure, deps_at_any_point(*insecure)))
+    .collect::<Vec<_>>();
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-    let secure_deps = results.analysis.deps_for(&final_state, *secure);
-    for insecure in insecure_places.iter() {
-      let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
-      if insecure_deps.is_superset(&secure_deps) {
-        errors.push((secure, insecure));
+    // Leaking a part of a secure place is leaking secure data.
+    let secure_deps = secure
+      .interior_places(tcx, body, def_id)
+      .into_iter()
+      .flat_map(deps_at_any_point)
+      .collect::<Vec<_>>();
+    for (insecure, insecure_deps) in &insecure_deps {
+      let is_leaked = insecure_deps.iter().any(|insecure_deps| {
+        secure_deps
+          .iter()
+          .any(|secure_deps| insecure_deps.is_superset(secure_deps))
+      });
+      let error = (secure.local, insecure.local);
+      if is_leaked && !errors.contains(&error) {
+        errors.push(error);
       }
     }
   }
@@ -131,8 +154,8 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
     let body_span = tcx.hir_span_with_body(tcx.hir_body_owner(*body_id));
-    let src_span = decls[src.local].source_info.span.as_local(body_span);
-    let dst_span = decls[dst.local].source_info.span.as_local(body_span);
+    let src_span = decls[src].source_info.span.as_local(body_span);
+    let dst_span = decls[dst].source_info.span.as_local(body_span);
 
     let span_range = |span| match span {
       Some(span) => {
-- 
2.43.0


From 9f69a83bb6f85c6f8a8fc26c84a6022decbb2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 17/35] fix: ifc finds secure and insecure data which a
 parameter refers to

---
 crates/flowistry_ifc/src/analysis.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index 071c3ec..a8abc93 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -76,13 +76,18 @@ pub fn analyze<'tcx>(
     })
     .collect::<HashMap<_, _>>();
 
+  let interior = |place: Place<'tcx>| {
+    // Data behind a reference is found at the variable it belongs to, unless it belongs to the caller.
+    if place.is_arg(body) {
+      place.interior_paths(tcx, body, def_id)
+    } else {
+      place.interior_places(tcx, body, def_id)
+    }
+  };
   let all_places = body
     .local_decls()
     .indices()
-    .flat_map(|local| {
-      let place = Place::from_local(local, tcx);
-      place.interior_places(tcx, body, def_id)
-    })
+    .flat_map(|local| interior(Place::from_local(local, tcx)))
     .collect::<PlaceSet>();
 
   let find_implements = |trait_def_id| -> PlaceSet {
@@ -121,8 +126,7 @@ pub fn analyze<'tcx>(
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
     // Leaking a part of a secure place is leaking secure data.
-    let secure_deps = secure
-      .interior_places(tcx, body, def_id)
+    let secure_deps = interior(*secure)
       .into_iter()
       .flat_map(deps_at_any_point)
       .collect::<Vec<_>>();
-- 
2.43.0


From 0661f34ced8247bd018eb8847f3c72dea1431327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 18/35] fix: an access through a reference is a direct
 influence on what it refers to

---
 crates/flowistry_ide/src/focus/direct_influence.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry_ide/src/focus/direct_influence.rs b/crates/flowistry_ide/src/focus/direct_influence.rs
index 562592d..0fe01aa 100644
--- a/crates/flowistry_ide/src/focus/direct_influence.rs
+++ b/crates/flowistry_ide/src/focus/direct_influence.rs
@@ -17,7 +17,9 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
 
     ModularMutationVisitor::new(place_info, |location, mutations| {
       let mut add = |place: Place<'tcx>, mutability: Mutability| {
-        for alias in place_info.reachable_values(place, mutability) {
+        // A dereference is an access to what the reference points to.
+        let aliases = place_info.aliases(place).iter();
+        for alias in aliases.chain(place_info.reachable_values(place, mutability)) {
           influence.insert(*alias, location);
         }
       };
@@ -42,9 +44,11 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
   }
 
   pub fn lookup(&self, target: Place<'tcx>) -> Vec<LocationOrArg> {
-    let aliases = self.place_info.reachable_values(target, Mutability::Not);
+    let reachable = self
+      .place_info
+      .reachable_values(target, Mutability::Not);
+    let aliases = self.place_info.aliases(target).iter().chain(reachable);
     aliases
-      .iter()
       .flat_map(|target_alias| {
         self
           .influence
-- 
2.43.0


From 96f7e132b8effa35578e85536e10590f8ec0900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 19/35] fix: order the ranges found by a search as numbers, not
 as strings

---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From d888a2616b635d5a6eeb6977bbbfaaac633d98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 20/35] fix: a range which is exactly the selection also
 contains it

---
 ide/src/range.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index 0938cff..e8b771e 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -101,11 +101,16 @@ export class RangeTree<T> {
 
     result.forEach(([interval, value]) => {
       let range = interval_to_range(interval, this.filename, this.doc);
-      if (is_contained(interval, query)) {
+      let contained = is_contained(interval, query);
+      let containing = is_contained(query, interval);
+      // an interval equal to the query is both
+      if (contained) {
         final.contained.push({ range, value });
-      } else if (is_contained(query, interval)) {
+      }
+      if (containing) {
         final.containing.push({ range, value });
-      } else {
+      }
+      if (!contained && !containing) {
         final.overlapping.push({ range, value });
       }
     });
-- 
2.43.0


From b1cbea74bf94147ee39c4268c0b17b633fcdd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 21/35] fix: wait for the search for Cargo.toml when finding
 the workspace root

---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From d1e228be32364c89b83f68fe22a8bbc1273d1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 22/35] fix: show the last error, also when it came from the
 analysis

---
 ide/src/errors.ts |  7 ++++---
 ide/src/setup.ts  | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index f589c52..35ff1d3 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -150,7 +150,8 @@ export const show_error = async (error: FlowistryError) => {
 export let hide_error = () => globals.error_pane.hide();
 
 export async function last_error(context: vscode.ExtensionContext) {
-  let error = context.workspaceState.get("err_log") as string;
-  let flowistry_err: BuildError = { type: "BuildError", error };
-  await show_error(flowistry_err);
+  let error = context.workspaceState.get<FlowistryError>("err_log");
+  if (error) {
+    await show_error(error);
+  }
 }
diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1dad0dc..a81711c 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -257,6 +257,11 @@ export async function setup(
   }
 
   let flowistry_opts = await get_flowistry_opts(workspace_root);
+  // Remember the last error for the `last_error` command.
+  let fail = (error: FlowistryError): FlowistryError => {
+    context.workspaceState.update("err_log", error);
+    return error;
+  };
   return async <T>(args: string[], no_output: boolean = false) => {
     let output;
     try {
@@ -272,12 +277,10 @@ export async function setup(
         flowistry_opts
       );
     } catch (e: any) {
-      context.workspaceState.update("err_log", e);
-
-      return {
+      return fail({
         type: "BuildError",
         error: e,
-      };
+      });
     }
 
     if (no_output) {
@@ -294,14 +297,14 @@ export async function setup(
       let output_str = output_decompressed.toString("utf8");
       output_typed = JSON.parse(output_str);
     } catch (e: any) {
-      return {
+      return fail({
         type: "AnalysisError",
-        error: e.toString()
-      }
+        error: e.toString(),
+      });
     }
    
     if ("Err" in output_typed) {
-      return output_typed.Err;
+      return fail(output_typed.Err);
     } else {
       return {
         type: "output",
-- 
2.43.0


From 538abb5c51ae6a6387c2dafe7fa93a4d8a75b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 23/35] fix: show errors again after the error pane was closed
 by the user

---
 ide/src/errors.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index 35ff1d3..940c14a 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -75,7 +75,11 @@ export class ErrorPane {
   show = async (error: string) => {
     this.tdcp.contents = error;
     this.tdcp.eventEmitter.fire(this.tdcp.uri);
-    if (!this.editor) {
+    // the user may have closed it
+    if (
+      !this.editor ||
+      !vscode.window.visibleTextEditors.includes(this.editor)
+    ) {
       this.editor = await vscode.window.showTextDocument(this.doc, {
         viewColumn: vscode.ViewColumn.Beside,
         preserveFocus: true,
-- 
2.43.0


From 601d9f9ccd192122cd13c059eb3869e479c247d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 24/35] fix: analyze a body again after an error

---
 ide/src/focus.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..201fac4 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -190,7 +190,10 @@ class FocusDocumentState {
         editor.document,
         editor.selection
       );
-      body.set(body_state_res);
+      // Errors are not remembered, so that the next attempt tries again.
+      if (is_ok(body_state_res)) {
+        body.set(body_state_res);
+      }
       return body_state_res;
     } else {
       return body.get();
-- 
2.43.0


From 8a2c12d33bcf86241de3c69ff48ae2d2bfba1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 25/35] fix: do not override what happened while an error was
 shown

---
 ide/src/focus.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 201fac4..c797f5d 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -336,8 +336,8 @@ export class FocusMode {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          if (userActivated) await show_error(doc_state_res);
           this.set_mode("error");
+          if (userActivated) await show_error(doc_state_res);
           return null;
         }
       }
@@ -357,8 +357,8 @@ export class FocusMode {
     userActivated: boolean = false
   ) => {
     if (!is_ok(result)) {
-      if (userActivated) await show_error(result);
       this.set_mode("error");
+      if (userActivated) await show_error(result);
     } else {
       await hide_error();
       this.set_mode("active");
-- 
2.43.0


From b0aa455fe21c57a9445b8d04b9e182fb717a1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 26/35] fix: follow edits and saves of any document, not only
 the active one

---
 ide/src/focus.ts | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index c797f5d..7762705 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -269,29 +269,32 @@ export class FocusMode {
     // pause rendering if there are unsaved changes in the doc
     this.doc_edit_callback = vscode.workspace.onDidChangeTextDocument(
       (event) => {
-        let editor = vscode.window.activeTextEditor!;
-        let doc = editor.document;
-
-        if (!valid_document(editor.document)) {
+        // no changes: only the dirty state of the document is different
+        if (
+          event.contentChanges.length === 0 ||
+          !valid_document(event.document)
+        ) {
           return;
         }
 
-        if (event.document === doc && doc.isDirty) {
-          this.state.clear();
+        this.state.clear();
 
-          if (this.mode !== "idle") {
+        if (this.mode !== "idle") {
+          this.clear_ranges();
+          if (event.document.isDirty) {
             this.set_mode("unsaved");
-            this.clear_ranges();
+          } else {
+            // the document has been reloaded from disk
+            this.set_mode("active");
+            this.update_slice();
           }
         }
       }
     );
 
     // reinitialize focus mode state after each save
-    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument(() => {
-      let editor = vscode.window.activeTextEditor!;
-
-      if (!valid_document(editor.document)) {
+    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument((doc) => {
+      if (!valid_document(doc)) {
         return;
       }
 
@@ -310,10 +313,7 @@ export class FocusMode {
   };
 
   private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+    vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
   private get_doc_state = async (
-- 
2.43.0


From 62f836258a776534e5f070a8b9c3844fcd77de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 27/35] fix: use the selection which a command was given for,
 and follow it

---
 ide/src/focus.ts | 90 +++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 7762705..08e39ff 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -40,13 +40,13 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    position: vscode.Position
   ): Promise<FlowistryResult<FocusBodyState>> => {
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      position.line.toString(),
+      position.character.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -59,11 +59,9 @@ class FocusBodyState {
   };
 
   private find_slice_at_selection = (
-    editor: vscode.TextEditor
+    selection: vscode.Selection
   ): { seeds: Range[]; slice: Range[]; direct_influence: Range[] } => {
-    let query = this.places.selection_to_interval(
-      this.mark || editor.selection
-    );
+    let query = this.places.selection_to_interval(this.mark || selection);
     let result = this.places.search(query);
     let sliced;
     if (result.contained.length > 0) {
@@ -85,10 +83,13 @@ class FocusBodyState {
     return { seeds, slice, direct_influence };
   };
 
-  render = async (editor: vscode.TextEditor, select = false) => {
-    let doc = editor.document;
+  render = async (
+    editor: vscode.TextEditor,
+    selection: vscode.Selection,
+    select = false
+  ) => {
     let { seeds, slice, direct_influence } =
-      this.find_slice_at_selection(editor);
+      this.find_slice_at_selection(selection);
 
     if (seeds.length > 0) {
       if (select) {
@@ -153,9 +154,10 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    selection: vscode.Selection
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, selection);
     if (body_state_res === null) {
       return ok(null);
     }
@@ -165,16 +167,17 @@ class FocusDocumentState {
     }
 
     let body_state = body_state_res.value;
-    body_state.render(editor);
+    body_state.render(editor, selection);
     return ok(null);
   };
 
   get_body_state = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    selection: vscode.Selection
   ): Promise<FlowistryResult<FocusBodyState> | null> => {
     // Find all bodies that contain the user's selection.
     let result = this.bodies.search(
-      this.bodies.selection_to_interval(editor.selection)
+      this.bodies.selection_to_interval(selection)
     );
 
     // If the user hasn't selected a body, then return null
@@ -188,7 +191,7 @@ class FocusDocumentState {
     if (body.get() === null) {
       let body_state_res = await FocusBodyState.load(
         editor.document,
-        editor.selection
+        selection.anchor
       );
       // Errors are not remembered, so that the next attempt tries again.
       if (is_ok(body_state_res)) {
@@ -201,23 +204,25 @@ class FocusDocumentState {
   };
 
   set_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    selection: vscode.Selection
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, selection);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
       return body_state_res;
     }
 
-    body_state_res.value.mark = editor.selection;
+    body_state_res.value.mark = selection;
     return ok(null);
   };
 
   unset_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    selection: vscode.Selection
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, selection);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -229,16 +234,17 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    selection: vscode.Selection
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, selection);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
       return body_state_res;
     }
 
-    body_state_res.value.render(editor, true);
+    body_state_res.value.render(editor, selection, true);
     return ok(null);
   };
 }
@@ -375,13 +381,23 @@ export class FocusMode {
       return;
     }
 
+    let selection = editor.selection;
     let doc_state = await this.get_doc_state(editor, userActivated);
-    if (doc_state === null) {
-      return;
+    if (doc_state !== null) {
+      let result = await doc_state.on_change_selection(editor, selection);
+      await this.handle_analysis_result(result, userActivated);
     }
 
-    let result = await doc_state.on_change_selection(editor);
-    await this.handle_analysis_result(result, userActivated);
+    // Selections are ignored while something is loading, so catch up with them.
+    let moved =
+      vscode.window.activeTextEditor !== editor ||
+      !editor.selection.isEqual(selection);
+    if (
+      (this.mode === "active" || this.mode === "notfound") &&
+      moved
+    ) {
+      await this.update_slice();
+    }
   };
 
   private register_callbacks() {
@@ -405,7 +421,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _selection: vscode.Selection
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -423,24 +440,25 @@ export class FocusMode {
         this.register_callbacks();
       }
 
+        let selection = editor.selection;
       let doc_state = await this.get_doc_state(editor, true);
       if (doc_state === null) {
         return;
       }
 
-      let result = await f(editor, doc_state);
+      let result = await f(editor, doc_state, selection);
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
 
-  focus_mark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.set_mark(editor)
+  focus_mark = this.focus_subcommand((editor, doc_state, selection) =>
+    doc_state.set_mark(editor, selection)
   );
-  focus_unmark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.unset_mark(editor)
+  focus_unmark = this.focus_subcommand((editor, doc_state, selection) =>
+    doc_state.unset_mark(editor, selection)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, selection) =>
+    doc_state.select(editor, selection)
   );
 
   focus = async () => {
-- 
2.43.0


From 1ce859c2352214fc8fce5581e321358dfbceebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 28/35] fix: ask for the body which is selected, not for one
 nested inside

---
 ide/src/focus.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 08e39ff..0f695da 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -189,9 +189,20 @@ class FocusDocumentState {
     // If the user has selected a body, get its FocusBodyState.
     let body = result.containing[0].value;
     if (body.get() === null) {
+      // One end of the selection may be inside of a nested body.
+      let { doc } = this.bodies;
+      let offsets = [
+        selection.anchor,
+        selection.active,
+        to_vsc_range(result.containing[0].range).start,
+      ].map((pos) => doc.offsetAt(pos));
+      let offset = offsets.find((offset) => {
+        let { containing } = this.bodies.search([offset, offset]);
+        return containing.length > 0 && containing[0].value === body;
+      });
       let body_state_res = await FocusBodyState.load(
         editor.document,
-        selection.anchor
+        doc.positionAt(offset ?? offsets[0])
       );
       // Errors are not remembered, so that the next attempt tries again.
       if (is_ok(body_state_res)) {
-- 
2.43.0


From 140689b3a5020d5b0ca5d7ff02a72a77bfce1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 29/35] fix: drop results which an edit, a save or leaving
 focus mode outdated

---
 ide/src/focus.ts | 64 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 0f695da..5f76bba 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -155,10 +155,11 @@ class FocusDocumentState {
 
   on_change_selection = async (
     editor: vscode.TextEditor,
-    selection: vscode.Selection
+    selection: vscode.Selection,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor, selection);
-    if (body_state_res === null) {
+    if (body_state_res === null || !is_current()) {
       return ok(null);
     }
 
@@ -246,10 +247,11 @@ class FocusDocumentState {
 
   select = async (
     editor: vscode.TextEditor,
-    selection: vscode.Selection
+    selection: vscode.Selection,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor, selection);
-    if (body_state_res === null) {
+    if (body_state_res === null || !is_current()) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
       return body_state_res;
@@ -278,6 +280,10 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Changes whenever what is being loaded is not wanted any more: whoever waits
+  // for something must check afterwards that it is still the same.
+  epoch: number = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -295,6 +301,7 @@ export class FocusMode {
         }
 
         this.state.clear();
+        this.epoch += 1;
 
         if (this.mode !== "idle") {
           this.clear_ranges();
@@ -319,6 +326,7 @@ export class FocusMode {
         return;
       }
 
+      this.epoch += 1;
       this.set_mode("active");
       this.update_slice();
     });
@@ -333,6 +341,16 @@ export class FocusMode {
     vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
+  // Whether something happened since `epoch` which makes a result useless.
+  private is_stale = (epoch: number): boolean => {
+    if (this.epoch === epoch) {
+      return false;
+    }
+    // running a command has changed the status bar
+    globals.status_bar.set_state(this.mode);
+    return true;
+  };
+
   private get_doc_state = async (
     editor: vscode.TextEditor,
     userActivated: boolean = false
@@ -341,12 +359,17 @@ export class FocusMode {
       return null;
     }
 
+    let epoch = this.epoch;
     this.set_mode("loading");
 
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (this.is_stale(epoch)) {
+        return null;
+      }
+      this.set_mode("loading");
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -392,10 +415,18 @@ export class FocusMode {
       return;
     }
 
+    let epoch = this.epoch;
     let selection = editor.selection;
     let doc_state = await this.get_doc_state(editor, userActivated);
     if (doc_state !== null) {
-      let result = await doc_state.on_change_selection(editor, selection);
+      let result = await doc_state.on_change_selection(
+        editor,
+        selection,
+        () => this.epoch === epoch
+      );
+      if (this.is_stale(epoch)) {
+        return;
+      }
       await this.handle_analysis_result(result, userActivated);
     }
 
@@ -404,6 +435,7 @@ export class FocusMode {
       vscode.window.activeTextEditor !== editor ||
       !editor.selection.isEqual(selection);
     if (
+      this.epoch === epoch &&
       (this.mode === "active" || this.mode === "notfound") &&
       moved
     ) {
@@ -433,7 +465,8 @@ export class FocusMode {
       f: (
         _editor: vscode.TextEditor,
         _state: FocusDocumentState,
-        _selection: vscode.Selection
+        _selection: vscode.Selection,
+        _is_current: () => boolean
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -451,13 +484,22 @@ export class FocusMode {
         this.register_callbacks();
       }
 
-        let selection = editor.selection;
+      let epoch = this.epoch;
+      let selection = editor.selection;
       let doc_state = await this.get_doc_state(editor, true);
       if (doc_state === null) {
         return;
       }
 
-      let result = await f(editor, doc_state, selection);
+      let result = await f(
+        editor,
+        doc_state,
+        selection,
+        () => this.epoch === epoch
+      );
+      if (this.is_stale(epoch)) {
+        return;
+      }
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
@@ -468,8 +510,9 @@ export class FocusMode {
   focus_unmark = this.focus_subcommand((editor, doc_state, selection) =>
     doc_state.unset_mark(editor, selection)
   );
-  focus_select = this.focus_subcommand((editor, doc_state, selection) =>
-    doc_state.select(editor, selection)
+  focus_select = this.focus_subcommand(
+    (editor, doc_state, selection, is_current) =>
+      doc_state.select(editor, selection, is_current)
   );
 
   focus = async () => {
@@ -478,6 +521,7 @@ export class FocusMode {
       this.register_callbacks();
       await this.update_slice(true);
     } else {
+      this.epoch += 1;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From 8745e39e0e37fa61e614a3e09c6382dca88d4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:59 +0000
Subject: [PATCH 30/35] fix: convert between the backend's characters and
 VSCode's UTF-16 columns

---
 ide/src/decorations.ts |  2 +-
 ide/src/focus.ts       | 14 +++++---------
 ide/src/range.ts       | 38 ++++++++++++++++++++++++++------------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/ide/src/decorations.ts b/ide/src/decorations.ts
index 8c99517..c5281c4 100644
--- a/ide/src/decorations.ts
+++ b/ide/src/decorations.ts
@@ -94,7 +94,7 @@ export function highlight_ranges(
 ) {
   editor.setDecorations(
     type,
-    ranges.map((range) => to_vsc_range(range))
+    ranges.map((range) => to_vsc_range(range, editor.document))
   );
 }
 
diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 5f76bba..9b9be01 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -5,7 +5,7 @@ import * as vscode from "vscode";
 import { clear_ranges, highlight_slice } from "./decorations";
 import { FlowistryResult, hide_error, is_ok, ok, show_error } from "./errors";
 import { globals } from "./extension";
-import { Range, RangeTree, to_vsc_range } from "./range";
+import { Range, RangeTree, to_char_pos, to_vsc_range } from "./range";
 import { StatusBarState } from "./status_bar";
 
 interface Spans {
@@ -42,12 +42,8 @@ class FocusBodyState {
     doc: vscode.TextDocument,
     position: vscode.Position
   ): Promise<FlowistryResult<FocusBodyState>> => {
-    let cmd = [
-      "focus",
-      doc.fileName,
-      position.line.toString(),
-      position.character.toString(),
-    ];
+    let { line, column } = to_char_pos(position, doc);
+    let cmd = ["focus", doc.fileName, line.toString(), column.toString()];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
 
@@ -94,7 +90,7 @@ class FocusBodyState {
     if (seeds.length > 0) {
       if (select) {
         editor.selections = slice.map((range) => {
-          let vsc_range = to_vsc_range(range);
+          let vsc_range = to_vsc_range(range, editor.document);
           return new vscode.Selection(vsc_range.start, vsc_range.end);
         });
       } else {
@@ -195,7 +191,7 @@ class FocusDocumentState {
       let offsets = [
         selection.anchor,
         selection.active,
-        to_vsc_range(result.containing[0].range).start,
+        to_vsc_range(result.containing[0].range, doc).start,
       ].map((pos) => doc.offsetAt(pos));
       let offset = offsets.find((offset) => {
         let { containing } = this.bodies.search([offset, offset]);
diff --git a/ide/src/range.ts b/ide/src/range.ts
index e8b771e..86e9cb6 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -13,19 +13,35 @@ export interface Range {
   filename: string;
 }
 
-export let to_vsc_range = (range: Range): vscode.Range =>
-  new vscode.Range(
-    range.start.line,
-    range.start.column,
-    range.end.line,
-    range.end.column
-  );
+// The backend counts columns in characters, but VSCode in UTF-16 code units.
+// These differ after a character outside of the basic multilingual plane.
+let line_of = (line: number, doc: vscode.TextDocument): string =>
+  doc.getText(new vscode.Range(line, 0, line + 1, 0));
+
+let to_vsc_pos = (pos: CharPos, doc: vscode.TextDocument): vscode.Position => {
+  let before = Array.from(line_of(pos.line, doc)).slice(0, pos.column);
+  return new vscode.Position(pos.line, before.join("").length);
+};
+
+export let to_char_pos = (
+  pos: vscode.Position,
+  doc: vscode.TextDocument
+): CharPos => {
+  let before = line_of(pos.line, doc).slice(0, pos.character);
+  return { line: pos.line, column: Array.from(before).length };
+};
+
+export let to_vsc_range = (
+  range: Range,
+  doc: vscode.TextDocument
+): vscode.Range =>
+  new vscode.Range(to_vsc_pos(range.start, doc), to_vsc_pos(range.end, doc));
 
 export let range_to_interval = (
   range: Range,
   doc: vscode.TextDocument
 ): Interval => {
-  let vsc_range = to_vsc_range(range);
+  let vsc_range = to_vsc_range(range, doc);
   return [doc.offsetAt(vsc_range.start), doc.offsetAt(vsc_range.end)];
 };
 
@@ -34,11 +50,9 @@ export let interval_to_range = (
   filename: string,
   doc: vscode.TextDocument
 ): Range => {
-  let start = doc.positionAt(interval[0]);
-  let end = doc.positionAt(interval[1]);
   return {
-    start: { line: start.line, column: start.character },
-    end: { line: end.line, column: end.character },
+    start: to_char_pos(doc.positionAt(interval[0]), doc),
+    end: to_char_pos(doc.positionAt(interval[1]), doc),
     filename,
   };
 };
-- 
2.43.0


From 6121e80253d2548dbcec76a26ae4cb2445dd7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:14 +0000
Subject: [PATCH 31/35] fix: let cargo ifc check crates which use other crates
 of the workspace

The analysis stopped rustc before it wrote the crate's metadata, so cargo could not check any other crate (the binary of a package with a library, another member) which uses it, and the command failed.
---
 crates/flowistry_ifc/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/lib.rs b/crates/flowistry_ifc/src/lib.rs
index e703540..91685ec 100644
--- a/crates/flowistry_ifc/src/lib.rs
+++ b/crates/flowistry_ifc/src/lib.rs
@@ -102,6 +102,6 @@ impl rustc_driver::Callbacks for Callbacks {
       writeln!(stdout, "No security issues found!",).unwrap();
     }
 
-    rustc_driver::Compilation::Stop
+    rustc_driver::Compilation::Continue
   }
 }
-- 
2.43.0


From 236e77803eeb0a6e843aaf2eb1a11811637fffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 32/35] fix: count the nesting of an async function's
 parameters from the parameter

---
 crates/flowistry/src/mir/aliases.rs   |  4 ++--
 crates/flowistry/src/mir/placeinfo.rs |  7 +++++--
 crates/flowistry/src/mir/utils.rs     | 16 ++++++++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index d7a20e1..625fb31 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -22,7 +22,7 @@ use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
 
 use crate::{
   extensions::{PointerMode, is_extension_active},
-  mir::utils::{AsyncHack, PlaceSet},
+  mir::utils::{self, AsyncHack, PlaceSet},
 };
 
 type BorrowckLocationIndex =
@@ -218,7 +218,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
           // Need a way to limit the number of possible pointers for functions with
           // many pointers in the input. This is almost certainly not sound, but hopefully
           // it works for most cases.
-          if place.projection.len() <= 2 {
+          if utils::depth_in_arg(place, body, tcx) <= 2 {
             region_contains.insert((tcx.mk_place_deref(place), mutability));
           }
         }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index b6be623..9ecfe60 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -23,7 +23,10 @@ use rustc_utils::{
   },
 };
 
-use super::{aliases::Aliases, utils::PlaceSet};
+use super::{
+  aliases::Aliases,
+  utils::{self, PlaceSet},
+};
 use crate::extensions::{MutabilityMode, is_extension_active};
 
 /// Utilities for analyzing places: children, aliases, etc.
@@ -190,7 +193,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .flat_map(|ptrs| {
           ptrs
             .into_iter()
-            .filter(|(ptr, _)| ptr.projection.len() <= 2)
+            .filter(|(ptr, _)| utils::depth_in_arg(*ptr, self.body, self.tcx) <= 2)
             .map(|(ptr, _)| self.tcx.mk_place_deref(ptr))
         });
       ptrs
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 02b7043..8bfb0fe 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -55,6 +55,22 @@ pub fn arg_places<'tcx>(args: &[Spanned<Operand<'tcx>>]) -> Vec<(usize, Place<'t
     .collect::<Vec<_>>()
 }
 
+/// Returns how deep `place` is nested in the argument it belongs to.
+///
+/// The captured variables of a closure, and the parameters of an async function, are fields
+/// of the first argument of its body, so their depth is counted from that field.
+pub(crate) fn depth_in_arg<'tcx>(
+  place: Place<'tcx>,
+  body: &Body<'tcx>,
+  tcx: TyCtxt<'tcx>,
+) -> usize {
+  let captured = place.iter_projections().position(|(base, _)| {
+    let ty = base.ty(body.local_decls(), tcx).ty;
+    ty.is_closure() || ty.is_coroutine()
+  });
+  place.projection.len() - captured.map_or(0, |i| i + 1)
+}
+
 /// A hack to temporary hack to reduce spurious dependencies in generators
 /// arising from async functions.
 ///
-- 
2.43.0


From b5555b7960cb2fa595684aac49e5135176571372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 33/35] fix: name the parameter of an async function when a
 flow starts or ends there

---
 crates/flowistry_ifc/src/analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index a8abc93..dfa8b33 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -157,7 +157,9 @@ pub fn analyze<'tcx>(
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(tcx.hir_body_owner(*body_id));
+    // The parameters of an async function are outside of the body which uses them.
+    let item = tcx.typeck_root_def_id(def_id).expect_local();
+    let body_span = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(item));
     let src_span = decls[src].source_info.span.as_local(body_span);
     let dst_span = decls[dst].source_info.span.as_local(body_span);
 
-- 
2.43.0


From 8325b662289822d4b295f7c45c205333a5bc7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:52 +0000
Subject: [PATCH 34/35] fix: do not recurse into functions whose inputs hide
 references

---
 crates/flowistry/src/infoflow/recursive.rs | 35 ++++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 2349e0f..8630698 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -5,7 +5,7 @@ use std::iter;
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, Ty, TyKind},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{
@@ -50,8 +50,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, generic_args) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, generic_args) => (def_id, *generic_args),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -113,6 +113,35 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // References inside of a value whose type the callee does not know, or inside of fields
+    // which the callee or the caller cannot access, have no place in the analysis of either
+    // function. So it would miss the effects of the call on what they point to.
+    let contains_refs = |ty: Ty<'tcx>| {
+      ty.walk()
+        .any(|arg| matches!(arg.kind(), GenericArgKind::Lifetime(_)))
+    };
+    let hides_refs = |ty: Ty<'tcx>| match ty.kind() {
+      TyKind::Dynamic(..) => true,
+      TyKind::Adt(adt_def, args) if !ty.is_box() => adt_def.all_fields().any(|field| {
+        let accessible = [self.def_id, *def_id]
+          .into_iter()
+          .all(|from| field.vis.is_accessible_from(from, tcx));
+        !accessible && contains_refs(field.ty(tcx, args))
+      }),
+      _ => false,
+    };
+    let any_hidden_refs = generic_args.types().any(contains_refs)
+      || parent_arg_places.iter().any(|(_, place)| {
+        place
+          .interior_paths(tcx, self.body, self.def_id)
+          .into_iter()
+          .any(|place| hides_refs(place.ty(self.body.local_decls(), tcx).ty))
+      });
+    if any_hidden_refs {
+      debug!("  Func has inputs with hidden references");
+      return false;
+    }
+
     let recursive = BODY_STACK.with(|body_stack| {
       let body_stack = body_stack.borrow();
       body_stack.contains(&body_id)
-- 
2.43.0


From a44c9dc1129d6de36565b2a6c484d65573490c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:31 +0000
Subject: [PATCH 35/35] fix: count a field of an enum's variant as one level of
 nesting

---
 crates/flowistry/src/mir/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 8bfb0fe..b196757 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -58,7 +58,8 @@ pub fn arg_places<'tcx>(args: &[Spanned<Operand<'tcx>>]) -> Vec<(usize, Place<'t
 /// Returns how deep `place` is nested in the argument it belongs to.
 ///
 /// The captured variables of a closure, and the parameters of an async function, are fields
-/// of the first argument of its body, so their depth is counted from that field.
+/// of the first argument of its body, so their depth is counted from that field. A field of an
+/// enum's variant is one level deep, like a field of a struct.
 pub(crate) fn depth_in_arg<'tcx>(
   place: Place<'tcx>,
   body: &Body<'tcx>,
@@ -68,7 +69,12 @@ pub(crate) fn depth_in_arg<'tcx>(
     let ty = base.ty(body.local_decls(), tcx).ty;
     ty.is_closure() || ty.is_coroutine()
   });
-  place.projection.len() - captured.map_or(0, |i| i + 1)
+  place
+    .projection
+    .iter()
+    .skip(captured.map_or(0, |i| i + 1))
+    .filter(|elem| !matches!(elem, PlaceElem::Downcast(..)))
+    .count()
 }
 
 /// A hack to temporary hack to reduce spurious dependencies in generators
-- 
2.43.0

