From 9f19bf5abbb8cddb1258de1140cb59f70e37934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 01/22] fix: forget states passed on a failed saving output in
 the consistency check

A state of a branch that turned out inconsistent stayed on the passed list
and was taken for consistent when met again, so the verdict depended on the
iteration order of the action sets. States passed on a failing branch are
now dropped, and actions are visited in a fixed order.
---
 src/System/local_consistency.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..b3987ca 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -1,4 +1,5 @@
 use edbm::zones::OwnedFederation;
+use itertools::Itertools;
 use log::warn;
 
 use crate::ModelObjects::State;
@@ -94,7 +95,8 @@ pub fn consistency_least_helper(
 
     passed_list.push(state.clone());
 
-    for input in system.get_input_actions() {
+    // The actions are visited in a fixed order, as a passed state hides the states it contains
+    for input in system.get_input_actions().into_iter().sorted() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
@@ -109,14 +111,17 @@ pub fn consistency_least_helper(
         return Ok(());
     }
 
-    for output in system.get_output_actions() {
+    for output in system.get_output_actions().into_iter().sorted() {
         for transition in system.next_outputs(&state.decorated_locations, &output) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
+                let passed_before = passed_list.len();
                 if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
                     return Ok(());
                 }
+                // The states passed on a failing branch may be inconsistent themselves
+                passed_list.truncate(passed_before);
             }
         }
     }
-- 
2.43.0


From ed7c44fa6c57f73a7ee2d1d9b47ddf43a8878043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 02/22] fix: undo updates last to first when a clock is updated
 twice

---
 src/ModelObjects/transition.rs | 5 ++---
 src/System/input_enabler.rs    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..bd6945f 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // Undo the updates last to first: a clock may be updated more than once
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..2d3ddfb 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,8 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    // Undo the updates last to first: a clock may be updated more than once
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From bf0e8ebc43bd79c71dad166248cd716e901ec6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 03/22] fix: parse and accept disjunctions of clock constraints
 in states

---
 src/DataReader/parse_queries.rs | 77 ++++++++++++++++-----------------
 src/System/extract_state.rs     |  4 +-
 2 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..c8d4998 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -80,50 +80,49 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 }
 
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
+    match pair.as_rule() {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let rule = pair.as_rule();
 
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+            let mut inner = pair.into_inner();
+            let len = inner.clone().count();
+            if len == 1 {
+                return parse_state(inner.next().unwrap());
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
+                Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
+                _ => unreachable!(),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
+        }
+        Rule::notExpr => {
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
 
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+            let first = parse_operand(first);
+            let second = parse_operand(second);
+            match op.as_rule() {
+                Rule::leq_op => StateExpression::LEQ(first, second),
+                Rule::geq_op => StateExpression::GEQ(first, second),
+                Rule::eq_op => StateExpression::EQ(first, second),
+                Rule::lt_op => StateExpression::LT(first, second),
+                Rule::gt_op => StateExpression::GT(first, second),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        )),
+        Rule::bool_true => StateExpression::Bool(true),
+        Rule::bool_false => StateExpression::Bool(false),
+        _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..0a2a2d7 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -74,9 +74,9 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions of locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From 3aa4aed5f19fdf68e1882c8e81b0c5720e2f1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 04/22] fix: let time pass in the start state of a reachability
 query

---
 src/System/reachability.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/System/reachability.rs b/src/System/reachability.rs
index 7497f9b..645ccbb 100644
--- a/src/System/reachability.rs
+++ b/src/System/reachability.rs
@@ -103,6 +103,9 @@ fn reachability_search(
     // Apply the invariant of the start state to the start state
     let mut start_state = start_state.clone();
     start_state.apply_invariants();
+    // Time may pass in the start state
+    start_state.update_zone(|zone| zone.up());
+    start_state.apply_invariants();
 
     // hashmap linking every location to all its current zones
     let mut visited_states: HashMap<LocationID, Vec<OwnedFederation>> = HashMap::new();
-- 
2.43.0


From 09678502c68528fe594466a6710de13186734243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 05/22] fix: keep a leaf for each component in the ids of
 partial transitions

---
 src/TransitionSystems/composition.rs       |  4 +--
 src/TransitionSystems/quotient.rs          | 33 ++++++++++++++--------
 src/TransitionSystems/transition_system.rs | 32 ++++++++++++++++++++-
 3 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/TransitionSystems/composition.rs b/src/TransitionSystems/composition.rs
index a3e12c2..96ccde0 100644
--- a/src/TransitionSystems/composition.rs
+++ b/src/TransitionSystems/composition.rs
@@ -91,7 +91,7 @@ impl ComposedTransitionSystem for Composition {
             let left = self.left.next_transitions(loc_left, action);
             return Transition::combinations(
                 &left,
-                &vec![Transition::without_id(loc_right, self.dim)],
+                &vec![self.right.without_edges(loc_right)],
                 CompositionType::Composition,
             );
         }
@@ -99,7 +99,7 @@ impl ComposedTransitionSystem for Composition {
         if self.right_unique_actions.contains(action) {
             let right = self.right.next_transitions(loc_right, action);
             return Transition::combinations(
-                &vec![Transition::without_id(loc_left, self.dim)],
+                &vec![self.left.without_edges(loc_left)],
                 &right,
                 CompositionType::Composition,
             );
diff --git a/src/TransitionSystems/quotient.rs b/src/TransitionSystems/quotient.rs
index e80cd49..3f72930 100644
--- a/src/TransitionSystems/quotient.rs
+++ b/src/TransitionSystems/quotient.rs
@@ -144,7 +144,7 @@ impl TransitionSystem for Quotient {
         if location.is_inconsistent() {
             //Rule 10
             if is_input {
-                let mut transition = Transition::without_id(location, self.dim);
+                let mut transition = self.without_edges(location);
                 transition.guard_zone = transition
                     .guard_zone
                     .constrain_eq(self.quotient_clock_index, 0);
@@ -153,7 +153,7 @@ impl TransitionSystem for Quotient {
             return transitions;
         } else if location.is_universal() {
             // Rule 9
-            let transition = Transition::without_id(location, self.dim);
+            let transition = self.without_edges(location);
             transitions.push(transition);
             return transitions;
         }
@@ -204,7 +204,10 @@ impl TransitionSystem for Quotient {
                 let target_locations = merge(loc_t, &s_transition.target_locations);
                 let updates = s_transition.updates.clone();
                 transitions.push(Transition {
-                    id: TransitionID::Quotient(Vec::new(), vec![s_transition.id.clone()]),
+                    id: TransitionID::Quotient(
+                        vec![self.T.get_no_edges_id()],
+                        vec![s_transition.id.clone()],
+                    ),
                     guard_zone,
                     target_locations,
                     updates,
@@ -225,7 +228,7 @@ impl TransitionSystem for Quotient {
             let inv_l_s = loc_s.apply_invariants(OwnedFederation::universe(self.dim));
 
             transitions.push(Transition {
-                id: TransitionID::Quotient(Vec::new(), s.iter().map(|t| t.id.clone()).collect()),
+                id: TransitionID::Quotient(vec![self.T.get_no_edges_id()], ids_of(&s, &self.S)),
                 guard_zone: (!inv_l_s) + (!g_s),
                 target_locations: self.universal_location.clone(),
                 updates: vec![],
@@ -235,7 +238,7 @@ impl TransitionSystem for Quotient {
             let inv_l_s = loc_s.apply_invariants(OwnedFederation::universe(self.dim));
 
             transitions.push(Transition {
-                id: TransitionID::None,
+                id: self.get_no_edges_id(),
                 guard_zone: !inv_l_s,
                 target_locations: self.universal_location.clone(),
                 updates: vec![],
@@ -264,10 +267,7 @@ impl TransitionSystem for Quotient {
                 }];
 
                 transitions.push(Transition {
-                    id: TransitionID::Quotient(
-                        t.iter().map(|t| t.id.clone()).collect(),
-                        vec![s_transition.id.clone()],
-                    ),
+                    id: TransitionID::Quotient(ids_of(&t, &self.T), vec![s_transition.id.clone()]),
                     guard_zone,
                     target_locations: self.inconsistent_location.clone(),
                     updates,
@@ -287,7 +287,7 @@ impl TransitionSystem for Quotient {
             }];
 
             transitions.push(Transition {
-                id: TransitionID::None,
+                id: self.get_no_edges_id(),
                 guard_zone,
                 target_locations: self.inconsistent_location.clone(),
                 updates,
@@ -304,7 +304,10 @@ impl TransitionSystem for Quotient {
                 let updates = t_transition.updates.clone();
 
                 transitions.push(Transition {
-                    id: TransitionID::Quotient(vec![t_transition.id.clone()], Vec::new()),
+                    id: TransitionID::Quotient(
+                        vec![t_transition.id.clone()],
+                        vec![self.S.get_no_edges_id()],
+                    ),
                     guard_zone,
                     target_locations,
                     updates,
@@ -405,6 +408,14 @@ fn merge(t: &LocationTree, s: &LocationTree) -> LocationTree {
     LocationTree::merge_as_quotient(t, s)
 }
 
+/// The ids of the transitions of `system`, or the id of no edges if there are none.
+fn ids_of(transitions: &[Transition], system: &TransitionSystemPtr) -> Vec<TransitionID> {
+    if transitions.is_empty() {
+        return vec![system.get_no_edges_id()];
+    }
+    transitions.iter().map(|t| t.id.clone()).collect()
+}
+
 fn get_allowed_fed(from: &LocationTree, transition: &Transition) -> OwnedFederation {
     let fed = transition.get_allowed_federation();
     from.apply_invariants(fed)
diff --git a/src/TransitionSystems/transition_system.rs b/src/TransitionSystems/transition_system.rs
index 11b3ae6..365bd13 100644
--- a/src/TransitionSystems/transition_system.rs
+++ b/src/TransitionSystems/transition_system.rs
@@ -1,5 +1,5 @@
 use super::ComponentInfo;
-use super::{CompositionType, LocationID, LocationTree};
+use super::{CompositionType, LocationID, LocationTree, TransitionID};
 use crate::parse_queries::parse_to_system_expr;
 use crate::EdgeEval::updater::CompiledUpdate;
 use crate::ModelObjects::{Component, Declarations, State, Transition};
@@ -134,6 +134,36 @@ pub trait TransitionSystem: DynClone {
 
     fn get_composition_type(&self) -> CompositionType;
 
+    /// The [`TransitionID`] of a transition in which no component of this system takes an edge.
+    /// It has the shape of the system, so that it has a leaf for each component.
+    fn get_no_edges_id(&self) -> TransitionID {
+        let composition_type = self.get_composition_type();
+        if composition_type == CompositionType::Simple {
+            return TransitionID::None;
+        }
+
+        let (left, right) = self.get_children();
+        let (left, right) = (left.get_no_edges_id(), right.get_no_edges_id());
+        match composition_type {
+            CompositionType::Conjunction => {
+                TransitionID::Conjunction(Box::new(left), Box::new(right))
+            }
+            CompositionType::Composition => {
+                TransitionID::Composition(Box::new(left), Box::new(right))
+            }
+            CompositionType::Quotient => TransitionID::Quotient(vec![left], vec![right]),
+            CompositionType::Simple => unreachable!(),
+        }
+    }
+
+    /// A transition to `location` in which no component of this system takes an edge.
+    fn without_edges(&self, location: &LocationTree) -> Transition {
+        Transition {
+            id: self.get_no_edges_id(),
+            ..Transition::without_id(location, self.get_dim())
+        }
+    }
+
     fn comp_infos(&'_ self) -> ComponentInfoTree<'_> {
         let (left, right) = self.get_children();
         let left_info = left.comp_infos();
-- 
2.43.0


From e97c71181eb6a13fa6f14d24e0d9f033839b3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 06/22] fix: keep guards and invariants that do not depend on a
 removed clock

---
 src/ModelObjects/component.rs | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..c9c6fdf 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -1,7 +1,9 @@
 use crate::DataReader::serialization::{decode_declarations, DummyComponent};
+use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
+use edbm::zones::OwnedFederation;
 
 use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
@@ -117,6 +119,7 @@ impl Component {
             .get_clock_name_by_index(index)
             .expect("Couldn't find clock with index")
             .to_owned();
+        let declarations = self.declarations.clone();
         self.declarations.clocks.remove(&name);
 
         // Removes from from updates and guards
@@ -124,11 +127,8 @@ impl Component {
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
                 if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
+                    *guard = without_clock(guard, index, &declarations);
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -136,14 +136,11 @@ impl Component {
             });
 
         // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
         self.locations
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
             .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+            .for_each(|i| *i = without_clock(i, index, &declarations));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
@@ -177,6 +174,34 @@ impl Component {
     }
 }
 
+/// Rewrites a guard or an invariant that mentions a removed clock.
+/// When the values it allows do not depend on the clock (e.g. `x >= 0`), the result allows the same
+/// values. Otherwise the result is `false`, since we assume that all edges with such guards and all
+/// locations with such invariants are not reachable in some composite system.
+fn without_clock(
+    expression: &BoolExpression,
+    clock: ClockIndex,
+    declarations: &Declarations,
+) -> BoolExpression {
+    let dim = declarations.clocks.values().max().map_or(1, |max| max + 1);
+    let constraints =
+        apply_constraints_to_state(expression, declarations, OwnedFederation::universe(dim))
+            .expect("Failed to apply expression")
+            .minimal_constraints();
+
+    if constraints
+        .conjunctions
+        .iter()
+        .flat_map(|conjunction| conjunction.iter())
+        .any(|constraint| constraint.i == clock || constraint.j == clock)
+    {
+        return BoolExpression::Bool(false);
+    }
+
+    BoolExpression::from_disjunction(&constraints, &declarations.clocks)
+        .unwrap_or(BoolExpression::Bool(true))
+}
+
 pub trait DeclarationProvider {
     fn get_declarations(&self) -> &Declarations;
 }
-- 
2.43.0


From a1b977f54ced0743a984ecca57b2283a6a74d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 07/22] fix: compare the delays of the initial states in a
 refinement check

---
 src/System/refine.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..c477cdf 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,8 +143,15 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
-    if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
-        return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
+    match prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
+        InitResult::Valid => {}
+        InitResult::Empty => {
+            return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
+        }
+        InitResult::CutsDelaySolutions => {
+            // No action leads to the initial state
+            return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+        }
     }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
@@ -407,18 +414,37 @@ fn build_state_pair(
     BuildResult::Success
 }
 
+enum InitResult {
+    Valid,
+    Empty,
+    CutsDelaySolutions,
+}
+
 fn prepare_init_state(
     initial_pair: &mut StatePair,
     initial_locations_1: LocationTree,
     initial_locations_2: LocationTree,
-) -> bool {
+) -> InitResult {
     let mut sp_zone = initial_pair.take_zone();
     sp_zone = initial_locations_1.apply_invariants(sp_zone);
+
+    // Clone the zone before applying right side invariants
+    let s_invariant = sp_zone.clone();
+
     sp_zone = initial_locations_2.apply_invariants(sp_zone);
 
     initial_pair.set_zone(sp_zone);
 
-    !initial_pair.ref_zone().is_empty()
+    if initial_pair.ref_zone().is_empty() {
+        return InitResult::Empty;
+    }
+
+    // As for any other pair, the right side must not cut delay solutions from the left side
+    if s_invariant.subset_eq(&initial_pair.clone_zone().down()) {
+        InitResult::Valid
+    } else {
+        InitResult::CutsDelaySolutions
+    }
 }
 
 fn check_preconditions(
-- 
2.43.0


From 93b2f51a56b17d5fcc02a90ae6708ae876e06a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 08/22] fix: look into the operands of quotients for redundant
 clocks

---
 src/TransitionSystems/transition_system.rs | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/TransitionSystems/transition_system.rs b/src/TransitionSystems/transition_system.rs
index 365bd13..1b353f5 100644
--- a/src/TransitionSystems/transition_system.rs
+++ b/src/TransitionSystems/transition_system.rs
@@ -265,7 +265,31 @@ pub trait TransitionSystem: DynClone {
     }
 
     fn find_redundant_clocks(&self) -> Vec<ClockReductionInstruction> {
-        self.get_analysis_graph().find_clock_redundancies()
+        let mut graph = self.get_analysis_graph();
+        self.add_quotient_operands(&mut graph);
+        graph.find_clock_redundancies()
+    }
+
+    /// Adds the transitions and locations of the operands of quotients to the [ClockAnalysisGraph].
+    /// They decide where a quotient leads to its error and universal locations, also those that
+    /// are not a part of any location reached in the quotient.
+    fn add_quotient_operands(&self, graph: &mut ClockAnalysisGraph) {
+        if self.get_composition_type() == CompositionType::Simple {
+            return;
+        }
+        let (left, right) = self.get_children();
+        for operand in [left, right] {
+            if self.get_composition_type() == CompositionType::Quotient {
+                let operand_graph = operand.get_analysis_graph();
+                graph.edges.extend(operand_graph.edges);
+                for node in operand_graph.nodes.into_values() {
+                    // The same location may be a part of several operands
+                    let key = format!("{} (operand {})", node.id, graph.nodes.len());
+                    graph.nodes.insert(key, node);
+                }
+            }
+            operand.add_quotient_operands(graph);
+        }
     }
 
     fn construct_location_tree(&self, target: SpecificLocation) -> Result<LocationTree, String>;
-- 
2.43.0


From 54fa151e14f3a5feb6599b44803f54fe50d7309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 09/22] fix: only pair transitions that both sides allow in a
 refinement check

---
 src/System/refine.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index c477cdf..1b73341 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -349,10 +349,9 @@ fn build_state_pair(
     //Apply guards on both sides
     let (locations1, locations2) = new_sp.get_mut_states(is_state1);
 
-    //Applies the left side guards and checks if zone is valid
-    new_sp_zone = transition1.apply_guards(new_sp_zone);
-    //Applies the right side guards and checks if zone is valid
-    new_sp_zone = transition2.apply_guards(new_sp_zone);
+    // Keeps only what both sides allow: the guards and the invariants of the locations entered
+    new_sp_zone = new_sp_zone.intersection(&transition1.get_allowed_federation());
+    new_sp_zone = new_sp_zone.intersection(&transition2.get_allowed_federation());
 
     // Continue to the next transition pair if the zone is empty
     if new_sp_zone.is_empty() {
-- 
2.43.0


From 0ba10b40a0548fc170245419cdc02d2cf048682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 10/22] fix: replace component files atomically and durably
 when saving

---
 src/DataReader/json_writer.rs | 45 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/DataReader/json_writer.rs b/src/DataReader/json_writer.rs
index a1bef70..2182287 100644
--- a/src/DataReader/json_writer.rs
+++ b/src/DataReader/json_writer.rs
@@ -1,15 +1,46 @@
 use crate::ModelObjects::Component;
-use std::{fs::File, path::Path};
+use std::fs::{self, File};
+use std::io::{self, Write};
+use std::path::Path;
 
 pub fn component_to_json_file<P: AsRef<Path>>(project_path: P, component: &Component) {
-    let path = project_path
-        .as_ref()
-        .join("Components")
-        .join(format!("{}.json", component.name));
+    let folder = project_path.as_ref().join("Components");
+    let json = serde_json::to_vec_pretty(component).expect("Failed to serialize component");
 
-    let file = File::create(path).expect("Couldnt open file");
+    replace_file(&folder, &format!("{}.json", component.name), &json)
+        .expect("Failed to save component");
+}
+
+/// Replaces the content of a file such that, whatever happens meanwhile, the file holds either all
+/// of the old content or all of the new content, and holds the new content from the return on.
+fn replace_file(folder: &Path, name: &str, content: &[u8]) -> io::Result<()> {
+    let temporary = folder.join(format!("{}.{}.tmp", name, std::process::id()));
+
+    let result = write_durably(&temporary, content)
+        .and_then(|_| fs::rename(&temporary, folder.join(name)))
+        .and_then(|_| sync_folder(folder));
+    if result.is_err() {
+        // The error is what matters, the file may not even exist
+        let _ = fs::remove_file(&temporary);
+    }
+
+    result
+}
+
+fn write_durably(path: &Path, content: &[u8]) -> io::Result<()> {
+    let mut file = File::create(path)?;
+    file.write_all(content)?;
+    file.sync_all()
+}
+
+#[cfg(unix)]
+fn sync_folder(folder: &Path) -> io::Result<()> {
+    File::open(folder)?.sync_all()
+}
 
-    serde_json::to_writer_pretty(&file, component).expect("Failed to serialize component");
+#[cfg(not(unix))]
+fn sync_folder(_: &Path) -> io::Result<()> {
+    Ok(())
 }
 
 pub fn component_to_json(component: &Component) -> String {
-- 
2.43.0


From 45ea6a9a8dafebbbe749e6956742d55386d34ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 11/22] fix: keep the structure of conditions and terms when
 they are encoded

---
 .../Expressions/arith_expression.rs           | 55 ++++++++++++++-----
 .../Expressions/bool_expression.rs            | 19 +++++--
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..4062016 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -57,27 +57,52 @@ impl ArithExpression {
 
     pub fn encode_expr(&self) -> String {
         match self {
-            ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
-            }
-            ArithExpression::Addition(left, right) => {
-                [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
-            }
-            ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
-            }
-            ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
-            }
-            ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
-            }
+            ArithExpression::Difference(left, right) => [
+                left.encode_operand(),
+                String::from("-"),
+                right.encode_operand(),
+            ]
+            .concat(),
+            ArithExpression::Addition(left, right) => [
+                left.encode_operand(),
+                String::from("+"),
+                right.encode_operand(),
+            ]
+            .concat(),
+            ArithExpression::Multiplication(left, right) => [
+                left.encode_operand(),
+                String::from("*"),
+                right.encode_operand(),
+            ]
+            .concat(),
+            ArithExpression::Division(left, right) => [
+                left.encode_operand(),
+                String::from("/"),
+                right.encode_operand(),
+            ]
+            .concat(),
+            ArithExpression::Modulo(left, right) => [
+                left.encode_operand(),
+                String::from("%"),
+                right.encode_operand(),
+            ]
+            .concat(),
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
             ArithExpression::Int(num) => num.to_string(),
         }
     }
 
+    /// Encodes an operand of an arithmetic operator, in parentheses if it could be torn apart otherwise
+    fn encode_operand(&self) -> String {
+        match self {
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) | ArithExpression::Int(_) => {
+                self.encode_expr()
+            }
+            _ => format!("({})", self.encode_expr()),
+        }
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..1dbd192 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -63,15 +63,15 @@ impl BoolExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             BoolExpression::AndOp(left, right) => [
-                left.encode_expr(),
+                left.encode_operand_of(self),
                 String::from(" && "),
-                right.encode_expr(),
+                right.encode_operand_of(self),
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
-                left.encode_expr(),
+                left.encode_operand_of(self),
                 String::from(" || "),
-                right.encode_expr(),
+                right.encode_operand_of(self),
             ]
             .concat(),
             BoolExpression::LessEQ(left, right) => {
@@ -93,6 +93,17 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes an operand of a boolean operator, in parentheses if the operators differ
+    fn encode_operand_of(&self, operator: &Self) -> String {
+        match (operator, self) {
+            (BoolExpression::AndOp(_, _), BoolExpression::OrOp(_, _))
+            | (BoolExpression::OrOp(_, _), BoolExpression::AndOp(_, _)) => {
+                format!("({})", self.encode_expr())
+            }
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From f7521d64326bc2d29986589504934bb8c0ebe7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 12/22] fix: write conditions on differences of clocks without
 negative constants

---
 src/ModelObjects/Expressions/bool_expression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 1dbd192..2ad05bd 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -209,6 +209,18 @@ impl BoolExpression {
                             var_from_naming(naming, j),
                         ),
                     }
+                } else if bound < 0 {
+                    // i-j<=-c -> j-i >= c, as there are no negative constants in a condition
+                    match is_strict {
+                        true => BoolExpression::GreatT(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                        false => BoolExpression::GreatEQ(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                    }
                 } else {
                     match is_strict {
                         true => BoolExpression::LessT(
-- 
2.43.0


From bda561946c73e321592cc64f7d213037df2d94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 13/22] fix: give every clock of a saved component a name of
 its own

A clock that clashed with one of an earlier component was renamed by
appending the component's number, even where another clock already had
that name: one of the two was lost and saving the component panicked.
---
 src/System/save_component.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..4eacc74 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,11 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            while clocks.contains_key(&name) {
+                name = format!("{}{}", name, comp_id);
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From 04a01639c3c0ae8b47aea9c9ddab014604bb2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 14/22] fix: number the clocks of a saved component from 1

The component a query saves stays in memory with the clock indices it had
in the whole system, although everything that uses a component expects
them to start from 1. A later query of the same process on the saved
component panicked or ran with too small a zone.
---
 src/ModelObjects/component.rs  | 13 +++++++++++++
 src/System/executable_query.rs |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index c9c6fdf..0477beb 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -109,6 +109,19 @@ impl Component {
         }
     }
 
+    /// Numbers the clocks of the component itself from 1, as if it had just been read.
+    pub fn remake_clock_indices(&mut self) {
+        let clocks = &mut self.declarations.clocks;
+        let ordered = clocks
+            .iter()
+            .map(|(name, index)| (*index, name.clone()))
+            .sorted();
+        *clocks = ordered
+            .enumerate()
+            .map(|(index, (_, name))| (name, index + 1))
+            .collect();
+    }
+
     /// Removes unused clock
     /// # Arguments
     /// `index`: The index to be removed
diff --git a/src/System/executable_query.rs b/src/System/executable_query.rs
index 4d2888a..81c334a 100644
--- a/src/System/executable_query.rs
+++ b/src/System/executable_query.rs
@@ -111,6 +111,7 @@ impl<'a> ExecutableQuery for GetComponentExecutor<'a> {
         comp.name = self.comp_name;
 
         comp.remake_edge_ids();
+        comp.remake_clock_indices();
 
         self.component_loader.save_component(comp.clone());
 
-- 
2.43.0


From 18d1fc8f85e1367573ae4ec56e98bcb5ea1005ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 15/22] fix: judge determinism by the states a component can
 reach

---
 src/System/local_consistency.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index b3987ca..6eb8b72 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -27,9 +27,7 @@ pub fn check_determinism(system: &dyn TransitionSystem) -> DeterminismResult {
     if state.is_none() {
         return Ok(());
     }
-    let mut state = state.unwrap();
-    state.update_zone(|_| OwnedFederation::universe(system.get_dim()));
-    is_deterministic_helper(state, &mut passed, system)
+    is_deterministic_helper(state.unwrap(), &mut passed, system)
 }
 
 fn is_deterministic_helper(
@@ -49,7 +47,10 @@ fn is_deterministic_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 let mut allowed_fed = transition.get_allowed_federation();
-                allowed_fed = state.decorated_locations.apply_invariants(allowed_fed);
+                allowed_fed = state
+                    .decorated_locations
+                    .apply_invariants(allowed_fed)
+                    .intersection(state.zone_ref());
                 if allowed_fed.has_intersection(&location_fed) {
                     warn!(
                         "Not deterministic from location {} failing action {}",
-- 
2.43.0


From 5fdc254fea8e108bf20b8967906a72cb79607ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:33 +0000
Subject: [PATCH 16/22] fix: accept conditions that say nothing

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..ad82664 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -84,8 +84,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     // Check if there are any constraints
     let result = match guard.into_inner().next() {
-        Some(bool_expr) => parse_bool_expr(bool_expr),
-        None => BoolExpression::Bool(true),
+        Some(bool_expr) if bool_expr.as_rule() == Rule::boolExpr => parse_bool_expr(bool_expr),
+        _ => BoolExpression::Bool(true),
     };
 
     Ok(result)
-- 
2.43.0


From 8aaa209efc28ed76b84329b5b711edbd10a4e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 17/22] fix: respect the constants of a comparison however it
 is written

The bounds for extrapolation were only found for comparisons of the form
'clock op number' or 'number op clock': with x - 1 < 3 or x < 2 + 2 zones
were widened too far, and verdicts were wrong.
---
 src/EdgeEval/constraint_applyer.rs              |  2 +-
 src/ModelObjects/Expressions/bool_expression.rs | 15 +++++++++------
 src/ModelObjects/component.rs                   |  6 +++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..1becebf 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -69,7 +69,7 @@ fn apply_constraints_to_state_helper(
 }
 
 /// Assumes that the constraint is of the form left <?= right
-fn get_indices(
+pub(crate) fn get_indices(
     left: &ArithExpression,
     right: &ArithExpression,
     d: &Declarations,
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 2ad05bd..7eba356 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -8,6 +8,8 @@ use std::fmt::{Display, Formatter};
 use std::ops;
 
 use super::ArithExpression;
+use crate::EdgeEval::constraint_applyer::get_indices;
+use crate::ModelObjects::Declarations;
 
 #[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 pub enum BoolExpression {
@@ -237,15 +239,16 @@ impl BoolExpression {
         }
     }
 
-    pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
+    /// The largest constant that the clock is compared with, however the comparison is written
+    pub fn get_max_constant(&self, clock: ClockIndex, decls: &Declarations) -> i32 {
         let mut new_constraint = 0;
 
         self.iterate_constraints(&mut |left, right| {
-            //Start by matching left and right operands to get constant, this might fail if it does we skip constraint defaulting to 0
-            let constant = ArithExpression::get_constant(left, right, clock, clock_name);
-
-            if new_constraint < constant {
-                new_constraint = constant;
+            // This might fail, if it does we skip the constraint defaulting to 0
+            if let Ok((i, j, constant)) = get_indices(left, right, decls) {
+                if i == clock || j == clock {
+                    new_constraint = new_constraint.max(constant.abs());
+                }
             }
         });
 
diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 0477beb..a50d17b 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -77,18 +77,18 @@ impl Component {
 
     pub fn get_max_bounds(&self, dimensions: ClockIndex) -> Bounds {
         let mut max_bounds = Bounds::new(dimensions);
-        for (clock_name, clock_id) in &self.declarations.clocks {
+        for clock_id in self.declarations.clocks.values() {
             let max_bound = i32::max(
                 self.edges
                     .iter()
                     .filter_map(|e| e.guard.clone())
-                    .map(|g| g.get_max_constant(*clock_id, clock_name))
+                    .map(|g| g.get_max_constant(*clock_id, &self.declarations))
                     .max()
                     .unwrap_or_default(),
                 self.locations
                     .iter()
                     .filter_map(|l| l.invariant.clone())
-                    .map(|i| i.get_max_constant(*clock_id, clock_name))
+                    .map(|i| i.get_max_constant(*clock_id, &self.declarations))
                     .max()
                     .unwrap_or_default(),
             );
-- 
2.43.0


From b54aced008e43b058ddc11be189ff9674ddb073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 18/22] fix: let names in states begin with not

---
 src/DataReader/grammars/query_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..8fe30ba 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -54,7 +54,7 @@ andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
 
 orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
 
-subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
+subExpr = _{parenthesizedSubExp | compExpr | locExpr | notExpr | bool_true | bool_false}
 
 locExpr = { variable }
 
-- 
2.43.0


From b60e5d880c1cd548a3fa899eb825e3d93c59baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 19/22] fix: refuse a composition followed by other text

---
 src/DataReader/grammars/query_grammar.pest | 2 ++
 src/DataReader/parse_queries.rs            | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 8fe30ba..955a928 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -25,6 +25,8 @@ specification = {"specification:" ~ expr}
 
 saveExpr = _{  expr  ~ ("save-as" ~ variable_name)?}
 
+system = _{SOI ~ expr ~ EOI}
+
 expr = { term ~ (featureOperator ~ term)*}
 
 term = _{ component | parenthesizedExp  }
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index c8d4998..c2b2eb9 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -241,7 +241,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::expr, input) {
+    let mut pairs = match QueryParser::parse(Rule::system, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
-- 
2.43.0


From fcdf7f2830ed8583ce4f527909ef1f51369bf448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 20/22] fix: accept white space and comments anywhere between
 declarations

---
 src/DataReader/serialization.rs | 54 +++++++++++++++------------------
 src/DataReader/xml_parser.rs    | 53 ++------------------------------
 2 files changed, 27 insertions(+), 80 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..d05aa6e 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -181,6 +181,11 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
+    Ok(parse_declarations(&s))
+}
+
+/// Parses the declarations of a component, such as `clock x, y; int i;`
+pub fn parse_declarations(s: &str) -> Declarations {
     //Split string into vector of strings
     let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
     let mut ints: HashMap<String, i32> = HashMap::new();
@@ -188,43 +193,34 @@ where
     let mut counter: ClockIndex = 1;
     for string in decls {
         //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for sub_decl in sub_decls {
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
+        let string = string.split("//").next().unwrap_or_default();
+
+        for sub_decl in string.split(';') {
+            let mut words = sub_decl
+                .split(|c: char| c.is_whitespace() || c == ',')
+                .filter(|word| !word.is_empty());
+
+            match words.next() {
+                None => {}
+                Some("clock") => {
+                    for var in words {
+                        clocks.insert(var.to_string(), counter);
+                        counter += 1;
                     }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
+                }
+                Some("int") => {
+                    for var in words {
+                        ints.insert(var.to_string(), 0);
                     }
-                } else {
+                }
+                Some(variable_type) => {
                     panic!("Not implemented read for type: \"{}\"", variable_type);
                 }
             }
         }
     }
 
-    Ok(Declarations { ints, clocks })
+    Declarations { ints, clocks }
 }
 
 /// Function used for deserializing guards
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a668934..9fcd389 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -1,10 +1,10 @@
 use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
+use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
-    Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
+    Component, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
     SystemSpecification,
 };
-use edbm::util::constraints::ClockIndex;
 use elementtree::{Element, FindChildren};
 use std::collections::HashMap;
 use std::fs::File;
@@ -146,55 +146,6 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
     edges
 }
 
-fn parse_declarations(variables: &str) -> Declarations {
-    //Split string into vector of strings
-    let decls: Vec<String> = variables.split('\n').map(|s| s.into()).collect();
-    let mut ints: HashMap<String, i32> = HashMap::new();
-    let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for mut sub_decl in sub_decls {
-            sub_decl = sub_decl.replace('\r', "");
-
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("not implemented read for type: {}", variable_type);
-                }
-            }
-        }
-    }
-
-    Declarations { ints, clocks }
-}
-
 fn decode_sync_type(global_decl: &str) -> SystemSpecification {
     let mut first_run = true;
     let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-- 
2.43.0


From cfe49b69ed440b7f26bee0c9d07e2082279b35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 21/22] fix: accept system declarations laid out in any way

---
 src/DataReader/xml_parser.rs            |  90 +-----------------
 src/ModelObjects/system_declarations.rs | 120 ++++++++++--------------
 2 files changed, 51 insertions(+), 159 deletions(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 9fcd389..5fb8daa 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -6,7 +6,6 @@ use crate::ModelObjects::{
     SystemSpecification,
 };
 use elementtree::{Element, FindChildren};
-use std::collections::HashMap;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::Read;
@@ -64,7 +63,7 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
 
     let system_declarations = SystemDeclarations {
         //name: "".to_string(),
-        declarations: decode_sync_type(root.find("system").unwrap().text()),
+        declarations: SystemSpecification::parse(root.find("system").unwrap().text()),
     };
 
     (xml_components, system_declarations, vec![])
@@ -145,90 +144,3 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
 
     edges
 }
-
-fn decode_sync_type(global_decl: &str) -> SystemSpecification {
-    let mut first_run = true;
-    let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
-
-    let mut component_names: Vec<String> = vec![];
-
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.trim().is_empty() {
-            if first_run {
-                let component_decls = declaration;
-
-                component_names = component_decls
-                    .split(' ')
-                    .map(|s| s.chars().filter(|c| !c.is_whitespace()).collect())
-                    .collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let mut s = split_str.replace('{', "");
-                        s = s.replace('\r', "");
-                        s = s.replace('\n', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
-            }
-        }
-    }
-    SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    }
-}
diff --git a/src/ModelObjects/system_declarations.rs b/src/ModelObjects/system_declarations.rs
index ff71f90..e8f9bec 100644
--- a/src/ModelObjects/system_declarations.rs
+++ b/src/ModelObjects/system_declarations.rs
@@ -66,83 +66,63 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    let mut first_run = true;
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
+    Ok(SystemSpecification::parse(&s))
+}
 
-    let mut component_names: Vec<String> = vec![];
+impl SystemSpecification {
+    /// Parses declarations of the form `system A, B; IO A { a?, b! } IO B { b? }`, where the words
+    /// may be laid out in any way and `//` starts a comment.
+    pub(crate) fn parse(text: &str) -> Self {
+        let mut components: Vec<String> = vec![];
+        let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
+        let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
 
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
+        let mut words = text
+            .lines()
+            .filter_map(|line| line.split("//").next())
+            .flat_map(|line| line.split(|c: char| c.is_whitespace() || ",;{}".contains(c)))
+            .filter(|word| !word.is_empty())
+            .peekable();
 
-        if !declaration.is_empty() {
-            if first_run {
-                let component_decls = &declaration;
-                debug!("Comp decls: {component_decls}");
-                component_names = component_decls.split(' ').map(|s| s.into()).collect();
+        match words.next() {
+            None | Some("system") => {}
+            Some(word) => panic!(
+                "Unexpected format of system declarations. Missing system in beginning, found {:?}",
+                word
+            ),
+        }
+        while let Some(name) = words.next_if(|word| *word != "IO") {
+            components.push(name.to_string());
+        }
+        debug!("Components: {components:?}");
 
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
+        while words.next().is_some() {
+            let component_name = words.next().expect("Missing component name after IO");
+            if !components.iter().any(|name| name == component_name) {
+                panic!(
+                    "Was not able to find component name: {:?} in declared component names: {:?}",
+                    component_name, components
+                )
             }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let s = split_str.replace('{', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
+            while let Some(action) = words.next_if(|word| *word != "IO") {
+                let (actions, channel) = if let Some(channel) = action.strip_suffix('?') {
+                    (&mut input_actions, channel)
+                } else if let Some(channel) = action.strip_suffix('!') {
+                    (&mut output_actions, channel)
                 } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
+                    panic!("Channel type not defined for Channel {:?}", action)
+                };
+                actions
+                    .entry(component_name.to_string())
+                    .or_default()
+                    .push(channel.to_string());
             }
         }
+
+        SystemSpecification {
+            components,
+            input_actions,
+            output_actions,
+        }
     }
-    Ok(SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    })
 }
-- 
2.43.0


From 77a531a54796c86dc9c46cefef7de7bfb6f5ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 22/22] fix: recognise XML projects by their extension

---
 src/DataReader/xml_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 5fb8daa..7d99623 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -12,7 +12,7 @@ use std::io::Read;
 use std::path::Path;
 
 pub fn is_xml_project<P: AsRef<Path>>(project_path: P) -> bool {
-    project_path.as_ref().ends_with(".xml")
+    project_path.as_ref().extension() == Some("xml".as_ref())
 }
 
 ///Used to parse systems described in xml
-- 
2.43.0

