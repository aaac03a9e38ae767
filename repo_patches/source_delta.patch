From 48fb3471e6b9ad32d334e75b2deaba60ee9c49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 01/33] fix: refinement also fails when the right side cuts the
 left side's initial delay

---
 src/System/refine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..c166b98 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,9 +143,17 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
+    // The states the left system can delay to initially, before the right side's invariant is applied
+    let left_initial = initial_locations_1.apply_invariants(initial_pair.clone_zone());
+
     if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
         return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
     }
+
+    // As for every other pair, the right side may not cut delays of the left side. No action leads here
+    if !left_initial.subset_eq(&initial_pair.clone_zone().down()) {
+        return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+    }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
     debug!("Initial {}", initial_pair);
-- 
2.43.0


From cd478e3f5100e4d60572a63ebf07bfc918571696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 02/33] fix: extrapolation bounds count constants in clock
 differences and arithmetic

---
 .../Expressions/arith_expression.rs           | 65 ++++++++++---------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..d8888e8 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -127,39 +127,46 @@ impl ArithExpression {
         }
     }
 
+    /// The largest constant that the comparison of `left` and `right` can put on `clock`,
+    /// whether the clock is alone, part of a difference of clocks or part of other arithmetic
     pub fn get_constant(left: &Self, right: &Self, clock: ClockIndex, clock_name: &str) -> i32 {
-        match left {
-            ArithExpression::Clock(clock_id) => {
-                if *clock_id == clock {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
+        if left.uses_clock(clock, clock_name) || right.uses_clock(clock, clock_name) {
+            left.constant_size().saturating_add(right.constant_size())
+        } else {
+            0
+        }
+    }
+
+    fn uses_clock(&self, clock: ClockIndex, clock_name: &str) -> bool {
+        match self {
+            ArithExpression::Difference(left, right)
+            | ArithExpression::Addition(left, right)
+            | ArithExpression::Multiplication(left, right)
+            | ArithExpression::Division(left, right)
+            | ArithExpression::Modulo(left, right) => {
+                left.uses_clock(clock, clock_name) || right.uses_clock(clock, clock_name)
+            }
+            ArithExpression::Clock(clock_id) => *clock_id == clock,
+            ArithExpression::VarName(name) => name == clock_name,
+            ArithExpression::Int(_) => false,
+        }
+    }
+
+    /// An upper bound on the absolute value of the constant part of the expression
+    fn constant_size(&self) -> i32 {
+        match self {
+            ArithExpression::Difference(left, right) | ArithExpression::Addition(left, right) => {
+                left.constant_size().saturating_add(right.constant_size())
             }
-            ArithExpression::VarName(name) => {
-                if name.eq(clock_name) {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
-                }
+            ArithExpression::Multiplication(left, right) => {
+                left.constant_size().saturating_mul(right.constant_size())
             }
-            ArithExpression::Int(constant) => match right {
-                ArithExpression::Clock(clock_id) => {
-                    if *clock_id == clock {
-                        return *constant;
-                    }
-                }
-                ArithExpression::VarName(name) => {
-                    if name.eq(clock_name) {
-                        return *constant;
-                    }
-                }
-                _ => {}
-            },
-            _ => {}
+            ArithExpression::Division(left, _) | ArithExpression::Modulo(left, _) => {
+                left.constant_size()
+            }
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) => 0,
+            ArithExpression::Int(num) => num.saturating_abs(),
         }
-
-        0
     }
 
     pub fn iterate_constraints<F>(&self, function: &mut F)
-- 
2.43.0


From 342dc86aa56d46997c0cbf69efff90a83ed83a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 03/33] fix: a state found inconsistent is not treated as
 consistent when met again

---
 src/System/local_consistency.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..160de84 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -92,8 +92,22 @@ pub fn consistency_least_helper(
         return ConsistencyFailure::inconsistent(system, &state);
     }
 
+    let visited = passed_list.len();
     passed_list.push(state.clone());
 
+    let result = consistency_of_successors(state, passed_list, system);
+    if result.is_err() {
+        // Neither this state, nor states that may have been accepted because it was being visited, are known to be consistent
+        passed_list.truncate(visited);
+    }
+    result
+}
+
+fn consistency_of_successors(
+    state: State,
+    passed_list: &mut Vec<State>,
+    system: &dyn TransitionSystem,
+) -> ConsistencyResult {
     for input in system.get_input_actions() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
             let mut new_state = state.clone();
-- 
2.43.0


From b33be148893e8db02420f376a373b7904f866286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 04/33] fix: ids of quotient transitions with an empty side
 keep left and right components apart

---
 src/TransitionSystems/transition_id.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..b23978d 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -41,15 +41,8 @@ impl TransitionID {
                 r.get_leaves_helper(current_leaves, index_left + 1) // return index right
             }
             TransitionID::Quotient(l, r) => {
-                let mut index_left = index;
-                for t in l {
-                    index_left = t.get_leaves_helper(current_leaves, index);
-                }
-                let mut index_right = index_left;
-                for s in r {
-                    index_right = s.get_leaves_helper(current_leaves, index_left + 1);
-                }
-                index_right
+                let index_left = Self::get_side_leaves(l, current_leaves, index);
+                Self::get_side_leaves(r, current_leaves, index_left + 1)
             }
             TransitionID::Simple(_) | TransitionID::None => {
                 if current_leaves.len() <= index {
@@ -61,6 +54,19 @@ impl TransitionID {
         }
     }
 
+    /// All ids on one side of a quotient describe the same components, so the side ends at the last
+    /// component any of them mentions. A side without ids still takes up a component without edges.
+    fn get_side_leaves(
+        side: &[TransitionID],
+        current_leaves: &mut Vec<Vec<TransitionID>>,
+        index: usize,
+    ) -> usize {
+        side.iter()
+            .map(|id| id.get_leaves_helper(current_leaves, index))
+            .max()
+            .unwrap_or_else(|| TransitionID::None.get_leaves_helper(current_leaves, index))
+    }
+
     /// Takes a path of TransitionIDs, and splits them into seperate paths for each component
     /// For example
     /// ```
-- 
2.43.0


From e413dda4ad71ceb1785fdd272a048b470dfc531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 05/33] fix: read disjunctions and negations in the states of a
 query

parse_state handed the operands of an || (or of an && below a !) to the Pratt parser, which expects
operators between them, so every such query panicked.
---
 src/DataReader/parse_queries.rs | 77 ++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..c8d4998 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -80,50 +80,49 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 }
 
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
+    match pair.as_rule() {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let rule = pair.as_rule();
 
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+            let mut inner = pair.into_inner();
+            let len = inner.clone().count();
+            if len == 1 {
+                return parse_state(inner.next().unwrap());
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
+                Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
+                _ => unreachable!(),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
+        }
+        Rule::notExpr => {
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
 
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+            let first = parse_operand(first);
+            let second = parse_operand(second);
+            match op.as_rule() {
+                Rule::leq_op => StateExpression::LEQ(first, second),
+                Rule::geq_op => StateExpression::GEQ(first, second),
+                Rule::eq_op => StateExpression::EQ(first, second),
+                Rule::lt_op => StateExpression::LT(first, second),
+                Rule::gt_op => StateExpression::GT(first, second),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        )),
+        Rule::bool_true => StateExpression::Bool(true),
+        Rule::bool_false => StateExpression::Bool(false),
+        _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
-- 
2.43.0


From b10b8629abb75d6578598d72ba4991a5eb13584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 06/33] fix: accept disjunctions of clock constraints in the
 states of a query

get_locations rejected every disjunction without exactly one location in it, and read one with a
location as if it were a conjunction. Disjunctions of clock constraints are supported below it;
disjunctions with locations and negations are not, and are now refused with an error.
---
 src/ModelObjects/Expressions/state_expression.rs | 7 ++++---
 src/System/extract_state.rs                      | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..170d0f2 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -141,9 +141,10 @@ impl StateExpression {
                     BoolExpression::OrOp(Box::new(acc), Box::new(e))
                 }))
             }
-            StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
-            }
+            StateExpression::NOT(expr) => Err(format!(
+                "We do not support negations in states: !({})",
+                expr
+            )),
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
                 Ok(BoolExpression::Bool(true))
diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..d8c28a2 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -74,9 +74,9 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions with locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From 9cad3e28fbd373bd29101572c58f210025719088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 07/33] fix: let time pass in the start state of a reachability
 query

An explicitly given start state was explored without delaying in it, so states reachable from it by
waiting alone were reported unreachable.
---
 src/System/reachability.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/System/reachability.rs b/src/System/reachability.rs
index 7497f9b..aad64d1 100644
--- a/src/System/reachability.rs
+++ b/src/System/reachability.rs
@@ -100,9 +100,11 @@ fn reachability_search(
     end_state: &State,
     system: &TransitionSystemPtr,
 ) -> Result<Path, PathFailure> {
-    // Apply the invariant of the start state to the start state
+    // Apply the invariant of the start state to the start state, and let time pass within it
     let mut start_state = start_state.clone();
     start_state.apply_invariants();
+    start_state.update_zone(|zone| zone.up());
+    start_state.apply_invariants();
 
     // hashmap linking every location to all its current zones
     let mut visited_states: HashMap<LocationID, Vec<OwnedFederation>> = HashMap::new();
-- 
2.43.0


From 5ea606f5123a6b0cc7446b2d2db7e54507890e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 08/33] fix: clock reduction keeps clocks that guards or
 invariants mention

---
 src/System/extract_system_rep.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..5422e96 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -287,6 +287,19 @@ impl SystemRecipe {
         }
     }
 
+    /// Whether a guard or an invariant mentions the clock, also one that never restricts anything
+    fn constrains_clock(&self, index: ClockIndex) -> bool {
+        self.get_components().iter().any(|c| {
+            c.declarations
+                .get_clock_name_by_index(index)
+                .is_some_and(|name| {
+                    let guards = c.edges.iter().filter_map(|e| e.guard.as_ref());
+                    let invariants = c.locations.iter().filter_map(|l| l.invariant.as_ref());
+                    guards.chain(invariants).any(|expr| expr.has_varname(name))
+                })
+        })
+    }
+
     fn change_quotient(&mut self, index: ClockIndex) {
         match self {
             SystemRecipe::Composition(l, r) | SystemRecipe::Conjunction(l, r) => {
@@ -371,7 +384,7 @@ pub(crate) mod clock_reduction {
         }
         let rhs = rhs.unwrap();
 
-        let (l_clocks, r_clocks) = filter_redundant_clocks(
+        let (mut l_clocks, mut r_clocks) = filter_redundant_clocks(
             lhs.clone().compile(*dim)?.find_redundant_clocks(),
             rhs.clone().compile(*dim)?.find_redundant_clocks(),
             quotient_clock,
@@ -382,6 +395,9 @@ pub(crate) mod clock_reduction {
                 .unwrap_or_default(),
         );
 
+        retain_unconstrained(lhs, &mut l_clocks);
+        retain_unconstrained(rhs, &mut r_clocks);
+
         debug!("Clocks to be reduced: {l_clocks:?} + {l_clocks:?}");
         *dim -= l_clocks
             .iter()
@@ -415,6 +431,7 @@ pub(crate) mod clock_reduction {
     ) -> Result<(), Box<SystemRecipeFailure>> {
         let mut clocks = sys.clone().compile(*dim)?.find_redundant_clocks();
         clocks.retain(|ins| ins.get_clock_index() != quotient_clock.unwrap_or_default());
+        retain_unconstrained(sys, &mut clocks);
         debug!("Clocks to be reduced: {clocks:?}");
         *dim -= clocks
             .iter()
@@ -428,6 +445,17 @@ pub(crate) mod clock_reduction {
         Ok(())
     }
 
+    /// Keeps the clocks that are mentioned in guards or invariants. Removing them would change these, and they matter
+    /// where a constraint is always satisfied, or only reached when a component is considered on its own
+    fn retain_unconstrained(sys: &SystemRecipe, clocks: &mut Vec<ClockReductionInstruction>) {
+        clocks.retain(|ins| match ins {
+            ClockReductionInstruction::RemoveClock { clock_index } => {
+                !sys.constrains_clock(*clock_index)
+            }
+            ClockReductionInstruction::ReplaceClocks { .. } => true,
+        });
+    }
+
     fn filter_redundant_clocks(
         lhs: Vec<ClockReductionInstruction>,
         rhs: Vec<ClockReductionInstruction>,
-- 
2.43.0


From c32c68fdbd6e65db5fc885c55d8c83f693551b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 09/33] fix: clock reduction keeps clocks apart that an operand
 tells apart

---
 src/System/extract_system_rep.rs | 54 +++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 5422e96..832a3b4 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -6,7 +6,7 @@ use crate::System::executable_query::{
     ReachabilityExecutor, RefinementExecutor,
 };
 use crate::System::extract_state::get_state;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::TransitionSystems::{
     CompiledComponent, Composition, Conjunction, Quotient, TransitionSystemPtr,
@@ -432,6 +432,7 @@ pub(crate) mod clock_reduction {
         let mut clocks = sys.clone().compile(*dim)?.find_redundant_clocks();
         clocks.retain(|ins| ins.get_clock_index() != quotient_clock.unwrap_or_default());
         retain_unconstrained(sys, &mut clocks);
+        retain_equivalent_in_parts(sys, *dim, &mut clocks)?;
         debug!("Clocks to be reduced: {clocks:?}");
         *dim -= clocks
             .iter()
@@ -456,6 +457,57 @@ pub(crate) mod clock_reduction {
         });
     }
 
+    /// Keeps clocks apart that a part of the system tells apart when it is considered on its own, as when the
+    /// operands of a composition are checked: it can do more there than in the system
+    fn retain_equivalent_in_parts(
+        sys: &SystemRecipe,
+        dim: usize,
+        clocks: &mut Vec<ClockReductionInstruction>,
+    ) -> Result<(), Box<SystemRecipeFailure>> {
+        let (left, right) = match sys {
+            SystemRecipe::Composition(left, right)
+            | SystemRecipe::Conjunction(left, right)
+            | SystemRecipe::Quotient(left, right, _) => (left, right),
+            SystemRecipe::Component(_) => return Ok(()),
+        };
+        for part in [left, right] {
+            let own: HashSet<ClockIndex> = part
+                .get_components()
+                .iter()
+                .flat_map(|c| c.declarations.clocks.values().copied())
+                .collect();
+            let redundant = part.clone().compile(dim)?.find_redundant_clocks();
+            let equivalent = |a: ClockIndex, b: ClockIndex| {
+                a == b
+                    || redundant.iter().any(|ins| match ins {
+                        ClockReductionInstruction::ReplaceClocks {
+                            clock_index,
+                            clock_indices,
+                        } => [a, b]
+                            .iter()
+                            .all(|c| c == clock_index || clock_indices.contains(c)),
+                        ClockReductionInstruction::RemoveClock { .. } => false,
+                    })
+            };
+            for ins in clocks.iter_mut() {
+                if let ClockReductionInstruction::ReplaceClocks {
+                    clock_index,
+                    clock_indices,
+                } = ins
+                {
+                    // All clocks of the part that stay in the group agree with this one
+                    let mut representative = Some(*clock_index).filter(|c| own.contains(c));
+                    clock_indices.retain(|clock| {
+                        !own.contains(clock)
+                            || equivalent(*representative.get_or_insert(*clock), *clock)
+                    });
+                }
+            }
+            retain_equivalent_in_parts(part, dim, clocks)?;
+        }
+        Ok(())
+    }
+
     fn filter_redundant_clocks(
         lhs: Vec<ClockReductionInstruction>,
         rhs: Vec<ClockReductionInstruction>,
-- 
2.43.0


From cd7242ef372ed921ff0541d61f14cb367dc8d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 10/33] fix: derive clock constraints from the linear form of a
 comparison

---
 src/EdgeEval/constraint_applyer.rs | 126 ++++++++++++++++++++++++++---
 1 file changed, 115 insertions(+), 11 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..50154c7 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -1,8 +1,11 @@
 use edbm::util::constraints::{ClockIndex, Inequality};
 use edbm::zones::OwnedFederation;
+use std::collections::HashMap;
 
 use crate::ModelObjects::Declarations;
-use crate::ModelObjects::Expressions::{ArithExpression, BoolExpression, Clock};
+#[cfg(test)]
+use crate::ModelObjects::Expressions::Clock;
+use crate::ModelObjects::Expressions::{ArithExpression, BoolExpression};
 
 pub fn apply_constraints_to_state(
     guard: &BoolExpression,
@@ -33,31 +36,31 @@ fn apply_constraints_to_state_helper(
             Ok(fed1 + fed2)
         }
         BoolExpression::LessEQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = difference_bound(left, right, decls)?;
             // i-j<=c
-            Ok(fed.constrain(i, j, LE(c)))
+            Ok(constrain(fed, i, j, LE(c)))
         }
         BoolExpression::GreatEQ(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
+            let (i, j, c) = difference_bound(right, left, decls)?;
             // j-i <= -c -> c <= i-j
-            Ok(fed.constrain(i, j, LE(c)))
+            Ok(constrain(fed, i, j, LE(c)))
         }
         BoolExpression::EQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = difference_bound(left, right, decls)?;
             // i-j <= c && j-i <= -c -> c <= i-j
 
             // TODO: maybe use fed.constrain_many(...)
-            Ok(fed.constrain(i, j, LE(c)).constrain(j, i, LE(-c)))
+            Ok(constrain(constrain(fed, i, j, LE(c)), j, i, LE(-c)))
         }
         BoolExpression::LessT(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = difference_bound(left, right, decls)?;
             // i-j < c
-            Ok(fed.constrain(i, j, LS(c)))
+            Ok(constrain(fed, i, j, LS(c)))
         }
         BoolExpression::GreatT(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
+            let (i, j, c) = difference_bound(right, left, decls)?;
             // j-i < -c -> c < i-j
-            Ok(fed.constrain(i, j, LS(c)))
+            Ok(constrain(fed, i, j, LS(c)))
         }
         BoolExpression::Bool(val) => {
             if !*val {
@@ -68,7 +71,104 @@ fn apply_constraints_to_state_helper(
     }
 }
 
+/// Constrains the difference of the clocks `i` and `j`, which is zero if they are the same
+fn constrain(
+    fed: OwnedFederation,
+    i: ClockIndex,
+    j: ClockIndex,
+    inequality: Inequality,
+) -> OwnedFederation {
+    if i != j {
+        return fed.constrain(i, j, inequality);
+    }
+    match inequality {
+        Inequality::LE(c) if c >= 0 => fed,
+        Inequality::LS(c) if c > 0 => fed,
+        _ => fed.set_empty(),
+    }
+}
+
+/// Gets the clocks `i` and `j` and the constant `c` for which `left <= right` is the same as `i - j <= c`.
+/// The clocks are zero if they are not needed
+fn difference_bound(
+    left: &ArithExpression,
+    right: &ArithExpression,
+    decls: &Declarations,
+) -> Result<(ClockIndex, ClockIndex, i32), String> {
+    let (clocks, constant) = linear_form(
+        &ArithExpression::Difference(Box::new(left.clone()), Box::new(right.clone())),
+        decls,
+    )?;
+    let constant = constant.checked_neg().ok_or("Constant is too large")?;
+
+    let mut difference = (0, 0);
+    for (clock, factor) in clocks.into_iter().filter(|(_, factor)| *factor != 0) {
+        let side = match factor {
+            1 => &mut difference.0,
+            -1 => &mut difference.1,
+            _ => return Err(String::from("Multiplication with clock is illegal")),
+        };
+        if *side != 0 {
+            return Err(String::from("Too many clocks"));
+        }
+        *side = clock;
+    }
+    Ok((difference.0, difference.1, constant))
+}
+
+/// Gets how often each clock is added (or subtracted if negative) and the constant that is added to them
+fn linear_form(
+    expr: &ArithExpression,
+    decls: &Declarations,
+) -> Result<(HashMap<ClockIndex, i32>, i32), String> {
+    match expr {
+        ArithExpression::Difference(l, r) | ArithExpression::Addition(l, r) => {
+            let is_addition = matches!(expr, ArithExpression::Addition(_, _));
+            let (mut clocks, left) = linear_form(l, decls)?;
+            let (right_clocks, right) = linear_form(r, decls)?;
+            for (clock, factor) in right_clocks {
+                *clocks.entry(clock).or_insert(0) += if is_addition { factor } else { -factor };
+            }
+            let constant = match is_addition {
+                true => left.checked_add(right),
+                false => left.checked_sub(right),
+            };
+            Ok((clocks, constant.ok_or("Constant is too large")?))
+        }
+        ArithExpression::Multiplication(l, r)
+        | ArithExpression::Division(l, r)
+        | ArithExpression::Modulo(l, r) => {
+            let (left_clocks, left) = linear_form(l, decls)?;
+            let (right_clocks, right) = linear_form(r, decls)?;
+            if !left_clocks.is_empty() || !right_clocks.is_empty() {
+                return Err(String::from("Multiplication with clock is illegal"));
+            }
+            let constant = match expr {
+                ArithExpression::Multiplication(_, _) => left.checked_mul(right),
+                ArithExpression::Division(_, _) => left.checked_div(right),
+                _ => left.checked_rem(right),
+            };
+            Ok((
+                HashMap::new(),
+                constant.ok_or("Division by zero or constant too large")?,
+            ))
+        }
+        ArithExpression::Clock(x) => Ok((HashMap::from([(*x, 1)]), 0)),
+        ArithExpression::VarName(name) => {
+            if let Some(x) = decls.clocks.get(name.as_str()).copied() {
+                Ok((HashMap::from([(x, 1)]), 0))
+            } else if let Some(x) = decls.ints.get(name.as_str()).copied() {
+                Ok((HashMap::new(), x))
+            } else {
+                Err(name.to_string())
+            }
+        }
+        ArithExpression::Int(i) => Ok((HashMap::new(), *i)),
+    }
+}
+
 /// Assumes that the constraint is of the form left <?= right
+#[cfg(test)]
 fn get_indices(
     left: &ArithExpression,
     right: &ArithExpression,
@@ -129,6 +229,7 @@ fn get_indices(
     result
 }
 
+#[cfg(test)]
 fn replace_vars(expr: &ArithExpression, decls: &Declarations) -> Result<ArithExpression, String> {
     //let mut out = expr.clone();
     match expr {
@@ -166,6 +267,7 @@ fn replace_vars(expr: &ArithExpression, decls: &Declarations) -> Result<ArithExp
     }
 }
 
+#[cfg(test)]
 fn get_const(expr: &ArithExpression, decls: &Declarations) -> i32 {
     match expr {
         ArithExpression::Int(x) => *x,
@@ -179,6 +281,7 @@ fn get_const(expr: &ArithExpression, decls: &Declarations) -> i32 {
     }
 }
 
+#[cfg(test)]
 fn combine_clocks(
     c1: Clock,
     c2: Clock,
@@ -194,6 +297,7 @@ fn combine_clocks(
     }
 }
 
+#[cfg(test)]
 fn get_clock_val(
     expression: &ArithExpression,
     count: i32,
-- 
2.43.0


From ffc8a886feeecae00231340e6cede12c0c40bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 11/33] fix: && binds tighter than || in guards and invariants

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..c4267ef 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -23,8 +23,8 @@ lazy_static! {
         .op(Op::infix(Rule::mul, Assoc::Left)
             | Op::infix(Rule::div, Assoc::Left)
             | Op::infix(Rule::r#mod, Assoc::Left))
-        .op(Op::infix(Rule::and, Assoc::Left))
-        .op(Op::infix(Rule::or, Assoc::Left));
+        .op(Op::infix(Rule::or, Assoc::Left))
+        .op(Op::infix(Rule::and, Assoc::Left));
 }
 
 #[derive(Debug, Clone, Deserialize)]
-- 
2.43.0


From b4766e8403a24e1e492a0be3a1207ffd3c06d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 12/33] fix: read a blank guard as no guard

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index c4267ef..35ba29e 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -84,8 +84,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     // Check if there are any constraints
     let result = match guard.into_inner().next() {
-        Some(bool_expr) => parse_bool_expr(bool_expr),
-        None => BoolExpression::Bool(true),
+        Some(pair) if pair.as_rule() == Rule::boolExpr => parse_bool_expr(pair),
+        _ => BoolExpression::Bool(true),
     };
 
     Ok(result)
-- 
2.43.0


From be347e445f50e4c7e500ef1affcdbaf007c2ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 13/33] fix: undo repeated assignments to a clock last to first

---
 src/ModelObjects/transition.rs | 5 ++---
 src/System/input_enabler.rs    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..857a5d4 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // Undo the last update first, as it is the one that decides the value of its clock
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..49ea1cb 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,8 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    // Undo the last update first, as it is the one that decides the value of its clock
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 5ebe193d57f5e97d08bb703529286d2675b1b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 14/33] fix: write expressions with the parentheses they need

---
 .../Expressions/arith_expression.rs           | 30 ++++++++++++++++---
 .../Expressions/bool_expression.rs            | 12 ++++++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index d8888e8..37da9a2 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -58,26 +58,48 @@ impl ArithExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
+                [left.encode_expr(), String::from("-"), right.encode_term()].concat()
             }
             ArithExpression::Addition(left, right) => {
                 [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
             }
             ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("*"), right.encode_atom()].concat()
             }
             ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("/"), right.encode_atom()].concat()
             }
             ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("%"), right.encode_atom()].concat()
             }
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
+            // There are no negative numbers in guards and updates
+            ArithExpression::Int(num) if *num < 0 => format!("(0-{})", num.unsigned_abs()),
             ArithExpression::Int(num) => num.to_string(),
         }
     }
 
+    /// Encodes an operand of an operator that binds tighter than `+` and `-`, or is subtracted
+    fn encode_term(&self) -> String {
+        match self {
+            ArithExpression::Difference(_, _) | ArithExpression::Addition(_, _) => {
+                format!("({})", self.encode_expr())
+            }
+            _ => self.encode_expr(),
+        }
+    }
+
+    /// Encodes the right operand of `*`, `/` and `%`
+    fn encode_atom(&self) -> String {
+        match self {
+            ArithExpression::Multiplication(_, _)
+            | ArithExpression::Division(_, _)
+            | ArithExpression::Modulo(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_term(),
+        }
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..d9d246c 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -63,9 +63,9 @@ impl BoolExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             BoolExpression::AndOp(left, right) => [
-                left.encode_expr(),
+                left.encode_conjunct(),
                 String::from(" && "),
-                right.encode_expr(),
+                right.encode_conjunct(),
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
@@ -93,6 +93,14 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes an operand of `&&`, which binds tighter than `||`
+    fn encode_conjunct(&self) -> String {
+        match self {
+            BoolExpression::OrOp(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From a3607dd15d8d94a50da1eac5b1f7e9bbbf546069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 15/33] fix: a special location matches itself in partial
 comparison

---
 src/TransitionSystems/location_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TransitionSystems/location_tree.rs b/src/TransitionSystems/location_tree.rs
index 122eadb..63439ea 100644
--- a/src/TransitionSystems/location_tree.rs
+++ b/src/TransitionSystems/location_tree.rs
@@ -176,6 +176,9 @@ impl LocationTree {
             | (LocationID::Simple { .. }, LocationID::AnyLocation)
             | (LocationID::AnyLocation, LocationID::AnyLocation) => true,
             (LocationID::Simple(loc_id_1), LocationID::Simple(loc_id_2)) => loc_id_1 == loc_id_2,
+            (LocationID::Special(special_1), LocationID::Special(special_2)) => {
+                special_1 == special_2
+            }
             (_, _) => false,
         }
     }
-- 
2.43.0


From ab1462cccc4f25020a9936546fc7ee4472268a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 16/33] fix: print a save query with its system before its name

---
 src/ModelObjects/Expressions/query_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 78d78f2..0139954 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -61,7 +61,7 @@ impl Display for SystemExpression {
 impl Display for SaveExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self.name {
-            Some(name) => write!(f, "{} save-as {}", name, self.system),
+            Some(name) => write!(f, "{} save-as {}", self.system, name),
             None => write!(f, "{}", self.system),
         }
     }
-- 
2.43.0


From 49bac7add8fb374065e442b7c6f00060d698fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 17/33] fix: refuse text behind a system or state expression

---
 src/DataReader/grammars/query_grammar.pest | 4 ++++
 src/DataReader/parse_queries.rs            | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..cdbd0e6 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -1,5 +1,9 @@
 queries = _{SOI ~ queryList ~ EOI}
 
+system = _{SOI ~ expr ~ EOI}
+
+systemState = _{SOI ~ state ~ EOI}
+
 queryList = { query ~ (";" ~ query)*}
 
 query = {refinement | consistency | reachability | implementation | determinism | specification | getComponent | prune | bisim /*| logicFormulas*/}
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index c8d4998..ac14bfe 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -241,7 +241,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::expr, input) {
+    let mut pairs = match QueryParser::parse(Rule::system, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
@@ -252,7 +252,7 @@ pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
 }
 
 pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::state, input) {
+    let mut pairs = match QueryParser::parse(Rule::systemState, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
-- 
2.43.0


From 618001676c2aa4ccf372f49f8709346d1b6f6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 18/33] fix: group the states of a query as guards and systems
 are grouped

---
 src/DataReader/grammars/query_grammar.pest | 14 ++++++++++----
 src/DataReader/parse_queries.rs            |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index cdbd0e6..8f41801 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -52,11 +52,11 @@ potentially = {"A<>" ~ boolExpr} // TODO: Should include the system to be checke
 
 state = { boolExpr }
 
-boolExpr = _{andExpr}
+boolExpr = _{orExpr}
 
-andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
+orExpr = { andExpr ~ (or_op ~ andExpr)* }
 
-orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
+andExpr = { subExpr ~ (and_op ~ subExpr)* }
 
 subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
 
@@ -64,7 +64,7 @@ locExpr = { variable }
 
 compExpr = {boolDiff ~ operator ~ boolDiff}
 
-notExpr = {("not" | "!") ~ boolExpr}
+notExpr = {not_op ~ subExpr}
 
 parenthesizedSubExp = _{ "(" ~ boolExpr ~ ")"}
 
@@ -80,6 +80,12 @@ atom = _{int}
 bool_true = { "true" }
 bool_false = { "false" }
 
+// A word is an operator only if it is not the beginning of a name
+or_op = @{ "||" | "or" ~ !name_part }
+and_op = @{ "&&" | "and" ~ !name_part }
+not_op = @{ "!" | "not" ~ !name_part }
+name_part = _{ ASCII_ALPHANUMERIC | "_" | "." | "[" }
+
 sum_op = { "+" }
 sub_op = { "-" }
 
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index ac14bfe..a67d34c 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -85,7 +85,9 @@ fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
         Rule::andExpr | Rule::orExpr => {
             let rule = pair.as_rule();
 
-            let mut inner = pair.into_inner();
+            let mut inner = pair
+                .into_inner()
+                .filter(|pair| !matches!(pair.as_rule(), Rule::and_op | Rule::or_op));
             let len = inner.clone().count();
             if len == 1 {
                 return parse_state(inner.next().unwrap());
@@ -97,7 +99,7 @@ fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
             }
         }
         Rule::notExpr => {
-            StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().last().unwrap())))
         }
         Rule::compExpr => {
             let mut pairs = pair.into_inner();
-- 
2.43.0


From 90614dfa2ec8dff3ebf8991d37a7a600cfe18ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/33] Announce accesses to state shared between requests
 under cfg(reveaal_mc)

---
 src/DataReader/component_loader.rs  |   6 +-
 src/ProtobufServer/ecdar_backend.rs |   6 +-
 src/lib.rs                          |   2 +
 src/mc_sync.rs                      | 171 ++++++++++++++++++++++++++++
 4 files changed, 183 insertions(+), 2 deletions(-)
 create mode 100644 src/mc_sync.rs

diff --git a/src/DataReader/component_loader.rs b/src/DataReader/component_loader.rs
index 10952e0..4c0c401 100644
--- a/src/DataReader/component_loader.rs
+++ b/src/DataReader/component_loader.rs
@@ -1,6 +1,8 @@
 use log::warn;
 use lru::LruCache;
 
+#[cfg(reveaal_mc)]
+use crate::mc_sync::Mutex;
 use crate::xml_parser;
 use crate::DataReader::json_reader;
 use crate::DataReader::json_writer::component_to_json_file;
@@ -12,7 +14,9 @@ use crate::System::input_enabler;
 use std::collections::HashMap;
 use std::num::NonZeroUsize;
 use std::path::{Path, PathBuf};
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(reveaal_mc))]
+use std::sync::Mutex;
 
 pub type ComponentsMap = HashMap<String, Component>;
 
diff --git a/src/ProtobufServer/ecdar_backend.rs b/src/ProtobufServer/ecdar_backend.rs
index a45d2fa..25d8137 100644
--- a/src/ProtobufServer/ecdar_backend.rs
+++ b/src/ProtobufServer/ecdar_backend.rs
@@ -1,6 +1,8 @@
 use crate::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
 
 use crate::DataReader::component_loader::ModelCache;
+#[cfg(reveaal_mc)]
+use crate::mc_sync::AtomicI32;
 use crate::ProtobufServer::services::{
     QueryRequest, QueryResponse, SimulationStartRequest, SimulationStepRequest,
     SimulationStepResponse, UserTokenResponse,
@@ -8,7 +10,9 @@ use crate::ProtobufServer::services::{
 use futures::executor::block_on;
 use futures::FutureExt;
 use std::panic::UnwindSafe;
-use std::sync::atomic::{AtomicI32, Ordering};
+#[cfg(not(reveaal_mc))]
+use std::sync::atomic::AtomicI32;
+use std::sync::atomic::Ordering;
 use tonic::{Request, Response, Status};
 
 use rayon::{ThreadPool, ThreadPoolBuilder};
diff --git a/src/lib.rs b/src/lib.rs
index 4a42187..b32d729 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@ pub mod System;
 pub mod TransitionSystems;
 pub mod cli;
 pub mod logging;
+#[cfg(reveaal_mc)]
+pub mod mc_sync;
 pub mod tests;
 
 pub use crate::DataReader::component_loader::{
diff --git a/src/mc_sync.rs b/src/mc_sync.rs
new file mode 100644
index 0000000..467d166
--- /dev/null
+++ b/src/mc_sync.rs
@@ -0,0 +1,171 @@
+//! Stand-ins for the primitives requests share, built only with `--cfg reveaal_mc`. Every access is announced
+//! to a hook before it is made, which lets a model checker run requests under every interleaving. Without
+//! a hook they behave like those of the standard library.
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::Ordering;
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// What is about to happen (`Lock`, `Atomic`) or has just happened (`Held`, `Unlock`), and to which object.
+#[derive(Clone, Copy, PartialEq, Eq, Debug)]
+pub enum Event {
+    Lock(usize),
+    Held(usize),
+    Unlock(usize),
+    Atomic(usize),
+}
+
+static HOOK: OnceLock<fn(Event)> = OnceLock::new();
+
+/// Installs the hook, once per process.
+pub fn set_hook(hook: fn(Event)) {
+    let _ = HOOK.set(hook);
+}
+
+fn announce(event: Event) {
+    if let Some(hook) = HOOK.get() {
+        hook(event);
+    }
+}
+
+fn address<T: ?Sized>(object: &T) -> usize {
+    object as *const T as *const () as usize
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T> {
+    inner: std::sync::Mutex<T>,
+}
+
+pub struct MutexGuard<'a, T> {
+    inner: Option<std::sync::MutexGuard<'a, T>>,
+    address: usize,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex {
+            inner: std::sync::Mutex::new(value),
+        }
+    }
+
+    fn guard<'a>(&'a self, inner: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard {
+            inner: Some(inner),
+            address: address(self),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        announce(Event::Lock(address(self)));
+        match self.inner.lock() {
+            Ok(inner) => Ok(self.guard(inner)),
+            Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        announce(Event::Atomic(address(self)));
+        let result = match self.inner.try_lock() {
+            Ok(inner) => Ok(self.guard(inner)),
+            Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.guard(e.into_inner()),
+            ))),
+        };
+        announce(Event::Held(address(self)));
+        result
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.inner = None;
+        announce(Event::Unlock(self.address));
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct AtomicI32 {
+    inner: std::sync::atomic::AtomicI32,
+}
+
+macro_rules! announced {
+    ($($name:ident ( $($arg:ident : $ty:ty),* ) -> $out:ty;)*) => {
+        $(pub fn $name(&self, $($arg: $ty),*) -> $out {
+            announce(Event::Atomic(address(self)));
+            self.inner.$name($($arg),*)
+        })*
+    };
+}
+
+impl AtomicI32 {
+    pub const fn new(value: i32) -> Self {
+        AtomicI32 {
+            inner: std::sync::atomic::AtomicI32::new(value),
+        }
+    }
+
+    announced! {
+        load(order: Ordering) -> i32;
+        store(value: i32, order: Ordering) -> ();
+        swap(value: i32, order: Ordering) -> i32;
+        fetch_add(value: i32, order: Ordering) -> i32;
+        fetch_sub(value: i32, order: Ordering) -> i32;
+        fetch_max(value: i32, order: Ordering) -> i32;
+        fetch_min(value: i32, order: Ordering) -> i32;
+        fetch_or(value: i32, order: Ordering) -> i32;
+        fetch_xor(value: i32, order: Ordering) -> i32;
+        fetch_and(value: i32, order: Ordering) -> i32;
+        compare_exchange(old: i32, new: i32, success: Ordering, failure: Ordering) -> Result<i32, i32>;
+        compare_exchange_weak(old: i32, new: i32, success: Ordering, failure: Ordering) -> Result<i32, i32>;
+    }
+
+    pub fn fetch_update<F: FnMut(i32) -> Option<i32>>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: F,
+    ) -> Result<i32, i32> {
+        let mut old = self.load(fetch_order);
+        while let Some(new) = f(old) {
+            match self.compare_exchange(old, new, set_order, fetch_order) {
+                Ok(old) => return Ok(old),
+                Err(now) => old = now,
+            }
+        }
+        Err(old)
+    }
+
+    pub fn get_mut(&mut self) -> &mut i32 {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> i32 {
+        self.inner.into_inner()
+    }
+}
-- 
2.43.0


From e889ea98e732ff8b43efdeb226140b986791473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 20/33] Order imports

---
 src/ProtobufServer/ecdar_backend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProtobufServer/ecdar_backend.rs b/src/ProtobufServer/ecdar_backend.rs
index 25d8137..c1cdd1a 100644
--- a/src/ProtobufServer/ecdar_backend.rs
+++ b/src/ProtobufServer/ecdar_backend.rs
@@ -1,8 +1,8 @@
 use crate::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
 
-use crate::DataReader::component_loader::ModelCache;
 #[cfg(reveaal_mc)]
 use crate::mc_sync::AtomicI32;
+use crate::DataReader::component_loader::ModelCache;
 use crate::ProtobufServer::services::{
     QueryRequest, QueryResponse, SimulationStartRequest, SimulationStepRequest,
     SimulationStepResponse, UserTokenResponse,
-- 
2.43.0


From bed2f7bf698400ab529a9abb5eaf02be518b8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 21/33] fix: read clock and integer declarations however they
 are laid out

---
 src/DataReader/serialization.rs | 79 +++++++++++++++++----------------
 src/DataReader/xml_parser.rs    | 53 +---------------------
 2 files changed, 43 insertions(+), 89 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..3b227bc 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -181,50 +181,53 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    //Split string into vector of strings
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+    Ok(parse_declarations(&s))
+}
+
+/// Parses the text of declarations, as in `clock x, y; int i = 2; // comment`, however it is laid out
+pub(crate) fn parse_declarations(text: &str) -> Declarations {
     let mut ints: HashMap<String, i32> = HashMap::new();
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for sub_decl in sub_decls {
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("Not implemented read for type: \"{}\"", variable_type);
-                }
+
+    let text = separate_tokens(text, &[';', '=']);
+    let mut tokens = text.split_whitespace().peekable();
+    let mut variable_type = None;
+    while let Some(token) = tokens.next() {
+        match (token, variable_type) {
+            (";", _) => variable_type = None,
+            ("clock" | "int", _) => variable_type = Some(token),
+            (name, Some("clock")) => {
+                let index = clocks.len() + 1;
+                clocks.entry(name.to_string()).or_insert(index);
             }
+            (name, Some(_)) => {
+                let value = match tokens.next_if_eq(&"=") {
+                    Some(_) => tokens.next().and_then(|value| value.parse().ok()),
+                    None => Some(0),
+                };
+                let value = value.unwrap_or_else(|| panic!("Invalid value of \"{}\"", name));
+                ints.insert(name.to_string(), value);
+            }
+            (other, None) => panic!("Not implemented read for type: \"{}\"", other),
         }
     }
 
-    Ok(Declarations { ints, clocks })
+    Declarations { ints, clocks }
+}
+
+/// Removes comments and commas and puts whitespace around the given symbols, such that the text can be split by whitespace
+pub(crate) fn separate_tokens(text: &str, symbols: &[char]) -> String {
+    text.lines()
+        .map(|line| line.split("//").next().unwrap_or_default())
+        .flat_map(|line| line.chars().chain(['\n']))
+        .fold(String::new(), |mut tokens, c| {
+            match c {
+                ',' => tokens.push(' '),
+                c if symbols.contains(&c) => tokens.extend([' ', c, ' ']),
+                c => tokens.push(c),
+            }
+            tokens
+        })
 }
 
 /// Function used for deserializing guards
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a668934..9fcd389 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -1,10 +1,10 @@
 use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
+use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
-    Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
+    Component, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
     SystemSpecification,
 };
-use edbm::util::constraints::ClockIndex;
 use elementtree::{Element, FindChildren};
 use std::collections::HashMap;
 use std::fs::File;
@@ -146,55 +146,6 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
     edges
 }
 
-fn parse_declarations(variables: &str) -> Declarations {
-    //Split string into vector of strings
-    let decls: Vec<String> = variables.split('\n').map(|s| s.into()).collect();
-    let mut ints: HashMap<String, i32> = HashMap::new();
-    let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for mut sub_decl in sub_decls {
-            sub_decl = sub_decl.replace('\r', "");
-
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("not implemented read for type: {}", variable_type);
-                }
-            }
-        }
-    }
-
-    Declarations { ints, clocks }
-}
-
 fn decode_sync_type(global_decl: &str) -> SystemSpecification {
     let mut first_run = true;
     let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-- 
2.43.0


From 62f9a7dc574b0dc141abc3453397cb72bd27b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 22/33] fix: read system declarations however they are laid out

---
 src/DataReader/xml_parser.rs            |  90 +---------------
 src/ModelObjects/system_declarations.rs | 135 ++++++++++--------------
 2 files changed, 57 insertions(+), 168 deletions(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 9fcd389..5fb8daa 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -6,7 +6,6 @@ use crate::ModelObjects::{
     SystemSpecification,
 };
 use elementtree::{Element, FindChildren};
-use std::collections::HashMap;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::Read;
@@ -64,7 +63,7 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
 
     let system_declarations = SystemDeclarations {
         //name: "".to_string(),
-        declarations: decode_sync_type(root.find("system").unwrap().text()),
+        declarations: SystemSpecification::parse(root.find("system").unwrap().text()),
     };
 
     (xml_components, system_declarations, vec![])
@@ -145,90 +144,3 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
 
     edges
 }
-
-fn decode_sync_type(global_decl: &str) -> SystemSpecification {
-    let mut first_run = true;
-    let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
-
-    let mut component_names: Vec<String> = vec![];
-
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.trim().is_empty() {
-            if first_run {
-                let component_decls = declaration;
-
-                component_names = component_decls
-                    .split(' ')
-                    .map(|s| s.chars().filter(|c| !c.is_whitespace()).collect())
-                    .collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let mut s = split_str.replace('{', "");
-                        s = s.replace('\r', "");
-                        s = s.replace('\n', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
-            }
-        }
-    }
-    SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    }
-}
diff --git a/src/ModelObjects/system_declarations.rs b/src/ModelObjects/system_declarations.rs
index ff71f90..c6c23d7 100644
--- a/src/ModelObjects/system_declarations.rs
+++ b/src/ModelObjects/system_declarations.rs
@@ -1,3 +1,4 @@
+use crate::DataReader::serialization::separate_tokens;
 use crate::ModelObjects::Component;
 use log::debug;
 use serde::{Deserialize, Deserializer};
@@ -40,6 +41,60 @@ pub struct SystemSpecification {
 }
 
 impl SystemSpecification {
+    /// Parses the text of system declarations, as in `system A, B; IO A { a?, b! }`, however it is laid out
+    pub(crate) fn parse(text: &str) -> Self {
+        let mut components: Vec<String> = vec![];
+        let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
+        let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
+
+        let text = separate_tokens(text, &[';', '{', '}']);
+        let mut tokens = text.split_whitespace().peekable();
+        match tokens.next() {
+            None | Some("system") => (),
+            Some(token) => panic!(
+                "Unexpected format of system declarations. Missing system in beginning of {:?}",
+                token
+            ),
+        }
+        while let Some(name) = tokens.next_if(|token| ![";", "IO"].contains(token)) {
+            components.push(name.to_string());
+        }
+        debug!("Comp decls: {components:?}");
+
+        while let Some(token) = tokens.next() {
+            if token != "IO" {
+                continue;
+            }
+            let component_name = tokens.next().unwrap_or_default().to_string();
+            if !components.contains(&component_name) {
+                panic!(
+                    "Was not able to find component name: {:?} in declared component names: {:?}",
+                    component_name, components
+                )
+            }
+            tokens.next_if_eq(&"{");
+            while let Some(action) = tokens.next_if(|token| !["}", ";", "IO"].contains(token)) {
+                let (channel, actions) = if let Some(channel) = action.strip_suffix('?') {
+                    (channel, &mut input_actions)
+                } else if let Some(channel) = action.strip_suffix('!') {
+                    (channel, &mut output_actions)
+                } else {
+                    panic!("Channel type not defined for Channel {:?}", action)
+                };
+                actions
+                    .entry(component_name.clone())
+                    .or_default()
+                    .push(channel.to_string());
+            }
+        }
+
+        SystemSpecification {
+            components,
+            input_actions,
+            output_actions,
+        }
+    }
+
     pub fn get_components(&self) -> &Vec<String> {
         &self.components
     }
@@ -66,83 +121,5 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    let mut first_run = true;
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
-
-    let mut component_names: Vec<String> = vec![];
-
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.is_empty() {
-            if first_run {
-                let component_decls = &declaration;
-                debug!("Comp decls: {component_decls}");
-                component_names = component_decls.split(' ').map(|s| s.into()).collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let s = split_str.replace('{', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
-            }
-        }
-    }
-    Ok(SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    })
+    Ok(SystemSpecification::parse(&s))
 }
-- 
2.43.0


From 88089682f0f68eb8e4b52ca93521414f0c09d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 23/33] fix: recognise XML projects by the extension of the
 file

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index 5fb8daa..a0448c5 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -12,7 +12,10 @@ use std::io::Read;
 use std::path::Path;
 
 pub fn is_xml_project<P: AsRef<Path>>(project_path: P) -> bool {
-    project_path.as_ref().ends_with(".xml")
+    project_path
+        .as_ref()
+        .extension()
+        .is_some_and(|extension| extension == "xml")
 }
 
 ///Used to parse systems described in xml
-- 
2.43.0


From e8c20c76551cfc20773c0f22e93385294b7d728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 24/33] fix: read the invariant of an XML location from its
 invariant label

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a0448c5..1296a2b 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -77,7 +77,10 @@ fn collect_locations(xml_locations: FindChildren, initial_id: &str) -> Vec<Locat
     for loc in xml_locations {
         let location = Location {
             id: loc.get_attr("id").unwrap().parse().unwrap(),
-            invariant: match loc.find("label") {
+            invariant: match loc
+                .find_all("label")
+                .find(|label| label.get_attr("kind") == Some("invariant"))
+            {
                 Some(x) => match parse_edge::parse_guard(x.text()) {
                     Ok(edgeAttribute) => Some(edgeAttribute),
                     Err(e) => panic!("Could not parse invariant {} got error: {:?}", x.text(), e),
-- 
2.43.0


From 29506b501a8e2d238b4cbaac944573afa1c965ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 25/33] fix: give every clock of a saved component a name of
 its own

A clock renamed because its name was taken could take the name of a third
clock, which then went missing.
---
 src/System/save_component.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..9b77cde 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,11 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            while clocks.contains_key(&name) {
+                name.push_str(&comp_id.to_string());
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From 962606210c2aca0f4768bbf33b70a3f5bfed9e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 26/33] fix: declare clocks that reduction merged once in a
 saved component

The clocks of a component in memory then have consecutive indices again, as
later queries about the saved component expect.
---
 src/System/save_component.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 9b77cde..33c7a67 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -74,11 +74,12 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     let mut clocks = HashMap::new();
     let decls = sysrep.get_decls();
 
-    if decls.len() == 1 {
-        return decls[0].clocks.clone();
-    }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
+            // Clock reduction gives clocks with the same value the same index
+            if clocks.values().any(|index| index == v) {
+                continue;
+            }
             let mut name = k.clone();
             while clocks.contains_key(&name) {
                 name.push_str(&comp_id.to_string());
-- 
2.43.0


From f850cf111640dc5dfe41f3f299170ac24caaa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 27/33] fix: prune with the dimension of the system

The number of clocks is one less, so that every prune query on a system with
clocks panicked.
---
 src/System/extract_system_rep.rs | 2 +-
 src/System/pruning.rs            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 832a3b4..afc3838 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?),
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index a234060..715a609 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -12,7 +12,7 @@ use std::collections::{HashMap, HashSet};
 
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr, dim: ClockIndex) -> TransitionSystemPtr {
+pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
     ts.precheck_sys_rep()
         .expect("Cannot prune transitions system which is not least consistent");
 
@@ -23,7 +23,7 @@ pub fn prune_system(ts: TransitionSystemPtr, dim: ClockIndex) -> TransitionSyste
     let mut input_map: HashMap<String, Vec<String>> = HashMap::new();
     input_map.insert(comp.name.clone(), inputs.iter().cloned().collect());
 
-    let result = prune(&comp, dim, inputs, outputs);
+    let result = prune(&comp, ts.get_dim(), inputs, outputs);
 
     result.unwrap()
 }
-- 
2.43.0


From 76ba5e08cc5bed7d96b606df856d44b8658d8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 28/33] fix: refuse to prune an inconsistent system instead of
 panicking

---
 src/System/extract_system_rep.rs |  2 +-
 src/System/pruning.rs            | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index afc3838..b298581 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?),
+                    system: pruning::prune_system(recipe.compile(dim)?)?,
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index 715a609..a677c23 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -12,9 +12,13 @@ use std::collections::{HashMap, HashSet};
 
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
-    ts.precheck_sys_rep()
-        .expect("Cannot prune transitions system which is not least consistent");
+pub fn prune_system(ts: TransitionSystemPtr) -> Result<TransitionSystemPtr, String> {
+    if let Err(failure) = ts.precheck_sys_rep() {
+        return Err(format!(
+            "Cannot prune transition system which is not least consistent: {}",
+            failure
+        ));
+    }
 
     let inputs = ts.get_input_actions();
     let outputs = ts.get_output_actions();
@@ -23,9 +27,9 @@ pub fn prune_system(ts: TransitionSystemPtr) -> TransitionSystemPtr {
     let mut input_map: HashMap<String, Vec<String>> = HashMap::new();
     input_map.insert(comp.name.clone(), inputs.iter().cloned().collect());
 
-    let result = prune(&comp, ts.get_dim(), inputs, outputs);
+    let result = prune(&comp, ts.get_dim(), inputs, outputs)?;
 
-    result.unwrap()
+    Ok(result)
 }
 
 struct PruneContext {
-- 
2.43.0


From 5cb984e9bb99094527b2e377d416a2a9d7b665b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 29/33] fix: name the quotient's additional input apart from
 its outputs

In T // (U // S) the additional input of the inner quotient is an output
of the outer one, which picked the same name for its own input because it
only avoided its inputs.
---
 src/TransitionSystems/quotient.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/TransitionSystems/quotient.rs b/src/TransitionSystems/quotient.rs
index e80cd49..398931a 100644
--- a/src/TransitionSystems/quotient.rs
+++ b/src/TransitionSystems/quotient.rs
@@ -55,17 +55,6 @@ impl Quotient {
             .union(&S.get_output_actions())
             .cloned()
             .collect();
-        let mut i = 0;
-        let new_input_name = loop {
-            let test = format!("quotient_new_input{}", i);
-            if !inputs.contains(&test) {
-                break test;
-            }
-            i += 1;
-        };
-
-        inputs.insert(new_input_name.clone());
-
         let output_dif: HashSet<String> = T
             .get_output_actions()
             .difference(&S.get_output_actions())
@@ -79,6 +68,17 @@ impl Quotient {
 
         let outputs: HashSet<String> = output_dif.union(&input_dif).cloned().collect();
 
+        let mut i = 0;
+        let new_input_name = loop {
+            let test = format!("quotient_new_input{}", i);
+            if !inputs.contains(&test) && !outputs.contains(&test) {
+                break test;
+            }
+            i += 1;
+        };
+
+        inputs.insert(new_input_name.clone());
+
         let mut decls = Declarations::empty();
         decls
             .clocks
-- 
2.43.0


From e121c31ee94b00e297626a9bf27c31ba7e0b35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 30/33] fix: refuse state expressions over components the
 system does not have

A location whose component (or component instance) is no part of the
queried system was ignored silently, so the query answered a different
question.
---
 src/System/extract_state.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index d8c28a2..e6edb91 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -50,6 +50,18 @@ pub fn get_state(
         ));
     }
 
+    // Check that all locations belong to a component of the system
+    if let Some(loc) = locations.iter().find(|loc| {
+        !components
+            .iter()
+            .any(|c| c.name == loc.component && c.special_id == loc.special_id)
+    }) {
+        return Err(format!(
+            "The location {} does not belong to a component of the system",
+            loc
+        ));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
-- 
2.43.0


From 6d9b7e44dd1ebebbc83a679323d342650157a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 31/33] fix: a query on a system that cannot be composed ends
 the command line with a panic

The service answers such queries with the failure. The command line unwrapped it, so that the
program panicked and the answers to the other queries of the list were lost.
---
 src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9d062df..d3146e8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,6 +5,7 @@ use reveaal::ModelObjects::Query;
 use reveaal::System::query_failures::QueryResult;
 
 use clap::Parser;
+use reveaal::extract_system_rep::ExecutableQueryError;
 use reveaal::ProtobufServer::services::query_request::Settings;
 use reveaal::{
     extract_system_rep, parse_queries, start_grpc_server_with_tokio, xml_parser, ComponentLoader,
@@ -36,11 +37,13 @@ fn start_using_cli(args: Args) {
 
     let mut results = vec![];
     for query in &queries {
-        let executable_query = Box::new(
-            extract_system_rep::create_executable_query(query, &mut *comp_loader).unwrap(),
-        );
-
-        let result = executable_query.execute();
+        let result = match extract_system_rep::create_executable_query(query, &mut *comp_loader) {
+            Ok(executable_query) => executable_query.execute(),
+            Err(ExecutableQueryError::SystemRecipeFailure(failure)) => {
+                QueryResult::RecipeFailure(failure)
+            }
+            Err(ExecutableQueryError::Custom(err)) => panic!("{}", err),
+        };
 
         if let QueryResult::CustomError(err) = result {
             panic!("{}", err);
-- 
2.43.0


From c823eae4348ffb5b02bf1467ede22d2b1ef162b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 32/33] fix: a location is entered only where its invariant
 holds

Transition::use_transition let time pass before it applied the invariant of
the target location, so a location whose invariant has a lower bound was
entered by waiting inside of it. Reachability queries panicked on such paths.
---
 src/ModelObjects/transition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index 857a5d4..67dfba5 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -57,8 +57,10 @@ impl Transition {
         let mut zone = state.take_zone();
         zone = self.apply_guards(zone);
         if !zone.is_empty() {
-            zone = self.apply_updates(zone).up();
+            zone = self.apply_updates(zone);
             self.move_locations(&mut state.decorated_locations);
+            // The invariant must hold on entry as well as after time has passed
+            zone = state.decorated_locations.apply_invariants(zone).up();
             zone = state.decorated_locations.apply_invariants(zone);
             if !zone.is_empty() {
                 state.set_zone(zone);
-- 
2.43.0


From 456eba1943b9dcf17b5b90826e0fc188cf4adc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 33/33] fix: refinement builds state pairs only where both
 locations can be entered

build_state_pair let time pass before it applied the invariants of the new
locations, and refuted refinements over steps that are not possible.
---
 src/System/refine.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index c166b98..06ad5cc 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -364,14 +364,18 @@ fn build_state_pair(
     new_sp_zone = transition1.apply_updates(new_sp_zone);
     new_sp_zone = transition2.apply_updates(new_sp_zone);
 
-    //Perform a delay on the zone after the updates were applied
-    new_sp_zone = new_sp_zone.up();
-
     //Update locations in states
 
     transition1.move_locations(locations1);
     transition2.move_locations(locations2);
 
+    // The locations can only be entered where their invariants hold
+    new_sp_zone = locations1.apply_invariants(new_sp_zone);
+    new_sp_zone = locations2.apply_invariants(new_sp_zone);
+
+    //Perform a delay on the zone after the updates were applied
+    new_sp_zone = new_sp_zone.up();
+
     // Apply invariants on the left side of relation
     let (left_loc, right_loc) = if is_state1 {
         //(locations2, locations1)
-- 
2.43.0

