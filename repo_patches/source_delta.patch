From 5c85844d6c704b4b1f8a05ef101a4aa181430ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 01/41] fix: a time-triggered transition at the time bound no
 longer drops the next popped state

The flag was only reset when the state that took the transition was processed again
before the time bound, so it could leak into the next state popped off the waiting list.
---
 hylaa/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..06841f3 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -255,6 +255,9 @@ class Core(Freezable):
         self.plotman.state_popped() # reset certain per-mode plot variables
         self.aggdag.print_waiting_list()
 
+        # a tt transition taken right before the previous state finished must not affect the newly-popped state
+        self.took_tt_transition = False
+
         self.result.last_cur_state = cur_state = self.aggdag.pop_waiting_list()
 
         self.print_normal("Removed state in mode '{}' at step {} ({} in mode) (Waiting list has {} left)".format( \
-- 
2.43.0


From b5bf911046830d50084ddc982d9be040989ce8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 02/41] fix: do not skip steps of modes with a zero A matrix
 but time-varying inputs

x' = Bu is not a zero-dynamics mode: states keep changing after the first step.
---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 06841f3..30e7f76 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -237,7 +237,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                       self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 9508dfce68770f1d9cadf441bbdbaff18c70d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 03/41] fix: compute_radius_inf reads the current-time
 variables

It read the left-most LP columns, which after a reset belong to the initial mode, so the
LGG bloating terms were computed from the wrong set.
---
 hylaa/lputil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..d8b25fa 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1070,9 +1070,9 @@ def compute_radius_inf(lpi):
         for posneg in [1.0, -1.0]:
             dir_vec = [posneg if n == d else 0.0 for d in range(lpi.dims)]
 
-            lp_result = lpi.minimize(dir_vec)
+            lp_result = lpi.minimize(dir_vec, columns=[lpi.cur_vars_offset + n])
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[0]))
 
     return max_val
 
-- 
2.43.0


From 41fba223eb331194c336203f9dcfbeda959debb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 04/41] fix: get_rhs returns the lower bound of '>='
 constraints

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 1671b075fb6216753262011bfae0cfdbaaabb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 05/41] fix: LinearConstraint.almost_equals with a different
 number of nonzeros

Comparing index arrays of different lengths raised (or broadcast), for example during
guard strengthening with a target-mode invariant on more variables than the guard.
---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..1235abf 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,9 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
+        elif not np.array_equal(self.csr.indptr, other.csr.indptr):
             rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
+        elif not np.array_equal(self.csr.indices, other.csr.indices):
             rv = False
         else:
             for i in range(len(self.csr.data)):
-- 
2.43.0


From 5569bedfbc1278a6da270b6a318d2c523f3ef708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 06/41] fix: forget cached invariant rows when the
 approximation model replaces the lpi

Later invariant intersections overwrote unrelated constraints of the new lpi.
---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..1ef1700 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -336,6 +336,10 @@ class StateSet(Freezable):
         assert self.cur_step_in_mode == 0, "approximation model should be applied before any continuous post operations"
         assert self.mode.time_elapse is not None, "init_time_elapse() must be called before apply_approx_model()"
 
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lpi is about to be replaced, so the cached rows would refer to unrelated constraints
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
+
         if approx_model == HylaaSettings.APPROX_CHULL:
             self.apply_approx_chull()
         elif approx_model == HylaaSettings.APPROX_LGG:
-- 
2.43.0


From 245df6ea488f06759e32e31e7ef8f87a05380c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 07/41] fix: non-consecutive time steps with inputs under the
 LGG approximation model

The sparse matrix exponential was concatenated with a dense block, which raises.
---
 hylaa/time_elapse_expm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..d438312 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
-- 
2.43.0


From 39fb1395c1e71fc909b15c76cf249cb385267674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 08/41] fix: simulations no longer depend on their position in
 the batch

Only the first simulation of a batch skipped the guards before its first step.
---
 hylaa/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 30e7f76..e182658 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -521,6 +521,8 @@ class Core(Freezable):
         else:
             # simulate one step for all states in sim_states
             finished = True
+            advanced = False
+
             for i, obj in enumerate(self.sim_states):
                 if obj is None:
                     continue
@@ -563,7 +565,7 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
+                advanced = True
                 finished = False
                 
                 # advance time
@@ -572,6 +574,10 @@ class Core(Freezable):
                 obj[1] = pt
                 obj[2] = steps + 1
 
+            if advanced:
+                # assign this after processing every sim, so that they all use the same rule on the first step
+                self.sim_should_try_guards = True
+
             if finished:
                 self.plotman.commit_cur_sims()
                 self.sim_states = None
-- 
2.43.0


From dcaf9c96f19f04ade5877968cd23ea5d42076352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 09/41] fix: simulations with the unaggregated strategy

Core.simulate() calls get_simulation_pop_mode(), which only Aggregated implemented.
---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..04eb305 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -71,6 +71,13 @@ class AggregationStrategy(Freezable):
 
         raise NotImplementedError("Unaggregated strategy does not implement get_agg_type")
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list (the one with the minimum time)
+        '''
+
+        return min(sim_waiting_list, key=lambda item: item[2])[0]
+
 class Unaggregated(AggregationStrategy):
     'another name for the base implementation of AggregationStrategy'
 
-- 
2.43.0


From 7325ba54966b7d009d76ac6db1099f2271d60d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 10/41] fix: printing timer statistics when a timer measured
 zero seconds

With a coarse clock the verbose report divided by zero after the analysis had finished.
---
 hylaa/timerutil.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hylaa/timerutil.py b/hylaa/timerutil.py
index f42a1d1..36a3ebd 100644
--- a/hylaa/timerutil.py
+++ b/hylaa/timerutil.py
@@ -159,7 +159,12 @@ class Timers():
         if level == 0:
             total_time = td.total_secs
 
-        percent_total = 100 * td.total_secs / total_time
+        def ratio(secs, whole):
+            'secs / whole, for timers which may be too short to measure'
+
+            return secs / whole if whole > 0 else 0.0
+
+        percent_total = 100 * ratio(td.total_secs, total_time)
 
         if percent_total < low_threshold:
             def print_func(text):
@@ -184,7 +189,7 @@ class Timers():
             percent = 100
             percent_str = ""
         else:
-            percent = 100 * td.total_secs / td.parent.total_secs
+            percent = 100 * ratio(td.total_secs, td.parent.total_secs)
             percent_str = " ({:.1f}%)".format(percent)
 
         print_func("{}{} Time ({} calls): {:.2f} sec{}".format(" " * level * 2, \
@@ -199,9 +204,9 @@ class Timers():
 
         if td.children:
             other = td.total_secs - total_children_secs
-            other_percent = 100 * other / td.total_secs
+            other_percent = 100 * ratio(other, td.total_secs)
 
-            percent_other = other / total_time
+            percent_other = ratio(other, total_time)
 
             if percent_other < low_threshold:
                 def other_print_func(text):
-- 
2.43.0


From 71aa63632ced51a6c44753e9e1f9d6003ecfb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 11/41] fix: counterexamples from zonotope initial sets have
 one value per state variable

Generator columns were named like state variables and ended up in the segment's start point.
---
 hylaa/lputil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index d8b25fa..e90325a 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -123,7 +123,10 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     lpi.add_rows_equal_zero(dims)
 
     if names is None:
-        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
+        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+
+        # columns that aren't state variables, such as zonotope generators
+        names += ["m{}_x{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1] - dims)]
         
     names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
-- 
2.43.0


From 812654b3c34655a789f52dc620520754030a6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 12/41] fix: unsafe analysis with an approximation model no
 longer crashes making a counterexample

The lpi of a convex hull does not have the variables of a trace.
---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index e182658..ab1e95d 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -119,7 +119,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # with an approximation model, the lpi doesn't encode a trace
+            if self.settings.make_counterexample and not self.result.counterexample and \
+               self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From 85b1f7e0cef7aede903b1690d0f7b6589f335cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 13/41] fix: deaggregation replay stops at the computation time
 bound

A split node can start later than its merged parent; replaying all of the parent's
ops went past the time bound and could report errors that are not reachable in time.
---
 hylaa/aggdag.py        | 15 +++++++++++++++
 hylaa/deaggregation.py |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..3b3a612 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -389,6 +389,21 @@ class AggDagNode(Freezable):
 
         return rv
 
+    def check_replay_time_bound(self, step):
+        '''
+        stop the replay of this node if going to the passed-in step would exceed the computation time bound
+
+        The parent's ops are relative to its earliest start time; a split node may have started later
+        '''
+
+        state = self.get_cur_state()
+
+        if state is not None:
+            max_step = self.aggdag.settings.num_steps - (state.cur_steps_since_start[0] - state.cur_step_in_mode)
+
+            if step > max_step:
+                self.op_list.append(OpLeftInvariant(max_step, self, True))
+
     def replay_op(self, op_list, i):
         '''
         replay a single operation in the current node
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..7966700 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -138,6 +138,8 @@ class DeaggregationManager(Freezable):
                 parent_left_invariant = True
 
             for child in self.deagg_children:
+                child.check_replay_time_bound(op.step)
+
                 if not child.node_left_invariant():
                     child.replay_op(self.deagg_parent.op_list, self.replay_step)
                 else:
@@ -147,6 +149,8 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
+            child.check_replay_time_bound(cur_step_in_mode)
+
             if not child.node_left_invariant():
                 child.stateset.step(cur_step_in_mode)
 
-- 
2.43.0


From e63e0dd795fbe73ab097aa565ac900675c1a96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 14/41] fix: deaggregation keeps transitions that were
 aggregated with those of the split node

Without require_same_path, a node may aggregate transitions from several parents. Replaying
one of them discarded the successors that came from the others.
---
 hylaa/deaggregation.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 7966700..b2addc8 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -195,6 +195,36 @@ class DeaggregationManager(Freezable):
 
         ops.append(new_op)
 
+    def make_outside_nodes(self, node):
+        '''
+        for each descendant of the passed-in node which was aggregated together with transitions that don't originate
+        from the node, make a node with only the latter
+
+        returns a list of 2-tuples to be added to waiting_nodes
+        '''
+
+        descendants = []
+        to_process = [node]
+
+        while to_process:
+            for op in to_process.pop().op_list:
+                child = op.child_node if isinstance(op, OpTransition) else None
+
+                if child is not None and child not in descendants:
+                    descendants.append(child)
+                    to_process.append(child)
+
+        rv = []
+
+        for child in descendants:
+            ops = [op for op in child.parent_ops if op.parent_node is not node and op.parent_node not in descendants]
+
+            if ops:
+                outside_node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
+                rv.append((child, [outside_node]))
+
+        return rv
+
     def begin_replay(self, node):
         'begin a deaggregation replay with the passed-in node'
 
@@ -203,7 +233,11 @@ class DeaggregationManager(Freezable):
         # remove all states in the waiting list that come from this node
         self.aggdag.remove_node_decendants_from_waiting_list(node)
 
+        # descendants may also aggregate transitions from elsewhere, which are not reconstructed by replaying the node
+        outside_nodes = self.make_outside_nodes(node)
+
         # start to populate waiting_nodes
         self.waiting_nodes.append((node, node.split()))
+        self.waiting_nodes.extend(outside_nodes)
 
         Timers.toc('begin deagg replay')
-- 
2.43.0


From bf4ed07022ee5bc3fc9dc7a44a1170e693f49c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 15/41] fix: deaggregated nodes use the approximation model

States made by splitting a node only covered the discrete time instants.
---
 hylaa/aggdag.py        | 13 +++++++++++++
 hylaa/deaggregation.py |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 3b3a612..f6ad35f 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -389,6 +389,19 @@ class AggDagNode(Freezable):
 
         return rv
 
+    def init_replay(self):
+        'prepare a newly-created node for being replayed (apply the approximation model, as when it would be popped)'
+
+        core = self.aggdag.core
+        approx_model = self.aggdag.settings.approx_model
+        state = self.stateset
+
+        if approx_model != HylaaSettings.APPROX_NONE and not state.mode.is_error():
+            if core.intersect_invariant(state, add_ops_to_aggdag=False):
+                state.apply_approx_model(approx_model)
+            else:
+                self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, False))
+
     def check_replay_time_bound(self, step):
         '''
         stop the replay of this node if going to the passed-in step would exceed the computation time bound
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index b2addc8..521c5eb 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -85,6 +85,9 @@ class DeaggregationManager(Freezable):
         self.replay_step = 0
         self.nodes_to_ops = {}
 
+        for child in self.deagg_children:
+            child.init_replay()
+
         # pause plot
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
-- 
2.43.0


From d9b88e07eeebbc1001dc3682421a7b073ff0b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 16/41] fix: invariant constraints on modes with time-varying
 inputs stay on the same inputs

---
 hylaa/lpinstance.py |  3 +++
 hylaa/lputil.py     | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 69739f7..92dcccb 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -42,6 +42,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = None # 2-tuple, row, column (NOT X/Y)
         self.cur_vars_offset = None
         self.input_effects_offsets = None # None or 2-tuple, row of input constraints / col of accumulated input effects
+        self.init_constraint_rows = [] # rows constraining the initial variables and inputs of the current mode
 
         # internal bookkeeping
         self.obj_cols = [] # columns in the LP with an assigned objective coefficient
@@ -65,6 +66,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         rv.set_reach_vars(self.dims, self.basis_mat_pos, self.cur_vars_offset, self.input_effects_offsets)
         rv.obj_cols = self.obj_cols.copy()
+        rv.init_constraint_rows = self.init_constraint_rows.copy()
 
         return rv
 
@@ -85,6 +87,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = basis_mat_pos
         self.cur_vars_offset = cur_vars_offset #num_cols - dims # right-most variables
         self.input_effects_offsets = input_effects_offsets
+        self.init_constraint_rows = []
 
         self._create_bm_indices()
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index e90325a..6cc9e0f 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -303,6 +303,27 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+    _shift_input_constraints(lpi, num_cols)
+
+def _shift_input_constraints(lpi, width):
+    '''
+    called after adding the input columns for a new step, to update existing constraints on the inputs
+
+    The i-th group of input columns are the inputs applied i steps ago, so constraints from earlier steps (invariants)
+    need to be moved to the next group.
+    '''
+
+    inputs_offset = lpi.input_effects_offsets[1] + lpi.dims
+
+    for row in lpi.init_constraint_rows:
+        csr_row = lpi.get_row(row)
+        inds = [i if i < inputs_offset else i + width for i in csr_row.indices]
+
+        shifted_row = csr_matrix((csr_row.data, inds, csr_row.indptr), dtype=float, shape=csr_row.shape)
+        shifted_row.check_format()
+
+        lpi.set_constraints_csr(shifted_row, offset=(row, 0))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
@@ -362,6 +383,7 @@ def add_init_constraint(lpi, vec, rhs, basis_matrix=None, input_effects_list=Non
     if row_index is None:
         row_index = rows
         lpi.add_rows_less_equal([rhs])
+        lpi.init_constraint_rows.append(row_index)
     else:
         # overwrite the old rhs
         lpi.set_constraint_rhs(row_index, rhs)
@@ -443,6 +465,7 @@ def try_replace_init_constraint(lpi, old_row_index, direction, rhs, basis_mat=No
             rows = lpi.get_num_rows()
 
             lpi.set_constraints_csr(old_constraint, offset=(rows - 1, 0))
+            lpi.init_constraint_rows.append(rows - 1)
             is_stronger = False
 
     return new_row_index, is_stronger
-- 
2.43.0


From 53846b2420e62e638fffc58e7cdd9794224fabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 17/41] fix: time-triggered detection no longer accumulates
 guard relaxation over computations

---
 hylaa/core.py             |  2 ++
 hylaa/hybrid_automaton.py | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index ab1e95d..68ebe50 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -335,6 +335,8 @@ class Core(Freezable):
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
 
+        ha.reset_tt_transitions()
+
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 1235abf..805a6d7 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -277,6 +277,7 @@ class Transition(Freezable):
         self.name = name
 
         self.time_triggered = False # assigned automatically if settings.optimize_tt_transitions == True
+        self.unrelaxed_guard_rhs = None # original guard_rhs, if it was relaxed for a time-triggered transition
 
         self.transition_index = len(from_mode.transitions)
         from_mode.transitions.append(self)
@@ -344,6 +345,7 @@ class Transition(Freezable):
 
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
+        self.unrelaxed_guard_rhs = None
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
@@ -412,6 +414,15 @@ class Transition(Freezable):
         self.reset_minkowski_constraints_csr = reset_minkowski_constraints_csr
         self.reset_minkowski_constraints_rhs = reset_minkowski_constraints_rhs
 
+    def reset_time_triggered(self):
+        '''undo the guard relaxation from an earlier computation, which may have used a different step size'''
+
+        if self.unrelaxed_guard_rhs is not None:
+            self.guard_rhs = self.unrelaxed_guard_rhs
+            self.unrelaxed_guard_rhs = None
+
+        self.time_triggered = False
+
     def get_guard_intersection(self, lpi):
         '''do an intersection between this guard and the passed-in lpi
         if there is an intersection, return a new lpi that equals the intersection, otherwise return None
@@ -572,6 +583,12 @@ class HybridAutomaton(Freezable):
                 t.guard_csr = new_guard_csr
                 t.guard_rhs = new_guard_rhs
 
+    def reset_tt_transitions(self):
+        'forget about time-triggered transitions detected in an earlier computation'
+
+        for t in self.transitions:
+            t.reset_time_triggered()
+
     def detect_tt_transitions(self, step_size=1.0, num_steps=100, print_func=None):
         '''
         Mark all time-triggered transitions within the automaton.
@@ -585,6 +602,8 @@ class HybridAutomaton(Freezable):
         and that x is flat (not an interval)
         '''
 
+        self.reset_tt_transitions()
+
         # relax constaints by epsilon to prevent missing transition due to floating-point errors
         epsilon = step_size / num_steps / 1000.0
 
@@ -670,6 +689,8 @@ def check_and_relax_time_triggered(t, tt_vars, epsilon, print_func):
                 break
 
     if all_invariant_tt:
+        relaxed_rhs = t.guard_rhs.copy() # guard_rhs may be shared between transitions
+
         print_func("all invariant conditions are on time-triggered variables... checking for tt guard")
 
         for index, (row, rhs) in enumerate(zip(t.guard_csr, t.guard_rhs)):
@@ -697,14 +718,18 @@ def check_and_relax_time_triggered(t, tt_vars, epsilon, print_func):
                         break
 
                 if found_invariant:
-                    t.guard_rhs[index] += epsilon # perform epsilon relaxation
-                    print_func("relaxed guard to {} <= {}".format(row.toarray(), t.guard_rhs[index]))
+                    relaxed_rhs[index] += epsilon # perform epsilon relaxation
+                    print_func("relaxed guard to {} <= {}".format(row.toarray(), relaxed_rhs[index]))
                 
                     rv = True
 
             print_func("Guard {} <= {} {} time triggered".format(row.toarray(), rhs, "was" if rv else "was NOT"))
                 
 
+        if rv:
+            t.unrelaxed_guard_rhs = t.guard_rhs
+            t.guard_rhs = relaxed_rhs
+
         print_func("Static Check: Transition {} {} time triggered".format(t, "is" if rv else "is NOT"))
                    
     return rv
-- 
2.43.0


From 0ff2f0076478773a4d1a14f01f71a2986b028e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 18/41] fix: seed random numbers when a computation starts, not
 only in the constructor

---
 hylaa/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 68ebe50..253e883 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -331,6 +331,9 @@ class Core(Freezable):
     def setup_ha(self, ha):
         'setup hybrid automata for computation / simulation; a substep of setup()'
 
+        # seed again, since other computations may have been done since the constructor
+        np.random.seed(self.settings.random_seed)
+
         # initialize time elapse in each mode of the hybrid automaton
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
-- 
2.43.0


From 993dddca238a85fd0cc24bff417c32bc72c89a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 19/41] fix: stop_on_aggregated_error also stops at errors of
 states that are not aggregated

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 253e883..b966795 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -86,7 +86,8 @@ class Core(Freezable):
         if self.doing_simulation:
             finished = not self.sim_states and not self.sim_waiting_list
         else:
-            if self.settings.stop_on_aggregated_error and self.result.has_aggregated_error:
+            if self.settings.stop_on_aggregated_error and \
+               (self.result.has_aggregated_error or self.result.has_concrete_error):
                 finished = True
             elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
                 finished = True
-- 
2.43.0


From 2adeb4c2b81586f973ee79f4cc9f2773e19f1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 20/41] fix: after switching to the LGG model, steps do not
 continue from the exact input effects

---
 hylaa/time_elapse_expm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index d438312..5cb57e7 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -139,5 +139,8 @@ class TimeElapseExpmMult(Freezable):
         set this time elapse object to use lgg approximation model
         '''
 
+        if not self.use_lgg:
+            self.cur_step = 0 # the current input effects are not for this model, so don't continue from them
+
         self.use_lgg = True
         self.one_step_input_effects_matrix = self.b_csc.toarray() * self.time_elapser.step_size
-- 
2.43.0


From e35d8412d5bb96eb37b9f2f6628876c69fb57416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 21/41] fix: clicking outside of all sets in an interactive
 plot raised a TypeError

---
 hylaa/plotutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..6773577 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -918,7 +918,8 @@ class PlotManager(Freezable):
                 # check which polygon you're in
                 d = self.core.result.plot_data.get_plot_data(x, y, subplot)
 
-                print(d[1:])
+                if d is not None: # clicked inside a set
+                    print(d[1:])
 
         if self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE:
             # do one frame
-- 
2.43.0


From efd97c5b3a848573fca7ef56a9d29d408cb9c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 22/41] fix: simulations plotted with y dimension 0 or with a
 direction

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From d6901b21604988b4cce8ef42d815bdfcac87031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/41] fix: two-dimensional plots in the direction of an array

---
 hylaa/lpplot.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..9cc7d8a 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -14,6 +14,18 @@ from scipy.spatial import ConvexHull
 import hylaa.kamenev as kamenev
 from hylaa.timerutil import Timers
 
+def dim_to_direction(dim, num_dims):
+    'convert a plot dimension, either an integer (dimension number) or an np.array (direction), to a direction'
+
+    if isinstance(dim, int):
+        rv = np.zeros((num_dims,), dtype=float)
+        rv[dim] = 1.0
+    else:
+        assert isinstance(dim, np.ndarray)
+        rv = dim
+
+    return rv
+
 def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
     '''convert a point to an x/y pair for plotting
     xdim and ydim can be either an integer (dimension number), an np.array (direction), or None (time will be used)
@@ -121,7 +133,7 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
-        dim_list = [xdim, ydim]
+        dim_list = [dim_to_direction(dim, lpi.dims) for dim in [xdim, ydim]]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
@@ -131,8 +143,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, dim_vec in enumerate(dim_list):
+                d -= vec[i] * dim_vec
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +152,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for dim_vec in dim_list:
+                rv.append(np.dot(dim_vec, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -172,13 +184,14 @@ def bbox_widths(lpi, xdim, ydim):
     rv = []
     dims = lpi.dims
 
+    cols = [lpi.cur_vars_offset + n for n in range(dims)]
+
     for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
+        min_dir = dim_to_direction(dim, dims)
+        max_dir = -1 * min_dir
         
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+        min_val = np.dot(min_dir, lpi.minimize(direction_vec=min_dir, columns=cols))
+        max_val = np.dot(min_dir, lpi.minimize(direction_vec=max_dir, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From a3d303bf3d8c199679cb4ef6c9952d3cec0acece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 24/41] fix: plot data of split sets is removed from every
 subplot and without a display

---
 hylaa/plotutil.py | 19 +++++++++----------
 hylaa/result.py   |  7 ++-----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 6773577..f9b6b40 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -696,6 +696,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object; it may be missing (nested deaggregation, or not every step was drawn)
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -703,27 +707,22 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        if self.settings.store_plot_result:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..49d5807 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,7 +67,7 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
+        'remove a state that was previously added (from every subplot), returns True if it was found'
 
         found = False
 
@@ -83,10 +83,7 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
-        assert found
+        return found
 
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
-- 
2.43.0


From 9c7568c902ea029c91840acca2de132ac11b5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 25/41] fix: splitting a set which was drawn as a marker in one
 of several subplots

---
 hylaa/plotutil.py | 7 +++++++
 hylaa/stateset.py | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index f9b6b40..d9b8782 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -343,6 +343,9 @@ class DrawnShapes(Freezable):
             ydata.append(poly_verts[0][1])
             markers.set_xdata(xdata)
             markers.set_ydata(ydata)
+
+            # there's no Path for a marker, but the StateSet should still have an entry for each subplot
+            stateset.set_plot_path(self.subplot, None, None)
         else:
             polys = self.parent_to_polys.get(mode_name)
 
@@ -738,6 +741,10 @@ class PlotManager(Freezable):
                 for state in states:
                     if isinstance(state, list):
                         verts = state[subplot] # list of vertices
+
+                        if len(verts) == 0: # nothing to highlight
+                            continue
+
                         verts_list.append(verts)
                     else:
                         verts = state.verts(self, subplot=subplot)
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 1ef1700..0b08ff5 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -212,7 +212,7 @@ class StateSet(Freezable):
         '''
         delete a plotted matplotlib Path object for this stateset.
 
-        returns a list of verts (one for each subplot) that was deleted, or None if stateset was
+        returns a list of verts (one for each subplot, possibly empty) that was deleted, or None if stateset was
         already deleted (can happen with recursive deaggregation)
         '''
 
@@ -228,6 +228,10 @@ class StateSet(Freezable):
 
             # for every subplot
             for path_list, index in l:
+                if path_list is None: # a marker was drawn in this subplot, rather than a Path
+                    rv.append([])
+                    continue
+
                 rv.append(path_list[index].vertices)
 
                 # this is what actually removes it from the plot
-- 
2.43.0


From 19ec5335afec6f46bf370b578b2d3539d0ec31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 26/41] fix: extra frames at the end of a video stored the last
 set again

---
 hylaa/plotutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index d9b8782..ab9f71e 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -801,6 +801,8 @@ class PlotManager(Freezable):
                 if self.pause_frames <= 0:
                     self.pause_frames = None
                     self.interactive.paused = False
+        elif self.core.is_finished():
+            pass # extra frame at the end of a video, what's plotted remains
         else:
             Timers.tic("frame")
 
-- 
2.43.0


From b8f87b450a5e279f0618936befc3e616e86543a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 27/41] fix: closing a live plot early was reported as a safe
 system

---
 hylaa/plotutil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index ab9f71e..dd42aa5 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -969,6 +969,9 @@ class PlotManager(Freezable):
             else:
                 plt.show()
 
+                if not self.core.is_finished():
+                    raise RuntimeError("plot was closed before computation completed (is_finished() returned false)")
+
     def run_to_completion(self, compute_plot=True):
         'run to completion, creating the plot at each step'
 
-- 
2.43.0


From 2087b5f20c668c419420f03622b5674ee61c8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 28/41] fix: simulations plotted with a dict of directions

---
 hylaa/plotutil.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index dd42aa5..56a8cd7 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -630,9 +630,14 @@ class PlotManager(Freezable):
                     if obj is None:
                         plot_pts.append(None)
                     else:
-                        _, pt, steps = obj
+                        mode, pt, steps = obj
                         cur_time = steps * self.core.settings.step_size 
-                        x, y = lpplot.pt_to_plot_xy(pt, xdim, ydim, cur_time)
+
+                        # dict: mode_name -> dir
+                        x_dir = xdim[mode.name] if isinstance(xdim, dict) else xdim
+                        y_dir = ydim[mode.name] if isinstance(ydim, dict) else ydim
+
+                        x, y = lpplot.pt_to_plot_xy(pt, x_dir, y_dir, cur_time)
 
                         plot_pts.append((x, y))
 
-- 
2.43.0


From 84b8b7ae0588a5787bb038d0eb54935913388b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 29/41] fix: live plots raised a TypeError with newer versions
 of matplotlib

---
 hylaa/plotutil.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 56a8cd7..97d6671 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -1021,8 +1021,15 @@ class PlotManager(Freezable):
 
 # monkey patch function for blitting tick-labels
 # see http://stackoverflow.com/questions/17558096/animated-title-in-matplotlib
-def _blit_draw(_self, artists, bg_cache):
+def _blit_draw(self, artists, bg_cache=None):
     'money-patch version of animation._blit_draw'
+
+    # newer versions of matplotlib don't pass in the cache, and it contains tuples: (view, background)
+    with_view = bg_cache is None
+
+    if with_view:
+        bg_cache = self._blit_cache # pylint: disable=protected-access
+
     # Handles blitted drawing, which renders only the artists given instead
     # of the entire figure.
     updated_ax = []
@@ -1033,7 +1040,8 @@ def _blit_draw(_self, artists, bg_cache):
         if a.axes not in bg_cache:
             # bg_cache[a.axes] = a.figure.canvas.copy_from_bbox(a.axes.bbox)
             # change here
-            bg_cache[a.axes] = a.figure.canvas.copy_from_bbox(a.axes.figure.bbox)
+            bg = a.figure.canvas.copy_from_bbox(a.axes.figure.bbox)
+            bg_cache[a.axes] = (a.axes._get_view(), bg) if with_view else bg # pylint: disable=protected-access
         a.axes.draw_artist(a)
         updated_ax.append(a.axes)
 
-- 
2.43.0


From 40429564efccd2a482778e738a71e2e9f77ff2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 30/41] fix: guards strengthened in an earlier computation are
 restored before the next one

---
 hylaa/core.py             |  1 +
 hylaa/hybrid_automaton.py | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index b966795..02432d5 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -340,6 +340,7 @@ class Core(Freezable):
             mode.init_time_elapse(self.settings.step_size)
 
         ha.reset_tt_transitions()
+        ha.reset_guard_strengthening()
 
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 805a6d7..1389ed0 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -278,6 +278,7 @@ class Transition(Freezable):
 
         self.time_triggered = False # assigned automatically if settings.optimize_tt_transitions == True
         self.unrelaxed_guard_rhs = None # original guard_rhs, if it was relaxed for a time-triggered transition
+        self.unstrengthened_guard = None # original (guard_csr, guard_rhs), if do_guard_strengthening() added conditions
 
         self.transition_index = len(from_mode.transitions)
         from_mode.transitions.append(self)
@@ -346,6 +347,7 @@ class Transition(Freezable):
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
         self.unrelaxed_guard_rhs = None
+        self.unstrengthened_guard = None
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
@@ -580,9 +582,20 @@ class HybridAutomaton(Freezable):
                 new_guard_csr = csr_matrix((data, inds, indptr), dtype=float, shape=(height, width))
                 new_guard_rhs = np.array(rhs, dtype=float)
 
+                if t.unstrengthened_guard is None:
+                    t.unstrengthened_guard = (t.guard_csr, t.guard_rhs)
+
                 t.guard_csr = new_guard_csr
                 t.guard_rhs = new_guard_rhs
 
+    def reset_guard_strengthening(self):
+        'forget about guard conditions added in an earlier computation'
+
+        for t in self.transitions:
+            if t.unstrengthened_guard is not None:
+                t.guard_csr, t.guard_rhs = t.unstrengthened_guard
+                t.unstrengthened_guard = None
+
     def reset_tt_transitions(self):
         'forget about time-triggered transitions detected in an earlier computation'
 
-- 
2.43.0


From 79592d98df51b3dd1cd72e8d7aacdcd1584aed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 31/41] fix: simulations plot the point after a transition as
 one of the entered mode

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 02432d5..f7f4cb5 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -560,8 +560,10 @@ class Core(Freezable):
                             if not post_mode.is_error():
                                 self.sim_waiting_list.append([post_mode, post_pt, steps])
                                 
+                                # the point after the transition is plotted as one of the entered mode
+                                obj[0], obj[1] = post_mode, post_pt
+
                             self.sim_took_transition[i] = True
-                            obj[1] = post_pt
                             self.print_verbose(f'Sim #{i} took transition {transition}')
                             break
 
-- 
2.43.0


From 5f64b83d2770d5c2478a02bc09fbcfdd79462b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 32/41] fix: simulations drawn with more than one step per
 frame may have lines without points

---
 hylaa/plotutil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 97d6671..0e53019 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -253,6 +253,9 @@ class DrawnShapes(Freezable):
         paths = lines.get_paths()
 
         for verts in self.cur_sim_lines:
+            if not verts: # no point was drawn (if draw_stride is more than one)
+                continue
+
             codes = [Path.MOVETO] + [Path.LINETO] * (len(verts) - 1)
             paths.append(Path(verts, codes))
 
-- 
2.43.0


From cddf34ef473dd51a984073837a76c0503cd90c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 33/41] fix: clicking into an interactive plot of simulations
 raised an AttributeError

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0e53019..abe9ca8 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -930,7 +930,7 @@ class PlotManager(Freezable):
             except ValueError:
                 subplot = None
 
-            if subplot is not None:
+            if subplot is not None and self.core.result.plot_data is not None:
                 # check which polygon you're in
                 d = self.core.result.plot_data.get_plot_data(x, y, subplot)
 
-- 
2.43.0


From 1235a204874afdcebac27b578aed14efe9ac23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 34/41] fix: outlines of sets which are flat in the first
 plotted direction span the set

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..6c05c02 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -58,7 +58,8 @@ def _find_two_points(dims, supp_point_func):
         vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
         p2 = supp_point_func(vec)
 
-        if not np.allclose(p1, p2):
+        # compare only along d, since points of a set which is flat along d may differ without being extreme points
+        if not np.isclose(p1[d], p2[d]):
             pts = [p1, p2]
             break
 
-- 
2.43.0


From 6810f98dcf5cd04302749dc2b4472668a029d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 35/41] fix: LP files which were cut off (full disk) were
 reported as written

---
 hylaa/lpinstance.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 92dcccb..ed0c1cb 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -4,6 +4,8 @@ May 2018
 GLPK python <-> C++ interface
 '''
 
+import os
+
 from termcolor import colored
 
 import numpy as np
@@ -25,6 +27,15 @@ def simple_print(s):
 
     print(s)
 
+def _is_cut_off(filename, last_line):
+    '''is the end of a written file missing? glpk doesn't report errors when it flushes its last buffer'''
+
+    if not os.path.isfile(filename) or filename.endswith('.gz'):
+        return False # special file like /dev/stdout, or compressed
+
+    with open(filename, 'rb') as f:
+        return not f.read().rstrip().endswith(last_line)
+
 class LpInstance(Freezable): # pylint: disable=too-many-public-methods
     'Linear programming wrapper using glpk (through swiglpk python interface)'
 
@@ -741,13 +752,13 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
     def write_lp_glpk(self, filename):
         '''write the lp in GLPK format'''
 
-        if glpk.glp_write_prob(self.lp, 0, filename) != 0:
+        if glpk.glp_write_prob(self.lp, 0, filename) != 0 or _is_cut_off(filename, b'e o f'):
             raise RuntimeError('Error saving GLPK-format LP to {}'.format(filename))
 
     def write_lp_cplex(self, filename):
         '''write the lp in CPLEX format'''
 
-        if glpk.glp_write_lp(self.lp, None, filename) != 0:
+        if glpk.glp_write_lp(self.lp, None, filename) != 0 or _is_cut_off(filename, b'End'):
             raise RuntimeError('Error saving CLPEX-format LP to {}'.format(filename))
 
     def get_types(self):
-- 
2.43.0


From 55295e86805547938a6485b277c07b81c24a866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 36/41] fix: closing a plot right after the last step raised an
 AssertionError

---
 hylaa/plotutil.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index abe9ca8..2a2a383 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -874,7 +874,6 @@ class PlotManager(Freezable):
 
     def anim_iterator(self):
         'generator for the computation iterator'
-        Timers.tic("anim_iterator")
 
         frame_counter = 0
 
@@ -891,9 +890,6 @@ class PlotManager(Freezable):
                 frame_counter += 1
                 yield frame_counter
 
-        Timers.toc("anim_iterator")
-
-
     def compute_and_animate(self):
         'do the computation, plotting during the process'
 
@@ -968,6 +964,9 @@ class PlotManager(Freezable):
         else:
             interval = 1 if self.settings.plot_mode == PlotSettings.PLOT_VIDEO else 0
 
+            # not within anim_iterator(), which isn't run to the end if the plot is closed right after the last step
+            Timers.tic("anim_iterator")
+
             self.num_frames_drawn = 0
             self._anim = animation.FuncAnimation(self.fig, self.anim_func, self.anim_iterator, \
                 init_func=self.anim_init_func, interval=interval, blit=True, repeat=False, save_count=sys.maxsize)
@@ -980,6 +979,8 @@ class PlotManager(Freezable):
                 if not self.core.is_finished():
                     raise RuntimeError("plot was closed before computation completed (is_finished() returned false)")
 
+            Timers.toc("anim_iterator")
+
     def run_to_completion(self, compute_plot=True):
         'run to completion, creating the plot at each step'
 
-- 
2.43.0


From 7574b38208af3d3ba747043ec54940813625afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 37/41] fix: axes were not extended while one plotted
 coordinate stays constant

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 2a2a383..ba1621e 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -523,7 +523,7 @@ class PlotManager(Freezable):
                 lim.ymax = y
 
         is_outside = lim.xmin < drawn.xmin or lim.xmax > drawn.xmax or lim.ymin < drawn.ymin or lim.ymax > drawn.ymax
-        if first_draw or (is_outside and lim.xmin != lim.xmax and lim.ymin != lim.ymax):
+        if first_draw or is_outside:
 
             # expand drawn limits to surpass actual
             dx = lim.xmax - lim.xmin
-- 
2.43.0


From d2fd210e60f434e4a82721f4a478d5f531792c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:10 +0000
Subject: [PATCH 38/41] fix: variables driven by inputs were treated as clocks
 of time-triggered transitions

---
 hylaa/hybrid_automaton.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 1389ed0..3bacb01 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -657,6 +657,9 @@ def get_tt_vars(mode):
     for i in range(mode.a_csr.shape[0]):
         nonzeros = mode.a_csr[i].getnnz()
 
+        if mode.b_csr is not None and mode.b_csr[i].getnnz() > 0: # depends on an input
+            continue
+
         if nonzeros == 0: # row of all zeros
             constant_vars.append(i)
 
@@ -664,6 +667,9 @@ def get_tt_vars(mode):
         if row.getnnz() == 0: # skip constant variables
             continue
 
+        if mode.b_csr is not None and mode.b_csr[row_index].getnnz() > 0: # depends on an input
+            continue
+
         all_constant = True
 
         for i, col in enumerate(row.indices):
-- 
2.43.0


From b4f42dfcee51103814f3baec71bdcd89b51ca261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:15 +0000
Subject: [PATCH 39/41] fix: a set was dropped after a time-triggered
 transition although its clock stays in the invariant

---
 hylaa/hybrid_automaton.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 3bacb01..1a5dcef 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -847,7 +847,11 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # the condition must also be moving further into the guard (and so, out of the invariant)
+            rate = (row * a_csr).toarray()[0]
+            max_rate = np.dot(state_lpi.minimize(direction_vec=-1 * rate, columns=state_cols), rate)
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and max_rate * step_size < -epsilon:
                 rv = True
                 
     return rv
-- 
2.43.0


From 9f945bd6c13e949e9537b40aa931b86d968e77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:20 +0000
Subject: [PATCH 40/41] fix: the step bound was one too high when max_time /
 step_size is not exact

---
 hylaa/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index a029bc3..9624fd4 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -31,7 +31,7 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-        self.num_steps = int(math.ceil(max_time / step_size))
+        self.num_steps = int(math.ceil(max_time / step_size - 1e-9)) # the division may be inexact (1.1 / 0.1 > 11)
 
         self.plot = plot_settings
         self.stdout = HylaaSettings.STDOUT_NORMAL
-- 
2.43.0


From c2a7cd524b6414bff692f45f631692128b341ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 41/41] fix: a second analysis with the same settings failed
 when extra collections are plotted

Every analysis now draws its own copies, since an artist can only be part of one figure.
---
 hylaa/plotutil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index ba1621e..8ed1aeb 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -5,6 +5,7 @@ Sept 2016
 '''
 
 import sys
+import copy
 import time
 import random
 from collections import OrderedDict
@@ -155,6 +156,9 @@ class DrawnShapes(Freezable):
             elif subplot == 0:
                 self.extra_collection_list = plotman.settings.extra_collections
 
+            # collections can only be used in a single plot, so draw copies of them (the settings may be used again)
+            self.extra_collection_list = [copy.copy(col) for col in self.extra_collection_list]
+
             for col in self.extra_collection_list:
                 self.axes.add_collection(col)
 
-- 
2.43.0

