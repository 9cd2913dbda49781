From eeb5bc8757db16b02afe8519a7c01c2ccb93186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 01/43] fix: keep invariant constraints on the inputs of the
 step they were observed at

---
 hylaa/lpinstance.py |  3 +++
 hylaa/lputil.py     | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..98bf0b6 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -42,6 +42,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = None # 2-tuple, row, column (NOT X/Y)
         self.cur_vars_offset = None
         self.input_effects_offsets = None # None or 2-tuple, row of input constraints / col of accumulated input effects
+        self.init_constraint_rows = [] # rows of the initial-time constraints added in the current mode
 
         # internal bookkeeping
         self.obj_cols = [] # columns in the LP with an assigned objective coefficient
@@ -64,6 +65,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         rv.names = self.names.copy()
 
         rv.set_reach_vars(self.dims, self.basis_mat_pos, self.cur_vars_offset, self.input_effects_offsets)
+        rv.init_constraint_rows = self.init_constraint_rows.copy()
         rv.obj_cols = self.obj_cols.copy()
 
         return rv
@@ -85,6 +87,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = basis_mat_pos
         self.cur_vars_offset = cur_vars_offset #num_cols - dims # right-most variables
         self.input_effects_offsets = input_effects_offsets
+        self.init_constraint_rows = []
 
         self._create_bm_indices()
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..f0902ba 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,17 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+    # the new columns are the inputs of the first step, so every column added earlier is now the input of one step later:
+    # existing constraints on the inputs need to move along
+    first_input = lpi.input_effects_offsets[1] + lpi.dims
+
+    for row in lpi.init_constraint_rows:
+        old = lpi.get_row(row)
+        inds = [i + num_cols if i >= first_input else i for i in old.indices]
+        shifted = csr_matrix((old.data, inds, [0, len(inds)]), shape=(1, lpi.get_num_cols()), dtype=float)
+
+        lpi.set_constraints_csr(shifted, offset=(row, 0))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
@@ -359,6 +370,7 @@ def add_init_constraint(lpi, vec, rhs, basis_matrix=None, input_effects_list=Non
     if row_index is None:
         row_index = rows
         lpi.add_rows_less_equal([rhs])
+        lpi.init_constraint_rows.append(row_index)
     else:
         # overwrite the old rhs
         lpi.set_constraint_rhs(row_index, rhs)
@@ -440,6 +452,7 @@ def try_replace_init_constraint(lpi, old_row_index, direction, rhs, basis_mat=No
             rows = lpi.get_num_rows()
 
             lpi.set_constraints_csr(old_constraint, offset=(rows - 1, 0))
+            lpi.init_constraint_rows.append(rows - 1)
             is_stronger = False
 
     return new_row_index, is_stronger
-- 
2.43.0


From 4385a8112b0a744af62a80afa4f5335ad1a96928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 02/43] fix: do not carry the time-triggered flag over to the
 next popped state

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..2172606 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -252,6 +252,7 @@ class Core(Freezable):
 
         Timers.tic('do_step_pop')
 
+        self.took_tt_transition = False # a flag left over from the previous state must not affect this one
         self.plotman.state_popped() # reset certain per-mode plot variables
         self.aggdag.print_waiting_list()
 
-- 
2.43.0


From 292f684da3773f1137fcefeb5befeb6bdf7aac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 03/43] fix: do not skip the remaining steps of modes whose
 only dynamics are inputs

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 2172606..e48295a 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -237,7 +237,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From a4c0ec4735cf2fec36fa75c929ee5f9d38a4fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 04/43] fix: only end a state at a time-triggered transition if
 it is about to leave the invariant

---
 hylaa/hybrid_automaton.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..4ddbff2 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -804,6 +804,13 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
             if abs(max_val - min_val) < epsilon and min_val <= rhs:
-                rv = True
+                # the state can only be removed if time elapse makes it leave the invariant: the flow needs to be
+                # directed into the guard, and inputs must not be able to change that
+                deriv_dir = (row * a_csr).toarray()[0]
+                max_deriv_state = state_lpi.minimize(direction_vec=-1 * deriv_dir, columns=state_cols)
+                b_csr = t.from_mode.b_csr
+
+                if np.dot(max_deriv_state, deriv_dir) < 0 and (b_csr is None or (row * b_csr).count_nonzero() == 0):
+                    rv = True
                 
     return rv
-- 
2.43.0


From 5879c154f669f1bf82f2cc0e62278a16915c684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 05/43] fix: take the remaining transitions when an error does
 not end the analysis

---
 hylaa/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index e48295a..b851c78 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -140,10 +140,8 @@ class Core(Freezable):
                 if t.to_mode.is_error():
                     self.error_reached(cur_state, t, t_lpi)
 
-                    if self.settings.stop_on_aggregated_error:
-                        break
-
-                    if cur_state.is_concrete and self.settings.stop_on_concrete_error:
+                    # only skip the remaining transitions if this error ends the analysis
+                    if self.is_finished():
                         break
                 
                 self.aggdag.add_transition_successor(t, t_lpi)
-- 
2.43.0


From a46cae48d6c33cef265ee1a4aa43de8482b9bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 06/43] fix: replay counterexamples at the times of the
 discrete steps

---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..99fc128 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -229,7 +229,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
@@ -257,7 +257,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         for left, right in zip(lhs, t.guard_rhs):
             assert left <= right + epsilon, "guard was not enabled during replay counterexample"
 
-        assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
+        assert t.reset_minkowski_csr is None, "unimplemented: resets with minkowski sums"
 
         if t.reset_csr is not None:
             poststate = t.reset_csr * states[-1]
-- 
2.43.0


From 3b67ea7d296a7c299c277aaa3626b38458e6b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 07/43] fix: use an integer number of samples when checking
 traces

---
 hylaa/check_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..876c4aa 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = approx_samples // max(1, len(inputs))
     if samples_per_input < 1:
         samples_per_input = 1
 
-- 
2.43.0


From b612c87bb5a08c9a759b461164943e715d745c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 08/43] fix: plotting of checked traces used a function that
 does not exist in Python 3

---
 hylaa/check_trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 876c4aa..7c21c7d 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -233,7 +233,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 440029b0e618979705ed3ca9dc50c2b5274db9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 09/43] fix: counterexamples from zonotopes started at points
 with too many coordinates

---
 hylaa/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 99fc128..1dc4363 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -188,7 +188,9 @@ def make_counterexample(ha, state, transition_to_error, lpi):
 
         if name.startswith('m'): # mode variable
             if '_i' in name:
-                seg.start.append(value)
+                # there may be more initial variables than state variables (zonotopes), the state comes first
+                if len(seg.start) < seg.mode.a_csr.shape[0]:
+                    seg.start.append(value)
             elif '_c' in name:
                 seg.end.append(value)
             elif '_I' in name:
-- 
2.43.0


From b54300595c5699832ca8fda1901acfe055268bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 10/43] fix: end replayed states at the time bound

---
 hylaa/aggdag.py        | 21 ++++++++++++++++++++-
 hylaa/deaggregation.py |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..c530bfa 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -406,7 +406,9 @@ class AggDagNode(Freezable):
 
         self.aggdag.core.print_verbose(f"replaying {i}: {op}")
 
-        if isinstance(op, OpLeftInvariant):
+        if self.check_replay_time_bound(op.step):
+            pass
+        elif isinstance(op, OpLeftInvariant):
             self.op_list.append(op)
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
@@ -447,6 +449,23 @@ class AggDagNode(Freezable):
 
         Timers.toc('replay_op')
 
+    def check_replay_time_bound(self, step):
+        '''
+        would advancing this node to the given step (in the mode) exceed the time bound? This can occur because the
+        states being split may start later than their aggregation. If so, the node is finished.
+        '''
+
+        state = self.get_cur_state()
+
+        last_step = state.cur_step_in_mode + self.aggdag.settings.num_steps - state.cur_steps_since_start[0]
+        rv = step > last_step
+
+        if rv:
+            state.step(last_step)
+            self.op_list.append(OpLeftInvariant(last_step, self, True))
+
+        return rv
+
     def replay_op_transition(self, state, op):
         '''replay a single operation of type OpTransition
         '''
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..830ab8c 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -147,7 +147,7 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
-            if not child.node_left_invariant():
+            if not child.node_left_invariant() and not child.check_replay_time_bound(cur_step_in_mode):
                 child.stateset.step(cur_step_in_mode)
 
         if not parent_left_invariant:
-- 
2.43.0


From 79d165fae2caf5a5be17e3fc0f3d1618c051ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 11/43] fix: keep the states of other predecessors when
 splitting

---
 hylaa/deaggregation.py | 44 +++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 830ab8c..7bbe93a 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -82,6 +82,9 @@ class DeaggregationManager(Freezable):
         assert self.replay_step is None
 
         self.deagg_parent, self.deagg_children = self.waiting_nodes.popleft()
+
+        # remove all states in the waiting list that come from this node
+        self.aggdag.remove_node_decendants_from_waiting_list(self.deagg_parent)
         self.replay_step = 0
         self.nodes_to_ops = {}
 
@@ -158,16 +161,34 @@ class DeaggregationManager(Freezable):
 
         if was_last_step or all([c.node_left_invariant() for c in self.deagg_children]):
             # update recursive children
-            
-            for pair, ops in self.nodes_to_ops.items():
-                _, child = pair
-                self.aggdag.core.print_verbose(f"making node for recursive deaggregation with t={ops[0].transition}")
-
-                # aggregate all ops into a single node, using same aggregation as before
-                node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
-                
-                self.waiting_nodes.append((child, [node]))
-                
+            deagg_parent = self.deagg_parent
+            children = []
+
+            for op in deagg_parent.op_list:
+                child = getattr(op, 'child_node', None)
+
+                if child is not None and child not in children:
+                    children.append(child)
+
+            for child in children:
+                op_lists = [ops for pair, ops in self.nodes_to_ops.items() if pair[1] is child]
+
+                # the child may also have been aggregated from transitions of other nodes, which are still valid
+                op_lists.append([op for op in child.parent_ops if op.parent_node is not deagg_parent])
+                nodes = []
+
+                for ops in op_lists:
+                    if not ops:
+                        continue
+
+                    self.aggdag.core.print_verbose(
+                        f"making node for recursive deaggregation with t={ops[0].transition}")
+
+                    # aggregate all ops into a single node, using same aggregation as before
+                    nodes.append(self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring))
+
+                self.waiting_nodes.append((child, nodes))
+
             self.deagg_parent = self.deagg_children = self.replay_step = self.nodes_to_ops = None
 
             #print(".deaggregation calling aggdag.save_viz()")
@@ -196,9 +217,6 @@ class DeaggregationManager(Freezable):
 
         Timers.tic('begin deagg replay')
 
-        # remove all states in the waiting list that come from this node
-        self.aggdag.remove_node_decendants_from_waiting_list(node)
-
         # start to populate waiting_nodes
         self.waiting_nodes.append((node, node.split()))
 
-- 
2.43.0


From a6f814470bab8f955c0ec7a2f9b82bfe40ba5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 12/43] fix: step to any step number under the LGG model (dense
 matrix for the wider input effects)

---
 hylaa/time_elapse_expm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..d438312 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
-- 
2.43.0


From b3a532f3d5fb91e11619eaee09d8f33023b07554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 13/43] fix: radius of the current states, not of the leftmost
 columns of the LP

---
 hylaa/lputil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index f0902ba..e4645e0 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1083,9 +1083,9 @@ def compute_radius_inf(lpi):
         for posneg in [1.0, -1.0]:
             dir_vec = [posneg if n == d else 0.0 for d in range(lpi.dims)]
 
-            lp_result = lpi.minimize(dir_vec)
+            lp_result = lpi.minimize(dir_vec, columns=[lpi.cur_vars_offset + n])
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[0]))
 
     return max_val
 
-- 
2.43.0


From b42b857b9251a9ee47a00526eb4f89c95d4f50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 14/43] fix: constraint types are respected when a set is built
 from rows that are not '<=' rows

---
 hylaa/lpinstance.py |  2 +-
 hylaa/lputil.py     | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 98bf0b6..81c6c9a 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -811,7 +811,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index e4645e0..54a0e41 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -111,7 +111,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-    assert is_feasible(csr, rhs), "initial constraints are not feasible"
+    assert is_feasible(csr, rhs, types), "initial constraints are not feasible"
     assert (types is None) == (names is None)
 
     if dims is None:
@@ -1013,8 +1013,11 @@ def reorthogonalize_matrix(mat, dims):
 
     return np.array(rv, dtype=float)
 
-def is_feasible(csr, rhs):
-    'are the passed in constraints feasible?'
+def is_feasible(csr, rhs, types=None):
+    '''are the passed in constraints feasible?
+
+    if types is None, then assume all constraints are '<=' constriants
+    '''
 
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
@@ -1024,7 +1027,11 @@ def is_feasible(csr, rhs):
     lpi = LpInstance()
     names = ["x{}".format(n) for n in range(csr.shape[1])]
     lpi.add_cols(names)
-    lpi.add_rows_less_equal(rhs)
+
+    if types is None:
+        lpi.add_rows_less_equal(rhs)
+    else:
+        lpi.add_rows_with_types(types, rhs)
 
     lpi.set_constraints_csr(csr)
 
-- 
2.43.0


From 3a9ef2a9f2dbc66d04604a045dac58bc02c3ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 15/43] fix: forget invariant rows of the lpi that an
 approximation model replaced

---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..ca0d607 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -342,3 +342,7 @@ class StateSet(Freezable):
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
             assert f"Unknown approx_model from settings: {approx_model}"
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lpi was replaced, so the rows of the invariant constraints in the old one are no longer valid
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
-- 
2.43.0


From d9b9fae20784de8fd64bd5acc1269830201402a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 16/43] fix: make no counterexample from the sets of an
 approximation model

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index b851c78..0575210 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -119,7 +119,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # with an approximation model, the lpi is no longer the lpi of an execution
+            if self.settings.make_counterexample and not self.result.counterexample and \
+                    self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From ae8a98f9afdec579591c22f9e7944daecec5e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 17/43] fix: apply the approximation model to the states of a
 deaggregation

---
 hylaa/deaggregation.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 7bbe93a..0122000 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -7,6 +7,7 @@ Nov 2018
 
 from collections import deque, namedtuple
 
+from hylaa.settings import HylaaSettings
 from hylaa.util import Freezable
 from hylaa.timerutil import Timers
 
@@ -88,10 +89,31 @@ class DeaggregationManager(Freezable):
         self.replay_step = 0
         self.nodes_to_ops = {}
 
+        self.apply_approx_model()
+
         # pause plot
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
 
+    def apply_approx_model(self):
+        'apply the approximation model to the children of a replay, as is done for states popped off the waiting list'
+
+        core = self.aggdag.core
+
+        if core.settings.approx_model == HylaaSettings.APPROX_NONE:
+            return
+
+        for child in self.deagg_children:
+            state = child.stateset
+
+            if state.mode.is_error():
+                continue
+
+            if core.intersect_invariant(state, add_ops_to_aggdag=False):
+                state.apply_approx_model(core.settings.approx_model)
+            else:
+                child.op_list.append(OpLeftInvariant(0, child, False))
+
     def do_step_replay(self):
         'do a refinement replay step'
 
-- 
2.43.0


From 078e795b67fe9d84a21765173e1de50eecb81872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 18/43] fix: simulations with the Unaggregated strategy
 (get_simulation_pop_mode was missing)

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..573ca92 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -47,6 +47,13 @@ class AggregationStrategy(Freezable):
 
         return [waiting_list[0]]
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list (the one with the lowest time)
+        '''
+
+        return min(sim_waiting_list, key=lambda item: item[2])[0]
+
     def get_deagg_node(self, aggdag):
         '''Called before popping a state off the waiting list. Get the aggdag node to deaggregate (if any).
         '''
-- 
2.43.0


From d9eb250a36a07c04ce9b4125da24939d04852b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 19/43] fix: pt_to_plot_xy with y dimension 0 or direction
 vectors

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From 0595aae235c94f507abd2ba6d9c145a61e9d0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 20/43] fix: whether a simulation may take transitions depended
 on the simulations before it

---
 hylaa/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 0575210..9bb3e02 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -48,7 +48,7 @@ class Core(Freezable):
         self.sim_waiting_list = None # list of (mode, pt, num_step)
         self.sim_states = None # list of (mode, pt, num_step)
         self.sim_basis_matrix = None # one-step basis matrix in current mode
-        self.sim_should_try_guards = None # False for the first step unless urgent_guards is True
+        self.sim_should_try_guards = None # list of booleans for each sim, False for the first step unless urgent_guards is True
         self.sim_took_transition = None  # list of booleans for each sim
 
         # make random number generation (for example, to find orthogonal directions) deterministic
@@ -512,7 +512,7 @@ class Core(Freezable):
                 # pop minimum time state
                 self.sim_pop_waiting_list()
 
-                self.sim_should_try_guards = self.settings.process_urgent_guards
+                self.sim_should_try_guards = [self.settings.process_urgent_guards] * len(self.sim_states)
                 self.sim_took_transition = [False] * len(self.sim_states)
                 self.plotman.pause()
                 self.print_verbose("Pausing due to sim pop()")
@@ -535,7 +535,7 @@ class Core(Freezable):
                     continue
 
                 # try guards (before advancing)
-                if self.sim_should_try_guards:
+                if self.sim_should_try_guards[i]:
                     for transition in mode.transitions:
                         if transition.is_guard_true_for_point(pt):
 
@@ -561,7 +561,7 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
+                self.sim_should_try_guards[i] = True
                 finished = False
                 
                 # advance time
-- 
2.43.0


From 4042c35a859beb1fc7443e95058bf68178d0d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 21/43] fix: simulations took urgent transitions outside of the
 invariant

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 9bb3e02..3ddc148 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -512,7 +512,9 @@ class Core(Freezable):
                 # pop minimum time state
                 self.sim_pop_waiting_list()
 
-                self.sim_should_try_guards = [self.settings.process_urgent_guards] * len(self.sim_states)
+                # a state that enters a mode outside of its invariant does not take transitions
+                self.sim_should_try_guards = [self.settings.process_urgent_guards and mode.point_in_invariant(pt)
+                                              for mode, pt, _ in self.sim_states]
                 self.sim_took_transition = [False] * len(self.sim_states)
                 self.plotman.pause()
                 self.print_verbose("Pausing due to sim pop()")
-- 
2.43.0


From 2ab7169a1be11d4f8d22e948d88240881768180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 22/43] fix: simulations with per-mode plot directions (dict)

---
 hylaa/plotutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..02c0ebc 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -627,9 +627,11 @@ class PlotManager(Freezable):
                     if obj is None:
                         plot_pts.append(None)
                     else:
-                        _, pt, steps = obj
+                        mode, pt, steps = obj
                         cur_time = steps * self.core.settings.step_size 
-                        x, y = lpplot.pt_to_plot_xy(pt, xdim, ydim, cur_time)
+                        mode_xdim = xdim[mode.name] if isinstance(xdim, dict) else xdim
+                        mode_ydim = ydim[mode.name] if isinstance(ydim, dict) else ydim
+                        x, y = lpplot.pt_to_plot_xy(pt, mode_xdim, mode_ydim, cur_time)
 
                         plot_pts.append((x, y))
 
-- 
2.43.0


From f01e8e790b8d5aef2c96675fee01f6c125858ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 23/43] fix: get the end points of a line segment set in
 kamenev.get_verts

---
 hylaa/kamenev.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..6572bbe 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -121,6 +121,11 @@ def get_verts(dims, supp_point_func, epsilon=1e-7):
 
     init_simplex = _find_init_simplex(dims, supp_point_func)
 
+    if len(init_simplex) == 2:
+        # the set is a line segment: the two points are some points on it, get its end points
+        line_dir = init_simplex[1] - init_simplex[0]
+        init_simplex = [supp_point_func(-1 * line_dir), supp_point_func(line_dir)]
+
     if len(init_simplex) < 3:
         return init_simplex # for 0-d and 1-d sets, the init_simplex corners are the only possible extreme points
     
-- 
2.43.0


From cc3865cb7d7e876d1b59316a380a8ef612f76d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 24/43] fix: replace stored polygons in every subplot, whatever
 the plot mode, when a step is deaggregated

---
 hylaa/plotutil.py | 20 ++++++++++----------
 hylaa/result.py   | 15 +++------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 02c0ebc..664f378 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -698,6 +698,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -705,27 +709,23 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        # add it to result as well
+        if self.core.result.plot_data is not None:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index 1dc4363..56c2d9a 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -55,7 +55,7 @@ class PlotData(Freezable):
     def get_verts_list(self, mode_name, plot_index=0):
         'get a list of lists for the passed-in mode'
 
-        return self.mode_to_obj_list[plot_index][mode_name][0]
+        return [obj[0] for obj in self.mode_to_obj_list[plot_index][mode_name]]
 
     def add_state(self, state, verts, plot_index):
         'add a plotted state'
@@ -67,27 +67,18 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
-
-        found = False
+        'remove a state that was previously added (to every subplot), if it is still there'
 
         for mode_to_obj in self.mode_to_obj_list:
             obj_list = mode_to_obj[state.mode.name]
 
             for index, obj in enumerate(obj_list):
-                _, istate, istep, desc = obj
+                _, istate, istep, _ = obj
 
                 if istate is state and step == istep:
-                    found = True
-
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
-        assert found
-
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
 
-- 
2.43.0


From 137570f8b4b3e8b1c3a49db2a792e405df72af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 25/43] fix: 2-d views with directions, and views of time
 against time

---
 hylaa/lpplot.py | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..ea006dd 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -60,13 +60,13 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     #try:
     if xdim is None and ydim is None:
         if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
+            verts = [[cur_time[0], cur_time[0]]]
         else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+            verts = []
+            verts.append([cur_time[0], cur_time[0]])
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
@@ -117,22 +117,28 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             verts.append([xmin, cur_time[1]])
     else:
         # 2-d plot
+        if isinstance(xdim, int):
+            xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
+        if isinstance(ydim, int):
+            ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
         bboxw = bbox_widths(lpi, xdim, ydim)
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
-        dim_list = [xdim, ydim]
+        dir_list = [xdim, ydim]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
 
-            assert len(vec) == len(dim_list)
+            assert len(vec) == len(dir_list)
 
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, dir_vec in enumerate(dir_list):
+                d -= vec[i] * dir_vec
 
             lpi.set_minimize_direction(d)
 
@@ -140,15 +146,15 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for dir_vec in dir_list:
+                rv.append(np.dot(dir_vec, res))
 
             rv = np.array(rv, dtype=float)
 
             return rv
 
         Timers.tic('kamenev.get_verts')
-        verts = kamenev.get_verts(len(dim_list), supp_point_nd, epsilon=epsilon)
+        verts = kamenev.get_verts(len(dir_list), supp_point_nd, epsilon=epsilon)
         Timers.toc('kamenev.get_verts')
 
         if len(verts) > 2:
@@ -166,19 +172,15 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
     return verts
 
-def bbox_widths(lpi, xdim, ydim):
-    'find and return the bounding box widths of the lp for the passed-in dimensions'
+def bbox_widths(lpi, xdir, ydir):
+    'find and return the bounding box widths of the lp for the passed-in directions'
 
     rv = []
-    dims = lpi.dims
+    cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
 
-    for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+    for vec in [xdir, ydir]:
+        min_val = np.dot(vec, lpi.minimize(direction_vec=vec, columns=cols))
+        max_val = np.dot(vec, lpi.minimize(direction_vec=-1 * vec, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From c170013db7d8bb35a3c2e61a530420c7ed0a6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 26/43] fix: refuse symbolic conditions that lack a side

---
 hylaa/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/symbolic.py b/hylaa/symbolic.py
index 03a65f2..11a609b 100644
--- a/hylaa/symbolic.py
+++ b/hylaa/symbolic.py
@@ -156,6 +156,9 @@ def make_condition(variables, condition_list, constant_dict, has_affine_variable
 
         left, right = cond.split("<=")
 
+        if not left.strip() or not right.strip():
+            raise RuntimeError(f"Expected expressions on both sides of condition: {cond}")
+
         # swap left and right for '>=' expressions
         if greater_than_count == 1:
             left, right = right, left
-- 
2.43.0


From 580fe6467a5bceeb19baae6c65da0881b44bd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 27/43] fix: refuse and, or, if, ... in symbolic expressions
 instead of evaluating them

---
 hylaa/symbolic.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hylaa/symbolic.py b/hylaa/symbolic.py
index 11a609b..3163254 100644
--- a/hylaa/symbolic.py
+++ b/hylaa/symbolic.py
@@ -7,10 +7,22 @@ Stanley Bak
 Nov 2018
 '''
 
+import keyword
+import re
+
 import sympy
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import Mul, Expr, Add, Symbol, Number
 
+def _parse(text, symbol_dict):
+    '''parse an expression (python's own words, like 'and', are refused: they would be evaluated by python)'''
+
+    for word in re.findall(r'[^\W\d]\w*', text):
+        if keyword.iskeyword(word):
+            raise RuntimeError(f"unexpected word '{word}' in expression: '{text}'")
+
+    return parse_expr(text, local_dict=symbol_dict)
+
 def extract_linear_terms(e, variables, has_affine_variable):
     '''extract linear terms from a flat sympy expression
 
@@ -110,7 +122,7 @@ def make_dynamics_mat(variables, derivatives, constant_dict, has_affine_variable
         symbol_dict[var] = sym_var
 
     for der in derivatives:
-        sym_der = parse_expr(der, local_dict=symbol_dict)
+        sym_der = _parse(der, symbol_dict)
 
         sym_der = sym_der.subs(subs)
 
@@ -166,7 +178,7 @@ def make_condition(variables, condition_list, constant_dict, has_affine_variable
         # make the expression: left - (right) <= 0
         subtract_cond = f"{left} - ({right})"
         
-        sym_cond = parse_expr(subtract_cond, local_dict=symbol_dict)
+        sym_cond = _parse(subtract_cond, symbol_dict)
 
         # substitute in constants
         sym_cond = sym_cond.subs(subs)
-- 
2.43.0


From ecd3f8ec3ba1276f278951775bd69f52fd82dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 28/43] fix: refuse infinite and undefined numbers in symbolic
 expressions

---
 hylaa/symbolic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hylaa/symbolic.py b/hylaa/symbolic.py
index 3163254..6aaf7ab 100644
--- a/hylaa/symbolic.py
+++ b/hylaa/symbolic.py
@@ -8,6 +8,7 @@ Nov 2018
 '''
 
 import keyword
+import math
 import re
 
 import sympy
@@ -21,7 +22,11 @@ def _parse(text, symbol_dict):
         if keyword.iskeyword(word):
             raise RuntimeError(f"unexpected word '{word}' in expression: '{text}'")
 
-    return parse_expr(text, local_dict=symbol_dict)
+    # sympy's names for infinite or undefined numbers are unknown names here
+    local_dict = {name: Symbol(name) for name in ('oo', 'zoo', 'nan')}
+    local_dict.update(symbol_dict)
+
+    return parse_expr(text, local_dict=local_dict)
 
 def extract_linear_terms(e, variables, has_affine_variable):
     '''extract linear terms from a flat sympy expression
@@ -55,6 +60,9 @@ def _extract_linear_terms_rec(e, variables, rv, has_affine_variable):
     elif isinstance(e, Number):
         val = float(e)
 
+        if not math.isfinite(val):
+            raise RuntimeError(f"number is not finite: '{e}'")
+
         if val != 0:
             if not has_affine_variable:
                 raise RuntimeError(f"expression has affine variables but has_affine_variable was False: '{e}'")
@@ -83,6 +91,9 @@ def _extract_linear_terms_rec(e, variables, rv, has_affine_variable):
         else:
             raise RuntimeError(f"expected multiplication with one number and one variable: '{e}'")
 
+        if not math.isfinite(float(num_term)):
+            raise RuntimeError(f"number is not finite: '{num_term}'")
+
         try:
             index = variables.index(sym_term.name)
         except ValueError:
-- 
2.43.0


From a8861fbfc4d0627e608c6d76f0ae48486ee1f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 29/43] fix: keep copies of the given right-hand sides of
 invariants, inputs and guards

---
 hylaa/hybrid_automaton.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 4ddbff2..3e11e58 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -124,9 +124,7 @@ class Mode(Freezable):
         if not isinstance(constraints_csr, csr_matrix):
             constraints_csr = csr_matrix(constraints_csr, dtype=float)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
-
+        constraints_rhs = np.array(constraints_rhs, dtype=float) # a copy, the given array is not changed
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
             "width of invaraiant constraints({}) must equal A matrix size({})".format( \
@@ -220,9 +218,7 @@ class Mode(Freezable):
         if not isinstance(u_constraints_csr, csr_matrix):
             u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
-        
+        u_constraints_rhs = np.array(u_constraints_rhs, dtype=float) # a copy, the given array is not changed
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
         # additional checks on inputs
@@ -328,9 +324,9 @@ class Transition(Freezable):
         if not isinstance(guard_csr, csr_matrix):
             guard_csr = csr_matrix(guard_csr, dtype=float)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
-        
+        # a copy: the given array is not changed, even if the guard is relaxed later
+        guard_rhs = np.array(guard_rhs, dtype=float)
+
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
         if guard_csr.shape[0] > 0:
-- 
2.43.0


From 85a315492e87b55a68ee5de7cb0a315d8fc1e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 30/43] fix: start each computation from the guards as they
 were given

---
 hylaa/core.py             |  4 ++++
 hylaa/hybrid_automaton.py | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 3ddc148..8f2547c 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -331,6 +331,10 @@ class Core(Freezable):
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
 
+        # the guards may have been relaxed or strengthened in a previous computation, with other settings
+        for transition in ha.transitions:
+            transition.restore_guard()
+
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 3e11e58..7c96310 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -264,6 +264,7 @@ class Transition(Freezable):
 
         self.guard_csr = None
         self.guard_rhs = None
+        self.given_guard = None # the pair (guard_csr, guard_rhs) passed to set_guard, before relaxation and strengthening
 
         self.reset_csr = None
         self.reset_minkowski_csr = None
@@ -340,6 +341,16 @@ class Transition(Freezable):
 
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
+        self.given_guard = (guard_csr, guard_rhs.copy())
+
+    def restore_guard(self):
+        'undo the changes which a previous computation made to the guard'
+
+        if self.given_guard is not None:
+            self.guard_csr = self.given_guard[0]
+            self.guard_rhs = self.given_guard[1].copy()
+
+        self.time_triggered = False
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
-- 
2.43.0


From 35d11abaca5d2ab203d32fa832c15d85bae3af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 31/43] fix: give each Core its own random state

---
 hylaa/core.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 8f2547c..350540a 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -3,6 +3,8 @@ Main Hylaa Reachability Implementation
 Stanley Bak, 2018
 '''
 
+import contextlib
+
 import numpy as np
 from termcolor import cprint
 
@@ -51,8 +53,10 @@ class Core(Freezable):
         self.sim_should_try_guards = None # list of booleans for each sim, False for the first step unless urgent_guards is True
         self.sim_took_transition = None  # list of booleans for each sim
 
-        # make random number generation (for example, to find orthogonal directions) deterministic
+        # make random number generation (for example, to find orthogonal directions) deterministic. Each Core has its own
+        # random state, so that it does not depend on what else is computed in between
         np.random.seed(hylaa_settings.random_seed)
+        self.random_state = np.random.get_state()
 
         LpInstance.print_normal = self.print_normal
         LpInstance.print_verbose = self.print_verbose
@@ -285,14 +289,28 @@ class Core(Freezable):
 
         Timers.toc('do_step_pop')
 
+    @contextlib.contextmanager
+    def own_random_state(self):
+        'use the random state of this Core'
+
+        outer = np.random.get_state()
+        np.random.set_state(self.random_state)
+
+        try:
+            yield
+        finally:
+            self.random_state = np.random.get_state()
+            np.random.set_state(outer)
+
     def do_step(self):
         'do a single step of the computation'
 
-        if self.doing_simulation:
-            self.do_step_sim()
-        else:
-            self.do_step_reach()
-            
+        with self.own_random_state():
+            if self.doing_simulation:
+                self.do_step_sim()
+            else:
+                self.do_step_reach()
+
     def do_step_reach(self):
         'do a single reach step of the computation'
 
@@ -469,7 +487,8 @@ class Core(Freezable):
         self.sim_waiting_list = []
 
         for sim_index in range(num_sims[1]):
-            rand_array = np.random.rand(dims)
+            with self.own_random_state():
+                rand_array = np.random.rand(dims)
 
             if sim_index < num_sims[0]:
                 continue
-- 
2.43.0


From 8dfc8595dd8703396a040fce95d1456ee1181a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 32/43] fix: accept sparse matrices of integers in models, like
 dense ones

---
 hylaa/hybrid_automaton.py | 29 ++++++++++-------------------
 hylaa/lputil.py           |  7 ++-----
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7c96310..1d32e1f 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -121,9 +121,7 @@ class Mode(Freezable):
 
         assert self.a_csr is not None, "A matrix must be set first"
         
-        if not isinstance(constraints_csr, csr_matrix):
-            constraints_csr = csr_matrix(constraints_csr, dtype=float)
-            
+        constraints_csr = csr_matrix(constraints_csr, dtype=float)
         constraints_rhs = np.array(constraints_rhs, dtype=float) # a copy, the given array is not changed
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
@@ -212,12 +210,8 @@ class Mode(Freezable):
         '''
     
         assert self.a_csr is not None, "set_dynamics should be done before set_inputs"
-        if not isinstance(b_csr, csr_matrix):
-            b_csr = csr_matrix(b_csr, dtype=float)
-            
-        if not isinstance(u_constraints_csr, csr_matrix):
-            u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
-            
+        b_csr = csr_matrix(b_csr, dtype=float)
+        u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
         u_constraints_rhs = np.array(u_constraints_rhs, dtype=float) # a copy, the given array is not changed
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
@@ -233,8 +227,7 @@ class Mode(Freezable):
     def set_dynamics(self, a_csr):
         'sets the autonomous system dynamics (A matrix)'
 
-        if not isinstance(a_csr, csr_matrix):
-            a_csr = csr_matrix(a_csr, dtype=float)
+        a_csr = csr_matrix(a_csr, dtype=float)
 
         assert a_csr.shape[0] == a_csr.shape[1], "expected square dynamics matrix, got {}".format(a_csr.shape)
 
@@ -322,9 +315,8 @@ class Transition(Freezable):
     def set_guard(self, guard_csr, guard_rhs):
         '''set the guard'''
         
-        if not isinstance(guard_csr, csr_matrix):
-            guard_csr = csr_matrix(guard_csr, dtype=float)
-            
+        guard_csr = csr_matrix(guard_csr, dtype=float)
+
         # a copy: the given array is not changed, even if the guard is relaxed later
         guard_rhs = np.array(guard_rhs, dtype=float)
 
@@ -378,16 +370,15 @@ class Transition(Freezable):
             assert self.from_mode.a_csr.shape[0] == to_mode_csr.shape[0], "identity reset but num dims changes"
             reset_csr = sp.sparse.identity(self.from_mode.a_csr.shape[0], dtype=float, format='csr')
 
-        if not isinstance(reset_csr, csr_matrix):
-            reset_csr = csr_matrix(reset_csr, dtype=float)
+        reset_csr = csr_matrix(reset_csr, dtype=float)
 
-        if reset_minkowski_csr is not None and not isinstance(reset_minkowski_csr, csr_matrix):
+        if reset_minkowski_csr is not None:
             reset_minkowski_csr = csr_matrix(reset_minkowski_csr, dtype=float)
 
-        if reset_minkowski_constraints_csr is not None and not isinstance(reset_minkowski_constraints_csr, csr_matrix):
+        if reset_minkowski_constraints_csr is not None:
             reset_minkowski_constraints_csr = csr_matrix(reset_minkowski_constraints_csr, dtype=float)
 
-        if reset_minkowski_constraints_rhs is not None and not isinstance(reset_minkowski_constraints_rhs, np.ndarray):
+        if reset_minkowski_constraints_rhs is not None:
             reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 54a0e41..5fafc26 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -103,11 +103,8 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     '''
 
-    if not isinstance(csr, csr_matrix):
-        csr = csr_matrix(csr, dtype=float)
-
-    if not isinstance(rhs, np.ndarray):
-        rhs = np.array(rhs, dtype=float)
+    csr = csr_matrix(csr, dtype=float)
+    rhs = np.array(rhs, dtype=float)
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-- 
2.43.0


From 53fa7d4df4e4fe4a6a72d38f22f0b3a226c6ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 33/43] fix: flatten the right-hand side of a guard before it
 is used

---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 1d32e1f..41e8fc8 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -326,11 +326,11 @@ class Transition(Freezable):
             assert guard_csr.shape[1] == self.from_mode.a_csr.shape[0], "guard matrix expected {} columns, got {}" \
                                                           .format(self.from_mode.a_csr.shape[0], guard_csr.shape[1])
 
-        assert lputil.is_feasible(guard_csr, guard_rhs), "guard constraints were infeasible"
-
         guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
         assert guard_rhs.shape[0] == guard_csr.shape[0]
 
+        assert lputil.is_feasible(guard_csr, guard_rhs), "guard constraints were infeasible"
+
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
         self.given_guard = (guard_csr, guard_rhs.copy())
-- 
2.43.0


From bac6674ca49a9497a3ac15dd237498609d7d6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 34/43] fix: let guards without conditions be true whatever
 their width

---
 hylaa/hybrid_automaton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 41e8fc8..f376451 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -322,9 +322,11 @@ class Transition(Freezable):
 
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
-        if guard_csr.shape[0] > 0:
-            assert guard_csr.shape[1] == self.from_mode.a_csr.shape[0], "guard matrix expected {} columns, got {}" \
-                                                          .format(self.from_mode.a_csr.shape[0], guard_csr.shape[1])
+        if guard_csr.shape[0] == 0:
+            guard_csr = csr_matrix((0, self.from_mode.a_csr.shape[0]), dtype=float)
+
+        assert guard_csr.shape[1] == self.from_mode.a_csr.shape[0], "guard matrix expected {} columns, got {}" \
+                                                      .format(self.from_mode.a_csr.shape[0], guard_csr.shape[1])
 
         guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
         assert guard_rhs.shape[0] == guard_csr.shape[0]
-- 
2.43.0


From dfecde3dc886a09e593e617ad95eabcbef729d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 35/43] fix: refuse empty lists of inputs, which fail during
 the computation

---
 hylaa/hybrid_automaton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index f376451..37e3a28 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -156,6 +156,8 @@ class Mode(Freezable):
         assert u_constraints_csr.shape[0] == u_constraints_rhs.shape[0], "u_constraints rows shoud match rhs len"
         assert u_constraints_csr.shape[1] == b_csr.shape[1], "u_constraints cols should match b.width"
 
+        assert b_csr.shape[1] > 0, "expected at least one input"
+
         assert b_csr.shape[0] == self.a_csr.shape[0], \
                 "B-mat shape {} incompatible with A-mat shape {}".format(b_csr.shape, self.a_csr.shape)
 
-- 
2.43.0


From 3d606b8c04a9c97b3dc5c441394dfd3d465bdd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 36/43] fix: refuse reset sets without (or with half of) their
 constraints

---
 hylaa/hybrid_automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 37e3a28..112ecff 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -390,6 +390,10 @@ class Transition(Freezable):
         assert reset_csr.shape[0] == to_mode_csr.shape[0], "reset matrix expected {} rows, got {}".format(
             to_mode_csr.shape[0], reset_csr.shape[0])
 
+        if reset_minkowski_csr is not None or reset_minkowski_constraints_csr is not None:
+            assert reset_minkowski_constraints_csr is not None and reset_minkowski_constraints_rhs is not None, \
+                "reset_minkowski variables need constraints, both reset_minkowski_constraints_csr and _rhs"
+
         if reset_minkowski_constraints_rhs is not None:
             assert len(reset_minkowski_constraints_rhs.shape) == 1
             assert reset_minkowski_constraints_csr is not None
-- 
2.43.0


From aca56ea8984fd5edc52911d13c880e788099e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 37/43] fix: check dimensions before each run, as dynamics may
 be assigned late

---
 hylaa/core.py             |  4 ++--
 hylaa/hybrid_automaton.py | 37 ++++++++++++++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 350540a..155d006 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -345,6 +345,8 @@ class Core(Freezable):
     def setup_ha(self, ha):
         'setup hybrid automata for computation / simulation; a substep of setup()'
 
+        ha.check_transitions()
+
         # initialize time elapse in each mode of the hybrid automaton
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
@@ -359,8 +361,6 @@ class Core(Freezable):
         if self.settings.do_guard_strengthening:
             ha.do_guard_strengthening()
 
-        ha.check_transitions()
-
     def setup(self, init_state_list):
         'setup the computation (called by run())'
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 112ecff..bd07da3 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -501,9 +501,23 @@ class HybridAutomaton(Freezable):
         check that transitios have appropriate resets if the number of variables changes. This is done automatically
         when set_reset is called, but sometimes this may not be called (identity resets). This will check these cases.
 
-        This also checks that guards were assigned and error modes don't have outgoing transitions
+        This also checks that guards were assigned and error modes don't have outgoing transitions, and that everything
+        has the dimensions of the dynamics, which may have been assigned again (or later).
         '''
 
+        for mode in self.modes.values():
+            if mode.a_csr is None:
+                continue
+
+            dims = mode.a_csr.shape[0]
+
+            assert mode.b_csr is None or mode.b_csr.shape[0] == dims, \
+                "Mode '{}' has {} dims but its B matrix has {} rows".format(mode.name, dims, mode.b_csr.shape[0])
+
+            for lc in mode.inv_list:
+                assert lc.csr.shape[1] == dims, \
+                    "Mode '{}' has {} dims but its invariant has {} columns".format(mode.name, dims, lc.csr.shape[1])
+
         for t in self.transitions:
             assert t.from_mode.a_csr is not None, \
                 "Outgoing transition detected from error mode: {} (not allowed)".format(t)
@@ -511,16 +525,33 @@ class HybridAutomaton(Freezable):
             assert t.guard_csr is not None, ("Transition '{}' guard was NOT assigned. " + \
                 "Use set_guard_true() for always enabled guards, if that's what was intended.").format(t)
             
+            premode_dims = t.from_mode.a_csr.shape[0]
+
+            assert t.guard_csr.shape[1] == premode_dims, \
+                "Transition {} premode has {} dims but its guard has {} columns".format(
+                    t, premode_dims, t.guard_csr.shape[1])
+
+            assert t.reset_csr is None or t.reset_csr.shape[1] == premode_dims, \
+                "Transition {} premode has {} dims but its reset has {} columns".format(
+                    t, premode_dims, t.reset_csr.shape[1])
+
             if t.to_mode.a_csr is None:
                 continue
-            
-            premode_dims = t.from_mode.a_csr.shape[0]
+
             postmode_dims = t.to_mode.a_csr.shape[0]
 
             assert premode_dims == postmode_dims or t.reset_csr is not None, \
                 "Transition {} premode has {} dims and postmode has {} dims, but no reset was assigned".format(
                     t, premode_dims, postmode_dims)
 
+            assert t.reset_csr is None or t.reset_csr.shape[0] == postmode_dims, \
+                "Transition {} postmode has {} dims but its reset has {} rows".format(
+                    t, postmode_dims, t.reset_csr.shape[0])
+
+            assert t.reset_minkowski_csr is None or t.reset_minkowski_csr.shape[0] == postmode_dims, \
+                "Transition {} postmode has {} dims but its reset set has {} rows".format(
+                    t, postmode_dims, t.reset_minkowski_csr.shape[0])
+
     def do_guard_strengthening(self):
         '''
         Strengthen the guards to include the invariants of target modes
-- 
2.43.0


From 9a95ec599d32e6cff00cacdd319c33d2c65c016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 38/43] fix: refuse transitions and initial sets that mix
 automata

---
 hylaa/core.py             | 1 +
 hylaa/hybrid_automaton.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 155d006..d15e012 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -370,6 +370,7 @@ class Core(Freezable):
 
         for state in init_state_list:
             assert isinstance(state, StateSet), "initial states should be a list of StateSet objects"
+            assert state.mode.ha is init_state_list[0].mode.ha, "initial states should be in the same automaton"
 
         self.result = HylaaResult()
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index bd07da3..8be57a9 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -491,6 +491,8 @@ class HybridAutomaton(Freezable):
     def new_transition(self, from_mode, to_mode, name=None):
         '''add a transition'''
 
+        assert from_mode.ha is self and to_mode.ha is self, "expected modes of this automaton"
+
         t = Transition(self, from_mode, to_mode, name=name)
         self.transitions.append(t)
 
-- 
2.43.0


From 4fbb7adf5bc711bab7ee1d97e131474bdb7b7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 39/43] fix: refuse initial state sets which were already used

---
 hylaa/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index d15e012..cab20bc 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -371,6 +371,8 @@ class Core(Freezable):
         for state in init_state_list:
             assert isinstance(state, StateSet), "initial states should be a list of StateSet objects"
             assert state.mode.ha is init_state_list[0].mode.ha, "initial states should be in the same automaton"
+            assert state.cur_step_in_mode == 0 and sum(1 for s in init_state_list if s is state) == 1, \
+                "initial states are used up by a computation, each one can only be used once"
 
         self.result = HylaaResult()
 
-- 
2.43.0


From c732dee541148ab453b7d5b4cd1c0dc40e3d38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 40/43] fix: refuse step sizes and time bounds which are not
 positive

---
 hylaa/settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index a029bc3..671b7e8 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -28,6 +28,9 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
     APPROX_NONE, APPROX_CHULL, APPROX_LGG = range(3)
 
     def __init__(self, step_size, max_time):
+        assert step_size > 0, "expected a positive step size, got {}".format(step_size)
+        assert max_time > 0, "expected a positive time bound, got {}".format(max_time)
+
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-- 
2.43.0


From 0ffc0688d83e33f8c73706e66e4d9cd74445c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 41/43] fix: do not compute a step after the time bound because
 of rounding

---
 hylaa/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index 671b7e8..5d70bf6 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -34,7 +34,8 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-        self.num_steps = int(math.ceil(max_time / step_size))
+        # rounding errors should not add a step, as in 1.1 / 0.1 = 11.000000000000002
+        self.num_steps = int(math.ceil(max_time / step_size - 1e-9))
 
         self.plot = plot_settings
         self.stdout = HylaaSettings.STDOUT_NORMAL
-- 
2.43.0


From b1b796ba0907cae0284a6cfc2dcc93af15e9020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 42/43] fix: compare linear constraints of different sparsity

---
 hylaa/hybrid_automaton.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 8be57a9..76451dd 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,18 +37,10 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
-            rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
-            rv = False
         else:
-            for i in range(len(self.csr.data)):
-                a = self.csr.data[i]
-                b = other.csr.data[i]
-
-                if abs(a - b) > tol:
-                    rv = False
-                    break
+            # the sparsity pattern, and the order of the entries, do not matter
+            diff = abs(self.csr - other.csr)
+            rv = diff.nnz == 0 or diff.max() <= tol
 
         return rv
 
-- 
2.43.0


From 798ceaf6ba90359179299d8302041b6b4e95229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 43/43] fix: do not append to the list of names which was
 passed in

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 5fafc26..0795abd 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -122,7 +122,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     if names is None:
         names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
         
-    names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+    names = list(names) + ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
     lpi.add_cols(names)
 
-- 
2.43.0

