From 3878ad00bded6e1dda3b5bc350f3911d621db14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 001/150] fix: connect every input linked to a sourced input,
 whatever the order of connect calls

---
 openmdao/core/problem.py | 46 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..67d0a75 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -251,27 +251,37 @@ class Problem(object):
         # now all nodes that are downstream of an unknown source have been
         # marked.  Anything left must be an input that is either dangling or
         # upstream of an input that does have an unknown source.
+        visited = set()
         for node in input_graph.nodes_iter():
-            # only look at unmarked nodes that have 0 in_degree
-            if node not in newconns and len(input_graph.pred[node]) == 0:
-                nosrc = [node]
-                # walk dfs from this input 'src' node until we hit a param
-                # that has an unknown src
-                for s, t in nx.dfs_edges(input_graph, node):
+            # only look at unmarked nodes
+            if node in newconns or node in visited:
+                continue
+
+            # collect all unmarked inputs that are connected (directly or
+            # indirectly) to this one, and the unknown src (if any) of the
+            # marked inputs they are connected to
+            visited.add(node)
+            nosrc = [node]
+            src = None
+            for n in nosrc:
+                for t in chain(input_graph.succ[n], input_graph.pred[n]):
                     if t in newconns:  # found param with unknown src
-                        src = newconns[t][0][0]
-                        # connect the unknown src to all of the inputs connected
-                        # to the current node that have no unknown src
-                        for n in nosrc:
-                            newconns[n] = [(src, None)]
-                        break
-                    else:
+                        if src is None:
+                            src = newconns[t][0][0]
+                    elif t not in visited:
+                        visited.add(t)
                         nosrc.append(t)
-                else: # didn't find an unknown src, so must be dangling
-                    set_nosrc = set(nosrc)
-                    for n in nosrc:
-                        self._dangling[to_prom_name[n]] = set_nosrc
-                        self._input_inputs[n] = nosrc
+
+            if src is not None:
+                # connect the unknown src to all of the inputs connected
+                # to the current node that have no unknown src
+                for n in nosrc:
+                    newconns[n] = [(src, None)]
+            else: # didn't find an unknown src, so must be dangling
+                set_nosrc = set(nosrc)
+                for n in nosrc:
+                    self._dangling[to_prom_name[n]] = set_nosrc
+                    self._input_inputs[n] = nosrc
 
         # connections must be in order across processes, so use an OrderedDict
         # and sort targets before adding them
-- 
2.43.0


From 38f759940ee531c91d5459449fa0e740e49a85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 002/150] fix: finite-difference totals of an unknown that is
 also a design variable

When a design variable was also requested as an output, the finite-difference
Jacobian was a single 1.0 unless indices were given (whatever the size of the
variable), and array indices raised an AttributeError. Fill in the identity
for the selected entries.
---
 openmdao/core/system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..0e03625 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -770,11 +770,11 @@ class System(object):
                         if u_name == param_src:
                             if qoi_indices and u_name in qoi_indices:
                                 q_idxs = qoi_indices[u_name]
-                                if idx in q_idxs:
-                                    row = qoi_indices[u_name].index(idx)
-                                    jac[u_name, p_name][row][col] = 1.0
                             else:
-                                jac[u_name, p_name] = np.array([[1.0]])
+                                q_idxs = range(np.size(target_input))
+                            for row, q_idx in enumerate(q_idxs):
+                                if q_idx == idx:
+                                    jac[u_name, p_name][row][col] = 1.0
 
                     # Restore old residual
                     resultvec.vec[:] = cache1
-- 
2.43.0


From 5b43f514e88aa8b2ff75d36d323bd9875e80f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 003/150] fix: reverse-mode apply_linear rescaled the adjoint
 vector in place

For states with a resid_scaler, every reverse-mode _sys_apply_linear call
divided dresids by the scaler without restoring it, so nested
LinearGaussSeidel solvers returned reverse totals off by a power of the
scaler.
---
 openmdao/core/system.py      | 4 ++++
 openmdao/core/vec_wrapper.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 0e03625..65a69ca 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -891,6 +891,10 @@ class System(object):
                             dparams._apply_unit_derivatives(rel_inputs=rel_inputs)
                             dunknowns._scale_derivatives()
 
+                            # dresids is an input in reverse mode, so it has
+                            # to be left as it was.
+                            dresids._unscale_derivatives()
+
         self.rel_inputs = None
 
     def _sys_linearize(self, params, unknowns, resids, total_derivs=None):
diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..a69d63e 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -978,6 +978,12 @@ class SrcVecWrapper(VecWrapper):
             acc = self._dat[name]
             acc.val *= 1.0/resid_scaler
 
+    def _unscale_derivatives(self):
+        """ Undoes `_scale_derivatives`."""
+        for name, resid_scaler in self.scale_cache:
+            acc = self._dat[name]
+            acc.val *= resid_scaler
+
     def _scale_values(self):
         """ Applies the 'resid_scaler' to the quantities sitting
         in the unknown or residual vectors.
-- 
2.43.0


From ff239e265d4d4144e946e68f9aebbff9476692d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 004/150] fix: component complex step ignored the unit
 conversion of the stepped input

While an input was being stepped, the component saw its value in the units of
the source, and the resulting derivative lacked the conversion factor.
---
 openmdao/core/vec_wrapper_complex_step.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..36829eb 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,14 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            # The step is taken in the units of the source, just as it is
+            # under finite difference.
+            val = self.step_val
+            scale, offset = self.vecwrap._dat[name].meta.get('unit_conv',
+                                                             (None, None))
+            if scale is not None:
+                val = (val + offset)*scale
+            return val.reshape(self.vecwrap[name].shape)
 
         return self.vecwrap._dat[name].get()
 
-- 
2.43.0


From 6bffab616e270090ad41585a447e1270c6050ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 005/150] fix: index arrays given for design variables,
 objectives and constraints

'if indices:' dropped a NumPy array holding only index 0 and raised for any
longer array.
---
 openmdao/core/driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..24cf9ad 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -362,7 +362,7 @@ class Driver(object):
         param['upper'] = upper
         param['adder'] = adder
         param['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             param['indices'] = np.array(indices, dtype=int)
 
         self._desvars[name] = param
@@ -564,7 +564,7 @@ class Driver(object):
         obj = OrderedDict()
         obj['adder'] = adder
         obj['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             obj['indices'] = indices
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
@@ -702,7 +702,7 @@ class Driver(object):
         con['jacs'] = jacs
         con['active_tol'] = active_tol
 
-        if indices:
+        if indices is not None and len(indices) > 0:
             con['indices'] = indices
         self._cons[name] = con
 
-- 
2.43.0


From 7fe248c8ec109f6e561545e6b3e6ce0b59baedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 006/150] fix: states inside a self-finite-differencing group

The rows of such states in the group's linear operator lacked their identity
term (the semi-totals of the group are those of an explicit system), so GMRES
at a higher level returned wrong totals. Also handle every variable of
interest, not just the first, when such a group is solved.
---
 openmdao/core/group.py  |  2 +-
 openmdao/core/system.py | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..a918551 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -936,7 +936,7 @@ class Group(System):
         if self.deriv_options['type'] is not 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
-                return
+            return
 
         # Solve Jacobian, df |-> du [fwd] or du |-> df [rev]
         rhs_buf = OrderedDict()
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 65a69ca..1b7b1af 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -212,6 +212,9 @@ class System(object):
         self._local_subsystems = []
         self._fd_params = None
 
+        # True if our Jacobian holds finite-differenced semi-totals
+        self._semi_total_jac = False
+
     def _promoted(self, name):
         """Determine if the given variable name is being promoted from this
         `System`.
@@ -819,7 +822,13 @@ class System(object):
             This list only includes interior connections and states.
         """
         force_fd = self.deriv_options['type'] is not 'user'
-        states = self.states
+
+        # The semi-totals of a group that is finite differenced are those of an
+        # explicit system: all of its states are solved for inside.
+        if force_fd and self._semi_total_jac:
+            states = ()
+        else:
+            states = self.states
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
@@ -933,7 +942,9 @@ class System(object):
             if self.deriv_options['type'] is not 'user':
                 # fd should compute semi-totals across all children,
                 #    unless total_derivs=False is specifically requested
-                if self._local_subsystems and total_derivs is None:
+                self._semi_total_jac = bool(self._local_subsystems and
+                                            total_derivs is None)
+                if self._semi_total_jac:
                     self._jacobian_cache = self.fd_jacobian(params, unknowns, resids,
                                                             total_derivs=True)
                 else:
-- 
2.43.0


From 979da047806ae8122efcb4c3b746785609fa896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 007/150] fix: linear operator skipped implicit components
 without in-scope inputs

A state of a component with no connected inputs got no row in the linear
operator, which made it singular, and GMRES then returned wrong totals for the
rest of the model.
---
 openmdao/core/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index a918551..56ca5fd 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -514,7 +514,8 @@ class Group(System):
                         self._do_apply[(s.pathname, voi)] = True
                         break
                 else:
-                    self._do_apply[(s.pathname, voi)] = False
+                    # without params there may still be states
+                    self._do_apply[(s.pathname, voi)] = len(s.states) > 0
 
         self._relname_map = None  # reclaim some memory
 
-- 
2.43.0


From 1acf5324cdaaf962d9e05500b57fdd93b597a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 008/150] fix: assembled Jacobian of DirectSolver

jacobian_method='assemble' ignored unit conversions, src_indices and
resid_scalers, overwrote instead of accumulating when several inputs (or
outputs) share a source, and raised a KeyError for inputs whose source lies
outside the group.
---
 openmdao/core/group.py | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 56ca5fd..e5066b5 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1046,6 +1046,12 @@ class Group(System):
 
                 sub_u = sub.unknowns
                 sub_name = sub.pathname
+                user_jac = sub.deriv_options['type'] == 'user'
+
+                # There is no identity term for states.
+                for state in sub.states:
+                    start, end = u_vec._dat[sys_prom_name['.'.join((sub_name, state))]].slice
+                    partials[start:end] = 0.0
 
                 for key in jac:
                     o_var, i_var = key
@@ -1064,13 +1070,18 @@ class Group(System):
                             pass
 
                         #... but inputs need to find their source.
-                        elif i_var_pro not in u_vec:
+                        else:
 
-                            # Param is not relevant
+                            # Param is not connected
                             if i_var_abs not in conn:
                                 continue
 
                             i_var_src = conn[i_var_abs][0]
+
+                            # Source is outside of this group
+                            if i_var_src not in sys_prom_name:
+                                continue
+
                             i_var_pro = sys_prom_name[i_var_src]
 
                         o_start, o_end = u_vec._dat[o_var_pro].slice
@@ -1081,10 +1092,30 @@ class Group(System):
                     else:
                         (o_start, o_end, i_start, i_end) = icache[key2]
 
-                    if mode=='fwd':
-                        partials[o_start:o_end, i_start:i_end] = jac[o_var, i_var]
+                    J = jac[o_var, i_var]
+                    cols = None
+
+                    if i_var not in sub.states:
+                        p_meta = sub._params_dict['.'.join((sub_name, i_var))]
+                        if 'src_indices' in p_meta:
+                            cols = i_start + sub.params.to_idx_array(p_meta['src_indices'])
+
+                        # Finite difference is already in units of the source.
+                        if user_jac and 'unit_conv' in p_meta:
+                            J = J * p_meta['unit_conv'][0]
+
+                    if user_jac and sub_u.metadata(o_var).get('resid_scaler'):
+                        J = J / sub_u.metadata(o_var)['resid_scaler']
+
+                    # Several inputs, or several entries of one, may be
+                    # connected to the same source.
+                    if cols is None:
+                        partials[o_start:o_end, i_start:i_end] += J
                     else:
-                        partials[i_start:i_end, o_start:o_end] = jac[o_var, i_var].T
+                        np.add.at(partials, (slice(o_start, o_end), cols), J)
+
+            if mode == 'rev':
+                partials = partials.T
 
         return partials, icache
 
-- 
2.43.0


From 7bca3479dd1d43a602ed5d3805fd7edcccd41846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 009/150] fix: totals of variables that are not relevant to any
 other variable of interest

---
 openmdao/core/problem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 67d0a75..59f6a33 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1714,7 +1714,10 @@ class Problem(object):
                         # Note, we solve a slightly modified version of the unified
                         # derivatives equations in OpenMDAO.
                         # (dR/du) * (du/dr) = -I
-                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc:
+                        # A variable that is not relevant to any other variable of
+                        # interest has no entry in its own vector.
+                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc and \
+                               voi_srcs[vkey] in self.root.dumat[vkey]:
                             rhs[vkey][voi_idxs[vkey][i]] = -1.0
 
                     # Solve the linear system
-- 
2.43.0


From 4beb5aa8cd8054bee41988d6f87d5c41e7ddc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 010/150] fix: iterated LinearGaussSeidel reused the previous
 solution of a subsystem in its right hand side

---
 openmdao/solvers/ln_gauss_seidel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..422cfe3 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -138,6 +138,13 @@ class LinearGaussSeidel(LinearSolver):
 
                     # print(sub.name, sorted(gs_outputs['fwd'][sub.name][None]))
 
+                    # The right hand side of a subsystem must only contain
+                    # the effect of its external inputs, so discard its
+                    # solution from the previous iteration.
+                    if self.iter_count > 0:
+                        for voi in vois:
+                            sub.dumat[voi].vec[:] = 0.0
+
                     # Groups and all other systems just call their own
                     # apply_linear.
                     sub._sys_apply_linear(mode, system._do_apply, vois=vois,
-- 
2.43.0


From 89452e40e8addbe299b7772eb4bba8d96274bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 011/150] fix: relevance reduction dropped unconnected states
 of relevant components

---
 openmdao/core/relevance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openmdao/core/relevance.py b/openmdao/core/relevance.py
index 2fa553a..170dc6b 100644
--- a/openmdao/core/relevance.py
+++ b/openmdao/core/relevance.py
@@ -219,6 +219,15 @@ class Relevance(object):
                 if tcomp in relcomps and scomp in relcomps:
                     relvars[n].update((prom_tgt, prom_src))
 
+        # a relevant system can't be solved without its states, even those that
+        # aren't connected to anything
+        for name, meta in iteritems(self.unknowns_dict):
+            if meta.get('state'):
+                comp = name.rsplit('.', 1)[0]
+                for n, relcomps in iteritems(relevant):
+                    if comp in relcomps:
+                        relvars[n].add(to_prom_name[name])
+
         # finally, add ancestors of relevant systems to the relevant set
         for voi, relsystems in iteritems(relevant):
             to_add = set()
-- 
2.43.0


From b374da700f98cfb2c60bcf4d54c24bf7ddf7cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 012/150] fix: DirectSolver below a LinearGaussSeidel that
 solves variables of interest in their own vectors

---
 openmdao/core/group.py        | 16 +++++++++++++++-
 openmdao/solvers/ln_direct.py | 29 +++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index e5066b5..6cff208 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -978,7 +978,8 @@ class Group(System):
             if isinstance(system, Group):
                 system.clear_dparams()  # only call on Groups
 
-    def assemble_jacobian(self, mode='fwd', method='assemble', mult=None):
+    def assemble_jacobian(self, mode='fwd', method='assemble', mult=None,
+                          voi=None):
         """ Assemble and return an ndarray containing the Jacobian for this
         Group.
 
@@ -999,6 +1000,10 @@ class Group(System):
         mult : function(None)
             Solver mult function to coordinate the matrix vector product
 
+        voi : string(None)
+            Variable of interest. The Jacobian contains the variables that are
+            relevant to it.
+
         Returns
         -------
         ndarray : Jacobian Matrix. Note: if mode is 'rev', then the transpose
@@ -1017,6 +1022,7 @@ class Group(System):
         # OpenMDAO does matrix vector product.
         if method == 'MVP':
 
+            n_edge = self.dumat[voi].vec.size
             ident = np.eye(n_edge)
             icache = None
 
@@ -1117,6 +1123,14 @@ class Group(System):
             if mode == 'rev':
                 partials = partials.T
 
+            # Only keep what is relevant.
+            du_vec = self.dumat[voi]
+            if du_vec.vec.size != n_edge:
+                idxs = np.concatenate([np.arange(*u_vec._dat[name].slice)
+                                       for name, acc in iteritems(du_vec._dat)
+                                       if not acc.pbo])
+                partials = partials[np.ix_(idxs, idxs)]
+
         return partials, icache
 
     def set_order(self, new_order):
diff --git a/openmdao/solvers/ln_direct.py b/openmdao/solvers/ln_direct.py
index d9a1c71..ab1497b 100644
--- a/openmdao/solvers/ln_direct.py
+++ b/openmdao/solvers/ln_direct.py
@@ -58,6 +58,9 @@ class DirectSolver(MultLinearSolver):
         self.lup = None
         self.mode = None
 
+        # Jacobian and its factorization for each set of relevant variables
+        self._cache = {}
+
     def setup(self, system):
         """ Initialization. Allocate Jacobian and set up some helpers.
 
@@ -110,9 +113,20 @@ class DirectSolver(MultLinearSolver):
         sol_buf = OrderedDict()
 
         for voi, rhs in rhs_mat.items():
-            self.voi = None
+
+            # The vectors of the different vois may share memory, so we must
+            # not touch any but the ones that we are solving for.
+            self.voi = voi
+
+            # Relevance reduction may have dropped variables from those.
+            reduced = rhs.size != system.unknowns.vec.size
+            key = voi if reduced else None
 
             if system._jacobian_changed:
+                self._cache = {}
+                system._jacobian_changed = False
+
+            if key not in self._cache:
                 method = self.options['jacobian_method']
 
                 # Must clear the jacobian if we switch modes
@@ -120,20 +134,23 @@ class DirectSolver(MultLinearSolver):
                     self.setup(system)
                 self.mode = mode
 
-                self.jacobian, _ = system.assemble_jacobian(mode=mode, method=method,
-                                                            mult=self.mult)
-                system._jacobian_changed = False
+                jacobian, _ = system.assemble_jacobian(mode=mode, method=method,
+                                                       mult=self.mult, voi=voi)
 
                 if self.options['solve_method'] == 'LU':
-                    self.lup = lu_factor(self.jacobian)
+                    self._cache[key] = (jacobian, lu_factor(jacobian))
+                else:
+                    self._cache[key] = (jacobian, None)
+
+            self.jacobian, self.lup = self._cache[key]
 
             if self.options['solve_method'] == 'LU':
                 deriv = lu_solve(self.lup, rhs)
             else:
                 deriv = np.linalg.solve(self.jacobian, rhs)
 
-            self.system = None
             sol_buf[voi] = deriv
 
+        self.system = None
         return sol_buf
 
-- 
2.43.0


From ab5adc2de8dc1b3fd80ded0eb4e7b9ca3beced24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 013/150] fix: check_partial_derivatives differentiated self-fd
 components with the overrides of the reference

---
 openmdao/core/problem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 59f6a33..f90229d 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2119,8 +2119,7 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids,
-                                  option_overrides=global_options)
+                jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
-- 
2.43.0


From 8f47bb043c100a36fa43318710bdbe06158f610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 014/150] fix: check_total_derivatives with out_stream=None
 before the first run

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index f90229d..06e998c 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2166,7 +2166,8 @@ class Problem(object):
         driver = self.driver
 
         if driver.iter_count < 1:
-            out_stream.write('Executing model to populate unknowns...\n\n')
+            if out_stream is not None:
+                out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
 
         if out_stream is not None:
-- 
2.43.0


From b176f6e0201ef7429aa61510cdb0788baf2b13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 015/150] fix: automatic execution order was kept as if set by
 the user when setup was called again

---
 openmdao/core/problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 06e998c..76335c8 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -632,6 +632,9 @@ class Problem(object):
                     if trace:
                         debug("problem setup order bcast DONE")
                 s.set_order(order)
+                # this order wasn't given by the user, so it has to be found
+                # again if setup is called again
+                s._order_set = False
 
         # Mark every comp that is executed out-of-order so that we
         # rerun them during apply_nonlinear (explicit comps)
-- 
2.43.0


From 5591d990f081b9083744b2b5b9487f642b1a3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 016/150] fix: linear solves of a nested Newton used
 out-of-scope derivative inputs when no input was in scope

---
 openmdao/core/group.py       | 3 ++-
 openmdao/core/system.py      | 8 ++++----
 openmdao/core/vec_wrapper.py | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 6cff208..dcfc9e2 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -873,7 +873,8 @@ class Group(System):
 
         if self.deriv_options['type'] is not 'user':
             # parent class has the code to do the fd
-            super(Group, self)._sys_apply_linear(mode, do_apply, vois, gs_outputs)
+            super(Group, self)._sys_apply_linear(mode, do_apply, vois, gs_outputs,
+                                                 rel_inputs=rel_inputs)
 
         else:
             for sub in self._local_subsystems:
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 1b7b1af..158c69b 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -832,7 +832,7 @@ class System(object):
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
-        if rel_inputs:
+        if rel_inputs is not None:
             rel_inputs = [name_relative_to(self.pathname, var) \
                           for var in rel_inputs if var.startswith(self.pathname)]
             self.rel_inputs = rel_inputs
@@ -859,7 +859,7 @@ class System(object):
 
                         # Limit scope of dparams to local relevant vars if we
                         # are in a subsolver
-                        if rel_inputs:
+                        if rel_inputs is not None:
                             dparams._rel_inputs = rel_inputs
 
                         try:
@@ -868,7 +868,7 @@ class System(object):
                             dresids._scale_derivatives()
 
                             # Restore scope of dparams
-                            if rel_inputs:
+                            if rel_inputs is not None:
                                 dparams._rel_inputs = None
 
                 for var, val in dunknowns.vec_val_iter():
@@ -1000,7 +1000,7 @@ class System(object):
                 arg_vec = dparams
 
                 # Skip multiplying Jacobian on outscope vars
-                if self.rel_inputs and param not in self.rel_inputs:
+                if self.rel_inputs is not None and param not in self.rel_inputs:
                     #print(self.pathname, param,'not in', self.rel_inputs)
                     continue
 
diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index a69d63e..74e6e71 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -1034,7 +1034,7 @@ class TgtVecWrapper(VecWrapper):
         -------
             A boolean indicating if the given key (variable name) is in this vector.
         """
-        if self._rel_inputs:
+        if self._rel_inputs is not None:
             return key in self._rel_inputs
 
         return key in self._dat
@@ -1248,7 +1248,7 @@ class TgtVecWrapper(VecWrapper):
 
         if self.deriv_units:
             for name, val in self.units_cache:
-                if rel_inputs and name not in rel_inputs:
+                if rel_inputs is not None and name not in rel_inputs:
                     continue
                 self._dat[name].val *= val
 
-- 
2.43.0


From fbdd98bcd24bef07d248ac2574460dcd606100bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 017/150] fix: derivative inputs left from a linear solve in a
 parent entered the linear solves of a nested Newton

---
 openmdao/solvers/newton.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..bebeba8 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -185,6 +185,12 @@ class Newton(NonLinearSolver):
 
             # Calculate direction to take step
             arg.vec[:] = -resids.vec
+
+            # The inputs from outside of this system are fixed here, but may
+            # still hold what an earlier linear solve in a parent left there.
+            for _, val in system.dpmat[None].vec_val_iter():
+                val[:] = 0.0
+
             with system._dircontext:
                 system.solve_linear(system.dumat, system.drmat,
                                     [None], mode='fwd', solver=self.ln_solver,
-- 
2.43.0


From a6f5f9b18c899fcc058a9c1a99b0b3a037c3f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 018/150] fix: nonlinear solvers took a nan change of the
 unknowns for convergence

---
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index bebeba8..ecbd3bd 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -178,7 +178,7 @@ class Newton(NonLinearSolver):
         system.deriv_options['type'] = 'user'
 
         while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
+                f_norm/f_norm0 > rtol and not u_norm <= utol:
 
             # Linearize Model with partial derivatives
             system._sys_linearize(params, unknowns, resids, total_derivs=False)
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..a6f94bc 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -135,7 +135,7 @@ class NLGaussSeidel(NonLinearSolver):
         while self.iter_count < maxiter and \
                 normval > atol and \
                 normval/basenorm > rtol  and \
-                u_norm > utol:
+                not u_norm <= utol:
 
             # Metadata update
             self.iter_count += 1
-- 
2.43.0


From bdead0816a47b6f0fa4fb3f71706114f55635be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 019/150] fix: Aitken acceleration used the steps of earlier
 solves

---
 openmdao/solvers/nl_gauss_seidel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index a6f94bc..a0ef502 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -103,6 +103,10 @@ class NLGaussSeidel(NonLinearSolver):
         iprint = self.options['iprint']
         unknowns_cache = self.unknowns_cache
 
+        # Aitken acceleration uses nothing from earlier solves
+        self.delta_u_n_1 = 'None'
+        self.aitken_alpha = 1.0
+
         # Initial run
         self.iter_count = 1
 
-- 
2.43.0


From 46b2fa153f89d080e4c3f85c6d7244afddce33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 020/150] fix: Newton left its system set to analytic
 derivatives when a solve raised

---
 openmdao/solvers/newton.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index ecbd3bd..256db11 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -136,6 +136,21 @@ class Newton(NonLinearSolver):
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
 
+        # Can't have the system trying to FD itself when it also contains Newton.
+        save_type = system.deriv_options['type']
+        system.deriv_options.locked = False
+        system.deriv_options['type'] = 'user'
+
+        try:
+            self._solve(params, unknowns, resids, system, metadata)
+        finally:
+            # Return system's FD status back to what it was
+            system.deriv_options['type'] = save_type
+            system.deriv_options.locked = True
+
+    def _solve(self, params, unknowns, resids, system, metadata):
+        """ Runs the Newton iterations. See `solve`."""
+
         atol = self.options['atol']
         rtol = self.options['rtol']
         utol = self.options['utol']
@@ -172,11 +187,6 @@ class Newton(NonLinearSolver):
         result = system.dumat[None]
         u_norm = 1.0e99
 
-        # Can't have the system trying to FD itself when it also contains Newton.
-        save_type = system.deriv_options['type']
-        system.deriv_options.locked = False
-        system.deriv_options['type'] = 'user'
-
         while self.iter_count < maxiter and f_norm > atol and \
                 f_norm/f_norm0 > rtol and not u_norm <= utol:
 
@@ -253,10 +263,6 @@ class Newton(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
-
         if self.iter_count >= maxiter or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
-- 
2.43.0


From 607b54e2015d7ac04290ccba81fcab5fc60ab9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 021/150] fix: Newton without solve_subsystems did not converge
 explicit components that run in order

---
 openmdao/solvers/newton.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 256db11..fb02bd7 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -84,6 +84,14 @@ class Newton(NonLinearSolver):
         if self.ln_solver:
             self.ln_solver.setup(sub)
 
+        # If the subsystems aren't solved after each step, then the outputs of
+        # every explicit component only follow the linear model, so all of them
+        # (not just those that run out of order) need a residual.
+        if not self.options['solve_subsystems'] or \
+                (self.line_search and not self.line_search.options['solve_subsystems']):
+            for comp in sub.components(recurse=True):
+                comp._run_apply = True
+
         if sub.is_active():
             self.unknowns_cache = np.empty(sub.unknowns.vec.shape)
 
-- 
2.43.0


From 72ae9cd191cc11372ae488136d8cfaf641bde6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 022/150] fix: Brent tolerances could not be set to a float

---
 openmdao/solvers/brent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..4c240f2 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -30,8 +30,8 @@ class Brent(NonLinearSolver):
         or -1 to suppress all printing.
     options['maxiter'] :  int(100)
         if convergence is not achieved in maxiter iterations, and error is raised. Must be >= 0.
-    options['rtol'] :  float64(4.4408920985e-16)
-        The routine converges when a root is known to lie within rtol times the value returned of the value returned. Should be >= 0. Defaults to np.finfo(float).eps * 2.
+    options['rtol'] :  float(8.8817841970012523e-16)
+        The routine converges when a root is known to lie within rtol times the value returned of the value returned. Should be >= 0. Defaults to np.finfo(float).eps * 4.
     options['state_var'] :  str('')
         name of the state-variable/residual the solver should with
     options['state_var_idx'] :  int(0)
@@ -44,7 +44,7 @@ class Brent(NonLinearSolver):
         if given, name of the variable to pull the lower bound value from.This variable must be a parameter on of of the child components of the containing system
     options['var_upper_bound'] :  str('')
         if given, name of the variable to pull the upper bound value from.This variable must be a parameter on of of the child components of the containing system
-    options['xtol'] :  int(0)
+    options['xtol'] :  float(0.0)
         The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. The routine modifies this to take into account the relative precision of doubles.
     """
 
@@ -52,11 +52,11 @@ class Brent(NonLinearSolver):
         super(Brent, self).__init__()
 
         opt = self.options
-        opt.add_option('xtol', 0,
+        opt.add_option('xtol', 0.0,
             desc='The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. '
                  'The routine modifies this to take into account the relative precision of doubles.')
 
-        opt.add_option('rtol', np.finfo(float).eps * 4.,
+        opt.add_option('rtol', float(np.finfo(float).eps * 4.),
             desc='The routine converges when a root is known to lie within rtol times the value returned of '
                  'the value returned. Should be >= 0. Defaults to np.finfo(float).eps * 4.')
 
-- 
2.43.0


From 8810ce415c86561e258d35770ebe9df77dfb300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 023/150] fix: Brent left the model at the last evaluated point
 instead of the root

---
 openmdao/solvers/brent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 4c240f2..4e47831 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -188,6 +188,10 @@ class Brent(NonLinearSolver):
                 raise
             failed = True
 
+        # The root isn't always the last point that was evaluated.
+        if not failed and unknowns._dat[self.s_var_name].val[idx] != xstar:
+            self._eval(xstar, params, unknowns, resids)
+
         self.sys = None
 
         resid_norm = abs(resids._dat[self.s_var_name].val[idx])
-- 
2.43.0


From 60ba82d1b793d5dd3b76a92d68654a713a8d45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 024/150] fix: Brent used the bounds of the previous run when
 they come from its own system

---
 openmdao/solvers/brent.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 4e47831..4ee75e4 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -146,6 +146,18 @@ class Brent(NonLinearSolver):
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
+        # Brent's method
+        self.iter_count = 0
+
+        # initial run to compute initial_norm
+        self.sys.children_solve_nonlinear(self.local_meta)
+        self.recorders.record_iteration(system, self.local_meta)
+
+        # Evaluate Norm
+        self.sys.apply_nonlinear(params, unknowns, resids)
+        self.basenorm = resid_norm_0 = abs(resids._dat[self.s_var_name].val[idx])
+
+        # The bounds can come from this system, so they are not known any earlier.
         if self.var_lower_bound is not None:
             lower = params[self.var_lower_bound]
         else:
@@ -168,17 +180,6 @@ class Brent(NonLinearSolver):
         if self.options['rtol'] > 0:
             kwargs['rtol'] = self.options['rtol']
 
-        # Brent's method
-        self.iter_count = 0
-
-        # initial run to compute initial_norm
-        self.sys.children_solve_nonlinear(self.local_meta)
-        self.recorders.record_iteration(system, self.local_meta)
-
-        # Evaluate Norm
-        self.sys.apply_nonlinear(params, unknowns, resids)
-        self.basenorm = resid_norm_0 = abs(resids._dat[self.s_var_name].val[idx])
-
         failed = False
         try:
             xstar = brentq(self._eval, **kwargs)
-- 
2.43.0


From 198c2f011641b9aef0025e792ed395dae202039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 025/150] fix: bounds of multi-dimensional states were compared
 row by row in line searches

---
 openmdao/core/vec_wrapper.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index 74e6e71..4510c3e 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -899,12 +899,18 @@ class SrcVecWrapper(VecWrapper):
                     continue
 
                 val = self[name]
+                du = duvec[name]
+                if not isinstance(val, float):
+                    val = val.flatten()
+                    du = du.flatten()
                 idx = duvec._dat[name].slice[0]
 
                 upper = meta.get('upper')
                 if upper is not None:
+                    if not isinstance(val, float):
+                        upper = numpy.array(upper).flatten()
                     diff = upper - val
-                    alpha_bound = diff/duvec[name]
+                    alpha_bound = diff/du
                     if isinstance(alpha_bound, float):
 
                         # If we are already violated for any reason,
@@ -933,8 +939,10 @@ class SrcVecWrapper(VecWrapper):
 
                 lower = meta.get('lower')
                 if lower is not None:
+                    if not isinstance(val, float):
+                        lower = numpy.array(lower).flatten()
                     diff = lower - val
-                    alpha_bound = diff/duvec[name]
+                    alpha_bound = diff/du
                     if isinstance(alpha_bound, float):
 
                         # If we are already violated for any reason,
-- 
2.43.0


From 7b22abc0ca0c3afe7db0486b4e1172ce358ed3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 026/150] fix: roundoff carried states across their bounds in
 line searches

---
 openmdao/core/vec_wrapper.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index 4510c3e..b9f138c 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -327,6 +327,36 @@ class Accessor(object):
         msg = "Cannot access remote Variable '{name}' in this process."
         raise RuntimeError(msg.format(name=self.meta['pathname']))
 
+def _stop_inside(alpha, val, du, bound, sign):
+    """ Reduces `alpha`, in place, as far as needed to keep the roundoff in
+    val + alpha*du from carrying a value across its bound.
+
+    Args
+    ----
+    alpha : ndarray
+        Step sizes, already limited by the bound.
+
+    val : float or ndarray
+        Current values.
+
+    du : float or ndarray
+        Direction of the step.
+
+    bound : float or ndarray
+        Value of the bound.
+
+    sign : float
+        1.0 for an upper bound, -1.0 for a lower bound.
+    """
+    inside = sign*(bound - val) >= 0.0
+    ulp = numpy.spacing(abs(val) + abs(bound))
+
+    while True:
+        over = inside & (sign*(val + alpha*du - bound) > 0.0)
+        if not over.any():
+            break
+        alpha[over] = numpy.maximum(0.0, alpha - ulp/abs(du))[over]
+
 class VecWrapper(object):
     """
     A dict-like container of a collection of variables.
@@ -937,6 +967,8 @@ class SrcVecWrapper(VecWrapper):
 
                             j += 1
 
+                    _stop_inside(alpha[idx:idx+numpy.size(val)], val, du, upper, 1.0)
+
                 lower = meta.get('lower')
                 if lower is not None:
                     if not isinstance(val, float):
@@ -969,6 +1001,8 @@ class SrcVecWrapper(VecWrapper):
 
                             j += 1
 
+                    _stop_inside(alpha[idx:idx+numpy.size(val)], val, du, lower, -1.0)
+
         # Return numpy warn to what it was
         finally:
             numpy.seterr(divide=old_warn['divide'], invalid=old_warn['invalid'])
-- 
2.43.0


From 16ffeff6bb05d31a49302506822e055b18dcba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 027/150] fix: src_indices of the wrong length were accepted
 when source and target have the same shape

---
 openmdao/core/_checks.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..1aa5d9e 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -110,17 +110,17 @@ def __check_shapes_match(src, target, to_prom_name):
 
     src_idxs = target.get('src_indices')
 
-    if src['shape'] != target['shape']:
-        if src_idxs is not None:
-            if len(src_idxs) != target['size']:
-                errors.append("Size %d of the indexed sub-part of source "
-                                 "%s must be the same as size %d of target "
-                                 "%s." %
-                                 (len(target['src_indices']),
-                                 _both_names(src, to_prom_name),
-                                 target['size'],
-                                 _both_names(target, to_prom_name)))
-        elif 'src_indices' in src:
+    if src_idxs is not None:
+        if len(src_idxs) != target['size']:
+            errors.append("Size %d of the indexed sub-part of source "
+                             "%s must be the same as size %d of target "
+                             "%s." %
+                             (len(target['src_indices']),
+                             _both_names(src, to_prom_name),
+                             target['size'],
+                             _both_names(target, to_prom_name)))
+    elif src['shape'] != target['shape']:
+        if 'src_indices' in src:
             if target['size'] != src['distrib_size']:
                 errors.append("Total size %d of  distributed source "
                         "%s must be the same as size "
-- 
2.43.0


From 9b957b041a37d30528903afc4e9fbcef4a8155da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:17 +0000
Subject: [PATCH 028/150] fix: a sourceless input linked to inputs with two
 different sources was silently given one of them

---
 openmdao/core/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 76335c8..99a7402 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -263,11 +263,13 @@ class Problem(object):
             visited.add(node)
             nosrc = [node]
             src = None
+            srcs = set()
             for n in nosrc:
                 for t in chain(input_graph.succ[n], input_graph.pred[n]):
                     if t in newconns:  # found param with unknown src
                         if src is None:
                             src = newconns[t][0][0]
+                        srcs.add(newconns[t][0][0])
                     elif t not in visited:
                         visited.add(t)
                         nosrc.append(t)
@@ -275,6 +277,10 @@ class Problem(object):
             if src is not None:
                 # connect the unknown src to all of the inputs connected
                 # to the current node that have no unknown src
+                if len(srcs) > 1:
+                    self._setup_errors.append("Target '%s' is connected to "
+                                              "multiple unknowns: %s" %
+                                               (node, sorted(srcs)))
                 for n in nosrc:
                     newconns[n] = [(src, None)]
             else: # didn't find an unknown src, so must be dangling
-- 
2.43.0


From c1343d1b4ff85b8c340feca7c999174cda765977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 029/150] fix: src_indices into a multi-dimensional source for
 an input without a shape

---
 openmdao/core/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 99a7402..1a4fa95 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -530,7 +530,7 @@ class Problem(object):
                         size = len(idxs)
                         tmeta['shape'] = (size, )
                         tmeta['size'] = size
-                        tmeta['val'] = smeta['val'][np.array(idxs)]
+                        tmeta['val'] = smeta['val'].flatten()[np.array(idxs)]
 
                     # Regular connection
                     else:
-- 
2.43.0


From 78b62b3a761b86cdc29e2e55219442e8ebdc0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 030/150] fix: get_objectives ignored return_type='array'

---
 openmdao/core/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 24cf9ad..863067e 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -595,6 +595,9 @@ class Driver(object):
         for key, meta in iteritems(self._objs):
             objs[key] = self._get_distrib_var(key, meta, 'objective')
 
+        if return_type == 'array':
+            return np.concatenate([objs[key] for key in objs]) if objs else np.zeros(0)
+
         return objs
 
     def add_constraint(self, name, lower=None, upper=None, equals=None,
-- 
2.43.0


From 2b3703fcac83c255c8909b2461b047591cbe7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 031/150] fix: set_desvar ignored index 0 and the indices of
 scalar or multi-dimensional design variables

---
 openmdao/core/driver.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 863067e..b400d24 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -478,10 +478,7 @@ class Driver(object):
             Index of the desvar to set.
         """
         # support for uncertain samples
-        if index:
-            val = self.root.unknowns._dat[name].val[index]
-        else:
-            val = self.root.unknowns._dat[name].val
+        val = self.root.unknowns._dat[name].val
         if not isinstance(val, _ByObjWrapper) and \
                        self.root.unknowns._dat[name].val.size == 0:
             return
@@ -491,7 +488,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +501,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,13 +509,17 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
 
         if idx is not None:
-            self.root.unknowns[name][idx] = value
+            if isinstance(val, _ByObjWrapper):
+                self.root.unknowns[name][idx] = value
+            else:
+                # indices refer to the flattened variable
+                self.root.unknowns._dat[name].val[idx] = value
         else:
             self.root.unknowns[name] = value
 
-- 
2.43.0


From cdb112f3a8e32176347e43894fdfe273ea657cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 032/150] fix: get_desvars, get_objectives and get_constraints
 returned an internal wrapper for pass_by_obj variables

---
 openmdao/core/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index b400d24..a09c7a5 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -412,6 +412,9 @@ class Driver(object):
             owner = 0
             flatval = uvec._dat[name].val
 
+        if isinstance(flatval, _ByObjWrapper):
+            flatval = flatval.val
+
         if 'indices' in meta and not (nproc > 1 and owner != iproc):
             # Make sure our indices are valid
             try:
-- 
2.43.0


From 8e468659f883c0787cf0957b3d8fd124ee3c222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 033/150] fix: objective and constraint indices given as a
 tuple were used as a multi-dimensional index

---
 openmdao/core/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index a09c7a5..7d43f8d 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -569,7 +569,7 @@ class Driver(object):
         obj['adder'] = adder
         obj['scaler'] = scaler
         if indices is not None and len(indices) > 0:
-            obj['indices'] = indices
+            obj['indices'] = np.array(indices, dtype=int)
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
                                    "variable '%s', but driver '%s' doesn't "
@@ -710,7 +710,7 @@ class Driver(object):
         con['active_tol'] = active_tol
 
         if indices is not None and len(indices) > 0:
-            con['indices'] = indices
+            con['indices'] = np.array(indices, dtype=int)
         self._cons[name] = con
 
     def get_constraints(self, ctype='all', lintype='all'):
-- 
2.43.0


From 601851c88d89f26920c0d8da0b3e8b2f828e90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:58 +0000
Subject: [PATCH 034/150] fix: negative scalers presented lower bounds as upper
 bounds and the reverse

---
 openmdao/core/driver.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 7d43f8d..42b63ce 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -21,6 +21,39 @@ trace = os.environ.get('OPENMDAO_TRACE')
 if trace:
     from openmdao.core.mpi_wrap import debug
 
+def _order_bounds(lower, upper, scaler):
+    """ Exchanges the scaled `lower` and `upper` bounds wherever the scaler is
+    negative, because that turns one into the other.
+
+    Args
+    ----
+    lower : float or ndarray or None
+        Scaled lower bound.
+
+    upper : float or ndarray or None
+        Scaled upper bound.
+
+    scaler : float or ndarray
+        Scaler that was applied to the bounds.
+
+    Returns
+    -------
+    tuple
+        The ordered (lower, upper).
+    """
+    negative = np.asarray(scaler) < 0.0
+    if not negative.any() or (lower is None and upper is None):
+        return lower, upper
+
+    if negative.all():
+        return upper, lower
+
+    # only some of the entries are exchanged
+    unset = sys.float_info.max
+    low = np.where(negative, unset, -unset) if lower is None else lower
+    high = np.where(negative, -unset, unset) if upper is None else upper
+    return np.where(negative, high, low), np.where(negative, low, high)
+
 class Driver(object):
     """ Base class for drivers in OpenMDAO. Drivers can only be placed in a
     Problem, and every problem has a Driver. Driver is the simplest driver that
@@ -356,6 +389,7 @@ class Driver(object):
             upper = sys.float_info.max
 
         upper = (upper + adder)*scaler
+        lower, upper = _order_bounds(lower, upper, scaler)
 
         param = OrderedDict()
         param['lower'] = lower
@@ -696,6 +730,7 @@ class Driver(object):
             lower = (lower + adder)*scaler
         if upper is not None:
             upper = (upper + adder)*scaler
+        lower, upper = _order_bounds(lower, upper, scaler)
         if equals is not None:
             equals = (equals + adder)*scaler
 
-- 
2.43.0


From 9e32f0d290c0f12c220278cd5d62f727c0d369e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 035/150] fix: array gradient of a variable that is both an
 input and an output overwrote another block

---
 openmdao/core/problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 1a4fa95..2a6d33a 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1601,7 +1601,9 @@ class Problem(object):
         else:
             usize = 0
             psize = 0
-            Jslices = OrderedDict()
+            # a variable can be both an input and an output of the gradient
+            Jrows = OrderedDict()
+            Jcols = OrderedDict()
             for u in unknown_list:
                 start = usize
                 if u in self._qoi_indices:
@@ -1609,7 +1611,7 @@ class Problem(object):
                     usize += len(idx)
                 else:
                     usize += self.root.unknowns.metadata(u)['size']
-                Jslices[u] = slice(start, usize)
+                Jrows[u] = slice(start, usize)
 
             for p in indep_list:
                 start = psize
@@ -1618,7 +1620,7 @@ class Problem(object):
                     psize += len(idx)
                 else:
                     psize += unknowns.metadata(p)['size']
-                Jslices[p] = slice(start, psize)
+                Jcols[p] = slice(start, psize)
             J = np.zeros((usize, psize))
 
         if fwd:
@@ -1798,22 +1800,22 @@ class Problem(object):
 
                             else:
                                 if fwd:
-                                    J[Jslices[item], Jslices[param].start+i] = dxval
+                                    J[Jrows[item], Jcols[param].start+i] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= in_scale[param]
+                                        J[Jrows[item], Jcols[param].start+i] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= un_scale[item]
+                                        J[Jrows[item], Jcols[param].start+i] *= un_scale[item]
 
                                 else:
-                                    J[Jslices[param].start+i, Jslices[item]] = dxval
+                                    J[Jrows[param].start+i, Jcols[item]] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= in_scale[param]
+                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
+                                        J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
         # Clean up after ourselves
         root.clear_dparams()
-- 
2.43.0


From cc7fe07ecb90043a1503a3e905690481a3dca63c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 036/150] fix: array scalers of objectives and constraints in
 reverse and fd driver gradients

---
 openmdao/core/problem.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 2a6d33a..6fbf1ca 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1453,7 +1453,8 @@ class Problem(object):
                     if ikey in dv_scale:
                         J[okey][ikey] *= dv_scale[ikey]
                     if okey in cn_scale:
-                        J[okey][ikey] *= cn_scale[okey]
+                        # (one row for each entry of an array scaler)
+                        J[okey][ikey] *= np.reshape(cn_scale[okey], (-1, 1))
 
         else:
             usize = 0
@@ -1492,7 +1493,7 @@ class Problem(object):
                     if p in dv_scale:
                         J[ui:ui+rows, pi:pi+cols] *= dv_scale[p]
                     if u in cn_scale:
-                        J[ui:ui+rows, pi:pi+cols] *= cn_scale[u]
+                        J[ui:ui+rows, pi:pi+cols] *= np.reshape(cn_scale[u], (-1, 1))
 
                     pi += cols
                 ui += rows
@@ -1776,6 +1777,12 @@ class Problem(object):
                         if dxval is not None:
                             nk = len(dxval)
 
+                            # An array scaler has one value for each row
+                            if not fwd and param in in_scale:
+                                in_scale_i = in_scale[param]
+                                if np.size(in_scale_i) > 1:
+                                    in_scale_i = in_scale_i[i]
+
                             if return_format == 'dict':
                                 if fwd:
                                     if J[item][param] is None:
@@ -1794,7 +1801,7 @@ class Problem(object):
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[param][item][i, :] *= in_scale[param]
+                                        J[param][item][i, :] *= in_scale_i
                                     if item in un_scale:
                                         J[param][item][i, :] *= un_scale[item]
 
@@ -1813,7 +1820,7 @@ class Problem(object):
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale[param]
+                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale_i
                                     if item in un_scale:
                                         J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
-- 
2.43.0


From 3daeec5a79c6da8b590be50fc174be4162c4dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 037/150] fix: TNC returned nan for design variables without
 bounds

---
 openmdao/drivers/scipy_optimizer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 58bd891..dfbfbd6 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -26,6 +26,9 @@ _constraint_grad_optimizers = ['SLSQP']
 # right now.
 _unsupported_optimizers = ['dogleg', 'trust-ncg']
 
+# Bounds of a larger magnitude than this are no bounds.
+_huge = 1e99
+
 
 class ScipyOptimizer(Driver):
     """ Driver wrapper for the scipy.optimize.minimize family of local
@@ -155,6 +158,13 @@ class ScipyOptimizer(Driver):
                     else:
                         p_high = meta_high
 
+                    # Scipy wants None for a bound that isn't there; TNC goes
+                    # astray with the huge value that Driver uses.
+                    if p_low < -_huge:
+                        p_low = None
+                    if p_high > _huge:
+                        p_high = None
+
                     bounds.append((p_low, p_high))
 
         # Constraints
-- 
2.43.0


From 23180ea6b0cfd6e4ca08c79b5b7440678f11494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 038/150] fix: ScipyOptimizer left the model at a trial point
 instead of the returned optimum

---
 openmdao/drivers/scipy_optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index dfbfbd6..efd16a6 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -86,6 +86,7 @@ class ScipyOptimizer(Driver):
         self.exit_flag = 0
         self.grad_cache = None
         self.con_cache = None
+        self._last_x = None
         self.con_idx = OrderedDict()
         self.cons = None
         self.objs = None
@@ -220,6 +221,11 @@ class ScipyOptimizer(Driver):
                           #callback=None,
                           options=self.opt_settings)
 
+        # Some methods (e.g., 'COBYLA', 'Nelder-Mead' and 'Powell') evaluate
+        # other points after the one they return. Leave the model there.
+        if not np.array_equal(self._last_x, result.x):
+            self._objfunc(result.x)
+
         self._problem = None
         self.result = result
         self.exit_flag = 1 if self.result.success else 0
@@ -245,6 +251,7 @@ class ScipyOptimizer(Driver):
 
         system = self.root
         metadata = self.metadata
+        self._last_x = np.array(x_new)
 
         # Pass in new parameters
         i = 0
-- 
2.43.0


From cae97e3bbbec0bc8ffaae19a7f8b1ab7f08855d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:42 +0000
Subject: [PATCH 039/150] fix: ScipyOptimizer computed gradients at the last
 evaluated point instead of the requested one

---
 openmdao/drivers/scipy_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index efd16a6..a2fd1c1 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -347,6 +347,10 @@ class ScipyOptimizer(Driver):
             Gradient of objective with respect to parameter array.
         """
 
+        # 'Newton-CG' asks for gradients where it never asked for the objective.
+        if not np.array_equal(self._last_x, x_new):
+            self._objfunc(x_new)
+
         grad = self.calc_gradient(self.params, self.objs+self.cons,
                                   return_format='array')
         self.grad_cache = grad
-- 
2.43.0


From bc01a9b8f5b2c2e65e557d88f38b3cbdd8b8e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 040/150] fix: ScipyOptimizer passed the infinite bounds of
 constraint entries to SciPy

---
 openmdao/drivers/scipy_optimizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index a2fd1c1..b0639b8 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -175,7 +175,10 @@ class ScipyOptimizer(Driver):
             for name, meta in con_meta.items():
                 size = meta['size']
                 dblcon = meta['upper'] is not None and meta['lower'] is not None
+                bound = meta['upper'] if meta['lower'] is None else meta['lower']
                 for j in range(0, size):
+                    if meta['equals'] is None and self._no_bound(bound, j):
+                        continue
                     con_dict = OrderedDict()
                     if meta['equals'] is not None:
                         con_dict['type'] = 'eq'
@@ -193,6 +196,8 @@ class ScipyOptimizer(Driver):
                 if dblcon:
                     name = '2bl-' + name
                     for j in range(0, size):
+                        if self._no_bound(meta['upper'], j):
+                            continue
                         con_dict = OrderedDict()
                         con_dict['type'] = 'ineq'
                         con_dict['fun'] = self._confunc
@@ -234,6 +239,15 @@ class ScipyOptimizer(Driver):
             print('Optimization Complete')
             print('-'*35)
 
+    @staticmethod
+    def _no_bound(bound, idx):
+        """ Returns True if entry `idx` of a constraint has no bound on this
+        side: arrays mark such an entry with an infinite or huge value, which
+        is not a number that Scipy could work with."""
+        if isinstance(bound, np.ndarray):
+            bound = bound[idx]
+        return abs(bound) > _huge
+
     def _objfunc(self, x_new):
         """ Function that evaluates and returns the objective function. Model
         is executed here.
-- 
2.43.0


From 37ed8ba8257eeef34bdd29c721d058a6c46bd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:32 +0000
Subject: [PATCH 041/150] fix: recorders of nested solvers failed or recorded
 under the wrong name inside a finite difference

---
 openmdao/core/group.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index dcfc9e2..b32a35f 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -20,6 +20,7 @@ from openmdao.core.mpi_wrap import MPI, debug
 from openmdao.core.system import System
 from openmdao.core.fileref import FileRef
 from openmdao.util.string_util import nearest_child, name_relative_to
+from openmdao.util.record_util import create_local_meta, update_local_meta
 from openmdao.util.graph import collapse_nodes, break_strongly_connected
 
 #from openmdao.devtools.debug import diff_mem, mem_usage
@@ -88,6 +89,7 @@ class Group(System):
         self._gs_outputs = None
         self._run_apply = True
         self._icache = {}
+        self._fd_count = 0
 
     def find_subsystem(self, name):
         """
@@ -712,6 +714,16 @@ class Group(System):
         metadata : dict, optional
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
+        if metadata is None:
+            # We are not being run by a driver, but by a finite difference.
+            # Each of its runs gets an iteration coordinate of its own.
+            self._fd_count += 1
+            metadata = create_local_meta(None, 'fd')
+            update_local_meta(metadata, (self._fd_count,))
+            if self.pathname:
+                for name in [''] + self.pathname.split('.')[:-1]:
+                    metadata = create_local_meta(metadata, name)
+
         self.solve_nonlinear(params, unknowns, resids, metadata=metadata)
 
     def solve_nonlinear(self, params=None, unknowns=None, resids=None, metadata=None):
-- 
2.43.0


From 271d8e0bf04495892b4dfff8de78ead3511cc3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:54 +0000
Subject: [PATCH 042/150] fix: recorders of solvers below the first level
 failed because iteration coordinates mixed names and pathnames

---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..3d72553 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 4ee75e4..bbb0e62 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index fb02bd7..dc9c4c6 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -170,7 +170,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index a0ef502..4a227bd 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -111,7 +111,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.iter_count = 1
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From dd872a6e5b1865ccfe309570613a3b0d1f22a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:20 +0000
Subject: [PATCH 043/150] fix: HDF5CaseReader lost the order, timestamp,
 success flag, message and derivatives of cases

---
 openmdao/recorders/hdf5_reader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index aeacef7..dede159 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -77,8 +77,11 @@ class HDF5CaseReader(CaseReaderBase):
                 if isinstance(self._unknowns, h5py.Group):
                     self._unknowns = _group_to_dict(self._unknowns)
 
-                self._case_keys = tuple([key for key in f.keys()
-                                         if key != 'metadata'])
+                # HDF5 lists the groups by name; we want the order in which
+                # the cases were recorded.
+                keys = [key for key in f.keys() if key != 'metadata']
+                keys.sort(key=lambda key: f[key].attrs.get('timestamp', 0.0))
+                self._case_keys = tuple(keys)
         else:
             raise ValueError('HDF5CaseReader encountered an unhandled '
                              'format version: {0}'.format(self.format_version))
@@ -105,4 +108,14 @@ class HDF5CaseReader(CaseReaderBase):
 
         with h5py.File(self.filename, 'r') as f:
             case_dict = _group_to_dict(f[_case_id])
+
+            # These are stored as attributes of the group
+            for key in ('timestamp', 'success', 'msg'):
+                case_dict[key] = f[_case_id].attrs.get(key, None)
+
+            # The derivatives are one level down
+            if 'Derivs' in case_dict:
+                derivs = case_dict.pop('Derivs')
+                case_dict['Derivatives'] = derivs.get('Derivatives', None)
+
             return Case(self.filename, _case_id, case_dict)
-- 
2.43.0


From 10fc27481fff71e7ddb6e03c2d01d75256b847e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:44 +0000
Subject: [PATCH 044/150] fix: SqliteCaseReader did not give back recorded
 derivatives

---
 openmdao/recorders/sqlite_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 05eb986..e8373ee 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -90,6 +90,6 @@ class SqliteCaseReader(CaseReaderBase):
                 pass
             else:
                 if _case_id in derivs_db:
-                    case._derivs = derivs_db[_case_id].get('Derivatives', None)
+                    case.derivs = derivs_db[_case_id].get('Derivatives', None)
 
         return case
-- 
2.43.0


From b22897d69285632e36087b1aa0e2101520386fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:03 +0000
Subject: [PATCH 045/150] fix: HDF5Recorder failed on a second set of
 derivatives in one iteration

---
 openmdao/recorders/hdf5_recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 1a85744..675d375 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -174,6 +174,10 @@ class HDF5Recorder(BaseRecorder):
         # get the group for the iteration
         iteration_group = self.out[group_name]
 
+        # The driver may ask for derivatives more than once; keep the last
+        if 'Derivs' in iteration_group:
+            del iteration_group['Derivs']
+
         # Create a group under that called 'deriv'
         deriv_group = iteration_group.require_group('Derivs')
 
-- 
2.43.0


From b64e016b94585cc303cc4daf31cb73c65082f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 046/150] fix: InMemoryRecorder kept references to values that
 later iterations change

---
 openmdao/recorders/inmem_recorder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..e3e483e 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -78,17 +79,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
@@ -122,6 +123,6 @@ class InMemoryRecorder(BaseRecorder):
         timestamp = metadata['timestamp']
 
         data['timestamp'] = timestamp
-        data['Derivatives'] = derivs
+        data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From c7a86a7b4b9d3b3574100fc73c5da6f192624180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 047/150] fix: OptimizedLatinHypercubeDriver never finished for
 a single sample

perturb looked for two different rows of a one-row design, so the driver hung
with its default num_samples.
---
 openmdao/drivers/latinhypercube_driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..af5b536 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -225,6 +225,10 @@ class _LHC_Individual(object):
 
         new_doe = self.doe.copy()
         n, k = self.doe.shape
+        if n < 2:
+            # there is no pair to interchange
+            mutation_count = 0
+
         for count in range(mutation_count):
             col = randint(0, k - 1)
 
-- 
2.43.0


From e7ded7c45f1f7abd6be4d2fafc936de7ce77bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 048/150] fix: OptimizedLatinHypercubeDriver gave designs that
 are not Latin hypercubes

A mutation of several interchanges took the values of each from the original
design, so a second interchange in the same column duplicated some strata and
lost others.
---
 openmdao/drivers/latinhypercube_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index af5b536..0d9489a 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -238,8 +238,8 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            new_doe[el1, col], new_doe[el2, col] = \
+                                    new_doe[el2, col], new_doe[el1, col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From d31b189849ffddc035be252f9b45c69e4738c92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:31 +0000
Subject: [PATCH 049/150] fix: parallel DOE could return values of a later case

A worker put views of its model's arrays on the response queue, which pickles
them later in a thread of its own; by then the next case might have changed
them.
---
 openmdao/drivers/predeterminedruns_driver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..c651892 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -8,6 +8,7 @@ import sys
 import os
 import traceback
 import logging
+from copy import deepcopy
 from itertools import chain
 from six.moves import zip
 from six import next, PY3, iteritems, string_types
@@ -57,8 +58,11 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
                 if terminate:
                     complete_case = (metadata, [])
                 else:
+                    # the queue pickles its items later, in a thread of its
+                    # own, so don't give it views that the next case changes.
                     complete_case = (metadata,
-                             [_get_root_var(root, n) for n in response_vars])
+                             [deepcopy(_get_root_var(root, n))
+                              for n in response_vars])
             except:
                 # we generally shouldn't get here, but just in case,
                 # handle it so that the main process doesn't hang at the
-- 
2.43.0


From 0801636bc085c9bc349b06ad1aadc1f96a94dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:52 +0000
Subject: [PATCH 050/150] fix: parallel DOE hung when a case raised an
 unexpected exception

A worker that had seen such an exception dropped further cases from the queue
without answering, while the main process waited for one answer per case.
---
 openmdao/drivers/predeterminedruns_driver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index c651892..2da4d0f 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -49,6 +49,15 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
             if terminate:
+                # the main process waits for an answer to every case it sent
+                metadata = create_local_meta(None, 'Driver')
+                update_local_meta(metadata, (case_id,))
+                metadata['success'] = 0
+                metadata['terminate'] = 1
+                metadata['msg'] = "Case %d was not run because of an earlier " \
+                                  "error." % case_id
+                metadata['id'] = case_id
+                response_queue.put((metadata, []))
                 continue
 
             metadata = driver._prep_case(case, case_id)
-- 
2.43.0


From 2a41171a990b53886a631cbd545eb0d502a53eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 051/150] fix: dividing a number by a unit with an offset was
 accepted

Every other product with such a unit is refused, 1/degC was taken as 1/K.
---
 openmdao/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index d1368c6..7f2510f 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -465,6 +465,8 @@ class PhysicalUnit(object):
     __truediv__ = __div__   # for python 3
 
     def __rdiv__(self, other):
+        if self.offset != 0:
+            raise TypeError("cannot divide units with non-zero offset")
         return PhysicalUnit({str(other): 1}-self.names,
                           float(other)/self.factor,
                           [-x for x in self.powers])
-- 
2.43.0


From 1dadad0b4a39fd8450fc3bfee3df953f4eccbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 052/150] fix: in_base_units ignored the offset of a
 temperature

0 degC was given as 0 K.
---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 7f2510f..67c43b5 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -301,7 +301,7 @@ class PhysicalQuantity(object):
             The same quantity converted to base units,
             i.e., SI units in most cases.
         """
-        new_value = self.value * self.unit.factor
+        new_value = (self.value + self.unit.offset) * self.unit.factor
         num = ''
         denom = ''
         for unit, power in zip(_UNIT_LIB.base_names, self.unit.powers):
-- 
2.43.0


From 4567a3493e94621468b1a4f517176a9f79144b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 053/150] fix: wrong definitions of the units V0, sigma and Ken

The molar volume was ten times too small, the Stefan-Boltzmann constant had the
dimensions W/m**2*K**4, and the kelvin as an energy unit was based on it instead
of on the Boltzmann constant.
---
 openmdao/units/unit_library.ini | 440 ++++++++++++++++----------------
 1 file changed, 220 insertions(+), 220 deletions(-)

diff --git a/openmdao/units/unit_library.ini b/openmdao/units/unit_library.ini
index b64cabc..615090f 100644
--- a/openmdao/units/unit_library.ini
+++ b/openmdao/units/unit_library.ini
@@ -1,220 +1,220 @@
-# Default unit library definitions.  Much of this is based on
-# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
-
-[prefixes]
-# prefix-string: float-multiplier [, comment]
-
-# SI.
-Y: 1.e24
-Z: 1.e21
-E: 1.e18
-P: 1.e15
-T: 1.e12
-G: 1.e9
-M: 1.e6
-k: 1.e3
-h: 1.e2
-da: 1.e1
-d: 1.e-1
-c: 1.e-2
-m: 1.e-3
-u: 1.e-6
-n: 1.e-9
-p: 1.e-12
-f: 1.e-15
-a: 1.e-18
-z: 1.e-21
-y: 1.e-24
-
-# IEC
-Ei: 1152921504606846976, (1 << 60)
-Pi: 1125899906842624,    (1 << 50)
-Ti: 1099511627776,       (1 << 40)
-Gi: 1073741824,          (1 << 30)
-Mi: 1048576,             (1 << 20)
-Ki: 1024,                (1 << 10)
-
-
-[base_units]
-# quantity-name: unit-name
-
-# SI.
-length: m
-mass: kg
-time: s
-current: A
-temperature: K
-amount: mol
-luminous_intensity: cd
-
-# Derived SI (Table 3).
-angle: rad
-solid_angle: sr
-
-# Other.
-money: USD
-passengers: pax
-digital_data: byte
-
-
-[units]
-# unit-name: unit-expression, comment
-# OR
-# unit-name: factor, base-unit, offset, comment
-#
-# Note that unit names cannot be Python reserved words (such as 'in' for inch).
-# Unit names are matched before prefix names are checked.
-# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
-# available as a predefined constant.
-
-g: kg/1000, gram
-
-# Derived SI (Table 3).
-Hz: 1/s, hertz
-N: m*kg/s**2, newton
-Pa: N/m**2, pascal
-J: N*m, joule
-W: J/s, watt
-C: A*s, coulomb
-V: W/A, volt
-F: C/V, farad
-ohm: V/A, ohm
-S: A/V, siemens
-Wb: V*s, weber
-T: Wb/m**2, tesla
-H: Wb/A, henry
-degC: 1, K, 273.15, degree celsius
-lm: cd*sr, lumen
-lx: lm/m**2, lux
-Bq: 1/s, becquerel
-Gy: J/kg, gray
-Sv: J/kg, sievert
-kat: mol/s, katal
-
-# Non-SI (Table 6).
-min: 60*s, minute
-h: 3600*s, hour
-d: 86400*s, day
-deg: (pi/180)*rad, degree
-arc_minute: deg/60, arc minute
-arc_second: arc_minute/60, arc second
-ha: 1e4*m**2, hectare
-L: 1e-3*m**3, liter
-t: 1e3*kg, tonne (metric ton)
-
-# Non-SI (Table 7).
-e: 1.60217653e-19*C, elementary charge
-eV: e*V, electron volt
-Da: 1.66053886e-27*kg, dalton
-u: Da, unified atomic mass unit
-ua: 1.49597870691e11*m, astronomical unit
-c0: 299792458.*m/s, speed of light in vacuum
-hbar: 1.05457168e-34*J*s, reduced Planck Constant
-me: 9.1093826e-31*kg, electron mass
-a0: 0.5291772108e-10*m, Bohr radius
-Eh: 4.35974417e-18*J, Hartree energy
-
-# Non-SI (Table 8).
-bar: 1.e5*Pa, pressure
-Ang: 1.e-10*m, angstrom
-NM: 1.852e3*m, nautical mile
-b: 1.e-28*m**2, barn
-kn: NM/h, knot
-
-# Non-SI (Table 9).
-erg: 1.e-7*J, erg
-dyn: 1.e-5*N, dyne
-P: 0.1*Pa*s, poise (dynamic viscosity)
-St: 1.e-4*m**2/s, stokes (kinematic viscosity)
-sb: 1.e4*cd/m**2, stilb (luminance)
-ph: 1.e4*lx, phot (illuminance)
-# 'Gal' skipped due to likely confusion with volume unit.
-Mx: 1.e-8*Wb, maxwell (magnetic flux)
-# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
-gauss: 1e-4*T, gauss (magnetic flux density)
-Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
-
-# Backward compatibility.
-degK: K, degree Kelvin
-nmi: NM, nautical mile
-knot: kn, knot
-
-# Other length.
-inch: 2.54e-2*m, inch
-ft: 0.3048*m, foot
-mi: 1.609344e3*m, mile (U.S. statute)
-ly: 9.46073e15*m, light year
-
-# Other mass.
-oz: 28.349523125*g, ounce
-lb: 16*oz, pound mass
-lbm: lb, pound mass
-ton: 2000*lb, ton (short)
-slug: 14.5939029*kg, slug
-
-# Other time.
-wk: 7*d, week
-week: 7*d, week (backward compatibility)
-a: 365.242199*d, year
-yr: a, year
-year: a, year (backward compatibility)
-mo: yr/12, month
-month: yr/12, month (backward compatibility)
-
-# Other temperature.
-degR: K*5./9., degree Rankine
-degF: 1, degR, 459.67, degree Fahrenheit
-
-# Other volume.
-tsp: 4.92892159375e-3*L, teaspoon
-tbsp: 3*tsp, tablespoon
-floz: 2*tbsp, fluid ounce
-cup: 8*floz, cup
-pt: 16*floz, pint
-qt: 2*pt, quart
-galUS: 3.785411*L, gallon (U.S.)
-galUK: 4.54609*L, gallon (U.K.)
-
-# Other miscellaneous.
-lbf: 4.44822162*N, pound force
-
-rev: 2*pi*rad, revolution
-rpm: 2*pi*rad/min, RPM
-rps: 2*pi*rad/s, RPS
-
-cal: 4.184*J, thermochemical calorie
-cali: 4.1868*J, international calorie
-Btu: 1055.05585262*J, British thermal unit
-
-acre: mi**2/640, acre
-hp: 745.7*W, horsepower
-
-atm: 101325.*Pa, standard atmosphere
-torr: atm/760, Torr (1 mm of mercury)
-psi: 6894.75729317*Pa, pounds per square inch
-psf: psi/144, pounds per square foot
-
-mu0: 4.e-7*pi*N/A**2, permeability of vacuum
-eps0: 1/mu0/c0**2, permittivity of vacuum
-Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
-Nav: 6.0221367e23/mol, Avagadros number
-R: 8.31424*J/(mol*K), gas constant
-V0: 2.24136*m**3/(1000*mol), volume of ideal gas
-planck: 2*pi*hbar, Planck constant
-mp: 1.672614e-27*kg, proton rest mass
-mn: 1.674920e-27*kg, neutron rest mass
-sigma: 5.66961e-8*W/(m**2*K**-4), Stefan-Boltzmann constant
-Ken: sigma*K, kelvin as energy unit
-Rinfinity: 1.09737312e7/m, Rydberg constant
-re: 2.817939e-15*m, classic electron radius
-lambdac: 2.4263096e-12*m, Compton wavelength of electron
-lambdap: 1.3214409e-15*m, Compton wavelength of proton
-lambdan: 1.3196217e-15*m, Compton wavelength of neutron
-mue: 9.284851e-24*J/T, electron magnetic moment
-mup: 1.4106203e-26*J/T, proton magnetic moment
-mub: 9.274096e-24*J/T, bohr magneton
-mun: 5.050951e-27*J/T, nuclear magneton
-gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
-gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
-phi0: 2.0678538e-15*Wb, magnetic flux quantum
-hme: 7.273894e-4*J*s/kg, quantum of circulation
+# Default unit library definitions.  Much of this is based on
+# http://www.bipm.org/utils/common/pdf/si_brochure_8_en.pdf
+
+[prefixes]
+# prefix-string: float-multiplier [, comment]
+
+# SI.
+Y: 1.e24
+Z: 1.e21
+E: 1.e18
+P: 1.e15
+T: 1.e12
+G: 1.e9
+M: 1.e6
+k: 1.e3
+h: 1.e2
+da: 1.e1
+d: 1.e-1
+c: 1.e-2
+m: 1.e-3
+u: 1.e-6
+n: 1.e-9
+p: 1.e-12
+f: 1.e-15
+a: 1.e-18
+z: 1.e-21
+y: 1.e-24
+
+# IEC
+Ei: 1152921504606846976, (1 << 60)
+Pi: 1125899906842624,    (1 << 50)
+Ti: 1099511627776,       (1 << 40)
+Gi: 1073741824,          (1 << 30)
+Mi: 1048576,             (1 << 20)
+Ki: 1024,                (1 << 10)
+
+
+[base_units]
+# quantity-name: unit-name
+
+# SI.
+length: m
+mass: kg
+time: s
+current: A
+temperature: K
+amount: mol
+luminous_intensity: cd
+
+# Derived SI (Table 3).
+angle: rad
+solid_angle: sr
+
+# Other.
+money: USD
+passengers: pax
+digital_data: byte
+
+
+[units]
+# unit-name: unit-expression, comment
+# OR
+# unit-name: factor, base-unit, offset, comment
+#
+# Note that unit names cannot be Python reserved words (such as 'in' for inch).
+# Unit names are matched before prefix names are checked.
+# A unit-expression cannot use prefixes (except for 'kg'), however 'pi' is
+# available as a predefined constant.
+
+g: kg/1000, gram
+
+# Derived SI (Table 3).
+Hz: 1/s, hertz
+N: m*kg/s**2, newton
+Pa: N/m**2, pascal
+J: N*m, joule
+W: J/s, watt
+C: A*s, coulomb
+V: W/A, volt
+F: C/V, farad
+ohm: V/A, ohm
+S: A/V, siemens
+Wb: V*s, weber
+T: Wb/m**2, tesla
+H: Wb/A, henry
+degC: 1, K, 273.15, degree celsius
+lm: cd*sr, lumen
+lx: lm/m**2, lux
+Bq: 1/s, becquerel
+Gy: J/kg, gray
+Sv: J/kg, sievert
+kat: mol/s, katal
+
+# Non-SI (Table 6).
+min: 60*s, minute
+h: 3600*s, hour
+d: 86400*s, day
+deg: (pi/180)*rad, degree
+arc_minute: deg/60, arc minute
+arc_second: arc_minute/60, arc second
+ha: 1e4*m**2, hectare
+L: 1e-3*m**3, liter
+t: 1e3*kg, tonne (metric ton)
+
+# Non-SI (Table 7).
+e: 1.60217653e-19*C, elementary charge
+eV: e*V, electron volt
+Da: 1.66053886e-27*kg, dalton
+u: Da, unified atomic mass unit
+ua: 1.49597870691e11*m, astronomical unit
+c0: 299792458.*m/s, speed of light in vacuum
+hbar: 1.05457168e-34*J*s, reduced Planck Constant
+me: 9.1093826e-31*kg, electron mass
+a0: 0.5291772108e-10*m, Bohr radius
+Eh: 4.35974417e-18*J, Hartree energy
+
+# Non-SI (Table 8).
+bar: 1.e5*Pa, pressure
+Ang: 1.e-10*m, angstrom
+NM: 1.852e3*m, nautical mile
+b: 1.e-28*m**2, barn
+kn: NM/h, knot
+
+# Non-SI (Table 9).
+erg: 1.e-7*J, erg
+dyn: 1.e-5*N, dyne
+P: 0.1*Pa*s, poise (dynamic viscosity)
+St: 1.e-4*m**2/s, stokes (kinematic viscosity)
+sb: 1.e4*cd/m**2, stilb (luminance)
+ph: 1.e4*lx, phot (illuminance)
+# 'Gal' skipped due to likely confusion with volume unit.
+Mx: 1.e-8*Wb, maxwell (magnetic flux)
+# 'G' renamed 'gauss' to avoid confusion with acceleration unit.
+gauss: 1e-4*T, gauss (magnetic flux density)
+Oe: (1.e3/(4*pi))*A/m, oersted (magnetic field)
+
+# Backward compatibility.
+degK: K, degree Kelvin
+nmi: NM, nautical mile
+knot: kn, knot
+
+# Other length.
+inch: 2.54e-2*m, inch
+ft: 0.3048*m, foot
+mi: 1.609344e3*m, mile (U.S. statute)
+ly: 9.46073e15*m, light year
+
+# Other mass.
+oz: 28.349523125*g, ounce
+lb: 16*oz, pound mass
+lbm: lb, pound mass
+ton: 2000*lb, ton (short)
+slug: 14.5939029*kg, slug
+
+# Other time.
+wk: 7*d, week
+week: 7*d, week (backward compatibility)
+a: 365.242199*d, year
+yr: a, year
+year: a, year (backward compatibility)
+mo: yr/12, month
+month: yr/12, month (backward compatibility)
+
+# Other temperature.
+degR: K*5./9., degree Rankine
+degF: 1, degR, 459.67, degree Fahrenheit
+
+# Other volume.
+tsp: 4.92892159375e-3*L, teaspoon
+tbsp: 3*tsp, tablespoon
+floz: 2*tbsp, fluid ounce
+cup: 8*floz, cup
+pt: 16*floz, pint
+qt: 2*pt, quart
+galUS: 3.785411*L, gallon (U.S.)
+galUK: 4.54609*L, gallon (U.K.)
+
+# Other miscellaneous.
+lbf: 4.44822162*N, pound force
+
+rev: 2*pi*rad, revolution
+rpm: 2*pi*rad/min, RPM
+rps: 2*pi*rad/s, RPS
+
+cal: 4.184*J, thermochemical calorie
+cali: 4.1868*J, international calorie
+Btu: 1055.05585262*J, British thermal unit
+
+acre: mi**2/640, acre
+hp: 745.7*W, horsepower
+
+atm: 101325.*Pa, standard atmosphere
+torr: atm/760, Torr (1 mm of mercury)
+psi: 6894.75729317*Pa, pounds per square inch
+psf: psi/144, pounds per square foot
+
+mu0: 4.e-7*pi*N/A**2, permeability of vacuum
+eps0: 1/mu0/c0**2, permittivity of vacuum
+Grav: 6.67259e-11*m**3/kg/s**2, universal gravitational constant
+Nav: 6.0221367e23/mol, Avagadros number
+R: 8.31424*J/(mol*K), gas constant
+V0: 22.4136*m**3/(1000*mol), volume of ideal gas
+planck: 2*pi*hbar, Planck constant
+mp: 1.672614e-27*kg, proton rest mass
+mn: 1.674920e-27*kg, neutron rest mass
+sigma: 5.66961e-8*W/(m**2*K**4), Stefan-Boltzmann constant
+Ken: 1.380622e-23*J, kelvin as energy unit
+Rinfinity: 1.09737312e7/m, Rydberg constant
+re: 2.817939e-15*m, classic electron radius
+lambdac: 2.4263096e-12*m, Compton wavelength of electron
+lambdap: 1.3214409e-15*m, Compton wavelength of proton
+lambdan: 1.3196217e-15*m, Compton wavelength of neutron
+mue: 9.284851e-24*J/T, electron magnetic moment
+mup: 1.4106203e-26*J/T, proton magnetic moment
+mub: 9.274096e-24*J/T, bohr magneton
+mun: 5.050951e-27*J/T, nuclear magneton
+gammap: 2.6751270e8*rad/(s*T), gyromagnetic ratio of protons in H2O
+gammapc: 2.6751965e8*rad/(s*T), gyromagnetic ratio of protons in H2O corrected for diamagnetism of H2O
+phi0: 2.0678538e-15*Wb, magnetic flux quantum
+hme: 7.273894e-4*J*s/kg, quantum of circulation
-- 
2.43.0


From 2b0d024cf16f557eab21a752645daabfa88ca445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 054/150] fix: dimensionless quantities could not be expressed
 in base units or read back

Their unit was named '1', which is not a unit.
---
 openmdao/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 67c43b5..84026b3 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -315,7 +315,7 @@ class PhysicalQuantity(object):
                     num = num + '**' + str(power)
 
         if len(num) == 0:
-            num = '1'
+            num = '1' if denom else 'unitless'
         else:
             num = num[1:]
 
@@ -608,7 +608,7 @@ class PhysicalUnit(object):
                 if power > 1:
                     num = num + '**' + str(power)
         if len(num) == 0:
-            num = '1'
+            num = '1' if denom else 'unitless'
         else:
             num = num[1:]
         return num + denom
-- 
2.43.0


From 33919385049125999e43ac166401f983bf009ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 055/150] fix: update_library did not work on Python 3

---
 openmdao/units/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 84026b3..dfec232 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -19,7 +19,7 @@ Justin Gray."""
 import re
 import os.path
 from collections import OrderedDict
-from six import iteritems
+from six import iteritems, string_types
 from six.moves.configparser import RawConfigParser as ConfigParser
 
 # pylint: disable=E0611, F0401
@@ -774,8 +774,8 @@ def update_library(filename):
     filename: string or file
         Source of units configuration data.
     """
-    if isinstance(filename, basestring):
-        inp = open(filename, 'rU')
+    if isinstance(filename, string_types):
+        inp = open(filename, 'r')
     else:
         inp = filename
     try:
-- 
2.43.0


From 7c967f5d327550678bb5e40dc16686a3263fa48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 056/150] fix: units with an underscore in an expression that
 needs parsing were not found

mm/arc_minute and marc_second were refused because the name was taken to be
'arc'; 1E-3*mm because the exponent was taken to be a unit.
---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index dfec232..e4458ef 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -635,7 +635,7 @@ def _find_unit(unit):
 
                 # First character of a unit is always alphabet or $.
                 # Remaining characters may include numbers.
-                regex = re.compile('[A-Z,a-z]{1}[A-Z,a-z,0-9]*')
+                regex = re.compile(r'(?<![\w.])[A-Za-z]\w*')
 
                 for item in regex.findall(name):
                     #check if this was a compound unit, so each substring might
-- 
2.43.0


From 10d6d788e6c86f85c63ac93e5282ff1b64109ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 057/150] fix: the meaning of a unit depended on the units used
 before

Prefixed units are added to the unit table when they are met, and were then given
a second prefix: dam was 0.1 am after any use of am, and kmm was accepted after
any use of mm.
---
 openmdao/units/units.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index e4458ef..90ae8a2 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -645,13 +645,15 @@ def _find_unit(unit):
                     except Exception: #maybe is a prefixed unit then
                         #check for single letter prefix before unit
                         if(item[0] in _UNIT_LIB.prefixes and \
-                           item[1:] in _UNIT_LIB.unit_table):
+                           _accepts_prefix(item[1:])):
+                            _UNIT_LIB.prefixed_names.add(item)
                             add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
                                      _UNIT_LIB.unit_table[item[1:]])
 
                         #check for double letter prefix before unit
                         elif(item[0:2] in _UNIT_LIB.prefixes and \
-                             item[2:] in _UNIT_LIB.unit_table):
+                             _accepts_prefix(item[2:])):
+                            _UNIT_LIB.prefixed_names.add(item)
                             add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
                                       _UNIT_LIB.unit_table[item[2:]])
 
@@ -669,6 +671,13 @@ def _find_unit(unit):
     return unit
 
 
+def _accepts_prefix(name):
+    """True for the units of the library, but not for those which were added to
+    its table because they were used with a prefix."""
+    return name in _UNIT_LIB.unit_table and \
+           name not in _UNIT_LIB.prefixed_names
+
+
 def _new_unit(name, factor, powers):
     """Create new Unit."""
     _UNIT_LIB.unit_table[name] = PhysicalUnit(name, factor, powers)
@@ -735,6 +744,7 @@ def import_library(libfilepointer):
     _UNIT_LIB.base_types = dict()
     _UNIT_LIB.unit_table = dict()
     _UNIT_LIB.prefixes = dict()
+    _UNIT_LIB.prefixed_names = set()
     _UNIT_LIB.help = list()
 
     for prefix, factor in _UNIT_LIB.items('prefixes'):
-- 
2.43.0


From d8f2a089b5c46f279518db959b8780ed1bd02849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 058/150] fix: temperatures on scales with different offsets
 were compared as numbers

0 degC == 0 K and 1 degC < 2 K were True, and temperatures in degC and degF were
never equal; the temperatures themselves are compared now.
---
 openmdao/units/units.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 90ae8a2..aa992cc 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -148,7 +148,7 @@ class PhysicalQuantity(object):
 
     def __eq__(self, other):
         try:
-            return self.value == other.value*other.unit.conversion_factor_to(self.unit)
+            return self.value == other.convert_value(self.unit)
         except TypeError:
             return False
 
@@ -172,8 +172,9 @@ class PhysicalQuantity(object):
         return self._sum(other, -1, 1)
 
     def __lt__(self, other):
-        diff = self._sum(other, 1, -1)
-        return diff.value < 0
+        if not isinstance(other, PhysicalQuantity):
+            raise TypeError('Incompatible types')
+        return self.value < other.convert_value(self.unit)
 
     def __mul__(self, other):
         if not isinstance(other, PhysicalQuantity):
-- 
2.43.0


From f9bd2a8df0ecdacf20dbf532d69c913967940640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 059/150] fix: unit definitions that use a later definition
 failed on Python 3

Without builtins an unknown name is a TypeError there, so the definition was
not tried again; nor was that of an offset unit, where it is a ValueError.
---
 openmdao/units/units.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index aa992cc..8abd9a0 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -709,7 +709,7 @@ def add_unit(name, unit, comment=''):
     if comment:
         _UNIT_LIB.help.append((name, comment, unit))
     if isinstance(unit, str):
-        unit = eval(unit, {'__builtins__':None, 'pi':pi},
+        unit = eval(unit, {'__builtins__':{}, 'pi':pi},
                            _UNIT_LIB.unit_table)
     unit.set_name(name)
     if name in _UNIT_LIB.unit_table:
@@ -813,7 +813,7 @@ def _update_library(cfg):
             try:
                 add_offset_unit(name, baseunit, float(factor), float(offset),
                                 comment)
-            except NameError:
+            except (NameError, ValueError):
                 retry1.add((name, baseunit, float(factor), float(offset),
                             comment))
         else:
@@ -835,10 +835,10 @@ def _update_library(cfg):
                     retry_count += 1
             else:
                 try:
-                    name, factor, baseunit, offset, comment = data
-                    add_offset_unit(name, factor, baseunit, offset, comment)
+                    name, baseunit, factor, offset, comment = data
+                    add_offset_unit(name, baseunit, factor, offset, comment)
                     retry1.remove(data)
-                except NameError:
+                except (NameError, ValueError):
                     retry_count += 1
     if retry1:
         raise ValueError('The following units were not defined because they'
-- 
2.43.0


From 0459aa5c32e23d2101e5c0cb22d67efcac1222ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 060/150] fix: roots of quantities could not be used further on
 Python 3

Their unit had float powers, so its name (m**2.0) and its base units could not be
read.
---
 openmdao/units/units.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 8abd9a0..c8429d1 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -488,9 +488,10 @@ class PhysicalUnit(object):
 
                 if all([x%rounded==0 for x in self.powers]):
                     f = self.factor**other
-                    p = [x/rounded for x in self.powers]
+                    p = [x//rounded for x in self.powers]
                     if all([x%rounded==0 for x in self.names.values()]):
-                        names = self.names/rounded
+                        names = NumberDict((name, x//rounded) for name, x in
+                                           iteritems(self.names))
                     else:
                         names = NumberDict()
                         if f != 1.:
-- 
2.43.0


From dadaa9cd38d5a159a2e96c998478f3f1e1d4dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:23 +0000
Subject: [PATCH 061/150] fix: exponents of numbers in ExecComp expressions
 became variables

---
 openmdao/components/exec_comp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index f688bdc..a0ffed6 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -14,7 +14,7 @@ from openmdao.util.array_util import array_idx_iter
 from collections import OrderedDict
 
 # regex to check for variable names.
-var_rgx = re.compile('([_a-zA-Z]\w*(?::[_a-zA-Z]\w*)*[ ]*\(?)')
+var_rgx = re.compile('(?<![\\w.])([_a-zA-Z]\w*(?::[_a-zA-Z]\w*)*[ ]*\(?)')
 
 def _parse_for_vars(s):
     return set([x.strip() for x in re.findall(var_rgx, s)
-- 
2.43.0


From 3e026890a8a95367dc529c9ddf328248e1682302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:23 +0000
Subject: [PATCH 062/150] fix: colon names of an ExecComp that contain one
 another were mixed up

---
 openmdao/components/exec_comp.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index a0ffed6..370c1c1 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -20,15 +20,15 @@ def _parse_for_vars(s):
     return set([x.strip() for x in re.findall(var_rgx, s)
                     if not x.endswith('(') and x.strip() not in _expr_dict])
 
-def _valid_name(s, exprs):
+def _valid_name(s, exprs, used=()):
     """Replace colons with numbers such that the new name does not exist in any
-    of the given expressions.
+    of the given expressions or among the names already in use.
     """
     i = 0
     check = ' '.join(exprs)
     while True:
         n = s.replace(':','%d'%i)
-        if n not in check:
+        if n not in check and n not in used:
             return n
         i += 1
 
@@ -165,7 +165,7 @@ class ExecComp(Component):
         from_colons = self._from_colons = {}
         for n in allvars:
             if ':' in n:
-                no_colon = _valid_name(n, exprs)
+                no_colon = _valid_name(n, exprs, self._to_colons)
             else:
                 no_colon = n
             self._to_colons[no_colon] = n
@@ -176,9 +176,11 @@ class ExecComp(Component):
         self._codes = self._compile_exprs(exprs)
 
     def _compile_exprs(self, exprs):
-        exprs = exprs[:]
+        # replace the longest names first so that a name that is contained in
+        # another one doesn't break it up.
+        exprs = list(exprs)
         for i in range(len(exprs)):
-            for n in self._colon_names:
+            for n in sorted(self._colon_names, key=len, reverse=True):
                 exprs[i] = exprs[i].replace(n, self._from_colons[n])
 
         return [compile(expr, expr, 'exec') for expr in exprs]
-- 
2.43.0


From bd24b3da0b7124e68fdbfae0f6b5a7d08c62ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:58 +0000
Subject: [PATCH 063/150] fix: ExecComp.linearize failed for inputs that are
 passed by object

---
 openmdao/components/exec_comp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index 370c1c1..7bdba6c 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -247,6 +247,9 @@ class ExecComp(Component):
             pwrap = _TmpDict(params)
 
             pval = params[param]
+            if not isinstance(pval, ndarray) and \
+                   self._init_params_dict[param].get('pass_by_obj'):
+                continue
             if isinstance(pval, ndarray):
                 # replace the param array with a complex copy
                 pwrap[param] = numpy.asarray(pval, complex)
-- 
2.43.0


From c3390c070587d356615d8fdb6df0c67323ce2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 064/150] fix: an array assigned to in an ExecComp lost its
 shape, or became an input's, under complex step

---
 openmdao/components/exec_comp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index 7bdba6c..7b4b201 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -324,7 +324,12 @@ class _TmpDict(object):
             return self._inner[name]
 
     def __setitem__(self, name, value):
-        self._changed[name] = value
+        if self._complex and isinstance(self._inner[name], ndarray):
+            # keep shape and identity of the array, as a VecWrapper does
+            self[name].flat = numpy.broadcast_to(numpy.ravel(value),
+                                                 self[name].size)
+        else:
+            self._changed[name] = value
 
     def __contains__(self, name):
         return name in self._inner or name in self._changed
-- 
2.43.0


From 6e9c45b429303febdd626cc8f36898e9dd1e052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:49 +0000
Subject: [PATCH 065/150] fix: kinds of derivatives were compared by identity,
 so that pickled systems were finite differenced

---
 openmdao/core/group.py   | 4 ++--
 openmdao/core/problem.py | 6 +++---
 openmdao/core/system.py  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index b32a35f..a293721 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -883,7 +883,7 @@ class Group(System):
             for voi in vois:
                 self._transfer_data(deriv=True, var_of_interest=voi)  # Full Scatter
 
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             # parent class has the code to do the fd
             super(Group, self)._sys_apply_linear(mode, do_apply, vois, gs_outputs,
                                                  rel_inputs=rel_inputs)
@@ -947,7 +947,7 @@ class Group(System):
             sol_vec, rhs_vec = drmat, dumat
 
         # Don't solve if user requests finite difference in this group.
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
             return
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 6fbf1ca..9fcefc1 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1017,7 +1017,7 @@ class Problem(object):
         # variable.
         if self.driver.__class__ is Driver or \
            self.driver.supports['gradients'] is False or \
-           self.root.deriv_options['type'] is not 'user':
+           self.root.deriv_options['type'] != 'user':
             return []
 
         vec = self.root.unknowns
@@ -1315,7 +1315,7 @@ class Problem(object):
 
         with self.root._dircontext:
             # Either analytic or finite difference
-            if mode == 'fd' or self.root.deriv_options['type'] is not 'user':
+            if mode == 'fd' or self.root.deriv_options['type'] != 'user':
                 return self._calc_gradient_fd(indep_list, unknown_list,
                                               return_format, dv_scale=dv_scale,
                                               cn_scale=cn_scale, sparsity=sparsity,
@@ -1901,7 +1901,7 @@ class Problem(object):
 
         # Can't run if root is set to 'fd' because no derivative vectors were
         # allocated.
-        if root.deriv_options['type'] is not 'user':
+        if root.deriv_options['type'] != 'user':
             msg = "You cannot run check_partial_derivatives when option 'type' "
             msg += "in `root` is set to 'fd' or 'cs' because no derivative "
             msg += "vectors are allocated in that case."
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 158c69b..0fe895e 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -821,7 +821,7 @@ class System(object):
             List of inputs that are relevant for linear solve in a subsystem.
             This list only includes interior connections and states.
         """
-        force_fd = self.deriv_options['type'] is not 'user'
+        force_fd = self.deriv_options['type'] != 'user'
 
         # The semi-totals of a group that is finite differenced are those of an
         # explicit system: all of its states are solved for inside.
@@ -939,7 +939,7 @@ class System(object):
                               self.pathname, DeprecationWarning,stacklevel=2)
                 warnings.simplefilter('ignore', DeprecationWarning)
 
-            if self.deriv_options['type'] is not 'user':
+            if self.deriv_options['type'] != 'user':
                 # fd should compute semi-totals across all children,
                 #    unless total_derivs=False is specifically requested
                 self._semi_total_jac = bool(self._local_subsystems and
-- 
2.43.0


From c262f82b4b375afdef3f147802763296e314cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 066/150] fix: a constraint expression with two comparators
 lost one of them

---
 openmdao/components/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/components/constraint.py b/openmdao/components/constraint.py
index 1b3a7cc..7e66649 100644
--- a/openmdao/components/constraint.py
+++ b/openmdao/components/constraint.py
@@ -105,6 +105,9 @@ def _parse_constraint(expr_string):
             # check for == because otherwise they get a cryptic error msg
             if comparator == '==':
                 break
+            # a second comparator would end up in the combined expression
+            if any(c in part for part in parts for c in '<>='):
+                break
             return (parts[0].strip(), comparator, parts[1].strip())
         # elif len(parts) == 3:
         #     return (parts[1].strip(), comparator,
-- 
2.43.0


From 0f2bb38d944f8cfdd986edf4a96003f4ddc2a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:27 +0000
Subject: [PATCH 067/150] fix: empty and None entries were not recognized as
 malformed by IndepVarComp

---
 openmdao/components/indep_var_comp.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/openmdao/components/indep_var_comp.py b/openmdao/components/indep_var_comp.py
index 0009097..b5a2ff9 100644
--- a/openmdao/components/indep_var_comp.py
+++ b/openmdao/components/indep_var_comp.py
@@ -23,18 +23,13 @@ class IndepVarComp(Component):
 
         elif isinstance(name, collections.Iterable):
             for tup in name:
-                badtup = None
-                if isinstance(tup, tuple):
-                    if len(tup) == 3:
-                        n, v, kw = tup
-                    elif len(tup) == 2:
-                        n, v = tup
-                        kw = {}
-                    else:
-                        badtup = tup
+                if isinstance(tup, tuple) and len(tup) == 3:
+                    n, v, kw = tup
+                elif isinstance(tup, tuple) and len(tup) == 2:
+                    n, v = tup
+                    kw = {}
                 else:
                     badtup = tup
-                if badtup:
                     if isinstance(badtup, string_types):
                         badtup = name
                     raise ValueError("IndepVarComp init: arg %s must be a tuple of the form "
-- 
2.43.0


From c7d34b499945fee6475dcc8049a0e99f30adc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 068/150] fix: Kriging error estimates of several points were a
 matrix of all pairs

---
 openmdao/surrogate_models/kriging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/kriging.py b/openmdao/surrogate_models/kriging.py
index 864efb8..395f1ba 100644
--- a/openmdao/surrogate_models/kriging.py
+++ b/openmdao/surrogate_models/kriging.py
@@ -191,7 +191,8 @@ class KrigingSurrogate(SurrogateModel):
         y = self.Y_mean + self.Y_std * y_t
 
         if self.eval_rmse:
-            mse = (1. - np.dot(np.dot(r, self.Vh.T), np.einsum('j,kj,lk->jl', self.S_inv, self.U, r))) * self.sigma2
+            mse = np.einsum('ij,ji->i', np.dot(r, self.Vh.T), np.einsum('j,kj,lk->jl', self.S_inv, self.U, r))
+            mse = (1. - mse)[:, np.newaxis] * self.sigma2
 
             # Forcing negative RMSE to zero if negative due to machine precision
             mse[mse < 0.] = 0.
-- 
2.43.0


From 19de891beb3481b024c51f65af61734f4fb8e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 069/150] fix: variances of several Kriging outputs were mixed
 up

---
 openmdao/surrogate_models/kriging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/kriging.py b/openmdao/surrogate_models/kriging.py
index 395f1ba..58ddf69 100644
--- a/openmdao/surrogate_models/kriging.py
+++ b/openmdao/surrogate_models/kriging.py
@@ -146,7 +146,7 @@ class KrigingSurrogate(SurrogateModel):
 
         alpha = Vh.T.dot(np.einsum('j,kj,kl->jl', inv_factors, U, Y))
         logdet = -np.sum(np.log(inv_factors))
-        sigma2 = np.dot(Y.T, alpha).sum(axis=0) / self.n_samples
+        sigma2 = np.einsum('ij,ij->j', Y, alpha) / self.n_samples
         reduced_likelihood = -(np.log(np.sum(sigma2)) + logdet / self.n_samples)
 
         params['alpha'] = alpha
-- 
2.43.0


From cb25ca47ab25000930b175886baaa104abd398c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 070/150] fix: training a co-Kriging model again kept the
 correlation parameters of the first training

---
 openmdao/surrogate_models/multifi_cokriging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/surrogate_models/multifi_cokriging.py b/openmdao/surrogate_models/multifi_cokriging.py
index 9785e09..48c0312 100644
--- a/openmdao/surrogate_models/multifi_cokriging.py
+++ b/openmdao/surrogate_models/multifi_cokriging.py
@@ -301,6 +301,9 @@ References
         self.thetaL = thetaL
         self.thetaU = thetaU
 
+        # parameters as given by the user, where every fit has to start from
+        self._given = (theta, theta0, thetaL, thetaU)
+
         self._nfev = 0
 
     def _build_R(self, lvl, theta):
@@ -730,6 +733,9 @@ MSE: array_like, optional (if eval_MSE is True)
 
         self.n_features = n_features[0]
 
+        self.theta, self.theta0, self.thetaL, self.thetaU = \
+            [g[:] if type(g) is list else g for g in self._given]
+
         if type(self.theta) is not list:
             self.theta = nlevel*[self.theta]
         elif len(self.theta) != nlevel:
-- 
2.43.0


From 9ddca649130582d2aac6a45c989e09f8803ec31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 071/150] fix: fitting a co-Kriging model changed the list of
 outputs it was given

---
 openmdao/surrogate_models/multifi_cokriging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/surrogate_models/multifi_cokriging.py b/openmdao/surrogate_models/multifi_cokriging.py
index 48c0312..5817c63 100644
--- a/openmdao/surrogate_models/multifi_cokriging.py
+++ b/openmdao/surrogate_models/multifi_cokriging.py
@@ -715,6 +715,8 @@ MSE: array_like, optional (if eval_MSE is True)
 
         if type(y) is not list:
             y = [y]
+        else:
+            y = y[:]
 
         if len(X) != len(y):
             raise ValueError("X and y must have the same length.")
-- 
2.43.0


From d807d4a61b3b171d7dc655a683cfe787b48d9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 072/150] fix: predictions of FloatMultiFiCoKrigingSurrogate
 always failed

---
 openmdao/surrogate_models/multifi_cokriging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/multifi_cokriging.py b/openmdao/surrogate_models/multifi_cokriging.py
index 5817c63..6a67a96 100644
--- a/openmdao/surrogate_models/multifi_cokriging.py
+++ b/openmdao/surrogate_models/multifi_cokriging.py
@@ -873,7 +873,7 @@ class FloatMultiFiCoKrigingSurrogate(MultiFiCoKrigingSurrogate):
 
     def predict(self, new_x):
         dist = super(FloatMultiFiCoKrigingSurrogate, self).predict(new_x)
-        return dist.mu
+        return dist[0]
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8b183e644ad65158d959910c4782e6cab8e9e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 073/150] fix: nearest neighbour surrogates changed the shape
 of the points they were given

---
 .../surrogate_models/nn_interpolators/linear_interpolator.py  | 4 ++--
 .../surrogate_models/nn_interpolators/rbf_interpolator.py     | 4 ++--
 .../nn_interpolators/weighted_interpolator.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 9b2b7c4..d684e4e 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -54,7 +54,7 @@ class LinearInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, -1))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
@@ -92,7 +92,7 @@ class LinearInterpolator(NNBase):
 
         if len(PredPoints.shape) == 1:
             # Reshape vector to n x 1 array
-            PredPoints.shape = (1, PredPoints.shape[0])
+            PredPoints = PredPoints.reshape((1, -1))
 
         normPredPts = (PredPoints - self._tpm) / self._tpr
         nppts = normPredPts.shape[0]
diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index 4f599e4..889e6c5 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -290,7 +290,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, -1))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -317,7 +317,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, -1))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         # Setup prediction points and find their radial neighbors
diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index da9be5c..ac6a934 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -37,7 +37,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, -1))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -77,7 +77,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, -1))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
-- 
2.43.0


From 11df416e09504932aa8bb60181a50c22a97f93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 074/150] fix: gradient of a linear interpolant of several
 outputs of one input failed

---
 .../surrogate_models/nn_interpolators/linear_interpolator.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index d684e4e..2878f17 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -109,7 +109,7 @@ class LinearInterpolator(NNBase):
         normal, pc = self._find_hyperplane(nloc)
         if np.any(normal[:, -1, :]) == 0:
             return gradient
-        gradient[:] = (-normal[:, :-1, :] / normal[:, -1, :]).squeeze().T
+        gradient[:] = np.swapaxes(-normal[:, :-1, :] / normal[:, -1:, :], 1, 2)
 
         grad = gradient * (self._tvr[:, np.newaxis] / self._tpr)
         return grad
-- 
2.43.0


From 8f8c501fa07c459d2cfc2d0a90b994da12c0bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 075/150] fix: gradient of a weighted interpolant was nan at
 training points

---
 .../nn_interpolators/weighted_interpolator.py              | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index ac6a934..8ac6b16 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -92,6 +92,11 @@ class WeightedInterpolator(NNBase):
             ndist.shape = (1, ndist.shape[0])
             nloc.shape = (1, nloc.shape[0])
 
+        # The interpolant is flat at a training point, where the weights are
+        # infinite. Any other distance will do there.
+        at_tp = ndist[:, 0] == 0.
+        ndist = np.where(at_tp[:, np.newaxis], 1., ndist)
+
         dimdiff = normalized_pts - self._tp[nloc]
 
         weights = np.power(ndist, -dist_eff)
@@ -105,6 +110,8 @@ class WeightedInterpolator(NNBase):
                     - (np.einsum('ij,ijk->ik', weights, vals)[..., np.newaxis]
                     * np.sum(dweights, axis=1))) / np.power(weight_sum, 2)
 
+        gradient[at_tp] = 0.
+
         grad = gradient * (self._tvr[..., np.newaxis] / self._tpr)
 
         return grad
-- 
2.43.0


From f78807d4ec6b3a0119b915e1a5ab7ffdc4cb29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 076/150] fix: slopes of two radial basis functions were wrong

---
 .../surrogate_models/nn_interpolators/rbf_interpolator.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index 889e6c5..c59101e 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -157,7 +157,7 @@ class RBFInterpolator(NNBase):
             #                             (216. * T * T) + (120. * T * T * T) +
             #                             (25. * T * T * T * T)))
         elif self.comp == -3:
-            frnt = T / np.sqrt((T * T) * 1.)
+            frnt = T / np.sqrt((T * T) + 1.)
             dRp_poly = [1.]
         else:
             dims = self._indep_dims + 1
@@ -170,7 +170,7 @@ class RBFInterpolator(NNBase):
                     # dRp = -1.
                 elif self.comp == 1:
                     frnt = 1.
-                    dRp_poly = [1., -2., 1., 0.]
+                    dRp_poly = [-1., 2., -1., 0.]
                     # dRp = -T * (1. - T) * (1. - T)
                 elif self.comp == 2:
                     frnt = np.power(1. - T, 4.) / -20.
-- 
2.43.0


From c7f1d79f7c05425e136defeb512384a30a3ec9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:19 +0000
Subject: [PATCH 077/150] fix: weighted interpolation with one neighbor mixed
 up several prediction points

---
 .../nn_interpolators/weighted_interpolator.py      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index 8ac6b16..1a260e1 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -48,10 +48,9 @@ class WeightedInterpolator(NNBase):
 
         # Setup problem
 
-        # Reshape ndist for 1D problems.
-        if len(ndist.shape) == 1:
-            ndist.shape = (1, ndist.shape[0])
-            nloc.shape = (1, nloc.shape[0])
+        # The query leaves out the last dimension if n is 1.
+        ndist = ndist.reshape((-1, n))
+        nloc = nloc.reshape((-1, n))
 
         weights = self._get_weights(ndist, dist_eff)
 
@@ -87,10 +86,9 @@ class WeightedInterpolator(NNBase):
         else:
             ndist, nloc = self._KData.query(normalized_pts, n)
 
-        # Reshape ndist for 1D problems.
-        if len(ndist.shape) == 1:
-            ndist.shape = (1, ndist.shape[0])
-            nloc.shape = (1, nloc.shape[0])
+        # The query leaves out the last dimension if n is 1.
+        ndist = ndist.reshape((-1, n))
+        nloc = nloc.reshape((-1, n))
 
         # The interpolant is flat at a training point, where the weights are
         # infinite. Any other distance will do there.
-- 
2.43.0


From 73caa74dbdfc3afe5df39109d9433ba3f2e72404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:11 +0000
Subject: [PATCH 078/150] fix: nearest neighbour gradients reused the
 neighbours of a nearby point

---
 .../surrogate_models/nn_interpolators/linear_interpolator.py    | 2 +-
 openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py  | 2 +-
 .../surrogate_models/nn_interpolators/weighted_interpolator.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 2878f17..b158e81 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -101,7 +101,7 @@ class LinearInterpolator(NNBase):
         dims = self._indep_dims + 1
         # Find the neighbors
         if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normPredPts):
+                np.array_equal(self._pt_cache[0], normPredPts):
             ndist, nloc = self._pt_cache[1:]
         else:
                 ndist, nloc = self._KData.query(normPredPts.real, dims)
diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index c59101e..6f3f19f 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -322,7 +322,7 @@ class RBFInterpolator(NNBase):
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         # Setup prediction points and find their radial neighbors
         if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normalized_pts):
+                np.array_equal(self._pt_cache[0], normalized_pts):
             pdist, ploc = self._pt_cache[1:]
         else:
             pdist, ploc = self._KData.query(normalized_pts, self.N)
diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index 1a260e1..a90ff75 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -81,7 +81,7 @@ class WeightedInterpolator(NNBase):
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
         if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normalized_pts):
+                np.array_equal(self._pt_cache[0], normalized_pts):
             ndist, nloc = self._pt_cache[1:]
         else:
             ndist, nloc = self._KData.query(normalized_pts, n)
-- 
2.43.0


From c287c2924cddd3c250bb8d33da344bb638fdfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 079/150] fix: training failed with more than two levels of
 fidelity

---
 openmdao/components/multifi_meta_model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index d6bec20..0842041 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -127,26 +127,26 @@ class MultiFiMetaModel(MetaModel):
         num_sample = self._nfi*[None]
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if num_sample[fi] is None:
                     num_sample[fi] = len(val)
                 elif len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number"\
                           " of training points. Expected {0} but found {1} "\
                           "points for '{2}'."\
-                          .format(num_sample[fi], len(val), name)
+                          .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         for name, shape in self._surrogate_output_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number" \
                           " of training points. Expected {0} but found {1} " \
                           "points for '{2}'." \
-                        .format(num_sample[fi], len(val), name)
+                        .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         if self.warm_restart:
@@ -172,8 +172,8 @@ class MultiFiMetaModel(MetaModel):
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
                 if num_sample[fi] > 0:
-                    name = _get_name_fi(name, fi)
-                    val = self.params['train:' + name]
+                    name_fi = _get_name_fi(name, fi)
+                    val = self.params['train:' + name_fi]
                     if isinstance(val[0], float):
                         new_inputs[fi][:, idx[fi]] = val
                         idx[fi] += 1
-- 
2.43.0


From ee2d00d5a37fead73390efc048c89fcf9278c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 080/150] fix: array training inputs of a metamodel overwrote
 each other

---
 openmdao/components/meta_model.py         | 2 +-
 openmdao/components/multifi_meta_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 671a00e..66d3c04 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -326,12 +326,12 @@ class MetaModel(Component):
                 val = self.params['train:' + name]
                 if isinstance(val[0], float):
                     new_input[:, idx] = val
-                    idx += 1
                 else:
                     for row_idx, v in enumerate(val):
                         if not isinstance(v, np.ndarray):
                             v = np.array(v)
                         new_input[row_idx, idx:idx+sz] = v.flat
+                idx += sz
 
         # add training data for each output
         for name, shape in self._surrogate_output_names:
diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index 0842041..7fb7ca0 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -176,12 +176,12 @@ class MultiFiMetaModel(MetaModel):
                     val = self.params['train:' + name_fi]
                     if isinstance(val[0], float):
                         new_inputs[fi][:, idx[fi]] = val
-                        idx[fi] += 1
                     else:
                         for row_idx, v in enumerate(val):
                             if not isinstance(v, np.ndarray):
                                 v = np.array(v)
                             new_inputs[fi][row_idx, idx[fi]:idx[fi]+sz] = v.flat
+                    idx[fi] += sz
 
         # add training data for each output
         outputs=self._nfi*[None]
-- 
2.43.0


From b10d6a055d0a8e5229a7e3f36c2275a3c919a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 081/150] fix: finite difference skipped metamodel variables
 whose names start with 'train'

---
 openmdao/components/meta_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 66d3c04..83daba8 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -377,7 +377,7 @@ class MetaModel(Component):
             List of names of params for this `Component` .
         """
         return [k for k, acc in iteritems(self.params._dat)
-                   if not (acc.pbo or k.startswith('train'))]
+                   if not (acc.pbo or k.startswith('train:'))]
 
     def _get_fd_unknowns(self):
         """
@@ -390,4 +390,4 @@ class MetaModel(Component):
             List of names of unknowns for this `Component`.
         """
         return [k for k, acc in iteritems(self.unknowns._dat)
-                   if not (acc.pbo or k.startswith('train'))]
+                   if not (acc.pbo or k.startswith('train:'))]
-- 
2.43.0


From 276f222af2822529fde413bb79ca6abb55f9ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 082/150] fix: multi-fidelity metamodel with one fidelity could
 not warm restart

---
 openmdao/components/multifi_meta_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index 7fb7ca0..d7a6fa5 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -89,7 +89,9 @@ class MultiFiMetaModel(MetaModel):
         self._nfi = nfi
 
         # generalize MetaModel training inputs to a list of training inputs
-        self._training_input = nfi*[np.zeros(0)]
+        # (a single level is trained by the MetaModel class, with plain arrays)
+        if nfi > 1:
+            self._training_input = nfi*[np.zeros(0)]
         self._input_sizes = nfi*[0]
 
     def add_param(self, name, val=_NotSet, **kwargs):
-- 
2.43.0


From 638a39ae3a37ca99fad46d61aea526c0876356f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 083/150] fix: a metamodel with a pass-by-object output could
 not provide derivatives

---
 openmdao/components/meta_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 83daba8..a3fda9a 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -270,6 +270,9 @@ class MetaModel(Component):
         inputs = self._params_to_inputs(params)
 
         for uname, _ in self._surrogate_output_names:
+            if self._init_unknowns_dict[uname].get('pass_by_obj'):
+                # e.g. a prediction with its error estimate
+                continue
             surrogate = self._init_unknowns_dict[uname].get('surrogate')
             sjac = surrogate.linearize(inputs)
 
-- 
2.43.0


From 23003ec80a18838507428e5798386aca588eeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 084/150] fix: OptionsDictionary.get failed for deprecated
 option names

---
 openmdao/util/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index d7c3329..dce2fab 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -157,7 +157,8 @@ class OptionsDictionary(object):
         elif name in self._deprecations:
             newname = self._deprecations[name]
             _print_deprecation(name, newname)
-            return self._options[name]['val']
+            if newname in self._options:
+                return self._options[newname]['val']
         return default
 
     def iteritems(self):
-- 
2.43.0


From 0f377a13fa75b391e4e9822d0c6b486d1ac4deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 085/150] fix: renamed finite difference options could be set
 but not read by their old names

---
 openmdao/util/options.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index dce2fab..a7de0f3 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -278,6 +278,12 @@ class DeprecatedOptionsDictionary(object):
         if name == 'force_fd':
             return self.opt['type'] in ['fd', 'cs']
 
+        elif name == 'step_type':
+            name = 'step_calc'
+
+        elif name == 'extra_check_partials_form':
+            name = 'check_form'
+
         return self.opt[name]
 
     def __setitem__(self, name, value):
-- 
2.43.0


From 707fcb6c4dd39f3d03937231241e3866e7d0a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:54 +0000
Subject: [PATCH 086/150] fix: a SubProblem below the root group had no
 unknowns

---
 openmdao/components/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 99a25c4..94431eb 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -109,7 +109,7 @@ class SubProblem(Component):
         umap = OrderedDict()
 
         for key in self._prob_unknowns:
-            pkey = '.'.join((self.name, key))
+            pkey = self._get_var_pathname(key)
             if pkey in parent_proms:
                 umap[parent_proms[pkey]] = key
 
-- 
2.43.0


From 0b70a9f517aca37b07fded9bfc7989c3d3ba2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:37 +0000
Subject: [PATCH 087/150] fix: independent variables of a SubProblem could not
 be params of a SubProblem around it

---
 openmdao/components/subproblem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 94431eb..ca07632 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -119,10 +119,7 @@ class SubProblem(Component):
         return self.params[name]
 
     def _rec_get_param_meta(self, name):
-        try:
-            return self._problem.root._rec_get_param_meta(name)
-        except:
-            _reraise(self.pathname,  sys.exc_info())
+        return self.params._dat[name].meta
 
     def _rec_set_param(self, name, value):
         self.params[name] = value
@@ -191,7 +188,10 @@ class SubProblem(Component):
             if name in subparams:
                 meta = subparams._dat[name].meta
             elif name in self._problem._dangling:
-                meta = self._rec_get_param_meta(name)
+                try:
+                    meta = self._problem.root._rec_get_param_meta(name)
+                except:
+                    _reraise(self.pathname,  sys.exc_info())
             else:
                 meta = subunknowns._dat[name].meta
                 if not meta.get('_canset_'):
-- 
2.43.0


From e2fe2805286feed61762d207a99bf1af80eac9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 088/150] fix: a state could not be an unknown of a SubProblem

---
 openmdao/components/subproblem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index ca07632..b99d3ba 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -218,6 +218,10 @@ class SubProblem(Component):
             self._unknowns_dict[pathname] = meta
             meta['pathname'] = pathname
             del meta['top_promoted_name']
+
+            # the subproblem solves for its states, so they are just outputs here
+            meta.pop('state', None)
+
             to_prom_uname[pathname] = name
             to_abs_uname[name] = pathname
 
-- 
2.43.0


From 8caef239659643e4414f9beb533e342e0f60dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 089/150] fix: promoted names with dots could not be params of
 an enclosing SubProblem

The metadata of an unconnected param of the sub-problem was looked up by its
promoted name, as if that were a path of subsystems; a name promoted from a
nested SubProblem may contain dots, and gave a KeyError.
---
 openmdao/components/subproblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index b99d3ba..bb8e788 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -189,7 +189,9 @@ class SubProblem(Component):
                 meta = subparams._dat[name].meta
             elif name in self._problem._dangling:
                 try:
-                    meta = self._problem.root._rec_get_param_meta(name)
+                    # (the promoted name isn't a path that leads to the param)
+                    absname = sorted(self._problem._dangling[name])[0]
+                    meta = self._problem.root._rec_get_param_meta(absname)
                 except:
                     _reraise(self.pathname,  sys.exc_info())
             else:
-- 
2.43.0


From c1ada190c001e18693ed5788b30f5f7b5bc77a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 090/150] fix: SubProblem params with a unit conversion were
 converted twice

After a run, params that are unknowns of the sub-problem are copied back to
the params vector, which holds values in the units of the source. They were
stored in the units of the param, so that reading them (in linearize, for
instance) converted them again.
---
 openmdao/components/subproblem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index bb8e788..8050bdd 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -271,7 +271,13 @@ class SubProblem(Component):
 
             # if params are really unknowns, they may have changed, so update
             for name in self._unknowns_as_params:
-                params[name] = prob.root.unknowns[name]
+                val = prob.root.unknowns[name]
+                unit_conv = params._dat[name].meta.get('unit_conv')
+                if unit_conv is not None:
+                    # params are stored in the units of their source
+                    scale, offset = unit_conv
+                    val = val / scale - offset
+                params[name] = val
         except:
             _reraise(self.pathname,  sys.exc_info())
 
-- 
2.43.0


From 1315b1fb0ca7b21a3e32d774cd0bc3d0bfaf97e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:14 +0000
Subject: [PATCH 091/150] fix: a SubProblem with pass_by_obj variables had no
 derivatives

linearize asked the sub-problem for its gradient with respect to every param,
which failed for those that aren't differentiable.
---
 openmdao/components/subproblem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 8050bdd..0450959 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -312,8 +312,12 @@ class SubProblem(Component):
 
             # have to convert jacobian returned from calc_gradient from a
             # nested dict to a flat dict with tuple keys.
-            return _jac_to_flat_dict(prob.calc_gradient(self.params.keys(),
-                                                        self.unknowns.keys(),
+            # Pass by object variables have no derivatives.
+            indeps = [n for n, acc in iteritems(self.params._dat)
+                      if not acc.pbo]
+            deps = [n for n, acc in iteritems(self.unknowns._dat)
+                    if not acc.pbo]
+            return _jac_to_flat_dict(prob.calc_gradient(indeps, deps,
                                                         return_format='dict'))
         except:
             _reraise(self.pathname,  sys.exc_info())
-- 
2.43.0


From 5e1f7cbe5fca4c53f1be50fa9ccbe903c9549b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 092/150] fix: derivatives of a state in a SubProblem were
 scaled by its resid_scaler

The scaler applies to the residual that the sub-problem drives to zero, not to
the output of the SubProblem that wraps it.
---
 openmdao/components/subproblem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 0450959..5e71c10 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -223,6 +223,7 @@ class SubProblem(Component):
 
             # the subproblem solves for its states, so they are just outputs here
             meta.pop('state', None)
+            meta.pop('resid_scaler', None)
 
             to_prom_uname[pathname] = name
             to_abs_uname[name] = pathname
-- 
2.43.0


From a9d5134e81957a1059a2d5008c748604e84ff70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 093/150] fix: file generator could not write nan and inf, and
 dropped the last digit

The format of a float was chosen by int(val), which fails for nan and inf, and
16 digits are not enough to read back the same number in every case. Values
added beyond the end of the template now use the same format.
---
 openmdao/util/file_wrap.py | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 3fe1bd9..f9d7016 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -21,14 +21,32 @@ __all__ = ['InputFileGenerator', 'FileParser']
 
 def _getformat(val):
     # Returns the output format for a floating point number.
-    # The general format is used with 16 places of accuracy, except for when
-    # the floating point value is an integer, in which case a decimal point
+    # The general format is used with 16 places of accuracy (or 17, if that is
+    # what it takes to read back the same number), except for when the
+    # floating point value is an integer, in which case a decimal point
     # followed by a single zero is used.
 
-    if int(val) == val:
+    if np.isnan(val) or np.isinf(val):
+        return "%s"
+    elif int(val) == val:
         return "%.1f"
-    else:
+    elif float("%.16g" % val) == val:
         return "%.16g"
+    else:
+        return "%.17g"
+
+
+def _totext(val):
+    # Returns the text that represents a value in the generated file.
+
+    if isinstance(val, float):
+        if np.isnan(val):
+            return "NaN"
+        elif np.isinf(val):
+            return "Inf" if val > 0 else "-Inf"
+        return _getformat(val) % val
+    else:
+        return str(val)
 
 
 class _SubHelper(object):
@@ -68,10 +86,7 @@ class _SubHelper(object):
         self.current_location += 1
 
         if self.current_location == self.replace_location:
-            if isinstance(self.newtext, float):
-                return _getformat(self.newtext) % self.newtext
-            else:
-                return str(self.newtext)
+            return _totext(self.newtext)
         else:
             return text.group()
 
@@ -86,11 +101,7 @@ class _SubHelper(object):
         if self.current_location >= self.start_location and \
            self.current_location <= self.end_location and \
            self.counter < end:
-            if isinstance(self.newtext[self.counter], float):
-                val = self.newtext[self.counter]
-                newval = _getformat(val) % val
-            else:
-                newval = str(self.newtext[self.counter])
+            newval = _totext(self.newtext[self.counter])
             self.counter += 1
             return newval
         else:
@@ -332,7 +343,7 @@ class InputFileGenerator(object):
         # This is resolved by adding more fields at the end
         if sub.counter < len(value):
             for val in value[sub.counter:]:
-                newline = newline.rstrip() + sep + str(val)
+                newline = newline.rstrip() + sep + _totext(val)
 
             self.data[j] = newline
 
-- 
2.43.0


From e186b7210a5a316558f5e7c051aa5a536e6dc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 094/150] fix: file generator inserted a blank line after an
 array

transfer_array appended a newline to the last row in every case; only the rows
that get additional values have lost theirs.
---
 openmdao/util/file_wrap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index f9d7016..fd584d9 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -345,7 +345,7 @@ class InputFileGenerator(object):
             for val in value[sub.counter:]:
                 newline = newline.rstrip() + sep + _totext(val)
 
-            self.data[j] = newline
+            self.data[j] = newline + "\n"
 
         # Sometimes an array is too small for the template
         # This is resolved by removing fields
@@ -355,8 +355,6 @@ class InputFileGenerator(object):
             # Ideally, we'd remove the extra field placeholders
             raise ValueError("Array is too small for the template.")
 
-        self.data[j] += "\n"
-
     def transfer_2Darray(self, value, row_start, row_end, field_start,
                        field_end):
         """Changes the values of a 2D array in the template relative to the
-- 
2.43.0


From 62bf05982b4dc90e028a05344fbe29f8bc9dfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 095/150] fix: file generator ignored values that have no place
 in the template

An array with fewer values than fields was meant to raise an error, but the
number of fields was never counted, so that old values of the template stayed
in the file. Likewise, values for fields beyond the end of a line were dropped
by transfer_var and transfer_2Darray.
---
 openmdao/util/file_wrap.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index fd584d9..7606f08 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -59,6 +59,7 @@ class _SubHelper(object):
         self.replace_location = 0
         self.current_location = 0
         self.counter = 0
+        self.fields = 0
         self.start_location = 0
         self.end_location = 0
 
@@ -98,9 +99,12 @@ class _SubHelper(object):
         self.current_location += 1
         end = len(self.newtext)
 
-        if self.current_location >= self.start_location and \
-           self.current_location <= self.end_location and \
-           self.counter < end:
+        inside = self.current_location >= self.start_location and \
+                 self.current_location <= self.end_location
+        if inside:
+            self.fields += 1
+
+        if inside and self.counter < end:
             newval = _totext(self.newtext[self.counter])
             self.counter += 1
             return newval
@@ -287,6 +291,9 @@ class InputFileGenerator(object):
         sub = _SubHelper()
         sub.set(value, field)
         newline = re.sub(self.reg, sub.replace, line)
+        if field > sub.current_location:
+            raise ValueError("Field %d does not exist in row %d of the template."
+                             % (field, row))
 
         self.data[j] = newline
 
@@ -349,7 +356,7 @@ class InputFileGenerator(object):
 
         # Sometimes an array is too small for the template
         # This is resolved by removing fields
-        elif sub.counter > len(value):
+        elif sub.fields > len(value):
 
             # TODO - Figure out how to handle this.
             # Ideally, we'd remove the extra field placeholders
@@ -392,10 +399,15 @@ class InputFileGenerator(object):
             sub.set_array(value[i, :], field_start, field_end)
 
             newline = re.sub(self.reg, sub.replace_array, line)
+            if sub.fields != len(value[i, :]):
+                raise ValueError("Array has %d columns, but there are %d fields"
+                                 " in row %d of the template." %
+                                 (len(value[i, :]), sub.fields, row))
             self.data[j] = newline
 
             sub.current_location = 0
             sub.counter = 0
+            sub.fields = 0
             i += 1
 
         # TODO - Note, we currently can't handle going beyond the end of
-- 
2.43.0


From a9d5f805a04eaa6aab09b338836fb2ae1c8fa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 096/150] fix: delimiters of the file generator were read as a
 regular expression

Delimiters like '^', ']' or '-' have a meaning inside of a character class.
---
 openmdao/util/file_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 7606f08..624c602 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -192,7 +192,7 @@ class InputFileGenerator(object):
             A string containing characters to be used as delimiters."""
 
         self.delimiter = delimiter
-        self.reg = re.compile('[^' + delimiter + '\n]+')
+        self.reg = re.compile('[^' + re.escape(delimiter) + '\n]+')
 
     def mark_anchor(self, anchor, occurrence=1):
         """Marks the location of a landmark, which lets you describe data by
-- 
2.43.0


From 5748decff9eb102d1ecfaa4dfc599ef2b9693d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 097/150] fix: file parser read -Inf as +Inf, and negative
 numbers like -3e5 as two fields

Words that begin with the letters of NaN or Inf (nano, Infra) were read as two
fields as well.
---
 openmdao/util/file_wrap.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 624c602..639079b 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -137,7 +137,7 @@ class ToInf(TokenConverter):
     """Converter for PyParsing that is used to turn a token into Python inf."""
     def postParse( self, instring, loc, tokenlist ):
         """Converter to make token into Python inf."""
-        return float('inf')
+        return float('-inf' if tokenlist[0].startswith('-') else 'inf')
 
 
 class InputFileGenerator(object):
@@ -889,11 +889,13 @@ class FileParser(object):
                             ))
 
         # special case for a float written like "3e5"
-        mixed_exp = ToFloat(Combine( digits + ee + Optional(sign) + digits ))
+        mixed_exp = ToFloat(Combine( Optional(sign) + digits + ee + Optional(sign) + digits ))
 
-        nan = ToInf(oneOf("Inf -Inf")) | \
-              ToNan(oneOf("NaN nan NaN%  NaNQ NaNS qNaN sNaN " + \
-                            "1.#SNAN 1.#QNAN -1.#IND"))
+        # (words that merely begin like these are strings)
+        end = ~Word(alphanums + '_')
+        nan = ToInf(Combine(oneOf("Inf -Inf inf -inf") + end)) | \
+              ToNan(Combine(oneOf("NaN nan NaN%  NaNQ NaNS qNaN sNaN " + \
+                            "1.#SNAN 1.#QNAN -1.#IND") + end))
 
         string_text = Word(textchars)
 
-- 
2.43.0


From 98b6467eabc30c5a4fc9cbcc9db456b821bff8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 098/150] fix: reverse search of a key after an anchor read the
 wrong line

transfer_keyvar counted backwards from the anchor instead of from the end of
the file, and used an arbitrary line if there was no such occurrence.
---
 openmdao/util/file_wrap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 639079b..f3c54d6 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -664,7 +664,7 @@ class FileParser(object):
 
         instance = 0
         if occurrence > 0:
-            row = 0
+            row = self.current_row
             for line in self.data[self.current_row:]:
                 if line.find(key) > -1:
                     instance += 1
@@ -674,7 +674,7 @@ class FileParser(object):
                 row += 1
 
         elif occurrence < 0:
-            row = -1
+            row = len(self.data) - 1
             for line in reversed(self.data[self.current_row:]):
                 if line.find(key) > -1:
                     instance += -1
@@ -683,7 +683,11 @@ class FileParser(object):
 
                 row -= 1
 
-        j = self.current_row + row + rowoffset
+        if instance != occurrence:
+            raise RuntimeError("Could not find pattern %s in output file %s" % \
+                               (key, self.filename))
+
+        j = row + rowoffset
         line = self.data[j]
 
         fields = self._parse_line().parseString(line.replace(key,"KeyField"))
-- 
2.43.0


From 1ad965a828cb4b2912aa3741fef9e84fa6ccd5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 099/150] fix: rows of a 2D array with missing fields were read
 as zeros

The error was replaced by a print of the array.
---
 openmdao/util/file_wrap.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index f3c54d6..733c317 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -842,10 +842,7 @@ class FileParser(object):
                 parsed = self._parse_line().parseString(line)
 
                 if fieldend:
-                    try:
-                        data[i+1, :] = np.array(parsed[(fieldstart-1):fieldend])
-                    except:
-                        print(data)
+                    data[i+1, :] = np.array(parsed[(fieldstart-1):fieldend])
                 else:
                     data[i+1, :] = np.array(parsed[(fieldstart-1):])
 
-- 
2.43.0


From 912e41ba5d353bb7b6a8ab5cd1cbe9ad9beb12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 100/150] fix: delimiters of a file parser changed those of
 everything else that uses pyparsing

set_delimiters replaced the default whitespace of pyparsing for good, which
broke the namelist parser, and the 'columns' delimiter used whatever the last
parser had set instead of spaces and tabs.
---
 openmdao/util/file_wrap.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 733c317..badc54c 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -492,9 +492,17 @@ class FileParser(object):
             non-delimiters."""
 
         self.delimiter = delimiter
+
+        # This only needs to be set while our tokens are created.
+        default = ParserElement.DEFAULT_WHITE_CHARS
         if delimiter != "columns":
             ParserElement.setDefaultWhitespaceChars(str(delimiter))
-        self._reset_tokens()
+        else:
+            ParserElement.setDefaultWhitespaceChars(" \t")
+        try:
+            self._reset_tokens()
+        finally:
+            ParserElement.setDefaultWhitespaceChars(default)
 
     def mark_anchor(self, anchor, occurrence=1):
         """Marks the location of a landmark, which lets you describe data by
-- 
2.43.0


From 1c8856898d766675917aa024f023c40c96c423d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:26 +0000
Subject: [PATCH 101/150] fix: file parser stopped at quotes, backslashes and
 commas

With delimiters other than whitespace, the fields behind a character that is
neither a delimiter nor in the list of symbols were lost.
---
 openmdao/util/file_wrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index badc54c..6daec32 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -878,7 +878,8 @@ class FileParser(object):
 
             symbols = ['.', '/', '+', '*', '^', '(', ')', '[', ']', '=',
                        ':', ';', '?', '%', '&', '!', '#', '|', '<', '>',
-                       '{', '}', '-', '_', '@', '$', '~']
+                       '{', '}', '-', '_', '@', '$', '~', ',', '"', "'",
+                       '`', '\\']
 
             for symbol in symbols:
                 if symbol not in self.delimiter:
-- 
2.43.0


From d7631a06b38fb5056b07ed51ae94091a3cf303ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 102/150] fix: anchors next to a previous anchor were not found

A forward search goes on behind the previous anchor in the same line, but it
left out everything up to the last occurrence of the new anchor, which is then
never found in that line. A reverse search starts at the end of the file no
matter where the previous anchor is, but left out the last line in the same
way. (Only repeated searches for the same text do so now.)
---
 openmdao/util/file_wrap.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 6daec32..2508e63 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -156,6 +156,7 @@ class InputFileGenerator(object):
         self.data = []
         self.current_row = 0
         self.anchored = False
+        self.anchor = None
 
     def set_template_file(self, filename):
         """Set the name of the template file to be used The template
@@ -224,7 +225,7 @@ class InputFileGenerator(object):
                 # the anchor is mid-line, then we still search the line, but
                 # only after the anchor.
                 if count == 0 and self.anchored:
-                    line = line.split(anchor)[-1]
+                    line = line.split(self.anchor)[-1]
 
                 if line.find(anchor) > -1:
 
@@ -232,6 +233,7 @@ class InputFileGenerator(object):
                     if instance == occurrence:
                         self.current_row += count
                         self.anchored = True
+                        self.anchor = anchor
                         return
 
                 count += 1
@@ -245,7 +247,8 @@ class InputFileGenerator(object):
                 # If we are marking a new anchor from an existing anchor, and
                 # the anchor is mid-line, then we still search the line, but
                 # only before the anchor.
-                if count == max_lines and self.anchored:
+                if count == max_lines and self.anchored and \
+                   anchor == self.anchor:
                     line = line.split(anchor)[0]
 
                 if line.find(anchor) > -1:
@@ -253,6 +256,7 @@ class InputFileGenerator(object):
                     if instance == occurrence:
                         self.current_row = count
                         self.anchored = True
+                        self.anchor = anchor
                         return
 
                 count -= 1
@@ -267,6 +271,7 @@ class InputFileGenerator(object):
 
         self.current_row = 0
         self.anchored = False
+        self.anchor = None
 
     def transfer_var(self, value, row, field):
         """Changes a single variable in the template relative to the
@@ -455,6 +460,7 @@ class FileParser(object):
 
         self.current_row = 0
         self.anchored = False
+        self.anchor = None
         self.set_delimiters(self.delimiter)
 
     def set_file(self, filename):
@@ -534,7 +540,7 @@ class FileParser(object):
                 # the anchor is mid-line, then we still search the line, but
                 # only after the anchor.
                 if count == 0 and self.anchored:
-                    line = line.split(anchor)[-1]
+                    line = line.split(self.anchor)[-1]
 
                 if anchor in line:
 
@@ -542,6 +548,7 @@ class FileParser(object):
                     if instance == occurrence:
                         self.current_row += count
                         self.anchored = True
+                        self.anchor = anchor
                         return
 
                 count += 1
@@ -555,7 +562,8 @@ class FileParser(object):
                 # If we are marking a new anchor from an existing anchor, and
                 # the anchor is mid-line, then we still search the line, but
                 # only before the anchor.
-                if count == max_lines and self.anchored:
+                if count == max_lines and self.anchored and \
+                   anchor == self.anchor:
                     line = line.split(anchor)[0]
 
                 if anchor in line:
@@ -563,6 +571,7 @@ class FileParser(object):
                     if instance == occurrence:
                         self.current_row = count
                         self.anchored = True
+                        self.anchor = anchor
                         return
 
                 count -= 1
@@ -577,6 +586,7 @@ class FileParser(object):
 
         self.current_row = 0
         self.anchored = False
+        self.anchor = None
 
     def transfer_line(self, row):
         """Returns a whole line, relative to current anchor.
-- 
2.43.0


From 40d8d9bc47dc585505a41c3d2552cb0d1606acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 103/150] fix: rows before the beginning of a wrapped file were
 those at its end

A negative row offset beyond the first line wrapped around to the last lines,
which were read or overwritten.
---
 openmdao/util/file_wrap.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 2508e63..8650e9e 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -49,6 +49,15 @@ def _totext(val):
         return str(val)
 
 
+def _get_row(current_row, row):
+    # Returns the index of a row that is given relative to the current one.
+    # (Negative indices would wrap around to the end of the file.)
+
+    if current_row + row < 0:
+        raise IndexError("Row %d is before the beginning of the file." % row)
+    return current_row + row
+
+
 class _SubHelper(object):
     """Replaces file text at the correct word location in a line. This
     class contains the Helper Function that is passed to re.sub, etc."""
@@ -290,7 +299,7 @@ class InputFileGenerator(object):
             Which word in line to replace, as denoted by delimiter(s)
         """
 
-        j = self.current_row + row
+        j = _get_row(self.current_row, row)
         line = self.data[j]
 
         sub = _SubHelper()
@@ -338,7 +347,7 @@ class InputFileGenerator(object):
         sub = _SubHelper()
         for row in range(row_start, row_end+1):
 
-            j = self.current_row + row
+            j = _get_row(self.current_row, row)
             line = self.data[j]
 
             if row == row_end:
@@ -398,7 +407,7 @@ class InputFileGenerator(object):
         i = 0
         for row in range(row_start, row_end+1):
 
-            j = self.current_row + row
+            j = _get_row(self.current_row, row)
             line = self.data[j]
 
             sub.set_array(value[i, :], field_start, field_end)
@@ -426,7 +435,7 @@ class InputFileGenerator(object):
         row : integer
             Row number to clear, relative to current anchor."""
 
-        self.data[self.current_row + row] = "\n"
+        self.data[_get_row(self.current_row, row)] = "\n"
 
     def generate(self):
         """Use the template file to generate the input file."""
@@ -601,7 +610,7 @@ class FileParser(object):
         -------
             string : line at the location requested"""
 
-        return self.data[self.current_row + row].rstrip()
+        return self.data[_get_row(self.current_row, row)].rstrip()
 
     def transfer_var(self, row, field, fieldend=None):
         """Grabs a single variable relative to the current anchor.
@@ -626,7 +635,7 @@ class FileParser(object):
             string : data from the requested location in the file
         """
 
-        j = self.current_row + row
+        j = _get_row(self.current_row, row)
         line = self.data[j]
 
         if self.delimiter == "columns":
@@ -705,7 +714,7 @@ class FileParser(object):
             raise RuntimeError("Could not find pattern %s in output file %s" % \
                                (key, self.filename))
 
-        j = row + rowoffset
+        j = _get_row(row, rowoffset)
         line = self.data[j]
 
         fields = self._parse_line().parseString(line.replace(key,"KeyField"))
@@ -742,7 +751,7 @@ class FileParser(object):
             string : data from the requested location in the file
         """
 
-        j1 = self.current_row + rowstart
+        j1 = _get_row(self.current_row, rowstart)
 
         if rowend is None:
             j2 = j1 + 1
@@ -821,7 +830,7 @@ class FileParser(object):
             msg = "rowend must be greater than rowstart"
             raise ValueError(msg)
 
-        j1 = self.current_row + rowstart
+        j1 = _get_row(self.current_row, rowstart)
         j2 = self.current_row + rowend + 1
         lines = list(self.data[j1:j2])
 
-- 
2.43.0


From 9e36be61b4287f1eb8cef64223a823e398c4afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 104/150] fix: namelists could not hold nan, inf, NumPy
 scalars, some arrays, or quotes

The text of a value depended on the place: floats were chosen by int(val),
which fails for nan and inf, and lost the last digit; NumPy scalars were
refused; arrays of other integer or float types, and NumPy booleans in lists,
were written as strings; quotes in strings ended the string.
---
 openmdao/util/namelist_util.py | 107 ++++++++-------------------------
 1 file changed, 24 insertions(+), 83 deletions(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index 96b7a13..196b9d4 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -10,46 +10,31 @@ from six import iteritems
 from six.moves import range
 
 from numpy import ndarray, array, append, vstack, zeros, \
-                 int32, int64, float32, float64
+                 bool_, integer, floating
 
 from pyparsing import CaselessLiteral, Combine, ZeroOrMore, Literal, \
                       Optional, QuotedString, Suppress, Word, alphanums, \
                       oneOf, nums, TokenConverter, Group
 
-from openmdao.util.file_wrap import ToFloat, ToInteger
+from openmdao.util.file_wrap import ToFloat, ToInteger, _totext
 
 #public symbols
 __all__ = ['Namelist']
 
 
-def _floatfmt(val):
-    """ Returns the output format for a floating point number.
-    The general format is used with 16 places of accuracy, except for when
-    the floating point value is an integer, in which case a decimal point
-    followed by a single zero is used."""
+def _valtext(val):
+    """ Returns the text that represents a single value. Floating point
+    numbers have the format of `InputFileGenerator`, and quotes in strings are
+    doubled."""
 
-    if int(val) == val:
-        return "%.1f"
+    if isinstance(val, (bool, bool_)):
+        return 'T' if val else 'F'
+    elif isinstance(val, (int, integer)):
+        return "%d" % val
+    elif isinstance(val, (float, floating)):
+        return _totext(float(val))
     else:
-        return "%.16g"
-
-def _intfmt(val):
-    """ Returns the output format for an integer """
-
-    return "%d"
-
-def _strfmt(val):
-    """ Returns the output format for a string """
-
-    return "'%s'"
-
-def _boolfmt(val):
-    """ Returns the output format for a boolean """
-
-    if val == True:
-        return 'T%.0s'
-    else:
-        return 'F%.0s'
+        return "'%s'" % str(val).replace("'", "''")
 
 
 def _process_card_info(card):
@@ -250,68 +235,24 @@ class Namelist(object):
                 if card.is_comment:
                     line = "  %s\n" % (card.value)
 
-                elif isinstance(card.value, bool):
-                    fstring = "  %s = " + _boolfmt(card.value) + "\n"
-                    line = fstring % (card_name, card.value)
-
-                elif isinstance(card.value, int):
-                    fstring = "  %s = " + _intfmt(card.value) + "\n"
-                    line = fstring % (card_name, card.value)
-
-                elif isinstance(card.value, float):
-                    fstring = "  %s = " + _floatfmt(card.value) + "\n"
-                    line =  fstring % (card_name, card.value)
-
-                elif isinstance(card.value, str):
-                    fstring = "  %s = " + _strfmt(card.value) + "\n"
-                    line =  fstring % (card_name, card.value)
+                elif isinstance(card.value, (bool, int, float, str, bool_,
+                                             integer, floating)):
+                    line = "  %s = %s\n" % (card_name, _valtext(card.value))
 
                 # Lists are mainly supported for the Enum Array
                 elif isinstance(card.value, list):
-                    line = "  %s = " % (card_name)
-                    sep = ""
-                    for val in card.value:
-
-                        # We can have integer, real, or string lists
-                        if isinstance(val, bool):
-                            fmt = _boolfmt
-                        elif isinstance(val, (int, int32, int64)):
-                            fmt = _intfmt
-                        elif isinstance(val, (float, float32, float64)):
-                            fmt = _floatfmt
-                        else:
-                            fmt = _strfmt
-
-                        fstring = sep + fmt(val)
-                        line += fstring % val
-                        sep = self.delimiter
-
-                    line += "\n"
+                    line = "  %s = %s\n" % (card_name, self.delimiter.join(
+                        [_valtext(val) for val in card.value]))
 
                 elif isinstance(card.value, (ndarray)):
 
-                    # We can have integer, real, or string arrays
-                    if card.value.dtype == bool:
-                        fmt = _boolfmt
-                    elif card.value.dtype in (int, int32, int64):
-                        fmt = _intfmt
-                    elif card.value.dtype in (float, float32, float64):
-                        fmt = _floatfmt
-                    else:
-                        fmt = _strfmt
-
                     # We don't need to output 0D arrays
-                    if len(card.value) == 0:
+                    if card.value.size == 0:
                         continue
 
                     elif len(card.value.shape) == 1:
-                        line = "  %s = " % (card_name)
-                        sep = ""
-                        for val in card.value:
-                            fstring = "%s" + fmt(val)
-                            line += fstring % (sep, val)
-                            sep = self.delimiter
-                        line += "\n"
+                        line = "  %s = %s\n" % (card_name, self.delimiter.join(
+                            [_valtext(val) for val in card.value]))
 
                     elif len(card.value.shape) == 2:
 
@@ -320,8 +261,7 @@ class Namelist(object):
                             line += card_name + "(1," + str(row+1) + ") ="
                             for col in range(0, card.value.shape[1]):
                                 val = card.value[row, col]
-                                fstring = " " + fmt(val) + "%s"
-                                line += fstring % (val, self.delimiter)
+                                line += " " + _valtext(val) + self.delimiter
                             line += "\n"
 
                     else:
@@ -376,7 +316,8 @@ class Namelist(object):
         nan = ToFloat(oneOf("NaN Inf -Inf"))
 
         numval = num_float | mixed_exp | num_int | nan
-        strval =  QuotedString(quoteChar='"') | QuotedString(quoteChar="'")
+        strval =  QuotedString(quoteChar='"', escQuote='""') | \
+                  QuotedString(quoteChar="'", escQuote="''")
         b_list = "T TRUE True true F FALSE False false .TRUE. .FALSE. .T. .F."
         boolval = ToBool(oneOf(b_list))
         fieldval = Word(alphanums)
-- 
2.43.0


From 40dd53c873153bc5f4ace3048ca180d97ef2b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 105/150] fix: numbers like -1e-07 in a namelist were read as
 -1

---
 openmdao/util/namelist_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index 196b9d4..f5ba4ec 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -310,7 +310,7 @@ class Namelist(object):
                             ))
 
         # special case for a float written like "3e5"
-        mixed_exp = ToFloat(Combine( digits + ee + Optional(sign) + digits ))
+        mixed_exp = ToFloat(Combine( Optional(sign) + digits + ee + Optional(sign) + digits ))
 
         # I don't suppose we need these, but just in case (plus it's easy)
         nan = ToFloat(oneOf("NaN Inf -Inf"))
-- 
2.43.0


From 9181c342792d9f07ea1cff2a62da900ae5ae7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 106/150] fix: names with underscores in a namelist could not
 be read

Cards failed to parse, and group names were cut off at the underscore.
---
 openmdao/util/namelist_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index f5ba4ec..94f4a62 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -320,7 +320,7 @@ class Namelist(object):
                   QuotedString(quoteChar="'", escQuote="''")
         b_list = "T TRUE True true F FALSE False false .TRUE. .FALSE. .T. .F."
         boolval = ToBool(oneOf(b_list))
-        fieldval = Word(alphanums)
+        fieldval = Word(alphanums + '_')
 
         # Tokens for parsing a line of data
         numstr_token = numval + ZeroOrMore(Suppress(',') + numval) \
@@ -347,7 +347,7 @@ class Namelist(object):
                           Literal("$END") | Literal("$end") | \
                           Literal("&END") | Literal("&end")
         group_name_token = (Literal("$") | Literal("&")) + \
-                           Word(alphanums).setResultsName("name") + \
+                           fieldval.setResultsName("name") + \
                            Optional(multi_card_token) + \
                            Optional(group_end_token)
 
-- 
2.43.0


From 44acfb9188fdbdccf498f8bd20ca8c408c27b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 107/150] fix: only the first value of a boolean or string
 array in a namelist was read

The remaining ones were dropped, as were those of numerical arrays that are
separated by blanks only, and further cards in a line without commas.
Two-dimensional arrays of booleans or strings could not be parsed at all, and
those of a single row lost their first dimension.
---
 openmdao/util/namelist_util.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index 94f4a62..6f05d60 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -60,8 +60,7 @@ def _process_card_info(card):
     # Alternate array specification
     elif card.dimension:
         dim = card.dimension
-        value = zeros(dim)
-        value.fill(card.value)
+        value = array([card.value]*dim)
 
     # Comma-delimited arrays
     elif len(card) > 2:
@@ -313,19 +312,24 @@ class Namelist(object):
         mixed_exp = ToFloat(Combine( Optional(sign) + digits + ee + Optional(sign) + digits ))
 
         # I don't suppose we need these, but just in case (plus it's easy)
-        nan = ToFloat(oneOf("NaN Inf -Inf"))
+        word_end = ~Word(alphanums + '_')
+        nan = ToFloat(Combine(oneOf("NaN Inf -Inf") + word_end))
 
         numval = num_float | mixed_exp | num_int | nan
         strval =  QuotedString(quoteChar='"', escQuote='""') | \
                   QuotedString(quoteChar="'", escQuote="''")
         b_list = "T TRUE True true F FALSE False false .TRUE. .FALSE. .T. .F."
-        boolval = ToBool(oneOf(b_list))
+        boolval = ToBool(Combine(oneOf(b_list) + word_end))
         fieldval = Word(alphanums + '_')
 
         # Tokens for parsing a line of data
-        numstr_token = numval + ZeroOrMore(Suppress(',') + numval) \
-                   | strval
-        data_token = numstr_token | boolval
+        # (commas between values are optional, and T or F may also be the name
+        # of the next variable)
+        comma = Optional(Suppress(','))
+        bools = boolval + ZeroOrMore(comma + boolval + ~oneOf("= ("))
+        numstr_token = numval + ZeroOrMore(comma + numval) \
+                   | strval + ZeroOrMore(comma + strval)
+        data_token = numstr_token | bools
         index_token = Suppress('(') + num_int + Suppress(')')
 
         card_token = Group(fieldval("name") +
@@ -334,13 +338,12 @@ class Namelist(object):
                            Optional(num_int("dimension") + Suppress('*')) +
                            data_token("value") +
                            Optional(Suppress('*') + num_int("dimension")))
-        multi_card_token = (card_token + ZeroOrMore(Suppress(',') + card_token))
-        array_continuation_token = numstr_token.setResultsName("value")
+        multi_card_token = (card_token + ZeroOrMore(comma + card_token))
+        array_continuation_token = data_token.setResultsName("value")
         array2D_token = fieldval("name") + Suppress("(") + \
                         Suppress(num_int) + Suppress(',') + \
                         num_int("index") + Suppress(')') + \
-                        Suppress('=') + numval + \
-                        ZeroOrMore(Suppress(',') + numval)
+                        Suppress('=') + data_token
 
         # Tokens for parsing the group head and tai
         group_end_token = Literal("/") | \
@@ -385,7 +388,7 @@ class Namelist(object):
 
                     name = card[0]
                     index = card[1]
-                    value = array(card[2:])
+                    value = array([card[2:]])
 
                     if index > 1:
                         old_value = self.cards[-1][-1].value
-- 
2.43.0


From b8f487a5b9ea1201d7001fabf9d549682db08a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 108/150] fix: scalars continued by several values on the next
 line of a namelist

---
 openmdao/util/namelist_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index 6f05d60..ce124f4 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -411,7 +411,8 @@ class Namelist(object):
                     if isinstance(self.cards[-1][-1].value, ndarray):
                         new_value = append(self.cards[-1][-1].value, element)
                     else:
-                        new_value = array([self.cards[-1][-1].value, element])
+                        new_value = append(array([self.cards[-1][-1].value]),
+                                           element)
 
                     self.cards[-1][-1].value = new_value
 
-- 
2.43.0


From f5d75d5c240676b69b1356d8b7660564b5c76570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:45 +0000
Subject: [PATCH 109/150] fix: comments in a namelist hid data, ended the group
 or crashed the parser

---
 openmdao/util/namelist_util.py | 97 ++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index ce124f4..602d53a 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -14,7 +14,8 @@ from numpy import ndarray, array, append, vstack, zeros, \
 
 from pyparsing import CaselessLiteral, Combine, ZeroOrMore, Literal, \
                       Optional, QuotedString, Suppress, Word, alphanums, \
-                      oneOf, nums, TokenConverter, Group
+                      oneOf, nums, TokenConverter, Group, StringEnd, \
+                      ParseException, ParseResults
 
 from openmdao.util.file_wrap import ToFloat, ToInteger, _totext
 
@@ -37,6 +38,33 @@ def _valtext(val):
         return "'%s'" % str(val).replace("'", "''")
 
 
+def _strip_comment(line):
+    """ Returns the line without the comment that starts with the first
+    exclamation mark outside of quotes."""
+
+    quote = None
+    for i, char in enumerate(line):
+        if quote:
+            if char == quote:
+                quote = None
+        elif char in "'\"":
+            quote = char
+        elif char == '!':
+            return line[:i].rstrip()
+
+    return line
+
+
+def _match(token, line):
+    """ Returns what PyParsing makes of the start of the line, or None if
+    the line doesn't start with the token."""
+
+    try:
+        return token.parseString(line)
+    except ParseException:
+        return None
+
+
 def _process_card_info(card):
     """ Function to extract info from a card as returned from PyParsing a
     namelist file. """
@@ -339,23 +367,23 @@ class Namelist(object):
                            data_token("value") +
                            Optional(Suppress('*') + num_int("dimension")))
         multi_card_token = (card_token + ZeroOrMore(comma + card_token))
-        array_continuation_token = data_token.setResultsName("value")
         array2D_token = fieldval("name") + Suppress("(") + \
                         Suppress(num_int) + Suppress(',') + \
                         num_int("index") + Suppress(')') + \
                         Suppress('=') + data_token
 
         # Tokens for parsing the group head and tai
-        group_end_token = Literal("/") | \
-                          Literal("$END") | Literal("$end") | \
-                          Literal("&END") | Literal("&end")
+        group_ends = ("/", "$END", "$end", "&END", "&end")
+        group_end_token = oneOf(list(group_ends))
         group_name_token = (Literal("$") | Literal("&")) + \
                            fieldval.setResultsName("name") + \
                            Optional(multi_card_token) + \
                            Optional(group_end_token)
 
-        # Comment Token
-        comment_token = Literal("!")
+        # Lines that continue an array hold nothing but values.
+        array_continuation_token = Group(data_token)("value") + comma + \
+                                   Optional(Suppress(group_end_token)) + \
+                                   StringEnd()
 
         # Loop through each line and parse.
 
@@ -371,24 +399,26 @@ class Namelist(object):
             if current_group:
 
                 # Skip comment cards
-                if comment_token.searchString(line):
-                    pass
+                line = _strip_comment(line)
+                if not line:
+                    continue
+
+                cards = _match(multi_card_token, line)
+                card2D = _match(array2D_token, line)
+                continuation = _match(array_continuation_token, line)
 
                 # Process orindary cards
-                elif multi_card_token.searchString(line):
-                    cards = multi_card_token.parseString(line)
+                if cards:
 
                     for card in cards:
                         name, value = _process_card_info(card)
                         self.cards[-1].append(Card(name, value))
 
                 # Catch 2D arrays like -> X(1,1) = 3,4,5
-                elif array2D_token.searchString(line):
-                    card = array2D_token.parseString(line)
-
-                    name = card[0]
-                    index = card[1]
-                    value = array([card[2:]])
+                elif card2D:
+                    name = card2D[0]
+                    index = card2D[1]
+                    value = array([card2D[2:]])
 
                     if index > 1:
                         old_value = self.cards[-1][-1].value
@@ -400,13 +430,8 @@ class Namelist(object):
                 # Arrays can be continued on subsequent lines
                 # The value of the most recent card must be turned into an
                 # array and appended
-                elif array_continuation_token.searchString(line):
-                    card = array_continuation_token.parseString(line)
-
-                    if len(card) > 1:
-                        element = array(card[0:])
-                    else:
-                        element = card.value
+                elif continuation and self.cards[-1]:
+                    element = array(continuation.value[0:])
 
                     if isinstance(self.cards[-1][-1].value, ndarray):
                         new_value = append(self.cards[-1][-1].value, element)
@@ -417,21 +442,21 @@ class Namelist(object):
                     self.cards[-1][-1].value = new_value
 
                 # Lastly, look for the group footer
-                elif group_end_token.searchString(line):
+                elif _match(group_end_token, line):
                     current_group = None
 
                 # Everything else must be a pure comment
 
-                # Group ending '/' can also conclude a data line.
-                if line[-1] == '/':
+                # Group endings can also conclude a data line.
+                if line.endswith(group_ends):
                     current_group = None
 
             else:
-                group_name = group_name_token.searchString(line)
+                group_name = _match(group_name_token, _strip_comment(line))
 
                 # Group Header
                 if group_name:
-                    group_name = group_name_token.parseString(line)
+                    line = _strip_comment(line)
                     current_group = group_name.name
                     self.add_group(current_group)
 
@@ -441,13 +466,14 @@ class Namelist(object):
                         cards = group_name[2:]
 
                         for card in cards:
-                            # Sometimes an end card is on the same line.
-                            if group_end_token.searchString(card):
-                                current_group = None
-                            else:
+                            if isinstance(card, ParseResults):
                                 name, value = _process_card_info(card)
                                 self.cards[-1].append(Card(name, value))
 
+                    # Sometimes an end card is on the same line.
+                    if line.endswith(group_ends):
+                        current_group = None
+
                 # If there is an ungrouped card at the start, take it as the
                 # title for the analysis
                 elif len(self.cards) == 0 and self.title == '':
@@ -546,6 +572,9 @@ class Namelist(object):
             # Process the cards in this group
             for card in self.cards[i]:
 
+                if card.is_comment:
+                    continue
+
                 name = card.name
                 value = card.value
                 found = False
@@ -614,7 +643,7 @@ class Namelist(object):
         group_id = self.groups.index(group)
 
         for card in self.cards[group_id]:
-            if card.name == name:
+            if card.name == name and not card.is_comment:
                 return card.value
 
         msg = "Variable %s" % name + \
-- 
2.43.0


From 6d037fa6194a4948191dc57a962b201c37ea2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 110/150] fix: unconnected inputs with an initial value of nan
 were said to differ from themselves

---
 openmdao/core/problem.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 9fcefc1..66fd4ec 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -329,17 +329,20 @@ class Problem(object):
 
                     diff_units.append((connected_inputs[i], u))
 
-            if isinstance(vals[tgt_idx], np.ndarray):
+            # nan counts as the same value as nan
+            tval = vals[tgt_idx]
+            if isinstance(tval, np.ndarray):
                 diff_vals = [(connected_inputs[i],v) for i,v in
                                enumerate(vals) if not
                                    (isinstance(v, np.ndarray) and
-                                      v.shape==vals[tgt_idx].shape and
-                                      (v==vals[tgt_idx]).all())]
+                                      v.shape==tval.shape and
+                                      ((v==tval) |
+                                       ((v!=v) & (tval!=tval))).all())]
             else:
-                vtype = type(vals[tgt_idx])
+                vtype = type(tval)
                 diff_vals = [(connected_inputs[i],v) for i,v in
                                  enumerate(vals) if vtype!=type(v) or
-                                                      v!=vals[tgt_idx]]
+                                   (v!=tval and (v==v or tval==tval))]
 
             # if tgt has no unknown source, units MUST match, unless
             # one of them is None. At this point, connections contains
-- 
2.43.0


From 9ed92b4ed837b7a25e86693d815e6f81190912da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:39 +0000
Subject: [PATCH 111/150] fix: computing residuals and finite differences
 changed values in the last digits

---
 openmdao/core/component.py |  5 ++++-
 openmdao/core/system.py    | 13 ++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 9c67408..db4918b 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -582,13 +582,16 @@ class Component(System):
         # Since explicit comps don't put anything in resids, we can use it to
         # cache the old values of the unknowns.
         resids.vec[:] = -unknowns.vec
+        old_values = unknowns.vec.copy()
 
         self._sys_solve_nonlinear(params, unknowns, resids)
 
         # Unknowns are restored to the old values too. apply_nonlinear does
-        # not change the output vector.
+        # not change the output vector. (The subtraction reports nonfinite
+        # values in debug mode, but would change values in the last digits.)
         resids.vec[:] += unknowns.vec
         unknowns.vec[:] -= resids.vec
+        unknowns.vec[:] = old_values
 
     def _sys_solve_nonlinear(self, params, unknowns, resids):
         """
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 0fe895e..9cc3eae 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -687,6 +687,9 @@ class System(object):
                         run_model(params, unknowns, resids)
                         continue
 
+                    # The input gets back exactly this value afterwards.
+                    base = target_input[idx]
+
                     # Relative or Absolute step size
                     if fdtype == 'relative':
                         step = target_input[idx] * fdstep
@@ -715,7 +718,7 @@ class System(object):
 
                         run_model(params, unknowns, resids)
 
-                        target_input[idx] -= step
+                        target_input[idx] = base
 
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
@@ -728,7 +731,7 @@ class System(object):
 
                         run_model(params, unknowns, resids)
 
-                        target_input[idx] += step
+                        target_input[idx] = base
 
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
@@ -742,10 +745,10 @@ class System(object):
                         run_model(params, unknowns, resids)
                         cache2 = resultvec.vec.copy()
 
-                        target_input[idx] -= step
                         resultvec.vec[:] = cache1
 
-                        target_input[idx] -= step
+                        # (resultvec may be the vector that holds the input)
+                        target_input[idx] = base - step
 
                         run_model(params, unknowns, resids)
 
@@ -754,7 +757,7 @@ class System(object):
                         resultvec.vec[:] *= (-0.5/step)
                         # Note: vector division is slower than vector mult.
 
-                        target_input[idx] += step
+                        target_input[idx] = base
 
                     for u_name in fd_unknowns:
                         if qoi_indices and u_name in qoi_indices:
-- 
2.43.0


From 92a082d3bd4d18e8c3bdc2d250e78cb6cc142958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:45 +0000
Subject: [PATCH 112/150] fix: partial derivatives of components in groups that
 use fd were checked without linearizing them

---
 openmdao/core/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 66fd4ec..17184bd 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1915,8 +1915,10 @@ class Problem(object):
                 out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
 
-        # Linearize the model
-        root._sys_linearize(root.params, root.unknowns, root.resids)
+        # Linearize all components, including those in groups that compute their
+        # own derivatives by finite difference.
+        for comp in root.components(recurse=True, local=True):
+            comp._sys_linearize(comp.params, comp.unknowns, comp.resids)
 
         if out_stream is not None:
             out_stream.write('Partial Derivatives Check\n\n')
-- 
2.43.0


From f66e845360047131bae8fefa8268495c5b2a22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:36 +0000
Subject: [PATCH 113/150] fix: a SubProblem computed derivatives at the point
 of its last run, even after a finite difference

---
 openmdao/components/subproblem.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 5e71c10..f04da23 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -307,10 +307,18 @@ class SubProblem(Component):
         try:
             prob = self._problem
 
-            # set params into the subproblem
+            # set params into the subproblem, which has to run again if they
+            # are not those of its last run (e.g. after a finite difference)
+            changed = False
             for name in self._prob_params:
+                if name not in prob.driver._desvars and \
+                   not numpy.array_equal(prob[name], params[name]):
+                    changed = True
                 prob[name] = params[name]
 
+            if changed:
+                prob.run()
+
             # have to convert jacobian returned from calc_gradient from a
             # nested dict to a flat dict with tuple keys.
             # Pass by object variables have no derivatives.
-- 
2.43.0


From b2ca793edd55f4837319e406fc72dd71785deca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 114/150] fix: an error during a finite difference or complex
 step spoiled later runs and derivatives

---
 openmdao/core/component.py |  8 +++++++-
 openmdao/core/system.py    | 23 +++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index db4918b..9a4e149 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -581,10 +581,16 @@ class Component(System):
 
         # Since explicit comps don't put anything in resids, we can use it to
         # cache the old values of the unknowns.
+        old_resids = resids.vec.copy()
         resids.vec[:] = -unknowns.vec
         old_values = unknowns.vec.copy()
 
-        self._sys_solve_nonlinear(params, unknowns, resids)
+        try:
+            self._sys_solve_nonlinear(params, unknowns, resids)
+        except:
+            # The cached values are no residuals.
+            resids.vec[:] = old_resids
+            raise
 
         # Unknowns are restored to the old values too. apply_nonlinear does
         # not change the output vector. (The subtraction reports nonfinite
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 9cc3eae..67b6b20 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -586,11 +586,11 @@ class System(object):
 
         # Prepare for calculating partial derivatives or total derivatives
         if total_derivs:
-            run_model = self._sys_solve_nonlinear
+            evaluate = self._sys_solve_nonlinear
             resultvec = unknowns
             states = ()
         else:
-            run_model = self._sys_apply_nonlinear
+            evaluate = self._sys_apply_nonlinear
             resultvec = resids
             states = self.states
 
@@ -600,6 +600,24 @@ class System(object):
 
         cache1 = resultvec.vec.copy()
 
+        # If the model raises an exception (e.g. an AnalysisError that a driver
+        # handles), the perturbed values must not stay behind.
+        saved = [(vec, vec.vec.copy()) for vec in (params, unknowns, resids)]
+
+        def run_model(params, unknowns, resids):
+            try:
+                evaluate(params, unknowns, resids)
+            except:
+                for vec, values in saved:
+                    vec.vec[:] = values
+                    if vec.alloc_complex:
+                        vec.imag_vec[:] = 0.0
+                target_input[:] = input_values
+                if cs == 'cs':
+                    inputs._dat[param_key].imag_val[:] = 0.0
+                    unknowns._probdata.in_complex_step = False
+                raise
+
         gather_jac = False
 
         fd_count = -1
@@ -637,6 +655,7 @@ class System(object):
                 param_src = None
 
             target_input = inputs._dat[param_key].val
+            input_values = np.copy(target_input)
 
             mydict = {}
             # since p_name is a promoted name, it could refer to multiple
-- 
2.43.0


From 3c06468efc125c527aa9148838c414df695ff1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 115/150] fix: processes that ignore SIGTERM, or were started
 by one, survived a timeout

---
 openmdao/util/shell_proc.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0020943..3ea14fc 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -116,6 +116,25 @@ class ShellProc(subprocess.Popen):
         if timeout is not None:
             return self.wait(timeout=timeout)
 
+    def _stop(self, grace=1.):
+        """
+        Terminate the child process and everything that it started, by force
+        if it takes longer than `grace` seconds.
+        """
+        self.terminate()
+        limit = time.time() + grace
+        while self.poll() is None and time.time() < limit:
+            time.sleep(0.02)
+
+        if sys.platform != 'win32':
+            try:
+                os.killpg(self.pid, signal.SIGKILL)
+            except OSError:
+                pass # nothing left
+        elif self.poll() is None:
+            self.kill()
+        subprocess.Popen.wait(self)
+
     def wait(self, poll_delay=0., timeout=0.):
         """
         Polls for command completion or timeout.
@@ -142,7 +161,7 @@ class ShellProc(subprocess.Popen):
             while return_code is None:
                 npolls -= 1
                 if (timeout > 0) and (npolls < 0):
-                    self.terminate()
+                    self._stop()
                     break
                 time.sleep(poll_delay)
                 return_code = self.poll()
-- 
2.43.0


From 7aa3f83eef5077ab220e1a12c401ce5483954e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 116/150] fix: an exception while waiting for an external code
 left its process running

---
 openmdao/util/shell_proc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 3ea14fc..8b631a8 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -165,6 +165,11 @@ class ShellProc(subprocess.Popen):
                     break
                 time.sleep(poll_delay)
                 return_code = self.poll()
+        except BaseException:
+            # Interrupted, nobody is waiting for the process any more.
+            if self.poll() is None:
+                self._stop()
+            raise
         finally:
             self.close_files()
 
-- 
2.43.0


From e6fa05fcfb16c6b49c59cbeedcaa3d226cee942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 117/150] fix: check_call did not tell that the command timed
 out

---
 openmdao/util/shell_proc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 8b631a8..b9ca1e9 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -267,5 +267,7 @@ def check_call(args, stdin=None, stdout=None, stderr=None, env=None,
     """
     process = ShellProc(args, stdin, stdout, stderr, env)
     return_code, error_msg = process.wait(poll_delay, timeout)
+    if return_code is None:
+        raise CalledProcessError(process.returncode, args, error_msg)
     if return_code:
         raise CalledProcessError(return_code, args, error_msg)
-- 
2.43.0


From aa368524c5957ed07bcb03f388e864a3a0ce62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 118/150] fix: a timeout shorter than the polling delay was not
 noticed if the command ended before the poll

---
 openmdao/util/shell_proc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index b9ca1e9..0779bcd 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -154,13 +154,14 @@ class ShellProc(subprocess.Popen):
             if poll_delay <= 0:
                 poll_delay = max(0.1, timeout/100.)
                 poll_delay = min(10., poll_delay)
-            npolls = int(timeout / poll_delay) + 1
+            if timeout > 0:
+                poll_delay = min(poll_delay, timeout)
+            limit = time.time() + timeout
 
             time.sleep(poll_delay)
             return_code = self.poll()
             while return_code is None:
-                npolls -= 1
-                if (timeout > 0) and (npolls < 0):
+                if timeout > 0 and time.time() >= limit:
                     self._stop()
                     break
                 time.sleep(poll_delay)
-- 
2.43.0


From d4b656e85f2e6096697fb983274581ccc6c7c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 119/150] fix: commands ended by SIGHUP or SIGINT were reported
 with other names

---
 openmdao/util/shell_proc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0779bcd..402cd89 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -199,7 +199,7 @@ class ShellProc(subprocess.Popen):
                 sig = -return_code
                 if sig < signal.NSIG:
                     for item in signal.__dict__.keys():
-                        if item.startswith('SIG'):
+                        if item.startswith('SIG') and not item.startswith('SIG_'):
                             if getattr(signal, item) == sig:
                                 error_msg = ': %s' % item
                                 break
-- 
2.43.0


From 5d2d7e18891805411ab3db769669a82a85e067b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:13 +0000
Subject: [PATCH 120/150] fix: residuals of components were evaluated outside
 of their directory

---
 openmdao/core/group.py          |  9 +++++----
 openmdao/core/parallel_group.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index a293721..2ac7305 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -825,10 +825,11 @@ class Group(System):
 
             self._transfer_data(sub.name)
             if sub.is_active():
-                if isinstance(sub, Component):
-                    sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-                else:
-                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
+                with sub._dircontext:
+                    if isinstance(sub, Component):
+                        sub._sys_apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                    else:
+                        sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids, metadata)
 
     def linearize(self, params, unknowns, resids):
         """
diff --git a/openmdao/core/parallel_group.py b/openmdao/core/parallel_group.py
index 7ba54f2..0b55a10 100644
--- a/openmdao/core/parallel_group.py
+++ b/openmdao/core/parallel_group.py
@@ -70,11 +70,12 @@ class ParallelGroup(Group):
         self._transfer_data()
 
         for sub in self._local_subsystems:
-            if isinstance(sub, Component):
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
-            else:
-                sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
-                                    metadata)
+            with sub._dircontext:
+                if isinstance(sub, Component):
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids)
+                else:
+                    sub.apply_nonlinear(sub.params, sub.unknowns, sub.resids,
+                                        metadata)
 
     def children_solve_nonlinear(self, metadata):
         """Loops over our children systems and asks them to solve."""
-- 
2.43.0


From 46dff8e5de264d9bdcdb900bd3e4b24d786f08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:13 +0000
Subject: [PATCH 121/150] fix: entering the directory of a system twice changed
 the working directory for good

---
 openmdao/util/file_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index 9b23e63..b324654 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -193,11 +193,13 @@ class DirContext(object):
 
     def __init__(self, dpath):
         self.dpath = dpath
+        self._starts = [] # the same context may be entered again
 
     def __enter__(self):
-        self.start = os.getcwd()
+        start = os.getcwd()
         os.chdir(self.dpath)
+        self._starts.append(start)
         return self.dpath
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        os.chdir(self.start)
+        os.chdir(self._starts.pop())
-- 
2.43.0


From 7590fdbb93cf7ab91c133cf715932d3d233a8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 122/150] fix: partial derivatives of components were checked
 outside of their directory

---
 openmdao/core/problem.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 17184bd..e1f4b85 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -32,6 +32,7 @@ from openmdao.solvers.ln_direct import DirectSolver
 from openmdao.solvers.ln_gauss_seidel import LinearGaussSeidel
 
 from openmdao.units.units import get_conversion_tuple
+from openmdao.util.file_util import DirContext
 from openmdao.util.string_util import get_common_ancestor, nearest_child, name_relative_to
 from openmdao.util.graph import plain_bfs, OrderedDigraph
 from openmdao.util.options import OptionsDictionary
@@ -1918,7 +1919,8 @@ class Problem(object):
         # Linearize all components, including those in groups that compute their
         # own derivatives by finite difference.
         for comp in root.components(recurse=True, local=True):
-            comp._sys_linearize(comp.params, comp.unknowns, comp.resids)
+            with self._directory_of(comp):
+                comp._sys_linearize(comp.params, comp.unknowns, comp.resids)
 
         if out_stream is not None:
             out_stream.write('Partial Derivatives Check\n\n')
@@ -2081,8 +2083,9 @@ class Problem(object):
                         dresids._dat[u_name].val[idx] = 1.0
                         dresids._scale_derivatives()
                         try:
-                            comp.apply_linear(params, unknowns, dparams,
-                                              dunknowns, dresids, 'rev')
+                            with self._directory_of(comp):
+                                comp.apply_linear(params, unknowns, dparams,
+                                                  dunknowns, dresids, 'rev')
                         finally:
                             dparams._apply_unit_derivatives()
                             dunknowns._scale_derivatives()
@@ -2108,8 +2111,9 @@ class Problem(object):
                         dinputs._dat[p_name].val[idx] = 1.0
                         dparams._apply_unit_derivatives()
                         dunknowns._scale_derivatives()
-                        comp.apply_linear(params, unknowns, dparams,
-                                          dunknowns, dresids, 'fwd')
+                        with self._directory_of(comp):
+                            comp.apply_linear(params, unknowns, dparams,
+                                              dunknowns, dresids, 'fwd')
                         dresids._scale_derivatives()
 
                         for u_name, u_val in dresids.vec_val_iter():
@@ -2126,8 +2130,9 @@ class Problem(object):
             else:
                 fd_func = comp.fd_jacobian
 
-            jac_fd = fd_func(params, unknowns, resids, use_check=True,
-                             option_overrides=global_options)
+            with self._directory_of(comp):
+                jac_fd = fd_func(params, unknowns, resids, use_check=True,
+                                 option_overrides=global_options)
 
             # Extra Finite Difference if requested. We use the settings in
             # the component for these.
@@ -2142,7 +2147,8 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids)
+                with self._directory_of(comp):
+                    jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
@@ -2154,6 +2160,22 @@ class Problem(object):
 
         return data
 
+    def _directory_of(self, system):
+        """ Returns a context for the directory that `system` runs in, which is
+        that of the nearest system above that has one of its own."""
+        directory = os.curdir
+        name = system.pathname
+        while name:
+            sub = self.root.find_subsystem(name)
+            if sub._get_dir():
+                directory = sub._sysdata.absdir
+                break
+            name = name.rpartition('.')[0]
+        else:
+            if self.root._get_dir():
+                directory = self.root._sysdata.absdir
+        return DirContext(directory)
+
     def check_total_derivatives(self, out_stream=sys.stdout, abs_err_tol=1.0E-6,
                                 rel_err_tol=1.0E-6):
         """ Checks total derivatives for problem defined at the top.
-- 
2.43.0


From b5f985719cb8ae433478ff1be02e001ba7cd5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 123/150] fix: check_setup of components looked for files
 outside of their directory

---
 openmdao/core/problem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index e1f4b85..172dd34 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1126,7 +1126,12 @@ class Problem(object):
         # loop over subsystems and let them add any specific checks to the stream
         for s in self.root.subsystems(recurse=True, local=True, include_self=True):
             stream = cStringIO()
-            s.check_setup(out_stream=stream)
+            context = self._directory_of(s)
+            if os.path.isdir(context.dpath):
+                with context:
+                    s.check_setup(out_stream=stream)
+            else: # not created yet
+                s.check_setup(out_stream=stream)
             content = stream.getvalue()
             if content:
                 print("%s:\n%s\n" % (s.pathname, content), file=out_stream)
-- 
2.43.0


From b7e7ae2cd6c8625fe9f1211028b0f749e856ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:07 +0000
Subject: [PATCH 124/150] fix: connecting empty arrays failed at setup

---
 openmdao/core/data_transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/data_transfer.py b/openmdao/core/data_transfer.py
index df6f930..b23456f 100644
--- a/openmdao/core/data_transfer.py
+++ b/openmdao/core/data_transfer.py
@@ -57,7 +57,8 @@ class DataTransfer(object):
             keyfunc = lambda l: l[1][0]
 
         scatters = []
-        for isrcs, itgts in sorted(zip(src_idxs, tgt_idxs), key=keyfunc):
+        pairs = [(s, t) for s, t in zip(src_idxs, tgt_idxs) if len(s) > 0]
+        for isrcs, itgts in sorted(pairs, key=keyfunc):
             srcs = to_slice(isrcs)
             tgts = to_slice(itgts)
 
-- 
2.43.0


From 26f53d18435305642fc4f00efb4dc03add8c3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:07 +0000
Subject: [PATCH 125/150] fix: the PETSc implementation sent objects to
 processes that do not exist when run serially

---
 openmdao/core/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 2ac7305..f5257d2 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1722,8 +1722,8 @@ class Group(System):
                     if v not in ranks:
                         ranks[v] = rank
         else:
-            self._sysdata.all_locals = [n for n in chain(self.unknowns._dat,
-                                                         self.params._dat)]
+            self._sysdata.all_locals = [set(chain(self.unknowns._dat,
+                                                  self.params._dat))]
             ranks = { n:0 for n in chain(self.unknowns._dat, self.params._dat) }
 
 
-- 
2.43.0


From 93683a74c7e3bcfac841d203a463b5ada60cd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:10 +0000
Subject: [PATCH 126/150] fix: a FileRef connected to the same file under
 another name emptied the file

---
 openmdao/core/fileref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/fileref.py b/openmdao/core/fileref.py
index ae6726f..2ab58b1 100644
--- a/openmdao/core/fileref.py
+++ b/openmdao/core/fileref.py
@@ -75,7 +75,7 @@ class FileRef(object):
         same file.
         """
         # TODO: check here if we're on the same host
-        return self._abspath() == fref._abspath()
+        return os.path.realpath(self._abspath()) == os.path.realpath(fref._abspath())
 
     def _assign_to(self, src_fref):
         """Called by the framework during data passing when a target FileRef
-- 
2.43.0


From 1c5d671d0951726d29564577bb4b014614f56d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:10 +0000
Subject: [PATCH 127/150] fix: line ends were changed when text files were
 passed between components

---
 openmdao/core/fileref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/fileref.py b/openmdao/core/fileref.py
index 2ab58b1..d700929 100644
--- a/openmdao/core/fileref.py
+++ b/openmdao/core/fileref.py
@@ -89,5 +89,5 @@ class FileRef(object):
         if self._same_file(src_fref):
             return
 
-        with src_fref.open("r") as src, self.open("w") as dst:
+        with src_fref.open("rb") as src, self.open("wb") as dst:
             shutil.copyfileobj(src, dst)
-- 
2.43.0


From 37db8e5683993da408bb7dbd2f335b20eaee0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:10 +0000
Subject: [PATCH 128/150] fix: find_up did not search above a relative path

---
 openmdao/util/file_util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/util/file_util.py b/openmdao/util/file_util.py
index b324654..950ab62 100644
--- a/openmdao/util/file_util.py
+++ b/openmdao/util/file_util.py
@@ -150,6 +150,7 @@ def find_up(name, path=None):
         path = os.getcwd()
     if not exists(path):
         return None
+    path = abspath(path)
     while path:
         if exists(join(path, name)):
             return abspath(join(path, name))
-- 
2.43.0


From ade45af9c5e485fd3f6b1a1913a9294ece9f3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:22 +0000
Subject: [PATCH 129/150] fix: connecting a FileRef to another kind of input
 failed with an AttributeError

---
 openmdao/core/_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 1aa5d9e..f29fe93 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -77,7 +77,7 @@ def _check_types_match(src, tgt, to_prom_name):
     sval = src['val']
     tval = tgt['val']
 
-    if isinstance(sval, FileRef) or isinstance(tval, FileRef):
+    if isinstance(tval, FileRef):
         tval.validate(sval)
         return
 
-- 
2.43.0


From 26d38e0be8ebf20c0fdaec8e91055c4dfb3634c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:45 +0000
Subject: [PATCH 130/150] fix: dump(dvecs=True) shows the derivative vectors

---
 openmdao/core/component.py | 9 ++++-----
 openmdao/core/group.py     | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 9a4e149..232c06c 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -757,12 +757,11 @@ class Component(System):
         """
         klass = self.__class__.__name__
         if dvecs:
-            ulabel, plabel, uvecname, pvecname = 'du', 'dp', 'dunknowns', 'dparams'
+            ulabel, plabel = 'du', 'dp'
+            uvec, pvec = self.dumat[None], self.dpmat[None]
         else:
-            ulabel, plabel, uvecname, pvecname = 'u', 'p', 'unknowns', 'params'
-
-        uvec = getattr(self, uvecname)
-        pvec = getattr(self, pvecname)
+            ulabel, plabel = 'u', 'p'
+            uvec, pvec = self.unknowns, self.params
 
         template = "%s %s '%s'"
         out_stream.write(template % (" "*nest, klass, self.name))
diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index f5257d2..459d002 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1294,12 +1294,11 @@ class Group(System):
         """
         klass = self.__class__.__name__
         if dvecs:
-            ulabel, plabel, uvecname, pvecname = 'du', 'dp', 'dunknowns', 'dparams'
+            ulabel, plabel = 'du', 'dp'
+            uvec, pvec = self.dumat[None], self.dpmat[None]
         else:
-            ulabel, plabel, uvecname, pvecname = 'u', 'p', 'unknowns', 'params'
-
-        uvec = getattr(self, uvecname)
-        pvec = getattr(self, pvecname)
+            ulabel, plabel = 'u', 'p'
+            uvec, pvec = self.unknowns, self.params
 
         template = "%s %s '%s'"
         out_stream.write(template % (" "*nest, klass, self.name))
-- 
2.43.0


From 9f71b4a55c4739a9a43850cffae855c4d4b0e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:45 +0000
Subject: [PATCH 131/150] fix: list_connections(var=...) finds variables by
 every name they have

---
 openmdao/core/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 67b6b20..078d95e 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -1380,9 +1380,10 @@ class System(object):
             else:
                 # loop over all systems from here down and find all matching names
                 for s in self.subsystems(recurse=True, include_self=True):
-                    for n,acc in chain(iteritems(s.unknowns._dat), iteritems(s.params._dat)):
-                        if fnmatch(n, name):
-                            absnames.add(acc.meta['pathname'])
+                    for absname, prom in iteritems(s._sysdata.to_prom_name):
+                        if (fnmatch(prom, name) or
+                                fnmatch(name_relative_to(s.pathname, absname), name)):
+                            absnames.add(absname)
 
             if not absnames:
                 raise KeyError("Can't find variable '%s'" % name)
-- 
2.43.0


From dbc392f6e79c4002c72f0263ae7721363f779247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:45 +0000
Subject: [PATCH 132/150] fix: list_params writes the names of the inputs
 without losing characters

---
 openmdao/core/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 078d95e..9eccd95 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -1579,7 +1579,7 @@ class System(object):
                 param = param[len(name):]
 
             if prom_param != param:
-                print("%s (%s))" % (param, prom_param), file=stream)
+                print("%s (%s)" % (param, prom_param), file=stream)
             else:
                 print(param, file=stream)
 
@@ -1595,7 +1595,7 @@ class System(object):
             print("--------------------------------------------------", file=stream)
 
         for param in p_outscope:
-            print("%s: connected to '%s'" % (param.lstrip(name), conns[param][0]),
+            print("%s: connected to '%s'" % (param[len(name):], conns[param][0]),
                   file=stream)
 
         print('', file=stream)
-- 
2.43.0


From d4b9b5c04c98b6b39152c1703dee72ea7779a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:33 +0000
Subject: [PATCH 133/150] fix: list_connections(var=...) lists a connection
 once when both of its ends match

---
 openmdao/core/system.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 9eccd95..e1311c4 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -1390,13 +1390,12 @@ class System(object):
 
             by_src = {}
             for tgt, (src, idxs) in iteritems(self._probdata.connections):
-                for absname in absnames:
-                    if tgt == absname or src == absname:
-                        by_src.setdefault(src, []).append(_param_str(pdict,
-                                                                     udict,
-                                                                     to_prom_name,
-                                                                     tgt, src,
-                                                                     ''))
+                if tgt in absnames or src in absnames:
+                    by_src.setdefault(src, []).append(_param_str(pdict,
+                                                                 udict,
+                                                                 to_prom_name,
+                                                                 tgt, src,
+                                                                 ''))
             _write(by_src, None)
 
         def _list_conns(self, relname):
-- 
2.43.0


From 9014926e02f032de4bdd02db49735245a020845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:33 +0000
Subject: [PATCH 134/150] fix: dump(verbose=True) failed when a source has
 several targets

---
 openmdao/core/group.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 459d002..ee0f803 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1360,11 +1360,8 @@ class Group(System):
                             ps = pvec._dat[p].slice
                             if ps is None:
                                 ps = (-1, -1)
-                            pslice.append(['%d:%d' % ps])
-                        if len(pslice) > 1:
-                            pslice = ','.join(pslice)
-                        else:
-                            pslice = pslice[0]
+                            pslice.append('%d:%d' % ps)
+                        pslice = ','.join(pslice)
 
                     pslice = '{}[{}]'.format(plabel, pslice)
 
-- 
2.43.0


From bbba00254e3710a3be918b7db025a446f9f0e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 135/150] fix: reading an input by its promoted name returned
 another input with that absolute name

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 172dd34..aa5a78f 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -58,7 +58,8 @@ def _get_root_var(root, name):
     """
     if name in root.unknowns:
         return root.unknowns[name]
-    elif name in root.params:
+    elif (name in root.params and
+          name in root._sysdata.to_abs_pnames.get(name, (name,))):
         return root.params[name]
     elif name in root._sysdata.to_abs_pnames:
         p = root._sysdata.to_abs_pnames[name][0]
-- 
2.43.0


From 17032588f37cf8613a7c63ecd4cd935c52c88ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:53 +0000
Subject: [PATCH 136/150] fix: an assembled jacobian uses the semi-totals of
 groups that finite difference themselves

---
 openmdao/core/group.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index ee0f803..ec0a76b 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1053,7 +1053,7 @@ class Group(System):
             conn = self.connections
             sys_prom_name = self._sysdata.to_prom_name
 
-            for sub in self.components(recurse=True):
+            for sub in self._linearized_subsystems():
 
                 jac = sub._jacobian_cache
 
@@ -1068,9 +1068,15 @@ class Group(System):
                 sub_name = sub.pathname
                 user_jac = sub.deriv_options['type'] == 'user'
 
+                # The semi-totals of a group have no states.
+                if not user_jac and sub._semi_total_jac:
+                    states = ()
+                else:
+                    states = sub.states
+
                 # There is no identity term for states.
-                for state in sub.states:
-                    start, end = u_vec._dat[sys_prom_name['.'.join((sub_name, state))]].slice
+                for state in states:
+                    start, end = u_vec._dat[sys_prom_name[sub_u.metadata(state)['pathname']]].slice
                     partials[start:end] = 0.0
 
                 for key in jac:
@@ -1080,17 +1086,15 @@ class Group(System):
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
-                        o_var_abs = '.'.join((sub_name, o_var))
-                        i_var_abs = '.'.join((sub_name, i_var))
-                        i_var_pro = sys_prom_name[i_var_abs]
-                        o_var_pro = sys_prom_name[o_var_abs]
+                        o_var_pro = sys_prom_name[sub_u.metadata(o_var)['pathname']]
 
                         # States are fine ...
-                        if i_var in sub.states:
-                            pass
+                        if i_var in states:
+                            i_var_pro = sys_prom_name[sub_u.metadata(i_var)['pathname']]
 
                         #... but inputs need to find their source.
                         else:
+                            i_var_abs = '.'.join((sub_name, i_var))
 
                             # Param is not connected
                             if i_var_abs not in conn:
@@ -1115,7 +1119,7 @@ class Group(System):
                     J = jac[o_var, i_var]
                     cols = None
 
-                    if i_var not in sub.states:
+                    if i_var not in states:
                         p_meta = sub._params_dict['.'.join((sub_name, i_var))]
                         if 'src_indices' in p_meta:
                             cols = i_start + sub.params.to_idx_array(p_meta['src_indices'])
@@ -1147,6 +1151,22 @@ class Group(System):
 
         return partials, icache
 
+    def _linearized_subsystems(self):
+        """
+        Returns
+        -------
+        iterator
+            Iterator over the subsystems, at any level, that have a jacobian of
+            their own: the `Components`, and the `Groups` that finite
+            difference themselves (their `Components` aren't linearized).
+        """
+        for sub in itervalues(self._subsystems):
+            if isinstance(sub, Group) and sub.deriv_options['type'] == 'user':
+                for s in sub._linearized_subsystems():
+                    yield s
+            else:
+                yield sub
+
     def set_order(self, new_order):
         """ Specifies a new execution order for this system. This should only
         be called after all subsystems have been added.
-- 
2.43.0


From 093b2b5f1a73b779e26c45b0d1a42e097ce6d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:57 +0000
Subject: [PATCH 137/150] fix: pyOptSparseDriver dropped the constant term of
 linear constraints

---
 openmdao/drivers/pyoptsparse_driver.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 73b4c67..d2ee13a 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -210,11 +210,19 @@ class pyOptSparseDriver(Driver):
             self.sparsity[name] = self.indep_list
 
         # Calculate and save gradient for any linear constraints.
-        lcons = self.get_constraints(lintype='linear').keys()
+        lcons = self.get_constraints(lintype='linear')
+        lin_consts = {}
         self._problem = problem
         if len(lcons) > 0:
-            self.lin_jacs = self.calc_gradient(indep_list, lcons,
+            self.lin_jacs = self.calc_gradient(indep_list, lcons.keys(),
                                                return_format='dict')
+
+            # pyOpt takes a linear constraint to be the product of the jacobian
+            # and the design variables, so its constant goes to the bounds.
+            for name, val in iteritems(lcons):
+                lin_consts[name] = np.ravel(val) - sum(
+                    self.lin_jacs[name][param].dot(np.ravel(param_vals[param]))
+                    for param in indep_list)
             #print("Linear Gradient")
             #print(self.lin_jacs)
 
@@ -235,6 +243,7 @@ class pyOptSparseDriver(Driver):
             self.sparsity[name] = wrt
 
             if meta['linear']:
+                lower = upper = lower - lin_consts[name]
                 opt_prob.addConGroup(name, size, lower=lower, upper=upper,
                                      linear=True, wrt=wrt,
                                      jac=self.lin_jacs[name])
@@ -267,6 +276,10 @@ class pyOptSparseDriver(Driver):
             self.sparsity[name] = wrt
 
             if meta['linear']:
+                if lower is not None:
+                    lower = lower - lin_consts[name]
+                if upper is not None:
+                    upper = upper - lin_consts[name]
                 opt_prob.addConGroup(name, size, upper=upper, lower=lower,
                                      linear=True, wrt=wrt,
                                      jac=self.lin_jacs[name])
-- 
2.43.0


From 3f9b2853d5d108e874211ee7b450abe754bf482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:02 +0000
Subject: [PATCH 138/150] fix: pyOptSparseDriver took active entries of
 two-sided and equality constraints to be inactive

---
 openmdao/drivers/pyoptsparse_driver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index d2ee13a..767f0fb 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -548,9 +548,10 @@ class pyOptSparseDriver(Driver):
                         else:
                             tol = tols[j]
                         lower, upper = con.lower[j], con.upper[j]
-                        if lower is not None and val[j] > lower + tol:
-                            inactive_idx.append(j)
-                        if upper is not None and val[j] < upper - tol:
+                        # Only inactive if it is far enough inside of all of
+                        # its bounds.
+                        if (lower is None or val[j] > lower + tol) and \
+                           (upper is None or val[j] < upper - tol):
                             inactive_idx.append(j)
 
                     if inactive_idx:
-- 
2.43.0


From 4148d4f14b518ef5c7fe1a3f2358008f257df745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:03 +0000
Subject: [PATCH 139/150] fix: pyOptSparseDriver left out gradients of inactive
 constraints for optimizers without an active set

---
 openmdao/drivers/pyoptsparse_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 767f0fb..7bc0942 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -537,7 +537,7 @@ class pyOptSparseDriver(Driver):
 
             # Assemble inactive constraints
             inactives = {}
-            if len(self.active_tols) > 0:
+            if self.supports['active_set'] and len(self.active_tols) > 0:
                 for name, tols in iteritems(self.active_tols):
                     con = self.opt_prob.constraints[name]
                     inactive_idx = []
-- 
2.43.0


From bc012bce28e651cfa72d9250c30e74a00897f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:03 +0000
Subject: [PATCH 140/150] fix: integer active_tol, and array active_tol of
 equality constraints, failed in pyOptSparseDriver

---
 openmdao/drivers/pyoptsparse_driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 7bc0942..65a02d4 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -255,7 +255,7 @@ class pyOptSparseDriver(Driver):
                                      wrt=wrt, jac=jac)
 
             active_tol = meta.get('active_tol')
-            if active_tol:
+            if active_tol is not None:
                 self.active_tols[name] = active_tol
 
         # Add all inequality constraints
@@ -543,7 +543,7 @@ class pyOptSparseDriver(Driver):
                     inactive_idx = []
                     val = con.value
                     for j in range(len(val)):
-                        if isinstance(tols, float):
+                        if np.ndim(tols) == 0:
                             tol = tols
                         else:
                             tol = tols[j]
-- 
2.43.0


From 197924e20f18b2559d4f5c648e3cbf0a2ef9d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:50 +0000
Subject: [PATCH 141/150] fix: pyOptSparseDriver left out derivatives through
 promoted inputs

---
 openmdao/drivers/pyoptsparse_driver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 65a02d4..addbdbe 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -178,6 +178,7 @@ class pyOptSparseDriver(Driver):
         # set if the full path is also relevant
         sub_param_conns = {}
         full_param_conns = {}
+        to_prom_name = problem.root._sysdata.to_prom_name
         for name in indep_list:
             pathname = problem.root.unknowns.metadata(name)['pathname']
             sub_param_conns[name] = {}
@@ -185,6 +186,8 @@ class pyOptSparseDriver(Driver):
             for target, info in iteritems(problem.root.connections):
                 src, indices = info
                 if src == pathname:
+                    # relevance uses promoted names
+                    target = to_prom_name[target]
                     if indices is not None:
                         # Need to map the connection indices onto the desvar
                         # indices if both are declared.
@@ -193,10 +196,8 @@ class pyOptSparseDriver(Driver):
                         if dv_idx is not None:
                             indices.intersection_update(dv_idx)
                             ldv_idx = list(dv_idx)
-                            mapped_idx = [ldv_idx.index(item) for item in indices]
-                            sub_param_conns[name][target] = mapped_idx
-                        else:
-                            sub_param_conns[name][target] = indices
+                            indices = [ldv_idx.index(item) for item in indices]
+                        sub_param_conns[name].setdefault(target, set()).update(indices)
                     else:
                         full_param_conns[name].add(target)
 
-- 
2.43.0


From 91c4d6bc98e5e89ee1c25f54a609606c9c74f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:33 +0000
Subject: [PATCH 142/150] fix: pyOptSparseDriver reported gradients that raised
 an exception as successful

---
 openmdao/drivers/pyoptsparse_driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index addbdbe..61ea0a7 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -607,6 +607,7 @@ class pyOptSparseDriver(Driver):
             # should give the user more info than the dreaded "segfault"
             print("Exception: %s" % str(msg))
             print(70*"=",tb,70*"=")
+            fail = 1
             sens_dict = {}
 
         #print("Derivatives calculated")
-- 
2.43.0


From dab82b5d05406ea94f92ef31a3ad3e79caa24948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:43 +0000
Subject: [PATCH 143/150] fix: view_connections shows inner groups that have
 connections from outside

---
 openmdao/util/viewconns.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/openmdao/util/viewconns.py b/openmdao/util/viewconns.py
index 51a5c13..cec4f1d 100644
--- a/openmdao/util/viewconns.py
+++ b/openmdao/util/viewconns.py
@@ -65,16 +65,21 @@ def view_connections(root, outfile='connections.html', show_browser=True,
         for t, tmeta in iteritems(system._params_dict):
             if t in connections:
                 s, idxs = connections[t]
-                if idxs is not None:
-                    val = system.unknowns[to_prom[s]][idxs]
+                if s not in system._unknowns_dict:
+                    # the source is outside of this system, so show the value
+                    # that was last transferred from it.
+                    val = system.params[system._sysdata._scoped_abs_name(t)]
                 else:
-                    val = system.unknowns[to_prom[s]]
-
-                # if there's a unit conversion, express the value in the
-                # units of the target
-                if 'unit_conv' in tmeta:
-                    scale, offset = tmeta['unit_conv']
-                    val = (val + offset) * scale
+                    if idxs is not None:
+                        val = system.unknowns[to_prom[s]][idxs]
+                    else:
+                        val = system.unknowns[to_prom[s]]
+
+                    # if there's a unit conversion, express the value in the
+                    # units of the target
+                    if 'unit_conv' in tmeta:
+                        scale, offset = tmeta['unit_conv']
+                        val = (val + offset) * scale
 
                 if s not in src2tgts:
                     src2tgts[s] = [t]
-- 
2.43.0


From 6483d50b4106a13f7f2bdbe0aa45f362f4ece6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 144/150] fix: profiling keeps track of calls that end with an
 exception

---
 openmdao/util/profile.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openmdao/util/profile.py b/openmdao/util/profile.py
index a31aa95..c189a1c 100644
--- a/openmdao/util/profile.py
+++ b/openmdao/util/profile.py
@@ -290,18 +290,18 @@ class _profile_dec(object):
                     _profile_funcs_dict[path] = len(_profile_funcs_dict)
 
                 start = etime()
-                ret = fn(*args[1:], **kwargs)
-                end = etime()
-
-                stack.pop()
-
-                _profile_struct.t = end - start
-                _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
-                _profile_struct.tstamp = start
-                _profile_struct.id = _profile_funcs_dict[path]
-                _profile_out.write(_profile_struct)
-
-                return ret
+                try:
+                    return fn(*args[1:], **kwargs)
+                finally:
+                    end = etime()
+
+                    stack.pop()
+
+                    _profile_struct.t = end - start
+                    _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
+                    _profile_struct.tstamp = start
+                    _profile_struct.id = _profile_funcs_dict[path]
+                    _profile_out.write(_profile_struct)
             else:
                 return fn(*args[1:], **kwargs)
 
-- 
2.43.0


From 88dd640be1c3d9a7a2e3c7e8c7a451bd3a908b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:40 +0000
Subject: [PATCH 145/150] fix: co-Kriging predicts with the coefficients of its
 optimal parameters, not of the last trial

---
 openmdao/surrogate_models/multifi_cokriging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/multifi_cokriging.py b/openmdao/surrogate_models/multifi_cokriging.py
index 6a67a96..d3ed5d8 100644
--- a/openmdao/surrogate_models/multifi_cokriging.py
+++ b/openmdao/surrogate_models/multifi_cokriging.py
@@ -426,7 +426,9 @@ tol: float
                 # Maximum Likelihood Estimation of the parameters
                 sol = self._max_rlf(lvl=lvl, initial_range=initial_range, tol=tol)
                 self.theta[lvl] = sol['theta']
-                self.rlf_value[lvl] = sol['rlf_value']
+
+                # the optimizer may have tried other parameters last
+                self.rlf_value[lvl] = self.rlf(lvl=lvl)
 
                 if np.isinf(self.rlf_value[lvl]):
                     raise Exception("Bad parameter region. "
-- 
2.43.0


From 9d0babb5d1e8f93e55bdac1d9bcd07d13a37a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:20 +0000
Subject: [PATCH 146/150] fix: DumpRecorder reports failed iterations on a line
 of their own, and ignores all records without a stream

---
 openmdao/recorders/dump_recorder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..5c9af25 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -83,6 +83,9 @@ class DumpRecorder(BaseRecorder):
         group : `System`
             `System` containing vectors
         """
+        if not self.out:  # if self.out is None, just do nothing
+            return
+
         params = list(iteritems(group.params))
         unknowns = list(iteritems(group.unknowns))
 
@@ -158,7 +161,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                           ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
@@ -174,6 +177,9 @@ class DumpRecorder(BaseRecorder):
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
 
+        if not self.out:  # if self.out is None, just do nothing
+            return
+
         iteration_coordinate = metadata['coord']
         timestamp = metadata['timestamp']
 
-- 
2.43.0


From 632d296855692db814d88d4c99c2e90a458942ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 147/150] fix: CsvRecorder writes every entry of arrays of more
 dimensions in full

---
 openmdao/recorders/csv_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/csv_recorder.py b/openmdao/recorders/csv_recorder.py
index 76b7448..5497a21 100644
--- a/openmdao/recorders/csv_recorder.py
+++ b/openmdao/recorders/csv_recorder.py
@@ -23,7 +23,7 @@ def serialize(val):
     object : serialized object
     """
     if isinstance(val, numpy.ndarray):
-        return ",".join(map(str, val))
+        return ",".join(map(str, val.flat))
     return str(val)
 
 
-- 
2.43.0


From 7e158f6eb3204c4e180bf4fe429c1aba45ae933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 148/150] fix: CsvRecorder failed on derivatives that are
 recorded before the first iteration

---
 openmdao/recorders/csv_recorder.py | 42 ++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/openmdao/recorders/csv_recorder.py b/openmdao/recorders/csv_recorder.py
index 5497a21..5e1cfcc 100644
--- a/openmdao/recorders/csv_recorder.py
+++ b/openmdao/recorders/csv_recorder.py
@@ -119,20 +119,7 @@ class CsvRecorder(BaseRecorder):
         else:
             resids = None
 
-        if self._wrote_header is False:
-            header = ['success'] # add column for success flag
-            if params is not None:
-                header.extend(params)
-            if unknowns is not None:
-                header.extend(unknowns)
-            if resids is not None:
-                header.extend(resids)
-            if self.options['record_derivs']:
-                header.append('Derivatives')
-
-            self.ncol = len(header)
-            self.writer.writerow(header)
-            self._wrote_header = True
+        self._write_header(iteration_coordinate)
 
         row = [metadata['success']] # add column for success flag
 
@@ -150,6 +137,31 @@ class CsvRecorder(BaseRecorder):
         if self.out:
             self.out.flush()
 
+    def _write_header(self, iteration_coordinate):
+        """Writes the names of the columns, unless they are there already.
+
+        Args
+        ----
+        iteration_coordinate : list
+            Coordinate of the first iteration that is recorded.
+        """
+        if self._wrote_header:
+            return
+
+        names = self._filtered[self._get_pathname(iteration_coordinate)]
+
+        header = ['success'] # add column for success flag
+        for option, key in (('record_params', 'p'), ('record_unknowns', 'u'),
+                            ('record_resids', 'r')):
+            if self.options[option]:
+                header.extend(names[key])
+        if self.options['record_derivs']:
+            header.append('Derivatives')
+
+        self.ncol = len(header)
+        self.writer.writerow(header)
+        self._wrote_header = True
+
     def record_derivatives(self, derivs, metadata):
         """Writes the derivatives that were calculated for the driver.
 
@@ -162,6 +174,8 @@ class CsvRecorder(BaseRecorder):
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
 
+        self._write_header(metadata['coord'])
+
         # put None's in all of the non-derivative columns except
         # the success column
         row = [None]*(self.ncol-1)
-- 
2.43.0


From a9f53270ebe0ffd889077c6da8a9c64e9f86580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:54 +0000
Subject: [PATCH 149/150] fix: the report on relevant pass_by_obj variables
 goes to the stream that was asked for

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index aa5a78f..1a3354c 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1058,7 +1058,8 @@ class Problem(object):
                           file=out_stream)
             else:
                 print("\nThe following pass_by_obj variables are relevant to "
-                      "a derivative calculation:", sorted(rel_pbos))
+                      "a derivative calculation:", sorted(rel_pbos),
+                      file=out_stream)
 
             print("\nYour driver requires a gradient across a model with pass_by_obj "
                   "connections. We strongly recommend either setting the root "
-- 
2.43.0


From aabc169dcc799412174a9b11bbc5babb71952347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:19 +0000
Subject: [PATCH 150/150] fix: several objective indices are refused with the
 intended message before setup too

---
 openmdao/core/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 42b63ce..ac11dbd 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -608,7 +608,7 @@ class Driver(object):
                 raise RuntimeError("Multiple objective indices specified for "
                                    "variable '%s', but driver '%s' doesn't "
                                    "support multiple objectives." %
-                                   (name, self.pathname))
+                                   (name, self.__class__.__name__))
         self._objs[name] = obj
 
     def get_objectives(self, return_type='dict'):
-- 
2.43.0

