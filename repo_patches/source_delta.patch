From de1607b9a1879aa2a70fa8cc471fa120041ef467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 01/86] fix: count static variables by type, not by the value
 of their jacobian column

a static variable sitting in jacobian column 0 was not counted
---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..aead23f 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -591,7 +591,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From f4fff51359e0f9810223579e27f01192afcea47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 02/86] fix: report rank and number of static variables in the
 right order

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..96b2c82 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError(None, _r, indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
-- 
2.43.0


From dbc80a6c75d8de774398cb8685130114d76791bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 03/86] fix: state space of models with no purely backward
 variables

---
 pynare/core/solve/statespace.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 96b2c82..d05ae9f 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -163,10 +163,8 @@ def _compute_structural_state_space(model: Model):
     Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
     A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
 
-    # model might not have any backward variables
+    # model might not have any purely backward variables, which makes this (nd, 0)
     A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
-    if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
 
     # set up the structural state space representation
     nm = indexes.n_mixed
@@ -179,15 +177,10 @@ def _compute_structural_state_space(model: Model):
         #   n_endog - (n_forward + n_static) > 0
         n_diff = indexes.n_endog - (nf + indexes.n_static)
 
-        if n_diff:
-            zeros = np.zeros((nd, nm), dtype=float)
-            A0m_tilde = np.hstack((A0m_tilde, zeros))
-
-            Im = np.eye(nm, nb, k=n_diff)
-
-        else:
-            Im = np.eye(nm, nb)
+        zeros = np.zeros((nd, nm), dtype=float)
+        A0m_tilde = np.hstack((A0m_tilde, zeros))
 
+        Im = np.eye(nm, nb, k=n_diff)
         Ip = np.eye(nm, nf)
 
         D = np.block([[A0m_tilde, Ap_tilde], [Im, np.zeros((nm, nf))]])
-- 
2.43.0


From 687c058a369fd548a752feb22f7d301ae45e0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/86] fix: split the QZ decomposition by modulus, also when
 nothing is explosive

partitioned_qz located the first eigenvalue with real part above one, so
complex or negative explosive pairs were missed and a decomposition with no
explosive eigenvalue at all raised instead of having an empty lower block.
---
 pynare/utils/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..672134b 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,8 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # explosive eigenvalues are last. if there are none, the lower blocks are empty
+    expl = np.count_nonzero(np.absolute(eigs) <= 1)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 8edacca50b72ae587c206e82335cd1a9075680ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/86] fix: solve models without exogenous variables

solve_first_order referred to an undefined name when a model has no shocks.
---
 pynare/core/solve/first_order.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..43768b7 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -89,10 +89,7 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
-- 
2.43.0


From 84f1994148358616b95f91801ac52c8425edbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 06/86] fix: run the Blanchard-Kahn checks when solving

---
 pynare/core/solve/first_order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 43768b7..44578a0 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -77,6 +77,9 @@ def solve_first_order(
     indexes = M.indexes
     state = M.statespace
 
+    # a unique stable solution only exists if the BK conditions are met
+    state.verify()
+
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
 
-- 
2.43.0


From efd93f7ebd6d1c1afeb84570ec288e63fe5422e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 07/86] fix: second-order solutions of models with one or no
 states, shocks or forward variables

---
 pynare/core/solve/second_order.py | 127 +++++++++++-------------------
 pynare/utils/numpy.py             |   4 +
 2 files changed, 51 insertions(+), 80 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..954d791 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -59,6 +59,12 @@ class SecondOrderSolver(object):
         self.model = model
         self.lower_solution = lower_sol
 
+        # the first-order arrays are stored without their 1-dimensional axes. restore
+        #    them so each array here has a (row, column) for every (variable, derivative)
+        indexes = model.indexes
+        self.gy = np.reshape(lower_sol.gy, (indexes.n_endog, indexes.n_state))
+        self.gu = np.reshape(lower_sol.gu, (indexes.n_endog, indexes.n_exog))
+
     def _setup_indices(self):
         """
         pre-allocate the different sets of indices used to reorder arrays before
@@ -69,11 +75,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -103,7 +105,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # A, B, C, D, E arrays rely on first-order solution arrays
-        gy = self.lower_solution.gy
+        gy = self.gy
 
         # reorder, get time t and t+1 indices
         jacobian = self.model.jacobian.array
@@ -115,14 +117,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -130,7 +132,7 @@ class SecondOrderSolver(object):
         return A, B, C, D
 
 
-    def _hess_coefs_dx(self, lower_sol):
+    def _hess_coefs_dx(self):
         """
         construct the coefficient matrices for the various blocks of the hessian
         matrix on the RHS of the sylvester equation. the coefficients are arranged
@@ -141,18 +143,17 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt = indexes.n_state
 
-        gy = lower_sol.gy
+        gy = self.gy
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
-        return E
+        return np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
 
 
-    def _hess_coefs_du(self, lower_sol):
+    def _hess_coefs_du(self):
         """
         construct the coefficient matrices for solving for ghxu and ghuu. order
         is the same as that in `_hess_coefs_dx`
@@ -161,22 +162,14 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt, ne = indexes.n_state, indexes.n_exog
 
-        gy = lower_sol.gy
-        gu = lower_sol.gu
+        gy, gu = self.gy, self.gu
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
-
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-
+        fore_gu = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
-        return E
+        return np.concatenate((state_zero, cont_gu, fore_gu, exo_eye))
 
 
     def solve(self):
@@ -184,18 +177,18 @@ class SecondOrderSolver(object):
         self._setup_indices()
         A, B, C, D = self._setup_system()
 
-        lower_sol = self.lower_solution
-        zx = self._hess_coefs_dx(lower_sol)
-        zu = self._hess_coefs_du(lower_sol)
+        gy, gu = self.gy, self.gu
+        zx = self._hess_coefs_dx()
+        zu = self._hess_coefs_du()
 
         hess_dr = self.model.hessian.array[:, self.dr_dr]
         ghxx = solve_ghxx(A, B, C, D, zx, hess_dr)
-        ghxu = solve_ghxu(lower_sol, self.tloc, A, C, ghxx, zx, zu, hess_dr)
-        ghuu = solve_ghuu(lower_sol, self.tloc, A, C, ghxx, zu, hess_dr)
+        ghxu = solve_ghxu(gy, gu, self.tloc, A, C, ghxx, zx, zu, hess_dr)
+        ghuu = solve_ghuu(gu, self.tloc, A, C, ghxx, zu, hess_dr)
 
         indexes = self.model.indexes
         del2 = solve_del2(
-            lower_sol,
+            gy, gu,
             self.dr_cont, self.dr_fore, self.dr_sq,
             indexes.n_static, len(indexes.pure_forward_timed[1]),
             ghuu, self.model.sigma,
@@ -239,8 +232,9 @@ def solve_ghxx(
 
 
 def solve_ghxu(
-    lower_sol: FirstOrderSolution,
-    tloc: Union[np.ndarray, int],
+    gy: np.ndarray,
+    gu: np.ndarray,
+    tloc: np.ndarray,
     A: np.ndarray,
     C: np.ndarray,
     ghxx: np.ndarray,
@@ -253,10 +247,10 @@ def solve_ghxu(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
-    tloc : np.ndarray | int
+    gy, gu : np.ndarray
+        the (n_endog, n_state) and (n_endog, n_exog) arrays of the first-order
+        solution to the model, in DR order
+    tloc : np.ndarray
         the location (in DR order) of the state variables
     A : np.ndarray
         the (n_endog, n_endog) array `A` in the generalized sylvester equation
@@ -279,31 +273,17 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
-
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
-
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
-
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
 
 def solve_ghuu(
-    lower_sol: FirstOrderSolution,
-    tloc: Union[np.ndarray, int],
+    gu: np.ndarray,
+    tloc: np.ndarray,
     A: np.ndarray,
     C: np.ndarray,
     ghxx: np.ndarray,
@@ -315,10 +295,9 @@ def solve_ghuu(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
-    tloc : np.ndarray | int
+    gu : np.ndarray
+        the (n_endog, n_exog) array of the first-order solution to the model
+    tloc : np.ndarray
         the location (in DR order) of the state variables
     A : np.ndarray
         the (n_endog, n_endog) array `A` in the generalized sylvester equation
@@ -341,18 +320,7 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
-
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, gu[tloc])
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -360,7 +328,8 @@ def solve_ghuu(
 
 
 def solve_del2(
-    lower_sol: FirstOrderSolution,
+    gy: np.ndarray,
+    gu: np.ndarray,
     cont: np.ndarray,
     fore: np.ndarray,
     idx_sq: np.ndarray,
@@ -376,9 +345,9 @@ def solve_del2(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
+    gy, gu : np.ndarray
+        the (n_endog, n_state) and (n_endog, n_exog) arrays of the first-order
+        solution to the model, in DR order
     cont : np.ndarray
         the time-t row of the lag-lead incidence array, in DR order
     fore : np.ndarray
@@ -404,8 +373,6 @@ def solve_del2(
     del2 : np.ndarray
     """
 
-    gy, gu = lower_sol.gy, lower_sol.gu
-
     fore_nan = np.isnan(fore)
     fore_idx = _nonnan_int(fore)
     fore_sq = idx_sq[np.ix_(fore_idx, fore_idx)].flatten()
@@ -413,7 +380,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
 
     n_fore = np.count_nonzero(~fore_nan)
@@ -424,7 +391,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 672134b..13961ba 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -445,6 +445,10 @@ def generalized_sylvester(
             f"({m}, {n}) != ({er}, {ec})"
         )
 
+    # nothing to solve for
+    if E.size == 0:
+        return E
+
     # handling the special case where there is only one row or one column
     if m == 1:
         # B and D are scalars
-- 
2.43.0


From 06d008e9e58020e59436077a4ff3f674226e4694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 08/86] fix: give each appearance of a reserved word its own
 token and location

---
 pynare/parsing/lexer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..923829c 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -145,11 +145,12 @@ class BaseLexer(object):
             result += self.current_char
             self.advance()
         try:
-            token = self.reserved_kw[result]
+            reserved = self.reserved_kw[result]
         except KeyError:
-            token = base.reserved_funcs.get(result, Token(base.ID, result))
-        token.assign_loc(self.current_line, self.line_pos)
-        return token
+            reserved = base.reserved_funcs.get(result, Token(base.ID, result))
+
+        # the reserved tokens are shared, so each appearance needs its own token
+        return Token(reserved.type, reserved.value, self.current_line, self.line_pos)
 
     def _number(self):
         """
-- 
2.43.0


From 03668f465b4539a99796212b9bdccd0bf9f82f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 09/86] fix: skip comments of any kind, in any order, up to the
 end of the text

---
 pynare/parsing/lexer.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 923829c..5576453 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -225,20 +225,18 @@ class BaseLexer(object):
 
         while self.current_char is not None:
 
-            try:
-                while self.current_char.isspace():
-                    self.skip_whitespace()
-            except AttributeError:
-                if self.current_char is None:
-                    return Token(base.EOF, None, self.current_line, self.line_pos)
-                else:
-                    self.error(self.current_char)
-
-            while self.is_singleline_comment():
+            # whitespace and comments can follow each other in any order
+            if self.current_char.isspace():
+                self.skip_whitespace()
+                continue
+
+            if self.is_singleline_comment():
                 self.skip_singleline_comment()
+                continue
 
-            while self.is_multiline_comment():
+            if self.is_multiline_comment():
                 self.skip_multiline_comment()
+                continue
 
             if self.valid_begchar(self.current_char):
                 return self._id()
@@ -423,7 +421,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -435,7 +433,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while not (self.current_char == '*' and self.peek() == '/'):
+            if self.current_char is None:
+                raise SyntaxError('multi-line comment is never closed')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From bdf1f0714306726793d4959c35586c052f53fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 10/86] fix: raise an error on unexpected preamble tokens and
 unclosed strings

---
 pynare/parsing/lexer.py  | 4 +++-
 pynare/parsing/parser.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 5576453..dd3cd9d 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -174,7 +174,9 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                raise SyntaxError('string is never closed')
             result += self.current_char
             self.advance()
         self.advance()
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..86caa94 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -260,7 +260,7 @@ class DynareParser(BaseParser):
 
         declaration_list = ast.CompoundASTList()
         parameter_list = ast.CompoundASTList()
-        while self.current_token.type is not dyn.MODEL:
+        while self.current_token.type != dyn.MODEL:
 
             if self.current_token.type in dynare_variable_types:
                 declared_variables = self.variable_type_declaration()
@@ -270,6 +270,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From b4afd369adf8d961d9cf45c4f6bb8267f879c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 11/86] fix: never drop part of an expression when parsing

---
 pynare/core/expressions.py |  4 +++-
 pynare/parsing/parser.py   | 27 ++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..f74e766 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,9 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        expr = self.model_expression()
+        self.expect_end()
+        return expr
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 86caa94..0f38840 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -55,6 +55,13 @@ class BaseParser(object):
         else:
             self.error()
 
+    def expect_end(self):
+        """
+        error out if there is anything left that hasn't been parsed
+        """
+        if self.current_token.type != base.EOF:
+            self.error()
+
     def peek(self, k=0):
         return self.lexer.see_future_token(k=k)
 
@@ -104,7 +111,7 @@ class BaseParser(object):
         methods, because the atom() method doesn't recognize tokens of type
         FUNCTION. Instead we do the try ... except below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +122,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -203,7 +208,9 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        self.expect_end()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
@@ -525,7 +532,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -534,11 +541,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From 0435ba7c31f7dd92f5d6d0521379cda4ab277f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 12/86] fix: bind unary signs tighter than products and
 quotients

---
 pynare/parsing/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 0f38840..2df9297 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -73,7 +73,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -93,11 +93,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
-            #    the proper unary operation functionality
+            # sending 'expr' to exponent() is what ensures the proper unary operation
+            #    functionality: signs bind tighter than products, looser than powers
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -525,7 +525,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 9c7cc4ee1c346ff2a96a5d044a576ce70fa44fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 13/86] fix: allow unary plus signs in model equations

---
 pynare/parsing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..6602dd8 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -205,7 +205,7 @@ class _BaseEvaluator(ABCVisitor):
 
     def visit_UnaryOp(self, node):
         if node.op.type == PLUS:
-            return + self.visit(node.expr)
+            return self.visit(node.expr)
         elif node.op.type == MINUS:
             return - self.visit(node.expr)
 
-- 
2.43.0


From b0a91e07ab590dcb64f11fe14451154017af7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 14/86] fix: reject fractional period offsets, read zero
 offsets as the current period

---
 pynare/parsing/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 2df9297..46696d3 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -349,6 +349,10 @@ class DynareParser(BaseParser):
         var = self.variable()
         if self.peek_type() == base.LPARE:
             direction, offset = self.period_offset()
+            if offset.value == 0:
+                # an offset of zero is just the current period
+                return var
+
             return ast.PeriodVar(
                 var=var,
                 direction=direction,
@@ -369,6 +373,8 @@ class DynareParser(BaseParser):
             self.error()
         periods = self.current_token
         self.eat(base.NUMBER)
+        if not periods.value.is_integer():
+            raise PynareSyntaxError(periods)
         self.eat(base.RPARE)
 
         return direction, periods
-- 
2.43.0


From 92a4d927a228ec38f76ff863380283bae89ef0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 15/86] fix: reject variables with leads or lags of more than
 one period

---
 pynare/core/variables.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index aead23f..185c245 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -540,16 +540,21 @@ class VariableIndexManager(object):
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
         for idx, ll in enumerate(self.lead_lags.values()):
-            lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+            if not ll:
+                problem_endog = endog[idx]
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' was declared as endog but "
+                    "was not seen at any time period"
+                )
+
+            if min(ll) < -1 or max(ll) > 1:
+                problem_endog = endog[idx]
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' has a lead or lag of more than "
+                    "one period"
+                )
+
+            llx[np.array(ll) + 1, idx] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From 7df8699f4f19a5952f87b25057c0a032e7f5ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 16/86] fix: keep leads and lags apart from variables whose
 names end in m1 or p1

---
 pynare/core/expressions.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index f74e766..6a96680 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -248,7 +248,7 @@ def steady_func(
         the abstract syntax tree of the model expression
     endo : tuple
         a tuple of the endogenous model names in declaration order. these
-        are the steady state names (no 'm1' or 'p1' PeriodVar suffixes)
+        are the steady state names (no 'm1' or 'p1' PeriodVar prefixes)
     params : dict
         dictionary of parameter_names: parameter_values. This dictionary
         must provide the locally-defined model variables, too
@@ -347,10 +347,10 @@ def dynamic_func(
 
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
-    endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+    endo_timed = np.array(
+        [[timed_name(v, k) for v in endo] for k in (-1, 0, 1)], dtype=object
     )
-    dyn_vars = list(endo_suffix[~np.isnan(llx)])
+    dyn_vars = list(endo_timed[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
 
     ast_walker = DynamicFunc(sub_tree)
@@ -367,6 +367,17 @@ def dynamic_func(
 
 
 
+def timed_name(name: str, offset: int) -> str:
+    """
+    the name of a variable in the period `offset`. names in a model can't begin with
+    an underscore, so the names of leads & lags never collide with those of variables
+    """
+    if offset == 0:
+        return name
+    return f'_p1_{name}' if offset > 0 else f'_m1_{name}'
+
+
+
 class DynamicFunc(base._BaseEvaluator):
     """
     the callable that corresponds to the dynamic version of individual model
@@ -386,10 +397,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[timed_name(node.value, node.period_offset)]
 
 
 
@@ -432,8 +440,8 @@ class _DynamicSubsitution(base._ASTSubstitution):
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
     dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+        PeriodVar(name='x', period_offset=-1) -> '_m1_x'
+        PeriodVar(name='y', period_offset=1)  -> '_p1_y'
     """
 
     def __init__(
@@ -457,9 +465,7 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
+            name_offset = timed_name(attribute.value, attribute.period_offset)
             self.not_provided.add(name_offset)
 
 
-- 
2.43.0


From c59ecb3875c223607ecb2636d2d63419da07cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 17/86] fix: allow model variables named like python keywords

---
 pynare/core/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 6a96680..effb112 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -509,7 +509,7 @@ def model_signature(
 
 def ensure_parameter(
     names: Iterable[str],
-    kind: str = 'POSITIONAL_OR_KEYWORD'
+    kind: str = 'POSITIONAL_ONLY'
 ) -> Tuple[inspect.Parameter]:
     """
     Translates an iterable of strings into a tuple of inspect.Parameter objects
@@ -520,7 +520,8 @@ def ensure_parameter(
     names : Iterable
         an iterable of strings representing the parameter names
     kind : str
-        the kind of Parameter to create. Acceptable values are:
+        the kind of Parameter to create. only positional parameters can have the
+        name of a python keyword, like `lambda`. Acceptable values are:
             POSITIONAL_ONLY
             POSITIONAL_OR_KEYWORD
             VAR_POSITIONAL
-- 
2.43.0


From beb880cdf0094a8dd5fafe8ef1603d6d72d7b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 18/86] fix: allow helper names to be assigned again and give
 them a proper type

---
 pynare/parsing/semantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..6b948ea 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -199,13 +199,14 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
         if var_symbol is None:
             # assigning non-model parameters, validating the expression
-            var_symbol = VarSymbol(var_name, 'non_model')
+            stype = self.current_scope.lookup('non_model')
+            var_symbol = VarSymbol(var_name, stype)
             self.current_scope.insert(var_symbol)
             self.visit(node.right)
 
         else:
             # we don't want to assign values to non-parameter values
-            if var_symbol.stype.name != 'parameters':
+            if var_symbol.stype.name not in ('parameters', 'non_model'):
                 token = node.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
-- 
2.43.0


From f95f4748945e35dc87b2f0ff9ada0c13caa11ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 19/86] fix: name the problem when an undeclared name is given
 a boundary value or shock

---
 pynare/parsing/semantics.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 6b948ea..3aa932e 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -297,6 +297,13 @@ class DynareSemanticAnalyzer(ABCVisitor):
             var_name = assignment.left.value
             var_symbol = self.current_scope.lookup(var_name)
 
+            if var_symbol is None:
+                token = assignment.left.token
+                raise NameError(
+                    f'row {token.line_number}, column {token.line_pos}. '
+                    f'name {repr(var_name)} was not declared'
+                )
+
             if var_symbol.stype.name != dyn.VAR:
                 token = assignment.left.token
                 raise TypeError(
@@ -310,6 +317,13 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
 
     def _check_shock_declaration(self, shock_sym, shock_def):
+        if shock_sym is None:
+            token = shock_def.shock.token
+            raise NameError(
+                f'row {token.line_number}, column {token.line_pos}. '
+                'a shock was given to a name that was not declared'
+            )
+
         if shock_sym.stype.name not in (dyn.VAREXO, dyn.VAREXO_DET):
             token = shock_def.shock.token
             raise TypeError(
-- 
2.43.0


From 76740efa13e4f2e2ce5fb7784080653dc70bdf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 20/86] fix: reject leads and lags of shocks and helper names

---
 pynare/parsing/semantics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 3aa932e..3db8b06 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -389,17 +389,17 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            token = node.token
+            token = node.var.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'name {var_name} was not declared'
             )
 
-        if var_symbol.stype.name == dyn.PARAMETERS:
-            token = node.token
+        if var_symbol.stype is None or var_symbol.stype.name != dyn.VAR:
+            token = node.var.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
-                f'parameters cannot be out-of-period'
+                f'only endogenous variables can be out-of-period'
             )
 
 
-- 
2.43.0


From 6036bf5b6c0279e97a1401371fcb0db16480a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 21/86] fix: reject helper names in the model block when the
 file is read

---
 pynare/parsing/semantics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 3db8b06..d81ed4a 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -383,6 +383,18 @@ class DynareSemanticAnalyzer(ABCVisitor):
                 f'name {var_name} was not declared'
             )
 
+        # helper names can be used anywhere but in the model itself
+        stype = var_symbol.stype
+        if (
+            self.current_scope.scope_name == 'model'
+            and stype is not None and stype.name == 'non_model'
+        ):
+            token = node.token
+            raise NameError(
+                f'row {token.line_number}, column {token.line_pos}. '
+                f'name {var_name} was not declared as a parameter'
+            )
+
 
     def visit_PeriodVar(self, node):
         var_name = node.value
-- 
2.43.0


From 7de48f6fc61e0ffe7f975f49f7e133e159b0f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 22/86] fix: read model files without a shocks block

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1ff72fc 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index d81ed4a..f23cadd 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -276,7 +276,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 5b7a6bd561b9b6a73ce788f351998d18fa78b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 23/86] fix: read the historical values from the histval block

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1ff72fc..a792b43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From a4a51557e454f9c5055c8a198951ecac64e8d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 24/86] fix: say which name has no value when it is used before
 its assignment

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a792b43..a7525f4 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -129,7 +129,7 @@ class ScopedMemory(object):
         if self.enclosing_scope is not None:
             return self.enclosing_scope.lookup(var_name)
 
-        return None
+        raise KeyError(var_name)
 
 
 
-- 
2.43.0


From 2d2cb6b840985ea3f87e08d9809e8f3bdb84b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 25/86] fix: read parameters defined by helper names or
 assigned more than once

---
 pynare/parsing/base.py    |  6 ++++--
 pynare/parsing/factory.py | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 6602dd8..4729ee3 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -299,8 +299,10 @@ class _ASTSubstitution(ABCVisitor):
         self.scope = scope
 
     def simplify(self):
-        self.visit(self.tree)
-        return self.tree
+        # the tree itself can be a variable to substitute
+        root = ast.UnaryOp(op=Token(PLUS, '+'), expr=self.tree)
+        self.visit(root)
+        return root.expr
 
     def maybe_substitute(self, node, attr):
         attribute = getattr(node, attr)
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a7525f4..62dd52c 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -236,13 +236,28 @@ class DynareModelFactory(base.ABCVisitor):
         var_name = node.left.value
 
         if self.outline.is_parameter(var_name):
+
+            # parameters are defined by formulas of other parameters. helper names are
+            #    unknown to the model, and a parameter that is assigned again no longer
+            #    has the value used so far, so these are replaced by their values
+            known = dict(self.file_scope._symbols)
+            if self.outline._parameters[var_name] is not None:
+                old = {var_name: self.model_scope.lookup(var_name)}
+                known.update(old)
+                for name, formula in self.outline._parameters.items():
+                    if formula is not None:
+                        self.outline.set_model_parameter(
+                            var_name=name,
+                            value=base.ASTSubstitution(formula, old)
+                        )
+
             self.model_scope.insert(
                 var_name=var_name,
                 value=value
             )
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=base.ASTSubstitution(node.right, known)
             )
 
         else:
-- 
2.43.0


From 6e541db0eec8b5db25bf0cd48c13e9e7df647390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:04 +0000
Subject: [PATCH 26/86] fix: calibrations own their definitions and refuse
 changes that can't be solved

---
 pynare/core/variables.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 185c245..a11ca82 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -788,15 +788,8 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
-
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
-
+        # the definitions can be changed, so keep our own
+        self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
         self.calib = solve_calibration(self.defs)
 
     def __getitem__(self, key):
@@ -806,12 +799,20 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        self._redefine({**self.defs, key: value})
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        if key not in self.defs:
+            raise KeyError(f"'{key}' is not a parameter")
+        self._redefine({k: v for k, v in self.defs.items() if k != key})
+
+    def _redefine(self, defs):
+        # solve first, so that definitions which can't be solved change nothing
+        self.calib = solve_calibration(defs) # inefficient
+        self.defs = defs
+
+    def clear(self):
+        self._redefine({})
 
     def __iter__(self):
         return iter(self.calib)
@@ -977,7 +978,7 @@ def order_precedence(rhs_vars):
             if precedence[k] == 0:
 
                 # if all vars on the rhs have precedence, we know current var's
-                if all([precedence[var] > 0 for var in rhs]):
+                if all([precedence.get(var, 0) > 0 for var in rhs]):
                     precedence[k] = sum([precedence[var] for var in rhs]) + 1
                     n_funcs -= 1
 
-- 
2.43.0


From b7d57d11f1165e68653974c433bda8e9a4d187b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 27/86] fix: local model parameters follow the parameters that
 define them

---
 pynare/core/model.py      |  4 +++-
 pynare/core/variables.py  | 20 ++++++++++++++------
 pynare/parsing/factory.py |  3 ++-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..0fa9ac1 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -45,7 +45,8 @@ class Model(DynamicModel):
         name: str = ''
     ):
 
-        self.local_params = ModelCalibration(local_params)
+        # local parameters can be defined by the model's parameters
+        self.local_params = ModelCalibration(local_params, ModelCalibration(params))
 
         super().__init__(
             endog=endog,
@@ -288,6 +289,7 @@ class Model(DynamicModel):
 
     @property
     def model_scope(self):
+        self.local_params.solve(self.params)
         return {**self.params, **self.local_params}
 
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index a11ca82..41d0856 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -787,10 +787,15 @@ class ModelCalibration(MutableMapping):
     managing parameter values and caching their equation definitions
     """
 
-    def __init__(self, defs):
+    def __init__(self, defs, scope={}):
         # the definitions can be changed, so keep our own
         self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
-        self.calib = solve_calibration(self.defs)
+        self.solve(scope)
+
+    def solve(self, scope):
+        """ evaluate the definitions, given the values of the names in `scope` """
+        self.scope = dict(scope)
+        self.calib = solve_calibration(self.defs, self.scope)
 
     def __getitem__(self, key):
         try:
@@ -808,7 +813,7 @@ class ModelCalibration(MutableMapping):
 
     def _redefine(self, defs):
         # solve first, so that definitions which can't be solved change nothing
-        self.calib = solve_calibration(defs) # inefficient
+        self.calib = solve_calibration(defs, self.scope) # inefficient
         self.defs = defs
 
     def clear(self):
@@ -844,7 +849,7 @@ class ModelCalibration(MutableMapping):
 
 
 
-def solve_calibration(calib):
+def solve_calibration(calib, scope={}):
     """
     given a dictionary of the form
         'param': float | int | string | AST,
@@ -854,6 +859,8 @@ def solve_calibration(calib):
     ----------
     calib : dict
         dictionary of numbers or variable definitions to evaluate
+    scope : dict ( = {} )
+        values of other names that can be used in the definitions
 
     Returns
     -------
@@ -879,7 +886,8 @@ def solve_calibration(calib):
     rhs_vars = {}
     for k, v in calib_.items():
         if isinstance(v, ast.AST):
-            rhs_vars[k] = ParamLocator(v).locate()
+            rhs = ParamLocator(v).locate()
+            rhs_vars[k] = [r for r in rhs if r in calib_ or r not in scope]
         else:
             rhs_vars[k] = []
 
@@ -888,7 +896,7 @@ def solve_calibration(calib):
 
     # fill in all the ASTs and return
     for var in precedence:
-        calib_[var] = evaluate_parameter(calib_[var], calib_)
+        calib_[var] = evaluate_parameter(calib_[var], {**scope, **calib_})
     return calib_
 
 
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 62dd52c..7ebf564 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -302,7 +302,8 @@ class DynareModelFactory(base.ABCVisitor):
         var_name = node.left.value
         self.model_scope.insert(var_name, value)
 
-        self.outline._local_model_variables[var_name] = value
+        # keep the definition, so that its value follows the model's parameters
+        self.outline._local_model_variables[var_name] = node.right
 
 
     def visit_ModelExpression(self, node):
-- 
2.43.0


From 30a3a10b9cbfe4a06c7f61e4086cc2d726552aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 28/86] fix: copy the local parameters of a model

---
 pynare/core/generic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..4bace3a 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -482,6 +482,11 @@ class DynamicModel(StructuredModel):
 
             shocks[name] = dt_dict
 
+        # not every type of model has local parameters
+        local = {}
+        if hasattr(self, 'local_params'):
+            local['local_params'] = copy.deepcopy(self.local_params)
+
         class_ = self.__class__
         return class_(
             endog=endog,
@@ -494,5 +499,6 @@ class DynamicModel(StructuredModel):
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **local
         )
-- 
2.43.0


From 9938834acde0339e60a8a25f75f25ec7ab69b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 29/86] fix: models built from another model's expressions
 don't share them

---
 pynare/core/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index effb112..c31cb99 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -32,8 +32,8 @@ class ModelExprs(MutableSequence):
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
-- 
2.43.0


From a15dfbb5dc8fe9166bb83a1eaee57292a9463717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 30/86] fix: add endogenous variables and shocks to an existing
 model

---
 pynare/core/generic.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 4bace3a..e38377b 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -91,7 +91,7 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
+        self.endog = VarArray([*self.endog, *_endog])
 
         self.is_altered = True
 
@@ -281,8 +281,8 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
+        _stoch = _create_stoch_vars(stoch, self._name_attributes(stoch, kwargs))
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
 
@@ -302,12 +302,24 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
+        _determ = _create_determ_vars(determ, self._name_attributes(determ, kwargs))
+        self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
 
 
+    @staticmethod
+    def _name_attributes(names, attrs):
+        # either a dict of attributes for each name, or the same ones for all of them
+        if 'shocks' in attrs:
+            return attrs['shocks']
+        if not attrs:
+            return {}
+        return {name: attrs for name in (
+            names if is_iterable_not_str(names) else [names]
+        )}
+
+
     @property
     def terminal(self):
         """ terminal values of the endogenous parameters """
-- 
2.43.0


From 3e1b7e3cf288658c70a85d9641effa4613761c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 31/86] fix: models built from variable objects don't share
 them

---
 pynare/core/variables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 41d0856..b27e368 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 from functools import cached_property
 from collections.abc import MutableMapping
 import numpy as np
@@ -273,7 +275,7 @@ def _create_endog_vars(
 
     def _create_endog(name):
         if isinstance(name, EndogVar):
-            return name
+            return copy.copy(name)
 
         # bunch of `try ... Except ...` blocks for dict/scalar checks
         try:
@@ -340,7 +342,7 @@ def _create_stoch_vars(
     default_dict = {'variance': 1.0}
     def _create_stoch(name):
         if isinstance(name, StochVar):
-            return name
+            return copy.copy(name)
 
         shock_dict = shocks.get(name, default_dict)
         return StochVar(name, **shock_dict)
@@ -385,7 +387,7 @@ def _create_determ_vars(
     default_dict = {'periods': 0, 'values': 1}
     def _create_determ(name):
         if isinstance(name, DetermVar):
-            return name
+            return copy.copy(name)
 
         determ_dict = shocks.get(name, default_dict)
         return DetermVar(name, **determ_dict)
-- 
2.43.0


From b84a0326722b08611cb58ccdae2958309098f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 32/86] fix: shocks without a variance have unit variance, also
 if they are correlated

---
 pynare/core/generic.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index e38377b..b2fa85f 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -410,27 +410,25 @@ class DynamicModel(StructuredModel):
         """
 
         # pre-allocate
-        stoch_names = self.stoch.names
         n_stoch = len(self.stoch)
         sig = np.zeros((n_stoch, n_stoch), dtype=float)
 
         # first initialize variance, in case a correlated variable is given
         #    and needs to be rescaled to covariance
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.variance, (int, float)):
-                sig[i, i] = shk.variance
+            sig[i, i] = 1.0 if shk.variance is None else shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
-                j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
+            if shk.corr is not None:
+                j = self.stoch.get_loc(shk.other)
+                cov = np.sqrt(sig[i, i]*sig[j, j]) * shk.corr
 
                 sig[i, j], sig[j, i] = cov, cov
 
             # with an `if` here, any correlated variables that are declared as
             #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
+            if shk.cov is not None:
+                j, cov = self.stoch.get_loc(shk.other), shk.cov
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
-- 
2.43.0


From ae87e1f97e8a2f1b3ffae1d66963a18385b59b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 33/86] fix: keep every correlation and covariance of a shock

---
 pynare/core/generic.py    | 14 ++++++--------
 pynare/core/variables.py  | 24 +++++++++++++++++++++---
 pynare/parsing/factory.py | 28 ++++++++++++++++++++++++----
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index b2fa85f..6a168b4 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -419,16 +419,14 @@ class DynamicModel(StructuredModel):
             sig[i, i] = 1.0 if shk.variance is None else shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if shk.corr is not None:
-                j = self.stoch.get_loc(shk.other)
-                cov = np.sqrt(sig[i, i]*sig[j, j]) * shk.corr
+            for other, corr, cov in shk.comoments:
+                j = self.stoch.get_loc(other)
 
-                sig[i, j], sig[j, i] = cov, cov
+                # any correlated variables that are also declared as covarying ones
+                #    are overwritten
+                if cov is None:
+                    cov = np.sqrt(sig[i, i]*sig[j, j]) * corr
 
-            # with an `if` here, any correlated variables that are declared as
-            #    covarying ones later in the shock block are overwritten
-            if shk.cov is not None:
-                j, cov = self.stoch.get_loc(shk.other), shk.cov
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index b27e368..46ae17e 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -214,6 +214,24 @@ class StochVar(ExogVar):
         self.corr = corr
         self.cov = cov
 
+    @property
+    def comoments(self):
+        """
+        list of (other, corr, cov) for every shock this one varies with. if there is
+        more than one of those, the attributes are lists, with None for missing values
+        """
+        if is_iterable_not_str(self.other):
+            corrs, covs = self.corr, self.cov
+            pairs = list(zip(
+                self.other,
+                corrs if is_iterable_not_str(corrs) else [corrs]*len(self.other),
+                covs if is_iterable_not_str(covs) else [covs]*len(self.other)
+            ))
+        else:
+            pairs = [(self.other, self.corr, self.cov)]
+
+        return [p for p in pairs if p[1] is not None or p[2] is not None]
+
     def __repr__(self):
         name = self.name
         if self.other:
@@ -326,10 +344,10 @@ def _create_stoch_vars(
     shocks : dict ( = {} )
         dict of the form `name: moments`, where `moments` is another dictionary,
         with possible entries being:
-            `other`    : the covarying/correlated variable
+            `other`    : the covarying/correlated variable, or a list of them
             `variance` : the variance of the shock `name`
-            `corr`     : the correlation of `name` and `other`
-            `cov`      : the covariance of `name` and `other`
+            `corr`     : the correlation(s) of `name` and `other`
+            `cov`      : the covariance(s) of `name` and `other`
 
     Returns
     -------
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 7ebf564..0ec83fa 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -426,13 +426,11 @@ class DynareModelFactory(base.ABCVisitor):
 
             elif shock_type == 'correlated':
                 oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                self._set_comoment(shock, oname, 'corr', moment)
 
             elif shock_type == 'covarying':
                 oname = sdef.other.value
-                shock['other'] = oname
-                shock['cov'] = moment
+                self._set_comoment(shock, oname, 'cov', moment)
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
@@ -442,6 +440,28 @@ class DynareModelFactory(base.ABCVisitor):
         self.outline._shocks = shocks
 
 
+    def _set_comoment(self, shock, other, kind, moment):
+        """
+        set the correlation or covariance with another shock. if there is more than
+        one of those, the entries of the shock are lists
+        """
+        if shock.get('other', other) == other:
+            shock['other'] = other
+            shock[kind] = moment
+            return
+
+        if not isinstance(shock['other'], list):
+            for key in ('other', 'corr', 'cov'):
+                shock[key] = [shock.get(key)]
+
+        if other not in shock['other']:
+            shock['other'].append(other)
+            shock['corr'].append(None)
+            shock['cov'].append(None)
+
+        shock[kind][shock['other'].index(other)] = moment
+
+
     #
     # Utility
     #
-- 
2.43.0


From f0377e6d55cc021adbc8eff9d6aeb34e9975b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 34/86] fix: drop the solution of a model when it is altered

---
 pynare/core/generic.py |  3 ++-
 pynare/core/model.py   | 17 +++++++++++++++++
 pynare/simul.py        |  6 +-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 6a168b4..8c0af7d 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -260,6 +260,7 @@ class DynamicModel(StructuredModel):
 
         # prepare dynamic structural features of the model that are accessed via
         #   attributes of the same name, without the leading underscore
+        self._sigma = self._define_sigma()
         self._indexes = VariableIndexManager(self.endog, self.stoch)
         self._dynamic_repr = DynamicRepr(self)
         self._statespace = StateSpace(self)
@@ -366,7 +367,7 @@ class DynamicModel(StructuredModel):
     @property
     def sigma(self):
         """returns the covariance matrix of the stochastic shocks"""
-        if self.is_altered or not hasattr(self, '_sigma'):
+        if self.is_altered:
             self.update()
         return self._sigma
 
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 0fa9ac1..32ca08a 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -287,6 +287,14 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def update(self, *args, **kwargs):
+        super().update(*args, **kwargs)
+
+        # a solution of the model before it was altered isn't one anymore
+        if hasattr(self, '_solution'):
+            del self._solution
+
+
     @property
     def model_scope(self):
         self.local_params.solve(self.params)
@@ -308,6 +316,9 @@ class Model(DynamicModel):
         explicitly been called, then the default parameter values are used to
         derive the solution
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution
         except AttributeError:
@@ -320,6 +331,9 @@ class Model(DynamicModel):
         """
         returns the solution order. if the model hasn't been solved yet, return None
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution.order
         except AttributeError:
@@ -333,6 +347,9 @@ class Model(DynamicModel):
         solved at order 1, return. if the model is already solved at order 2, return
         the reference to `lower_solution`. if not solve, solve at default order
         """
+        if self.is_altered:
+            self.update()
+
         try:
             sol = self._solution
         except AttributeError:
diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..689fc95 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -153,7 +153,6 @@ class ModelSimulator(object):
 
     def __init__(self, model):
         self.model = model
-        self.model.update()
 
 
 
@@ -314,10 +313,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
-- 
2.43.0


From 3a73e1a6aac2c0a93b21acfee86693a8ec7c9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 35/86] fix: load models from path objects

---
 pynare/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 32ca08a..f3db9b4 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -88,12 +88,12 @@ class Model(DynamicModel):
             model_definition = read_file(filepath)
         except FileNotFoundError:
             try:
-                model_definition = read_example(filepath)
+                model_definition = read_example(str(filepath))
             except ValueError:
                 raise FileNotFoundError(filepath) from None
 
         # create the model name from the filepath
-        name = filepath.split('/')[-1]
+        name = str(filepath).split('/')[-1]
         name_no_suffix = name.split('.')[0]
 
         # create outline and use that to define model
-- 
2.43.0


From ed1531462cc8fe1537f13929a099ae8a60e5850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 36/86] fix: find the example models from any working directory

---
 pynare/io/files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..1a9963c 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -4,6 +4,9 @@ module for common I/O operations of pynare objects
 
 from __future__ import annotations
 
+import os
+
+import pynare
 from pynare.examples import ExampleRegistry
 
 
@@ -43,5 +46,8 @@ def read_example(
     -------
     the contents of the example file, as a string
     """
-    example_path = ExampleRegistry.get_example(ex_name)
+    # the paths of the examples are relative to the directory of the package, so that
+    #    they are found from any working directory
+    root = os.path.dirname(os.path.dirname(os.path.abspath(pynare.__file__)))
+    example_path = os.path.join(root, ExampleRegistry.get_example(ex_name))
     return read_file(example_path)
-- 
2.43.0


From 67edec03890c52f0b5fd6f3065f1aa65e7167439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 37/86] fix: variables with a lead and a lag are mixed even
 without a current value

---
 pynare/core/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 46ae17e..47a3300 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -601,8 +601,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
-        back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
+        back_idx = np.where(~np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
         pure_for_idx = np.where(np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
-- 
2.43.0


From 7bdd8fca07946fa2d0229afe9a48f1642f013efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 38/86] fix: exact second derivatives of powers whose exponent
 is zero in the steady state

---
 pynare/parsing/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 4729ee3..30460f6 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -10,6 +10,7 @@ from copy import deepcopy
 #    evaluating derivatives
 import autograd.numpy as np
 from autograd.scipy.special import erf
+from autograd.tracer import isbox
 
 import pynare.parsing.ast as ast
 
@@ -151,6 +152,15 @@ class ABCVisitor(object):
         raise Exception(f'No visit_{type(node).__name__} method')
 
 
+def _power(base, exponent):
+    # autograd mistakes the second derivatives of a power whose exponent is a variable
+    #    that equals zero
+    if isbox(exponent) and exponent == 0 and base > 0:
+        return np.exp(exponent * np.log(base))
+
+    return base ** exponent
+
+
 class BaseEvaluator(object):
 
     def __new__(
@@ -189,7 +199,7 @@ class _BaseEvaluator(ABCVisitor):
         elif node.op.type == DIV:
             return self.visit(node.left) / self.visit(node.right)
         elif node.op.type == POWER:
-            return self.visit(node.left) ** self.visit(node.right)
+            return _power(self.visit(node.left), self.visit(node.right))
 
     def visit_CompOp(self, node):
         if node.op.type == LT:
-- 
2.43.0


From f1903d1b7d12905efdb56352fd89c9b004582242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 39/86] fix: start at zero for variables with other boundary
 values only

---
 pynare/core/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8c0af7d..b014091 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -197,9 +197,11 @@ class StructuredModel(ModelSkeleton):
     def initial(self):
         """
         initial values of the endogenous parameters. needed to initialize the steady-
-        state computation process, and can be overwritten by subclasses
+        state computation process, and can be overwritten by subclasses. zero for the
+        variables that are only given other boundary values
         """
-        return np.array([eg.initial for eg in self.endog], dtype=float)
+        initial = [0 if eg.initial is None else eg.initial for eg in self.endog]
+        return np.array(initial, dtype=float)
 
     def update(self, *args, **kwargs):
         self.is_altered = False
-- 
2.43.0


From ada2619dc71b256537fc5c69079dc4283c7ece33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 40/86] fix: simulate models with any numbers of states and
 shocks, and don't halve second-order terms twice

---
 pynare/core/solve/first_order.py  | 11 +++++++++
 pynare/core/solve/second_order.py |  9 +++----
 pynare/simul.py                   | 36 +++++++++++-----------------
 pynare/utils/numpy.py             | 39 +++++++++++++++++++++++++++++++
 4 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 44578a0..e8e4f0a 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -24,6 +24,17 @@ class FirstOrderSolution(LinearSolution):
         self.gy, self.gu = solve_first_order(self.model)
         return self
 
+    @property
+    def policy(self):
+        """
+        the (n_endog, n_state) and (n_endog, n_exog) policy matrices, in DR order. these
+        are `gy` and `gu`, which are stored without their 1-dimensional axes
+        """
+        indexes = self.model.indexes
+        gy = np.reshape(self.gy, (indexes.n_endog, indexes.n_state))
+        gu = np.reshape(self.gu, (indexes.n_endog, indexes.n_exog))
+        return gy, gu
+
     def summary(self, **kwargs):
         """
         returns a summary of the solution that displays the first-order policy
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 954d791..53cff87 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -59,11 +59,8 @@ class SecondOrderSolver(object):
         self.model = model
         self.lower_solution = lower_sol
 
-        # the first-order arrays are stored without their 1-dimensional axes. restore
-        #    them so each array here has a (row, column) for every (variable, derivative)
-        indexes = model.indexes
-        self.gy = np.reshape(lower_sol.gy, (indexes.n_endog, indexes.n_state))
-        self.gu = np.reshape(lower_sol.gu, (indexes.n_endog, indexes.n_exog))
+        # each array here has a (row, column) for every (variable, derivative)
+        self.gy, self.gu = lower_sol.policy
 
     def _setup_indices(self):
         """
@@ -340,7 +337,7 @@ def solve_del2(
     jac: np.ndarray,
     hess: np.ndarray
 ):
-    """
+    r"""
     solve for the \Delta^2 term in the second-order approximation.
 
     Parameters
diff --git a/pynare/simul.py b/pynare/simul.py
index 689fc95..fa66226 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -5,7 +5,6 @@ from __future__ import annotations
 
 import numpy as np
 import pandas as pd
-from scipy import linalg
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
@@ -164,11 +163,7 @@ class LinearSimulator(ModelSimulator):
         # locating the t-1 state variables in dr order
         self.dr_order = self.model.indexes.dr_order
 
-        lag_state_maybe_scalar = self.model.indexes.dr.state
-        try:
-            self.lag_state = lag_state_maybe_scalar.item()
-        except ValueError:
-            self.lag_state = lag_state_maybe_scalar
+        self.lag_state = self.model.indexes.dr.state
 
     def _simulate_first_order(
         self,
@@ -186,9 +181,8 @@ class LinearSimulator(ModelSimulator):
         paths[0, :] = init - ys
 
         # policy matrices and innovations to endogenous variables
-        gy, gu = self.model.solution.gy, self.model.solution.gu
-        gu_arr = unp.ensure_2darray(gu)
-        innovs = np.matmul(shocks, np.transpose(gu_arr))
+        gy, gu = self.model.solution.policy
+        innovs = np.matmul(shocks, np.transpose(gu))
 
         # index management
         dr_order = self.dr_order
@@ -225,28 +219,26 @@ class LinearSimulator(ModelSimulator):
         # policy matrices
         sol = self.model.solution
         first_sol = sol.lower_solution
-        ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
-        gy, gu = first_sol.gy, first_sol.gu
+        ghxx, ghxu, ghuu, del2 = sol.ghxx, sol.ghxu, sol.ghuu, sol.del2
+        gy, gu = first_sol.policy
 
-        # index management. use array of indices because of kronecker products
+        # index management
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[self.lag_state]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = del2 + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
-            dydy = unp.matrix_kronecker_product(ghxx, yhat)
-            dudu = unp.matrix_kronecker_product(ghuu, ut)
-            dydu = unp.matrix_kronecker_product(ghxu, yhat, ut)
+            dydy = np.matmul(ghxx, np.kron(yhat, yhat))
+            dudu = np.matmul(ghuu, np.kron(ut, ut))
+            dydu = np.matmul(ghxu, np.kron(yhat, ut))
 
             paths[t, dr_order] = const + dy + du + dydy + dudu + dydu
 
@@ -335,7 +327,7 @@ def _generate_simul_shocks(
     matrix of the model's shocks and the number of periods
     """
 
-    corr_struct = linalg.cholesky(model.sigma)
+    corr_struct = unp.cholesky_semidefinite(model.sigma)
 
     if shocks is None:
         n_exog = len(model.stoch)
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 13961ba..409e2c9 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -583,6 +583,45 @@ def inv_sym_pd(arr: np.ndarray):
 
 
 
+def cholesky_semidefinite(arr: np.ndarray):
+    """
+    the upper-triangular cholesky factor of a symmetric positive semi-definite matrix,
+    i.e. the upper-triangular `U` such that U^t * U = arr. if `arr` is not positive
+    semi-definite, a LinAlgError is raised
+
+    Parameters
+    ----------
+    arr : np.ndarray
+        square symmetric matrix
+
+    Returns
+    -------
+    U : np.ndarray
+        the upper-triangular factor of `arr`
+    """
+    try:
+        return scipy.linalg.cholesky(arr)
+    except np.linalg.LinAlgError:
+        pass
+
+    n = arr.shape[0]
+    tol = n * np.finfo(float).eps * np.max(np.abs(np.diag(arr)), initial=0)
+
+    # remaining block of the matrix after the first `k` rows of U are removed
+    block = np.array(arr, dtype=float)
+    U = np.zeros((n, n), dtype=float)
+    for k in range(n):
+        if block[k, k] > tol:
+            U[k, k:] = block[k, k:] / np.sqrt(block[k, k])
+            block = block - np.outer(U[k], U[k])
+        elif np.any(np.abs(block[k, k:]) > np.sqrt(tol * (tol + np.abs(np.diag(arr)[k:])))):
+            # no variance left, but there still is a covariance
+            raise np.linalg.LinAlgError("array is not positive semi-definite")
+
+    return U
+
+
+
 triangular_cache = {}
 def upper_triangular_to_symmetric(ut):
     """
-- 
2.43.0


From d53e2925386662d7417dcfe7a3c167d9b1f95250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 41/86] fix: decompose variances of models with any numbers of
 states and shocks, and reject unknown shocks

---
 pynare/stats/var.py | 44 ++++++++------------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..eb3d83c 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -37,56 +37,26 @@ def var_decomp(
         in endog `i` that is attributable to exog `j`, in declaration order
     """
 
-    if len(md.stoch) == 1:
-        # quick check for models with only one stochastic variable
-        decomp_shares = np.ones((len(md.endog), 1), dtype=float)
-
-        if endog:
-            endog_names = md.endog.names
-            endog_idx = []
-
-            for eg in ensure_list(endog):
-                try:
-                    endog_idx.append(np.where(endog_names == eg)[0].item())
-                except ValueError:
-                    raise ValueError(f"'{eg}' is not an endogenous variable") from None
-            return decomp_shares[endog_idx]
-
-        return decomp_shares
-
     # this is 'None' if the model hasn't been solved yet
     if not md.solution_order:
         _ = md.solve()
 
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
+    if md.solution_order not in (1, 2):
         raise NotImplementedError(
             "can only calculate variance decomps for 1st- and 2nd-order solutions"
         ) from None
 
     # prepare transition arrays
-    gy, gu = unp.ensure_2darray((gy, gu))
+    gy, gu = md.first_order_solution.policy
     gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order, :]
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
-    # perturb and decompose variance matrix
-    decomp_tol = 1e-12
-    perturb_sigma = md.sigma + decomp_tol*np.eye(*md.sigma.shape, dtype=float)
-    sig_chol = linalg.cholesky(perturb_sigma, lower=True)
+    # decompose variance matrix
+    sig_chol = np.transpose(unp.cholesky_semidefinite(md.sigma))
 
     state_chol = np.matmul(g_utp1, sig_chol)
     gu_chol = np.matmul(gu_dc, sig_chol)
 
-    # using state-space transition equation to back out state vector's variance
-    sigma_gu = np.matmul(state_chol, np.transpose(state_chol))
-    var_state = linalg.solve_discrete_lyapunov(g_xtp1x, sigma_gu)
-
     # pre-allocate decomposition array
     n_endog, n_stoch = len(md.endog), len(md.stoch)
     decomp = np.empty((n_endog, n_stoch), dtype=float)
@@ -108,12 +78,14 @@ def var_decomp(
         decomp_shares = np.divide(decomp, total_variance[:, np.newaxis])
 
     # selecting portions of variance decomposition array
+    endog = [] if endog is None else ensure_list(endog)
+    stoch = [] if stoch is None else ensure_list(stoch)
     if endog or stoch:
         endog_names, stoch_names = md.endog.names, md.stoch.names
 
         if endog:
             endog_idx = []
-            for eg in ensure_list(endog):
+            for eg in endog:
                 try:
                     endog_idx.append(np.where(endog_names == eg)[0].item())
                 except ValueError:
@@ -124,7 +96,7 @@ def var_decomp(
 
         if stoch:
             stoch_idx = []
-            for sc in ensure_list(stoch):
+            for sc in stoch:
                 try:
                     stoch_idx.append(np.where(stoch_names == sc)[0].item())
                 except ValueError:
-- 
2.43.0


From 210f6fb701510d4d0fff9bd07d65b49b4c36a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 42/86] fix: moments of models with any numbers of states, and
 second-order means

---
 pynare/core/solve/statespace.py | 11 ++------
 pynare/stats/moments.py         | 46 ++++++++++++---------------------
 2 files changed, 18 insertions(+), 39 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index d05ae9f..33c8757 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -93,17 +93,10 @@ class StateSpace(object):
         create the Kalman transition matrices of the state-space
         """
         self.verify()
-        sol = self.model.first_order_solution
+        gy, gu = self.model.first_order_solution.policy
 
         dr_sidx = self.model.indexes.dr.state
-        n_state = len(dr_sidx)
-
-        A = np.zeros((n_state, n_state), dtype=float)
-        A[:, :n_state] = sol.gy[dr_sidx]
-
-        B = sol.gu[dr_sidx]
-
-        return unp.ensure_2darray((A, B))
+        return gy[dr_sidx], gu[dr_sidx]
 
     def __repr__(self):
         model_name = self.model.name
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..7a85fbc 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -6,8 +6,6 @@ from __future__ import annotations
 import numpy as np
 from scipy import linalg
 
-import pynare.utils.numpy as unp
-
 
 
 def mean(md: Model):
@@ -47,16 +45,16 @@ def mean(md: Model):
         del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
-        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
+        #               + del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
+        # yields E[x] = g_{xt+1,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u], where
+        #   the (1/2)s of the taylor expansion are part of the second-order arrays
+        second_order = del2 + np.dot(ghxx, var_state.flatten()) \
+            + np.dot(ghuu, md.sigma.flatten())
+        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order[dr_sidx])
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        gy, _ = md.first_order_solution.policy
+        adj_mean_inv = np.matmul(gy, expt_x) + second_order
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
@@ -144,21 +142,15 @@ def cov(md: Model):
     if not md.solution_order:
         _ = md.solve()
 
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
+    if md.solution_order not in (1, 2):
         raise NotImplementedError(
             "can only calculate covariances for 1st- and 2nd-order solutions"
         ) from None
 
+    gy, gu = md.first_order_solution.policy
+
     # translate to declaration order
-    gy_dc_, gu_dc_ = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
-    gy_dc, gu_dc = unp.ensure_2darray((gy_dc_, gu_dc_))
+    gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
 
     # variance matrix of the state-space transition process
     var_state = md.statespace.sigma
@@ -225,25 +217,19 @@ def autocov(
     if not md.solution_order:
         _ = md.solve()
 
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
+    if md.solution_order not in (1, 2):
         raise NotImplementedError(
             "can only calculate autocovariances for 1st- and 2nd-order solutions"
         ) from None
 
+    gy, gu = md.first_order_solution.policy
+
     # E[x_t^2] = Var[x], and first-order transition arrays
     var_state = md.statespace.sigma
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
     # translate to declaration order
-    gy_dc_, gu_dc_ = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
-    gy_dc, gu_dc = unp.ensure_2darray((gy_dc_, gu_dc_))
+    gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
 
     # from observation equation y_t = h(x, u), create observable -> state var array
     x_term = np.matmul(g_xtp1x, np.matmul(var_state, np.transpose(gy_dc)))
-- 
2.43.0


From 939603e1240d0654f3541393d26b806bb82699ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 43/86] fix: find several variables by name at once with
 current numpy

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 47a3300..5e50da2 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -115,7 +115,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From 000590aaa182880735d9af6e470f19ea6feb5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 44/86] fix: don't answer from a model whose last update failed

---
 pynare/core/generic.py | 12 +++++++++---
 pynare/core/model.py   |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index b014091..1aec547 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -206,6 +206,14 @@ class StructuredModel(ModelSkeleton):
     def update(self, *args, **kwargs):
         self.is_altered = False
 
+        try:
+            self._update_features()
+        except Exception:
+            # what's there is a mixture of the features before & after the alterations
+            self.is_altered = True
+            raise
+
+    def _update_features(self):
         self.endog = set_lead_lags(self.endog, self.exprs)
         self._steady_repr = SteadyRepr(self)
 
@@ -435,9 +443,7 @@ class DynamicModel(StructuredModel):
         return sig
 
 
-    def update(self, *args, **kwargs):
-        self.is_altered = False
-
+    def _update_features(self):
         self.endog = set_lead_lags(self.endog, self.exprs)
         self._sigma = self._define_sigma()
 
diff --git a/pynare/core/model.py b/pynare/core/model.py
index f3db9b4..19ac297 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -288,12 +288,12 @@ class Model(DynamicModel):
 
 
     def update(self, *args, **kwargs):
-        super().update(*args, **kwargs)
-
         # a solution of the model before it was altered isn't one anymore
         if hasattr(self, '_solution'):
             del self._solution
 
+        super().update(*args, **kwargs)
+
 
     @property
     def model_scope(self):
-- 
2.43.0


From 19e1e958a8b34b66ede2d6ddb7d885cbee353f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 45/86] fix: let an empty model be created and added to

---
 pynare/core/generic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 1aec547..efb175a 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -268,6 +268,11 @@ class DynamicModel(StructuredModel):
         else:
             self.determ = VarArray()
 
+        if not len(self.endog):
+            # an empty model has no features until it's added to
+            self.is_altered = True
+            return
+
         # prepare dynamic structural features of the model that are accessed via
         #   attributes of the same name, without the leading underscore
         self._sigma = self._define_sigma()
-- 
2.43.0


From 0fd34b5404d8fb5e1bdf1079171b0e3ebb4aaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 46/86] fix: don't share lists of shock moments between models
 and inputs

---
 pynare/core/variables.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 5e50da2..e6c99a9 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -293,7 +293,7 @@ def _create_endog_vars(
 
     def _create_endog(name):
         if isinstance(name, EndogVar):
-            return copy.copy(name)
+            return copy.deepcopy(name)
 
         # bunch of `try ... Except ...` blocks for dict/scalar checks
         try:
@@ -360,10 +360,10 @@ def _create_stoch_vars(
     default_dict = {'variance': 1.0}
     def _create_stoch(name):
         if isinstance(name, StochVar):
-            return copy.copy(name)
+            return copy.deepcopy(name)
 
         shock_dict = shocks.get(name, default_dict)
-        return StochVar(name, **shock_dict)
+        return StochVar(name, **copy.deepcopy(shock_dict))
 
     if is_iterable_not_str(names):
         # many stochastic shocks
@@ -405,10 +405,10 @@ def _create_determ_vars(
     default_dict = {'periods': 0, 'values': 1}
     def _create_determ(name):
         if isinstance(name, DetermVar):
-            return copy.copy(name)
+            return copy.deepcopy(name)
 
         determ_dict = shocks.get(name, default_dict)
-        return DetermVar(name, **determ_dict)
+        return DetermVar(name, **copy.deepcopy(determ_dict))
 
     if is_iterable_not_str(names):
         # many deterministic shocks
-- 
2.43.0


From ba621140eb9bc6a3de7e5f6c2c8da7b1bdebfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 47/86] fix: binding solutions of models with any numbers of
 states and shocks, in any order of declaration

---
 pynare/core/model.py         |  2 +-
 pynare/core/solve/binding.py | 65 ++++++++++++++----------------------
 2 files changed, 26 insertions(+), 41 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 19ac297..4762b44 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -179,7 +179,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..0fb35ae 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -286,11 +286,7 @@ def solve_occbin_one_constraint(
     )
 
     # get the first-order decision rules in declaration order
-    idx = ref.indexes
-
-    gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
+    gy_dc, gu_dc = _occbin_decision_rules(ref)
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -443,11 +439,7 @@ def solve_occbin_two_constraints(
     )
 
     # get the first-order decision rules in declaration order
-    ridx = ref.indexes
-
-    gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
+    gy_dc, gu_dc = _occbin_decision_rules(ref)
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -572,10 +564,7 @@ def _simulate_hypothesized_paths(
     shock: float
 ):
 
-    try:
-        n_endog, n_exog = gu.shape
-    except ValueError:
-        n_endog, n_exog = len(gu), 1
+    n_endog, n_exog = gu.shape
 
     # final period with a binding constraint
     last_bound = regime_starts[-1] - 1
@@ -616,20 +605,11 @@ def _simulate_hypothesized_paths(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
-
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
+    innovs[np.atleast_1d(exog_idx)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -663,10 +643,7 @@ def _simulate_hypothesized_paths_two_constraints(
     shock: float
 ):
 
-    try:
-        n_endog, n_exog = gu.shape
-    except ValueError:
-        n_endog, n_exog = len(gu), 1
+    n_endog, n_exog = gu.shape
 
     # final period with a binding constraint
     last_bound = np.amax((regime_starts0[-1], regime_starts1[-1])) - 1
@@ -729,20 +706,11 @@ def _simulate_hypothesized_paths_two_constraints(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
-
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
+    innovs[np.atleast_1d(exog_idx)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -827,6 +795,23 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
+def _occbin_decision_rules(model: Model):
+    """
+    the first-order decision rules in declaration order, with a column for every
+    endogenous variable in the first
+    """
+    idx = model.indexes
+    gy, gu = model.first_order_solution.policy
+
+    # the columns of `gy` are the state variables in decision-rule order
+    states = idx.dr_order[idx.dr.state]
+
+    gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
+    gy_dc[:, states] = gy[idx.dc_order]
+
+    return gy_dc, gu[idx.dc_order]
+
+
 def _occbin_partitioned_jacobian(model: Model):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-- 
2.43.0


From bcba698368a74b792706a7377c65ff27674a720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 48/86] fix: linearize alternative regimes around the reference
 steady state

---
 pynare/core/solve/binding.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 0fb35ae..a18e5c0 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -289,11 +289,12 @@ def solve_occbin_one_constraint(
     gy_dc, gu_dc = _occbin_decision_rules(ref)
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    ss = ref.ss.values
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ss)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ss)
 
     # correction for alt regime due to linearizing around the reference one
-    Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
+    Dstar = alt.dynamic_repr(_translate_ss(ss, alt))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -442,15 +443,16 @@ def solve_occbin_two_constraints(
     gy_dc, gu_dc = _occbin_decision_rules(ref)
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    ss = ref.ss.values
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ss)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ss)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ss)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ss)
 
     # correction for alt regimes due to linearizing around the reference one
-    D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
-    D_alt1 = alt1.dynamic_repr(_translate_ss(ref.ss.values, alt1))
-    D_dbl = dbl.dynamic_repr(_translate_ss(ref.ss.values, dbl))
+    D_alt0 = alt0.dynamic_repr(_translate_ss(ss, alt0))
+    D_alt1 = alt1.dynamic_repr(_translate_ss(ss, alt1))
+    D_dbl = dbl.dynamic_repr(_translate_ss(ss, dbl))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -812,12 +814,15 @@ def _occbin_decision_rules(model: Model):
     return gy_dc, gu[idx.dc_order]
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ss: np.ndarray):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. every
+    regime is linearized around `ss`, the steady state of the reference one
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    point = np.append(_translate_ss(ss, model), np.zeros(idx.n_exog))
+    J = np.array([df(point) for df in model.jacobian.linearized_funcs])
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From d7dec88f223f1eadb8c024996ddbfbd1aa3f74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 49/86] fix: notice regimes that don't end within the horizon

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index a18e5c0..bdeec13 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -863,7 +863,7 @@ def _locate_regime_changes(vec: np.ndarray):
     regime_starts = np.array([0], dtype=int)
 
     n_switches = 0
-    for i in range(1, len(vec)-1):
+    for i in range(1, len(vec)):
 
         if vec[i] != latest_regime[n_switches]:
             n_switches += 1
-- 
2.43.0


From e37539a827182e6612f34e474f7c820394d6a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 50/86] fix: regimes with a baseline model of their own, and
 their number

---
 pynare/regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..e82fc77 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -48,7 +48,7 @@ class RegimeSwitchingModel(object):
                 mc.exprs[eq] = expr
 
             mc.is_altered = True
-            self.models = [model, mc]
+            self.models = [model.copy(), mc]
 
         else:
             self.models = [model.copy()]
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From 4c7d56282d5356807c484f970a5bea60d550badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 51/86] fix: name the number of constraints in the error about
 it

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index bdeec13..f5696af 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -270,7 +270,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
-- 
2.43.0


From 81e396c810c61b27f0bce27a86c587d1fe0f4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 52/86] fix: summaries of solutions used a function removed
 from numpy

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From cf91b227a8b584040ffa24990887fa532fdb5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 53/86] fix: solution summaries of models with one variable,
 state or shock, or without any shock

---
 pynare/io/summary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..4281b77 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -396,7 +396,8 @@ class FirstOrderSummary(SolutionSummary):
         ss_dr = self.obj.model.ss.values[idx.dr_order]
 
         # join arrays so that both gy and gu use same widest value
-        ss, gy, gu = unp.ensure_2darray((ss_dr, self.obj.gy, self.obj.gu))
+        gy, gu = self.obj.policy
+        ss = unp.ensure_2darray(ss_dr)
 
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
@@ -416,7 +417,7 @@ class FirstOrderSummary(SolutionSummary):
 
         # with widths matched, we split the arrays
         n_gy, n_gu = gy.shape[1], gu.shape[1]
-        gy_str, gu_str = arr_str[:n_gy+2], arr_str[-n_gu:]
+        gy_str, gu_str = arr_str[:n_gy+2], arr_str[n_gy+2:]
         return gy_str, gu_str
 
     def row_labels(self):
@@ -522,7 +523,8 @@ class SecondOrderSummary(SolutionSummary):
 
         # first-order solution arrays
         lower = self.obj.lower_solution
-        ss_dr, gy, gu = unp.ensure_2darray((ss_dr, lower.gy, lower.gu))
+        ss_dr = unp.ensure_2darray(ss_dr)
+        gy, gu = lower.policy
 
         # second order solution arrays
         ar = self.obj.arrays
-- 
2.43.0


From 501e4661abc72f92570e9c0c129167364f27b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 54/86] fix: the products of states and shocks were listed
 under each other's names

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 4281b77..1f51ab8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -539,8 +539,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From e02bcd75e0ad3f85c73541586d14e8d193a47609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 55/86] fix: the second-order summary left out rows of negative
 coefficients

---
 pynare/io/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 1f51ab8..b454441 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -481,7 +481,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
-- 
2.43.0


From 4506a60f77fed8c419c8caf5b8fd90f28d107742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 56/86] fix: the threshold of first-order summaries selected
 columns by the values of rows

---
 pynare/io/summary.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index b454441..4b2f7ef 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -411,13 +411,21 @@ class FirstOrderSummary(SolutionSummary):
             arr=arr_dc,
             labels=endog,
             sig=self.sig,
-            use_labels=True,
-            thresh=self.thresh
+            use_labels=True
         )
 
         # with widths matched, we split the arrays
-        n_gy, n_gu = gy.shape[1], gu.shape[1]
+        n_gy = gy.shape[1]
         gy_str, gu_str = arr_str[:n_gy+2], arr_str[n_gy+2:]
+
+        # always display the column labels and the steady state, and the rows which
+        #   meet the threshold if there is one
+        if self.thresh is not None:
+            thresh = 10**(-(self.sig + self.thresh))
+            tloc = np.any(np.absolute(arr_dc) >= thresh, axis=1)
+            gy_str[2:] = [s if t else None for s, t in zip(gy_str[2:], tloc[1:n_gy+1])]
+            gu_str = [s if t else None for s, t in zip(gu_str, tloc[n_gy+1:])]
+
         return gy_str, gu_str
 
     def row_labels(self):
@@ -426,7 +434,7 @@ class FirstOrderSummary(SolutionSummary):
         stoch = self.obj.model.stoch.names
 
         # join variable names and find maximum length
-        labels = np.concatenate((['', 'steady'], state, [''], stoch))
+        labels = ['', 'steady'] + state + [''] + list(stoch)
         lpad = max(map(len, labels)) + 1
 
         return [lab.ljust(lpad) for lab in labels]
@@ -446,6 +454,10 @@ class FirstOrderSummary(SolutionSummary):
 
         policy = gyn + fillers + gun
         for lab, pol in zip(labels, policy):
+            if pol is None:
+                # some rows have no elements that meet the threshold. don't print
+                continue
+
             row = ''.join((lab, pol))
             feat.append(row)
 
@@ -632,26 +644,12 @@ def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
     sig: int,
-    use_labels: bool = True,
-    thresh: float = None
+    use_labels: bool = True
 ):
     """
 
     """
 
-    # optionally select a subset of displayed array
-    if thresh is not None:
-        thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
-    else:
-        pidx = np.ones(arr.shape[1], dtype=bool)
-
-    # ensure that `labels` is an array so indexing with list works right
-    labels = np.array(labels)
-
-    # only select rows that meet threshold
-    arr, labels = arr[:, pidx], labels[pidx]
-
     # number of points to right and left of decimal. `+3` factors in minus signs
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
-- 
2.43.0


From cfddcf501c6a9e9539118351b46b7aecb1b1c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 57/86] fix: summaries of models without shocks or parameters,
 or with only zeros to display

---
 pynare/io/summary.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 4b2f7ef..8556e4e 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = _left_width(np.concatenate((r, c, m)))
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = _left_width(self.obj.sigma)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = _left_width(list(display.values()))
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -640,6 +631,20 @@ class SecondOrderSummary(SolutionSummary):
 
 
 
+def _left_width(arr: np.ndarray):
+    """
+    number of characters needed to the left of the decimals to display the largest
+    number in `arr`, with room for a minus sign and the decimal point
+    """
+    arr = np.absolute(np.asarray(arr, dtype=float))
+    arr = arr[(arr >= 1) & np.isfinite(arr)]
+
+    # there might not be any number greater than 1
+    digits = np.floor(np.log10(np.max(arr, initial=1)))
+    return int(digits) + 3
+
+
+
 def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
@@ -650,10 +655,8 @@ def _summarize_array(
 
     """
 
-    # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    # number of points to left of decimal
+    l = _left_width(arr)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
-- 
2.43.0


From 8044d5c63f1f8802d99ad53bde50bd84b2b66c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 58/86] fix: autocorrelations were displayed as
 autocovariances, one lag too early

---
 README.md            | 4 ++--
 pynare/io/summary.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index e90ba0d..d31508a 100644
--- a/README.md
+++ b/README.md
@@ -152,8 +152,8 @@ correlation:
     x      -0.8384   0.9950   0.7896  -0.2569   0.0497   0.1161   1.0000   0.2569
     rn      0.2899   0.2589  -0.3902  -1.0000   0.0000   0.0000   0.2569   1.0000
 
-autocovariance of endogenous variables:
-             p = 0    p = 1    p = 2    p = 3    p = 4
+autocorrelation of endogenous variables:
+             p = 1    p = 2    p = 3    p = 4    p = 5
     r       0.6056   0.3740   0.2363   0.1533   0.1024
     infl    0.5686   0.3233   0.1838   0.1045   0.0594
     y       0.6286   0.4054   0.2689   0.1836   0.1290
diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 8556e4e..11798c8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -299,7 +299,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i}" for i in range(1, self.autocorr+1)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -313,7 +313,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From 6ae6a02c1fc38f52d6dcb17eb201ac335e5954f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 59/86] fix: plots with one row, column or panel failed, or
 left out series

---
 pynare/plotting/base.py | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 5666cc9..507d89c 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -33,32 +33,17 @@ class PynarePlot(object):
 
     def _plot_grid(self, **kwargs):
 
-        nrows, ncols = self.axes.shape
-        nsubs = self.axes.size
+        # the axes might be a single one, or a one- or two-dimensional array of them
+        axes = np.ravel(self.axes)
+        nsubs = axes.size
 
+        # with more series than subplots, the subplots are filled in turn
         nplots = min(nsubs, self._nseries)
         for k in range(nplots):
             sub = self.data[:, k::nsubs]
             labels = self.labels[k::nsubs]
 
-            aidx = k % nsubs
-            acol, arow = aidx % ncols, aidx // ncols
-            ax = self.axes[arow, acol]
-
-            self._plot(ax, sub, labels, **kwargs)
-
-
-    def _plot_column(self, **kwargs):
-
-        nsubs = self.axes.size
-
-        nplots = min(nsubs, self._nseries)
-        for k in range(nplots):
-            ts = self.data[:, k]
-            label = self.labels[k]
-
-            ax = self.axes[k]
-            self._plot(ax, ts, label, **kwargs)
+            self._plot(axes[k], sub, labels, **kwargs)
 
 
     def arrange_plot(
@@ -114,11 +99,7 @@ class PynarePlot(object):
         self.figure, self.axes = _generate_subplots(kwargs)
 
         if subplots:
-            if len(self.axes.shape) == 1:
-                self._plot_column(**kwargs)
-            else:
-                self._plot_grid(**kwargs)
-
+            self._plot_grid(**kwargs)
         else:
             self._plot(self.axes, self.data, self.labels, **kwargs)
 
-- 
2.43.0


From b1ff62b5a2d2d73ec48d4b32872cc40f91ead0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 60/86] fix: the documented row layout of plots was not
 recognized

---
 pynare/plotting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 507d89c..3cd86c7 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -78,6 +78,9 @@ class PynarePlot(object):
                     elif layout == 'column':
                         nrows, ncols = self._nseries, 1
 
+                    elif layout == 'row':
+                        nrows, ncols = 1, self._nseries
+
                     else:
                         raise ValueError(f"unrecognized value of layout: {layout}")
 
-- 
2.43.0


From 36e9a30ed044888531a63803ebc50c229a1e1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 61/86] fix: rectangular layouts of plots had more rows than
 columns, unlike documented

---
 pynare/plotting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 3cd86c7..86148d4 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -62,7 +62,7 @@ class PynarePlot(object):
 
                 if isinstance(layout, str):
                     if layout == 'rect':
-                        ncols, nrows = _factor_near_square_root(self._nseries)
+                        nrows, ncols = sorted(_factor_near_square_root(self._nseries))
 
                     elif layout == 'square':
                         n_vars = self._nseries
-- 
2.43.0


From b1689e000c1e0e7d29127e2a3b2afcba7ccb1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 62/86] fix: plots of simulations and responses did not accept
 a layout by position

---
 pynare/impulse.py | 2 --
 pynare/simul.py   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/pynare/impulse.py b/pynare/impulse.py
index 66cc8bb..a46e500 100644
--- a/pynare/impulse.py
+++ b/pynare/impulse.py
@@ -37,8 +37,6 @@ class ImpulseResponse(object):
         **kwargs
     ):
         artist = PathPlot(self.impulse, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
diff --git a/pynare/simul.py b/pynare/simul.py
index fa66226..ed2d489 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -33,8 +33,6 @@ class ModelSimulation(object):
         **kwargs
     ):
         artist = PathPlot(self.paths, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
-- 
2.43.0


From 385cb2df3bb7359fcfe3a019b8a04372f958b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 63/86] fix: statistics of a model last solved with a binding
 constraint

---
 pynare/core/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 4762b44..97121ad 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -350,10 +350,11 @@ class Model(DynamicModel):
         if self.is_altered:
             self.update()
 
-        try:
-            sol = self._solution
-        except AttributeError:
+        # solutions with binding constraints don't have an order
+        if self.solution_order is None:
             sol = self.solve(order=default_order)
+        else:
+            sol = self._solution
 
         if sol.order == 1:
             return sol
-- 
2.43.0


From 76916352004951ac043f63436ff5752ca7f3f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 64/86] fix: binding constraints without regimes failed before
 their error was raised

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index f5696af..10b57ca 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -166,7 +166,7 @@ class OccBinSolution(BindingSolution):
         # occbin solutions are conditional on the shocks to the model & the starting
         #   location of the endog vars, so we receive them upon initialization
         _, shocks, init, _ = _process_occbin_parameters(
-            ref=self.model[0], # assume first model is reference regime
+            ref=self.model[0] if exprs else model, # assume first model is reference regime
             exog=exog,
             shocks=shocks,
             init=init,
-- 
2.43.0


From c6ffb95b5fae1e6c3604db0822bcb3859174f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 65/86] fix: the second attempt to solve a model without a
 unique stable solution was not rejected

---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 33c8757..c6fe692 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,8 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        # conditions found not to be met before are reported again
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From 38ce4b292f4729ce7c358dc7d049ac371522871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 66/86] fix: models with unit roots and forward-looking
 variables were rejected

---
 pynare/core/solve/statespace.py |  4 ++--
 pynare/utils/numpy.py           | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index c6fe692..f923d01 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -57,7 +57,7 @@ class StateSpace(object):
         checking the Blanchard-Kahn (1980) conditions
         """
         abs_eigs = np.absolute(self.eigen)
-        n_explosive = np.sum((abs_eigs > 1) | np.isinf(abs_eigs))
+        n_explosive = np.sum((abs_eigs > unp.unit_root) | np.isinf(abs_eigs))
         n_forward = self.model.indexes.n_forward
 
         if n_explosive != n_forward:
@@ -105,7 +105,7 @@ class StateSpace(object):
             return f"Statespace({repr(model_name)})"
 
         abs_eigs = np.absolute(self.eigen)
-        n_explosive = np.sum((abs_eigs > 1) | np.isinf(abs_eigs))
+        n_explosive = np.sum((abs_eigs > unp.unit_root) | np.isinf(abs_eigs))
         return f"StateSpace(expl. eigs = {n_explosive})"
 
 
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 409e2c9..5a27065 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -201,6 +201,10 @@ def eigvals_sorted(
 
 
 
+# the largest magnitude of eigenvalues that aren't explosive. greater than one because
+#   unit roots are computed with rounding error
+unit_root = 1 + 1e-6
+
 def partitioned_qz(
     A: np.ndarray,
     B: np.ndarray
@@ -260,14 +264,18 @@ def partitioned_qz(
         lower right submatrix of triangular matrix S
     """
 
-    S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
+    # unit roots are not explosive, so they must be sorted along with the stable ones
+    def _not_explosive(a, b):
+        return (b != 0) & (np.absolute(a) <= unit_root * np.absolute(b))
+
+    S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort=_not_explosive)
 
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
     # explosive eigenvalues are last. if there are none, the lower blocks are empty
-    expl = np.count_nonzero(np.absolute(eigs) <= 1)
+    expl = np.count_nonzero(np.absolute(eigs) <= unit_root)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 01d7831b6eb6dea14a39e10335e641d32aaf2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 67/86] fix: products with python numbers, documented to be
 accepted, failed

---
 pynare/utils/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 5a27065..ff75ae3 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -50,12 +50,12 @@ def matmul_scalar(
     """
     try:
         x1_ = x1.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x1_ = x1
 
     try:
         x2_ = x2.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x2_ = x2
 
     if np.isscalar(x1_) or np.isscalar(x2_):
-- 
2.43.0


From 230465bc117f70ed46ce1d438b380c0c50f36d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 68/86] fix: variable arrays could not be copied, and lost
 their names when pickled

---
 pynare/core/variables.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index e6c99a9..5152bc0 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -28,27 +28,26 @@ class VarArray(np.ndarray):
         return obj
 
     def __array_finalize__(self, obj):
-        try:
-            names = [v.name for v in self]
-        except AttributeError:
-            raise TypeError("all variables must be a subclass of ModelVar")
+        # the elements of copies and slices of a VarArray are variables already, and a
+        #    copy isn't filled until after this is called
+        if not isinstance(obj, VarArray):
+            self._verify()
 
-        try:
-            vtypes = [v.vtype for v in self]
-        except AttributeError:
+    def _verify(self):
+        if not all(hasattr(v, 'name') and hasattr(v, 'vtype') for v in self):
             raise TypeError("all variables must be a subclass of ModelVar")
 
         # ensure all variables are of the same type
-        try:
-            first = vtypes[0]
-            if vtypes.count(first) != len(vtypes):
-                raise TypeError("variables were not all of the same vtype")
+        if len({v.vtype for v in self}) > 1:
+            raise TypeError("variables were not all of the same vtype")
 
-        except IndexError:
-            first = ''
+    @property
+    def vtype(self):
+        return self[0].vtype if len(self) else ''
 
-        self.vtype = first
-        self.names = np.array(names, dtype=str)
+    @property
+    def names(self):
+        return np.array([v.name for v in self], dtype=str)
 
     def __array_ufunc__(self, func, types, args, kwargs):
         """
-- 
2.43.0


From e4035f6e6d00bf932eeeea9ce2a911e627267736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 69/86] fix: lists of expressions made from iterators could not
 be changed

---
 pynare/core/expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index c31cb99..138b032 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -36,6 +36,7 @@ class ModelExprs(MutableSequence):
             self.exprs_str = list(exprs.exprs_str)
 
         else:
+            exprs = list(exprs)
             self.exprs = [self.parse(ep) for ep in exprs]
             self.exprs_str = [ep if isinstance(ep, str) else '' for ep in exprs]
 
-- 
2.43.0


From 094d9c7955b440972abcc941ff89ea9e3e685326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 70/86] fix: expressions read from files, or without an equals
 sign, could not be printed

---
 pynare/core/expressions.py | 64 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 138b032..2968467 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -84,12 +84,16 @@ class ModelExprs(MutableSequence):
 
     def __str__(self):
         lhs, rhs = [], []
-        for expr in self.exprs_str:
-            l, r = expr.split('=')
+        for expr, expr_str in zip(self.exprs, self.exprs_str):
+            if expr_str.count('=') != 1:
+                # only the syntax tree of the expression is known
+                expr_str = ExprFormatter(expr).format()
+
+            l, r = expr_str.split('=')
             lhs.append(l.strip())
             rhs.append(r.strip())
 
-        width = max(map(len, lhs))
+        width = max(map(len, lhs), default=0)
         pad = 4*' '
 
         heading = 'Model Expressions'
@@ -120,6 +124,60 @@ class ExprParser(DynareParser):
 
 
 
+class ExprFormatter(base.ABCVisitor):
+    """ writes the AST of a model expression the way it's written in a model """
+
+    def format(self):
+        tree = self.tree
+        if isinstance(tree, ast.ModelExpression):
+            left, right = tree.left, tree.right
+        elif isinstance(tree, ast.BinaryOp) and tree.op.type == base.MINUS:
+            # expressions of model files are joined into 'left - right'
+            left, right = tree.left, tree.right
+        else:
+            left, right = tree, ast.Num(base.Token(base.NUMBER, 0))
+
+        return f"{self.visit(left)} = {self.visit(right)}"
+
+    def operand(self, node, *nested):
+        # parenthesize operations, unless they're one of the operators in `nested`
+        string = self.visit(node)
+        if isinstance(node, ast.UnaryOp):
+            return f"({string})"
+        if isinstance(node, ast.BinaryOp) and node.op.type not in nested:
+            return f"({string})"
+        return string
+
+    def visit_BinaryOp(self, node):
+        op = node.op.type
+        if op in (base.PLUS, base.MINUS):
+            tighter = (base.MUL, base.DIV, base.POWER)
+            left = self.operand(node.left, base.PLUS, base.MINUS, *tighter)
+            return f"{left} {node.op.value} {self.operand(node.right, *tighter)}"
+
+        if op == base.POWER:
+            return f"{self.operand(node.left)}^{self.operand(node.right)}"
+
+        left = self.operand(node.left, base.MUL, base.DIV, base.POWER)
+        return left + node.op.value + self.operand(node.right, base.POWER)
+
+    def visit_UnaryOp(self, node):
+        return node.op.value + self.operand(node.expr)
+
+    def visit_Function(self, node):
+        return f"{node.value}({self.visit(node.expr)})"
+
+    def visit_Num(self, node):
+        return np.format_float_positional(node.value, trim='-')
+
+    def visit_Var(self, node):
+        return node.value
+
+    def visit_PeriodVar(self, node):
+        return f"{node.value}({node.period_offset:+d})"
+
+
+
 class ModelRepr(object):
 
     # dynamic or steady state
-- 
2.43.0


From 9eb63a2253c3f54e986b8e5c001e1de681f02c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:00 +0000
Subject: [PATCH 71/86] fix: data with its columns in another order went to the
 wrong observed variables

---
 pynare/stats/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/stats/filters.py b/pynare/stats/filters.py
index 49074a9..c8c711c 100644
--- a/pynare/stats/filters.py
+++ b/pynare/stats/filters.py
@@ -59,7 +59,7 @@ class ModelFilter(object):
                     raise NameError(f"{repr(lb)} is not an observed var")
 
             # reordering data if columns are different from observed vars decl order
-            idx = self.obs.get_loc(labels)
+            idx = [labels.index(name) for name in self.obs.names]
             self.data = self.data[:, idx]
 
         else:
-- 
2.43.0


From 87b68d3933618635bc6c8fe8456c91e895bf40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:00 +0000
Subject: [PATCH 72/86] fix: models with local parameters could not be observed

---
 pynare/stats/observation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pynare/stats/observation.py b/pynare/stats/observation.py
index f43025d..e095ce6 100644
--- a/pynare/stats/observation.py
+++ b/pynare/stats/observation.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import copy
 import numpy as np
 
-from pynare.core.variables import _create_endog_vars
+from pynare.core.variables import ModelCalibration, _create_endog_vars
 from pynare.core.generic import DynamicModel
 from pynare.core.solve.first_order import FirstOrderSolution
 
@@ -49,7 +49,7 @@ class ObservedModel(DynamicModel):
         observation_exprs = [' = '.join((k, v)) for k, v in exprs.items()]
         model_exprs.extend(observation_exprs)
 
-        self.local_params = model.local_params
+        self.local_params = ModelCalibration(model.local_params, model.params)
         endog_names = model.endog.names
         super().__init__(
             endog=endog,
@@ -65,6 +65,11 @@ class ObservedModel(DynamicModel):
             name=model.name
         )
 
+    @property
+    def model_scope(self):
+        self.local_params.solve(self.params)
+        return {**self.params, **self.local_params}
+
     @property
     def solution(self):
         return ObservedSolution(self).solve()
-- 
2.43.0


From e685fd3aade08a60da45613522db8f9269ee9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:37 +0000
Subject: [PATCH 73/86] fix: calibrations without parameters, or with zero or
 infinite ones only, could not be printed

---
 pynare/core/variables.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 5152bc0..4eee3ee 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -847,14 +847,13 @@ class ModelCalibration(MutableMapping):
         return f"ModelCalibration({len(self)} params)"
 
     def __str__(self):
-        width = max(map(len, self.calib)) + 1
+        width = max(map(len, self.calib), default=0) + 1
         sig, pad = 6, 4*' '
 
         # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(self.calib.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        values = [abs(v) for v in self.calib.values() if np.isfinite(v) and v != 0]
+        l = int(np.fix(np.log10(max(values, default=1))) + 3)
+        l = max(l, 3)
 
         heading = 'ModelCalibration'
         string = [heading]
-- 
2.43.0


From db6eb36c43a90571426f5a8b928121e9b2d75bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:37 +0000
Subject: [PATCH 74/86] fix: stochastic variables with a zero correlation, or
 several of them, were misprinted

---
 pynare/core/variables.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 4eee3ee..b41ce13 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -233,15 +233,13 @@ class StochVar(ExogVar):
 
     def __repr__(self):
         name = self.name
-        if self.other:
-            var, other = self.variance, self.other
-            if self.corr:
-                c, cn = 'corr', self.corr
-            else:
-                c, cn = 'cov', self.cov
-            return f"StochVar({name}, variance={var}, {c}({name}, {other})={cn})"
-        else:
-            return f"StochVar({name}, variance={self.variance})"
+        parts = [name, f"variance={self.variance}"]
+        for other, corr, cov in self.comoments:
+            if corr is not None:
+                parts.append(f"corr({name}, {other})={corr}")
+            if cov is not None:
+                parts.append(f"cov({name}, {other})={cov}")
+        return f"StochVar({', '.join(parts)})"
 
 
 
-- 
2.43.0


From 68c744a259f2f851656fb8142778bdbe26af8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 75/86] fix: models with an explosive root were accepted when
 the rank condition failed up to rounding

---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index f923d01..89ac2de 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -64,8 +64,9 @@ class StateSpace(object):
             self.is_verified = False
             raise ModelIdentificationError('order', n_explosive, n_forward)
 
+        # a block of a unitary matrix, so rank deficiency isn't relative to its own size
         Z22 = self.zarrays.Z_22
-        if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
+        if np.linalg.matrix_rank(Z22, tol=1e-10) != Z22.shape[0]:
             self.is_verified = False
             raise ModelIdentificationError('rank')
 
-- 
2.43.0


From da83137870285f0eb4249ee5ed0105c0ad5797ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 76/86] fix: a bad second shock of a pair was reported at the
 place of the first one

---
 pynare/parsing/semantics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index f23cadd..cf27e52 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -317,16 +317,16 @@ class DynareSemanticAnalyzer(ABCVisitor):
             self.visit(assignment.right)
 
 
-    def _check_shock_declaration(self, shock_sym, shock_def):
+    def _check_shock_declaration(self, shock_sym, shock_node):
         if shock_sym is None:
-            token = shock_def.shock.token
+            token = shock_node.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 'a shock was given to a name that was not declared'
             )
 
         if shock_sym.stype.name not in (dyn.VAREXO, dyn.VAREXO_DET):
-            token = shock_def.shock.token
+            token = shock_node.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'variable {repr(shock_sym)} was not declared as exogenous. '
@@ -342,7 +342,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
             # check that shock was declared as exogenous
             shock_name = sdef.shock.value
             shock_symbol = self.current_scope.lookup(shock_name)
-            self._check_shock_declaration(shock_symbol, sdef)
+            self._check_shock_declaration(shock_symbol, sdef.shock)
 
             # check that moment expression is valid
             self.visit(sdef.expr)
@@ -351,7 +351,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
             if sdef.shock_type in ('correlated', 'covarying'):
                 other_name = sdef.other.value
                 other_symbol = self.current_scope.lookup(other_name)
-                self._check_shock_declaration(other_symbol, sdef)
+                self._check_shock_declaration(other_symbol, sdef.other)
 
 
     #
-- 
2.43.0


From 5458bde84542b9651e033cc1afda34e74f9624e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 77/86] fix: a summary of a single parameter looked for the
 letters of its name

---
 pynare/io/summary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 11798c8..9ae8947 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -84,6 +84,9 @@ class ModelSummary(Summary):
         self.variables = variables
         self.eigen = eigen
         self.stoch = stoch
+        # a single name is not a sequence of names of one letter each
+        if isinstance(params, str) and params not in ('', 'all'):
+            params = [params]
         self.params = params
 
     def variables_str(self):
-- 
2.43.0


From 9c757baad20bcde5bcfc6fa0d6d73dd4a1953d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 78/86] fix: summaries of features or parameters given by an
 iterator were empty

---
 pynare/io/summary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 9ae8947..136bab5 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -29,6 +29,8 @@ class Summary(object):
         self.pad = ' '*pad
 
         if is_iterable_not_str(only):
+            # iterators can only be read once
+            only = list(only)
             for feat in only:
                 if feat not in self.features:
                     avail = ', '.join(self.features)
@@ -87,7 +89,7 @@ class ModelSummary(Summary):
         # a single name is not a sequence of names of one letter each
         if isinstance(params, str) and params not in ('', 'all'):
             params = [params]
-        self.params = params
+        self.params = list(params) if is_iterable_not_str(params) else params
 
     def variables_str(self):
         """
-- 
2.43.0


From ad4ccd88f34cc000c031ae17f7915a7b19a08d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 79/86] fix: shocks given by an iterator were not added when
 they had attributes

---
 pynare/core/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index efb175a..17f0982 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -297,6 +297,8 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
+        # iterators can only be read once
+        stoch = list(stoch) if is_iterable_not_str(stoch) else stoch
         _stoch = _create_stoch_vars(stoch, self._name_attributes(stoch, kwargs))
         self.stoch = VarArray([*self.stoch, *_stoch])
 
@@ -318,6 +320,8 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
+        # iterators can only be read once
+        determ = list(determ) if is_iterable_not_str(determ) else determ
         _determ = _create_determ_vars(determ, self._name_attributes(determ, kwargs))
         self.determ = VarArray([*self.determ, *_determ])
 
-- 
2.43.0


From 8bcb89f46e0bf7fdddc04ac286233c75b7e0e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 80/86] fix: lead-lags of variables that aren't in a VarArray
 were not found

---
 pynare/core/variables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index b41ce13..64f760e 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -439,6 +439,8 @@ def set_lead_lags(
     endog_ll : list
         the same list of endogenous variables, with `lead_lag` set
     """
+    if not isinstance(endog, VarArray):
+        endog = list(endog)
     var_periods = read_lead_lags(endog, exprs)
 
     for eg in endog:
@@ -474,7 +476,7 @@ def read_lead_lags(
         endog_names = endog.names
         # endog_names = [eg.name for eg in endog]
     except AttributeError:
-        endog_names = endog
+        endog_names = [eg.name if isinstance(eg, ModelVar) else eg for eg in endog]
 
     lead_lags = dict.fromkeys(endog_names, set())
 
-- 
2.43.0


From cbafc31577381d32d9d61c625e816f0ed0e7f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:44 +0000
Subject: [PATCH 81/86] fix: the standard deviation of a constant variable was
 NaN when its variance rounded below zero

---
 pynare/stats/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index 7a85fbc..bc2c12e 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -98,7 +98,8 @@ def std(md: Model):
     std : np.ndarray
         a vector of length len(md.endog)
     """
-    return np.sqrt(var(md))
+    # rounding can leave the variance of a constant variable slightly below zero
+    return np.sqrt(np.maximum(var(md), 0))
 
 
 
-- 
2.43.0


From ff071a203a35150da60fec5cc6f0ebfd68bde64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:21 +0000
Subject: [PATCH 82/86] fix: numpy numbers couldn't be parameter values

---
 pynare/core/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 64f760e..c668ca5 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -888,6 +888,8 @@ def solve_calibration(calib, scope={}):
     for k, v in calib.items():
         if isinstance(v, (float, int)):
             calib_[k] = v
+        elif isinstance(v, (np.integer, np.floating)):
+            calib_[k] = v.item()
         elif isinstance(v, str):
             calib_[k] = parse_string(v)
         elif isinstance(v, ast.Num):
-- 
2.43.0


From 50850dded3c73bcc3340207eb65b237219b1b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:29 +0000
Subject: [PATCH 83/86] fix: an interrupted update left a mixture of the
 features before and after it

---
 pynare/core/generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 17f0982..8cff383 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -204,12 +204,12 @@ class StructuredModel(ModelSkeleton):
         return np.array(initial, dtype=float)
 
     def update(self, *args, **kwargs):
-        self.is_altered = False
-
         try:
+            self.is_altered = False
             self._update_features()
-        except Exception:
-            # what's there is a mixture of the features before & after the alterations
+        except BaseException:
+            # what's there is a mixture of the features before & after the alterations,
+            #    also if it was the user who interrupted this
             self.is_altered = True
             raise
 
-- 
2.43.0


From 254e156cc2e4df15b9aea640a8d27622bd69d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:36 +0000
Subject: [PATCH 84/86] fix: the first-order solution stayed stored when a
 second-order solve was interrupted or failed

---
 pynare/core/solve/second_order.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 53cff87..0e9a8c2 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -10,6 +10,7 @@ import numpy as np
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
+from pynare.core.solve.first_order import FirstOrderSolution
 from pynare.io.summary import SecondOrderSummary
 
 
@@ -22,7 +23,8 @@ class SecondOrderSolution(LinearSolution):
     def __init__(self, model: Model):
         super().__init__(model)
 
-        self.lower_solution = self.model.solve(order=1)
+        # the solution of the model is only replaced once this one is complete
+        self.lower_solution = FirstOrderSolution(self.model).solve()
 
     def solve(self, *args, **kwargs):
 
-- 
2.43.0


From 2e5c8be883c510a7f573986c72c3e18bd87d91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 85/86] fix: of several parameters changed together some were
 changed when another was refused, without the model noticing

---
 pynare/core/generic.py   | 4 +---
 pynare/core/variables.py | 4 ++++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8cff383..69e932d 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -109,9 +109,7 @@ class ModelSkeleton(object):
         -------
         None
         """
-        for k, v in kwargs.items():
-            self.params[k] = v
-
+        self.params.update(kwargs)
         self.is_altered = True
 
     def update(self):
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index c668ca5..87df39f 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -837,6 +837,10 @@ class ModelCalibration(MutableMapping):
     def clear(self):
         self._redefine({})
 
+    def update(self, other=(), /, **kwargs):
+        # all of them at once, since they can be defined in terms of one another
+        self._redefine({**self.defs, **dict(other, **kwargs)})
+
     def __iter__(self):
         return iter(self.calib)
 
-- 
2.43.0


From ef07bb06ccb3c7f15051034cb7ff86750b74436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:45 +0000
Subject: [PATCH 86/86] fix: of several expressions added together those before
 a refused one were added, without the model noticing

---
 pynare/core/expressions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 2968467..8f5ac33 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -78,6 +78,12 @@ class ModelExprs(MutableSequence):
     def append(self, obj):
         self.insert(len(self), obj)
 
+    def extend(self, objs):
+        # all are parsed before any is added
+        new = ModelExprs(objs)
+        self.exprs.extend(new.exprs)
+        self.exprs_str.extend(new.exprs_str)
+
     def __repr__(self):
         n_exprs = len(self.exprs)
         return f"ModelExprs({n_exprs} exprs)"
-- 
2.43.0

