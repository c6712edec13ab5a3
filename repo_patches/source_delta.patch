From 2922581541e9d2e313503d6f971f39e200ef7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 01/35] fix: max_sharpe scales the constant terms of affine
 constraints on either side

---
 .../efficient_frontier/efficient_frontier.py  | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..75da1e2 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -222,6 +222,26 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    @staticmethod
+    def _homogenize(expr, k):
+        """
+        Helper method to scale the constant part of one side of a constraint by k,
+        as required by the variable transformation of max_sharpe.
+        """
+        if expr.is_constant():
+            return expr * k
+        if expr.is_affine():
+            # The constant term of an affine expression is its value at zero
+            saved = [(var, var.value) for var in expr.variables()]
+            for var, _ in saved:
+                var.value = np.zeros(var.shape)
+            offset = expr.value
+            for var, value in saved:
+                var.value = value
+            if np.any(offset):
+                return expr - offset + offset * k
+        return expr
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -266,15 +286,15 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # Must rebuild the constraints
         for constr in self._constraints:
             if isinstance(constr, cp.constraints.nonpos.Inequality):
-                # Either the first or second item is the expression
-                if isinstance(
-                    constr.args[0], cp.expressions.constants.constant.Constant
-                ):
-                    new_constraints.append(constr.args[1] >= constr.args[0] * k)
-                else:
-                    new_constraints.append(constr.args[0] <= constr.args[1] * k)
+                new_constraints.append(
+                    self._homogenize(constr.args[0], k)
+                    <= self._homogenize(constr.args[1], k)
+                )
             elif isinstance(constr, cp.constraints.zero.Equality):
-                new_constraints.append(constr.args[0] == constr.args[1] * k)
+                new_constraints.append(
+                    self._homogenize(constr.args[0], k)
+                    == self._homogenize(constr.args[1], k)
+                )
             else:
                 raise TypeError(
                     "Please check that your constraints are in a suitable format"
-- 
2.43.0


From 136effb4f8f5bd31b2877868752f54c4f531cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 02/35] fix: EfficientCDaR accepts expected_returns=None as
 documented

---
 pypfopt/efficient_frontier/efficient_cdar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..a180b1e 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,12 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        num_assets = (
+            returns.shape[1] if expected_returns is None else len(expected_returns)
+        )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((num_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
-- 
2.43.0


From 9fab744da7c8afa39f4cfee300ebdaf9d8828b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 03/35] fix: portfolio_performance without expected returns
 reports the risk only

---
 pypfopt/efficient_frontier/efficient_cdar.py   | 11 +++++++----
 pypfopt/efficient_frontier/efficient_cvar.py   | 11 +++++++----
 .../efficient_semivariance.py                  | 18 ++++++++++++------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index a180b1e..9ae5ff6 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -224,9 +224,11 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._z
@@ -234,7 +236,8 @@ class EfficientCDaR(EfficientFrontier):
         cdar_val = cdar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..ca4fa8f 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -228,9 +228,11 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._u
@@ -238,7 +240,8 @@ class EfficientCVaR(EfficientFrontier):
         cvar_val = cvar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..5b5ce50 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -261,19 +261,25 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        sortino_ratio = None
+        if mu is not None:
+            sortino_ratio = (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if sortino_ratio is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From b0764df1be05cea0bf6dec617e297661e8e25fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 04/35] fix: lp_portfolio matches prices to weights by ticker

---
 pypfopt/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..d93ff38 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,8 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        # Prices in the order of the weights
+        p = np.array([self.latest_prices[ticker] for ticker, _ in self.weights])
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From 29b60b6004a349490c71395b9ebde8e473db2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 05/35] fix: bl_weights solves the right least-squares problem
 for singular covariances

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From 6f97750bf704272b9628a7de7a7fd139e8581140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 06/35] fix: capm_return with returns_data leaves the market
 data unchanged

---
 pypfopt/expected_returns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..7db3fe7 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,8 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            # Copy, because the column is renamed below
+            market_returns = pd.DataFrame(market_prices).copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From c6fce3a8974941ed6a7c2da2aad3063b83015018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 07/35] fix: greedy_portfolio copes with weights that round to
 more than one

---
 pypfopt/discrete_allocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d93ff38..bf9902f 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -198,8 +198,12 @@ class DiscreteAllocation:
             n_shares = int(weight * self.total_portfolio_value / price)
             cost = n_shares * price
             # As weights are all > 0 (long only) we always round down n_shares
-            # so the cost is always <= simple weighted share of portfolio value,
-            # so we can not run out of funds just here.
+            # so the cost is always <= simple weighted share of portfolio value.
+            # We can only run out of funds if the weights sum to slightly more than
+            # one, e.g. because they were rounded.
+            while n_shares > 0 and cost > available_funds:
+                n_shares -= 1
+                cost = n_shares * price
             assert cost <= available_funds, "Unexpectedly insufficient funds."
             available_funds -= cost
             shares_bought.append(n_shares)
-- 
2.43.0


From 1aa9a422b0c929606f4246590d6e36b2a0acc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 08/35] fix: a (None, upper) weight bound works with two assets

---
 pypfopt/base_optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..7caf9c5 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -212,8 +212,10 @@ class BaseConvexOptimizer(BaseOptimizer):
         :rtype: tuple pair of np.ndarray
         """
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        if (
+            len(test_bounds) == self.n_assets
+            and test_bounds[0] is not None
+            and not np.isscalar(test_bounds[0])
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From b50373f9fab89c0c291cca3d3d9f8afd5e3335e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 09/35] fix: efficient_risk no longer rejects attainable
 targets as below the minimum

---
 pypfopt/efficient_frontier/efficient_frontier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 75da1e2..66b76a4 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -369,8 +369,14 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             raise ValueError("target_volatility should be a positive float")
 
         global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
+        # This is the minimum only for fully invested portfolios and an invertible
+        # covariance matrix; otherwise leave it to the solver.
+        is_minimum = (
+            not market_neutral
+            and np.linalg.matrix_rank(self.cov_matrix) == self.n_assets
+        )
 
-        if target_volatility < global_min_volatility:
+        if is_minimum and target_volatility < global_min_volatility:
             raise ValueError(
                 "The minimum volatility is {:.3f}. Please use a higher target_volatility".format(
                     global_min_volatility
-- 
2.43.0


From f22d8f0bd83371f32bcc973f1b55d0ca14ff0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 10/35] fix: efficient_return checks market-neutral targets
 against market-neutral portfolios

---
 pypfopt/efficient_frontier/efficient_frontier.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 66b76a4..8c57a76 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -85,6 +85,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self.cov_matrix = self._validate_cov_matrix(cov_matrix)
         self.expected_returns = self._validate_expected_returns(expected_returns)
         self._max_return_value = None
+        self._max_return_neutral = None
         self._market_neutral = None
 
         if self.expected_returns is None:
@@ -199,7 +200,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self.add_constraint(lambda w: cp.sum(w) == 1)
         return self._solve_cvxpy_opt_problem()
 
-    def _max_return(self, return_value=True):
+    def _max_return(self, return_value=True, market_neutral=False):
         """
         Helper method to maximise return. This should not be used to optimize a portfolio.
 
@@ -213,7 +214,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             self._w, self.expected_returns
         )
 
-        self.add_constraint(lambda w: cp.sum(w) == 1)
+        self._make_weight_sum_constraint(market_neutral)
 
         res = self._solve_cvxpy_opt_problem()
 
@@ -419,9 +420,15 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        if self._max_return_value is None or (
+            self._opt is None and self._max_return_neutral != market_neutral
+        ):
             a = self.deepcopy()
-            self._max_return_value = a._max_return()
+            with warnings.catch_warnings():
+                # Amended bounds are reported when the problem itself is built
+                warnings.simplefilter("ignore", RuntimeWarning)
+                self._max_return_value = a._max_return(market_neutral=market_neutral)
+            self._max_return_neutral = market_neutral
         if target_return > self._max_return_value:
             raise ValueError(
                 "target_return must be lower than the maximum possible return"
-- 
2.43.0


From 5d5e2105c14e8395d3cd1861ad3b0a6b268d677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 11/35] fix: a short_ratio of zero allocates no short positions
 instead of failing

---
 pypfopt/discrete_allocation.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index bf9902f..b6e5732 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -171,13 +171,15 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating short sub-portfolio...")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.greedy_portfolio()
-            short_alloc = {t: -w for t, w in short_alloc.items()}
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.greedy_portfolio()
+                short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
             self.allocation = long_alloc.copy()
@@ -296,13 +298,15 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating short sub-portfolio:")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
-            short_alloc = {t: -w for t, w in short_alloc.items()}
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
+                short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
             self.allocation = long_alloc.copy()
-- 
2.43.0


From f05032673497e1e814594b2da3d1d47e5dafe92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 12/35] fix: EfficientSemivariance applies the benchmark to
 market-neutral portfolios too

---
 .../efficient_semivariance.py                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 5b5ce50..d195062 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -123,8 +123,9 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        B = self.returns.values / np.sqrt(self._T)
+        b = self.benchmark / np.sqrt(self._T)
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,8 +162,9 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -200,8 +202,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +244,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From cc7721b208166b9d0609686e1159ca6635a1b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 13/35] fix: a failed max_sharpe call no longer changes the
 rate portfolio_performance uses

---
 pypfopt/efficient_frontier/efficient_frontier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 8c57a76..da1a2e3 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -267,8 +267,6 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 "at least one of the assets must have an expected return exceeding the risk-free rate"
             )
 
-        self._risk_free_rate = risk_free_rate
-
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
@@ -309,6 +307,8 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         ] + new_constraints
 
         self._solve_cvxpy_opt_problem()
+        # Only remember the rate once it belongs to the weights
+        self._risk_free_rate = risk_free_rate
         # Inverse-transform
         self.weights = (self._w.value / k.value).round(16) + 0.0
         return self._make_output_weights()
-- 
2.43.0


From 1617b30a7d21e615521f60101334a1f400215d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 14/35] fix: infinite weight bounds are left out of the problem
 instead of breaking the solver

---
 pypfopt/base_optimizer.py                     | 29 ++++++++++++++-----
 .../efficient_frontier/efficient_frontier.py  |  9 ++++--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 7caf9c5..e2b38ee 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -218,8 +218,12 @@ class BaseConvexOptimizer(BaseOptimizer):
             and not np.isscalar(test_bounds[0])
         ):
             bounds = np.array(test_bounds, dtype=float)
-            self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-            self._upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
+            self._lower_bounds = np.where(
+                np.isnan(bounds[:, 0]), -np.inf, bounds[:, 0]
+            )
+            self._upper_bounds = np.where(
+                np.isnan(bounds[:, 1]), np.inf, bounds[:, 1]
+            )
         else:
             # Otherwise this must be a pair.
             if len(test_bounds) != 2 or not isinstance(test_bounds, (tuple, list)):
@@ -235,11 +239,22 @@ class BaseConvexOptimizer(BaseOptimizer):
                 upper = 1 if upper is None else upper
                 self._upper_bounds = np.array([upper] * self.n_assets)
             else:
-                self._lower_bounds = np.nan_to_num(lower, nan=-1)
-                self._upper_bounds = np.nan_to_num(upper, nan=1)
-
-        self.add_constraint(lambda w: w >= self._lower_bounds)
-        self.add_constraint(lambda w: w <= self._upper_bounds)
+                self._lower_bounds = np.where(np.isnan(lower), -1, lower)
+                self._upper_bounds = np.where(np.isnan(upper), 1, upper)
+
+        # Infinite bounds do not constrain anything, and solvers may not accept them
+        lower_mask = np.isfinite(self._lower_bounds)
+        upper_mask = np.isfinite(self._upper_bounds)
+        n_constraints = len(self._constraints)
+        if lower_mask.all():
+            self.add_constraint(lambda w: w >= self._lower_bounds)
+        elif lower_mask.any():
+            self.add_constraint(lambda w: w[lower_mask] >= self._lower_bounds[lower_mask])
+        if upper_mask.all():
+            self.add_constraint(lambda w: w <= self._upper_bounds)
+        elif upper_mask.any():
+            self.add_constraint(lambda w: w[upper_mask] <= self._upper_bounds[upper_mask])
+        self._num_bound_constraints = len(self._constraints) - n_constraints
 
     def is_parameter_defined(self, parameter_name: str) -> bool:
         is_defined = False
diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index da1a2e3..2f42f63 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -174,10 +174,10 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     "Market neutrality requires shorting - bounds have been amended",
                     RuntimeWarning,
                 )
+                num_original = self._num_bound_constraints
                 self._map_bounds_to_constraints((-1, 1))
                 # Delete original constraints
-                del self._constraints[0]
-                del self._constraints[0]
+                del self._constraints[:num_original]
 
             self.add_constraint(lambda w: cp.sum(w) == 0)
         else:
@@ -420,7 +420,10 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if self._max_return_value is None or (
+        if not np.all(np.isfinite([self._lower_bounds, self._upper_bounds])):
+            # There need not be a maximum return, so leave it to the solver
+            self._max_return_value = np.inf
+        elif self._max_return_value is None or (
             self._opt is None and self._max_return_neutral != market_neutral
         ):
             a = self.deepcopy()
-- 
2.43.0


From 4253c8ebe183e610c3dfb9c3df6c250ead826c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 15/35] fix: Black-Litterman portfolio_performance reported no
 return after set_weights

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..69da84e 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -495,6 +495,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From 912767e2273b3d4ba393c0967b2b0f12323312c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 16/35] fix: CLA lost the turning points at which an asset
 reaches its bound

---
 pypfopt/cla.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..f346f2b 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -176,13 +176,14 @@ class CLA(base_optimizer.BaseOptimizer):
             l2 = np.dot(onesF.T, l3)
             return float(((1 - l1 + l2) * c4[i] - c1 * (bi + l3[i])) / c), bi
 
-    def _get_matrices(self, f):
+    def _get_matrices(self, f, w=None):
         # Slice covarF,covarFB,covarB,meanF,meanB,wF,wB
+        w = self.w[-1] if w is None else w
         covarF = self._reduce_matrix(self.cov_matrix, f, f)
         meanF = self._reduce_matrix(self.mean, f, [0])
         b = self._get_b(f)
         covarFB = self._reduce_matrix(self.cov_matrix, f, b)
-        wB = self._reduce_matrix(self.w[-1], b, [0])
+        wB = self._reduce_matrix(w, b, [0])
         return covarF, covarFB, meanF, wB
 
     def _get_b(self, f):
@@ -354,7 +355,8 @@ class CLA(base_optimizer.BaseOptimizer):
                 else:
                     self.ls.append(l_out)
                     f.append(i_out)
-                covarF, covarFB, meanF, wB = self._get_matrices(f)
+                # w already holds the boundary value of an asset bounded just now
+                covarF, covarFB, meanF, wB = self._get_matrices(f, w)
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From afe78112089467223e8c5cd2129e57369ca80282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 17/35] fix: CLA did not terminate when rounding let a bounded
 asset re-enter

---
 pypfopt/cla.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index f346f2b..ffeaf00 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -303,6 +303,7 @@ class CLA(base_optimizer.BaseOptimizer):
     def _solve(self):
         # Compute the turning points,free sets and weights
         f, w = self._init_algo()
+        i_last = None  # asset bounded in the previous step
         self.w.append(np.copy(w))  # store solution
         self.ls.append(None)
         self.g.append(None)
@@ -326,6 +327,10 @@ class CLA(base_optimizer.BaseOptimizer):
             if len(f) < self.mean.shape[0]:
                 b = self._get_b(f)
                 for i in b:
+                    # An asset that was just bounded could only re-enter at the same
+                    # lambda, which rounding errors would let it do forever
+                    if i == i_last:
+                        continue
                     covarF, covarFB, meanF, wB = self._get_matrices(f + [i])
                     covarF_inv = np.linalg.inv(covarF)
                     l, bi = self._compute_lambda(
@@ -351,10 +356,12 @@ class CLA(base_optimizer.BaseOptimizer):
                 if CLA._infnone(l_in) > CLA._infnone(l_out):
                     self.ls.append(l_in)
                     f.remove(i_in)
+                    i_last = i_in
                     w[i_in] = bi_in  # set value at the correct boundary
                 else:
                     self.ls.append(l_out)
                     f.append(i_out)
+                    i_last = None
                 # w already holds the boundary value of an asset bounded just now
                 covarF, covarFB, meanF, wB = self._get_matrices(f, w)
                 covarF_inv = np.linalg.inv(covarF)
-- 
2.43.0


From 516696425579e09381f4fb5120550ef920370344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 18/35] fix: CLA failed when the lower bounds already sum to
 one

---
 pypfopt/cla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index ffeaf00..df66cd2 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -119,7 +119,7 @@ class CLA(base_optimizer.BaseOptimizer):
         b = np.sort(a, order="mu")
         # 3) First free weight
         i, w = b.shape[0], np.copy(self.lB)
-        while sum(w) < 1:
+        while i == b.shape[0] or sum(w) < 1:
             i -= 1
             w[b[i][0]] = self.uB[b[i][0]]
         w[b[i][0]] += 1 - sum(w)
-- 
2.43.0


From e7d651098c297f55fdb779d8f503646f3af5f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 19/35] fix: pi="market" works with an array covariance matrix

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 69da84e..fcd8433 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From 36d5bdb65fe080e81616108f023b268dbddf2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 20/35] fix: market caps given as an array work with a labelled
 covariance matrix

---
 pypfopt/black_litterman.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index fcd8433..1fa9a12 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -46,7 +46,13 @@ def market_implied_prior_returns(
             "If cov_matrix is not a dataframe, market cap index must be aligned to cov_matrix",
             RuntimeWarning,
         )
-    mcaps = pd.Series(market_caps)
+    if isinstance(cov_matrix, pd.DataFrame) and isinstance(
+        market_caps, (np.ndarray, list)
+    ):
+        # Without labels the caps are in the order of the covariance matrix
+        mcaps = pd.Series(market_caps, index=cov_matrix.columns)
+    else:
+        mcaps = pd.Series(market_caps)
     mkt_weights = mcaps / mcaps.sum()
     # Pi is excess returns so must add risk_free_rate to get return.
     return risk_aversion * cov_matrix.dot(mkt_weights) + risk_free_rate
-- 
2.43.0


From 024d74dcaee5d57b709cc9f62240ae3cc4d946b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 21/35] fix: lp_portfolio's leftover is what the whole shares
 leave, not the solver's estimate

---
 pypfopt/discrete_allocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index b6e5732..adbde12 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -343,7 +343,10 @@ class DiscreteAllocation:
             )
         )
 
+        # Cash left after buying whole numbers of shares
+        available_funds = self.total_portfolio_value - np.dot(p, vals)
+
         if verbose:
-            print("Funds remaining: {:.2f}".format(r.value))
+            print("Funds remaining: {:.2f}".format(available_funds))
             self._allocation_rmse_error()
-        return self.allocation, r.value
+        return self.allocation, available_funds
-- 
2.43.0


From 4cd101e8e9847706651cb8bfa39e633f516308fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 22/35] fix: nonconvex_objective accepts an initial guess of
 shape (n, 1) as documented

---
 pypfopt/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index e2b38ee..a4b6c87 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -519,7 +519,7 @@ class BaseConvexOptimizer(BaseOptimizer):
 
         result = sco.minimize(
             custom_objective,
-            x0=initial_guess,
+            x0=np.ravel(initial_guess),
             args=objective_args,
             method=solver,
             bounds=bounds,
-- 
2.43.0


From 2688e1892c84b722e3c5689567fdb75fcb27980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 23/35] fix: idzorek view confidences given as an array are
 checked for their length too

---
 pypfopt/black_litterman.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 1fa9a12..93d28d9 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -305,16 +305,15 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
                     "To use Idzorek's method, please supply a vector of percentage "
                     "confidence levels for each view."
                 )
-            if not isinstance(view_confidences, np.ndarray):
-                try:
-                    view_confidences = np.array(view_confidences).reshape(-1, 1)
-                    assert view_confidences.shape[0] == self.Q.shape[0]
-                    assert np.issubdtype(view_confidences.dtype, np.number)
-                except AssertionError:
-                    raise ValueError(
-                        "view_confidences should be a numpy 1D array or vector with the same length "
-                        "as the number of views."
-                    )
+            try:
+                view_confidences = np.array(view_confidences).reshape(-1, 1)
+                assert view_confidences.shape[0] == self.Q.shape[0]
+                assert np.issubdtype(view_confidences.dtype, np.number)
+            except AssertionError:
+                raise ValueError(
+                    "view_confidences should be a numpy 1D array or vector with the same length "
+                    "as the number of views."
+                )
 
             self.omega = BlackLittermanModel.idzorek_method(
                 view_confidences,
-- 
2.43.0


From 83b0348e52721e3d391797be63c81a24f316b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 24/35] fix: CLA raises the documented TypeError for expected
 returns or covariances of the wrong type

---
 pypfopt/cla.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index df66cd2..0f6d6bb 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -60,6 +60,11 @@ class CLA(base_optimizer.BaseOptimizer):
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         :raises TypeError: if ``cov_matrix`` is not a dataframe or array
         """
+        if not isinstance(expected_returns, (pd.Series, list, np.ndarray)):
+            raise TypeError("expected_returns is not a series, list or array")
+        if not isinstance(cov_matrix, (pd.DataFrame, np.ndarray)):
+            raise TypeError("cov_matrix is not a dataframe or array")
+
         # Initialize the class
         self.mean = np.array(expected_returns).reshape((len(expected_returns), 1))
         # if (self.mean == np.ones(self.mean.shape) * self.mean.mean()).all():
-- 
2.43.0


From 7968b18863211044a424fcbd3ef559fae241dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 25/35] fix: Black-Litterman rejects a picking matrix of the
 wrong type instead of ignoring it when there is a view on every asset

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 93d28d9..500c9e2 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -252,7 +252,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             self.P = P.values
         elif isinstance(P, np.ndarray):
             self.P = P
-        elif len(self.Q) == self.n_assets:
+        elif P is None and len(self.Q) == self.n_assets:
             # If a view on every asset is provided, P defaults
             # to the identity matrix.
             self.P = np.eye(self.n_assets)
-- 
2.43.0


From a265da9e04e71c32ad9ae00eb77fefb82591ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 26/35] fix: plot_efficient_frontier leaves out parameters
 without a portfolio instead of failing or repeating a point

---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 9cb1d362699d230a746e2564c83602bafc809ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 27/35] fix: CLA truncated weights when bounds were given as
 integers per asset

---
 pypfopt/cla.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 0f6d6bb..a730953 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -76,17 +76,25 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+            self.lB = np.array([b[0] for b in weight_bounds], dtype=float).reshape(
+                -1, 1
+            )
+            self.uB = np.array([b[1] for b in weight_bounds], dtype=float).reshape(
+                -1, 1
+            )
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], dtype=float).reshape(
+                    self.mean.shape
+                )
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                self.uB = np.array(weight_bounds[1], dtype=float).reshape(
+                    self.mean.shape
+                )
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From d3aaa4f496cf090462b188a2172fe7e6818d4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 28/35] fix: plot_covariance failed for an array covariance
 matrix although documented

---
 pypfopt/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 2d8e32d..eb14f14 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -83,10 +83,11 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
     fig.colorbar(cax)
 
     if show_tickers:
+        labels = getattr(matrix, "index", range(matrix.shape[0]))
         ax.set_xticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_xticklabels(matrix.index)
+        ax.set_xticklabels(labels)
         ax.set_yticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_yticklabels(matrix.index)
+        ax.set_yticklabels(labels)
         plt.xticks(rotation=90)
 
     _plot_io(**kwargs)
-- 
2.43.0


From 0aafcdfe50f7d5e45766e87526c3258e1eae59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 29/35] fix: plots drawn on given axes saved the current figure
 instead of the one drawn to

---
 pypfopt/plotting.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index eb14f14..209c4e4 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -35,10 +35,12 @@ def _get_plotly():
         )
 
 
-def _plot_io(**kwargs):
+def _plot_io(ax=None, **kwargs):
     """
     Helper method to optionally save the figure to file.
 
+    :param ax: the axes drawn to, defaults to None (the current figure is saved)
+    :type ax: matplotlib.axes, optional
     :param filename: name of the file to save to, defaults to None (doesn't save)
     :type filename: str, optional
     :param dpi: dpi of figure to save or plot, defaults to 300
@@ -50,9 +52,10 @@ def _plot_io(**kwargs):
     showfig = kwargs.get("showfig", False)
     dpi = kwargs.get("dpi", 300)
 
-    plt.tight_layout()
+    figure = plt.gcf() if ax is None else ax.figure.canvas.figure
+    figure.tight_layout()
     if filename:
-        plt.savefig(fname=filename, dpi=dpi)
+        figure.savefig(fname=filename, dpi=dpi)
     if showfig:  # pragma: no cover
         plt.show()
 
@@ -90,7 +93,7 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
         ax.set_yticklabels(labels)
         plt.xticks(rotation=90)
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
 
     return ax
 
@@ -123,11 +126,10 @@ def plot_dendrogram(hrp, ax=None, show_tickers=True, **kwargs):
     if show_tickers:
         sch.dendrogram(hrp.clusters, labels=hrp.tickers, ax=ax, orientation="top")
         ax.tick_params(axis="x", rotation=90)
-        plt.tight_layout()
     else:
         sch.dendrogram(hrp.clusters, no_labels=True, ax=ax)
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
 
     return ax
 
@@ -380,7 +382,7 @@ def plot_efficient_frontier(
         ax.set_xlabel("Volatility")
         ax.set_ylabel("Return")
 
-        _plot_io(**kwargs)
+        _plot_io(ax, **kwargs)
     return ax
 
 
@@ -409,5 +411,5 @@ def plot_weights(weights, ax=None, **kwargs):
     ax.set_yticklabels(labels)
     ax.invert_yaxis()
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
     return ax
-- 
2.43.0


From 6b19052d3092fae0cbdf68255e129001df905197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 30/35] fix: CVaR/CDaR performance describes the weights held,
 not the solver variables' latest state

---
 pypfopt/efficient_frontier/efficient_cdar.py | 25 ++++++++++++++++----
 pypfopt/efficient_frontier/efficient_cvar.py | 24 +++++++++++++++----
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index 9ae5ff6..37f6995 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -92,6 +92,8 @@ class EfficientCDaR(EfficientFrontier):
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
+        self._solved_weights = None
+        self._solved_cdar = None
 
     def set_weights(self, input_weights):
         raise NotImplementedError("Method not available in EfficientCDaR.")
@@ -213,6 +215,16 @@ class EfficientCDaR(EfficientFrontier):
         self.add_constraint(lambda _: self._z >= 0)
         self.add_constraint(lambda _: self._u[1:] >= 0)
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables change with any later solve, even a failed one or a copy's
+        self._solved_weights = self.weights
+        self._solved_cdar = (
+            self._alpha
+            + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(self._z)
+        ).value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -230,10 +242,15 @@ class EfficientCDaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
 
-        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._z
-        )
-        cdar_val = cdar.value
+        if self.weights is self._solved_weights:
+            cdar_val = self._solved_cdar
+        else:
+            # Not the solver's weights, e.g. from nonconvex_objective
+            wealth = np.append(0, np.cumsum(self.returns.values @ self.weights))
+            losses = (np.maximum.accumulate(wealth) - wealth)[1:]
+            cdar_val = min(
+                a + np.maximum(losses - a, 0).mean() / (1 - self._beta) for a in losses
+            )
 
         if verbose:
             if mu is not None:
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index ca4fa8f..9eeb407 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -89,6 +89,8 @@ class EfficientCVaR(EfficientFrontier):
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns))
+        self._solved_weights = None
+        self._solved_cvar = None
 
     def set_weights(self, input_weights):
         raise NotImplementedError("Method not available in EfficientCVaR.")
@@ -217,6 +219,16 @@ class EfficientCVaR(EfficientFrontier):
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables change with any later solve, even a failed one or a copy's
+        self._solved_weights = self.weights
+        self._solved_cvar = (
+            self._alpha
+            + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(self._u)
+        ).value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -234,10 +246,14 @@ class EfficientCVaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
 
-        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._u
-        )
-        cvar_val = cvar.value
+        if self.weights is self._solved_weights:
+            cvar_val = self._solved_cvar
+        else:
+            # Not the solver's weights, e.g. from nonconvex_objective
+            losses = -self.returns.values @ self.weights
+            cvar_val = min(
+                a + np.maximum(losses - a, 0).mean() / (1 - self._beta) for a in losses
+            )
 
         if verbose:
             if mu is not None:
-- 
2.43.0


From 2595dee2c9edf83015d1632f96f8cf5d2ddbfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 31/35] fix: EfficientSemivariance.efficient_return no longer
 refuses attainable targets of leveraged or market-neutral portfolios

---
 pypfopt/efficient_frontier/efficient_semivariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index d195062..f9b8297 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -224,7 +224,10 @@ class EfficientSemivariance(EfficientFrontier):
         """
         if not isinstance(target_return, float) or target_return < 0:
             raise ValueError("target_return should be a positive float")
-        if target_return > np.abs(self.expected_returns).max():
+        # Only long, fully invested portfolios are limited to their best asset;
+        # otherwise leave it to the solver.
+        is_maximum = not market_neutral and np.all(self._lower_bounds >= 0)
+        if is_maximum and target_return > np.abs(self.expected_returns).max():
             raise ValueError(
                 "target_return must be lower than the largest expected return"
             )
-- 
2.43.0


From dc01f3aa7b751699d9b6ce88e003e86dd8bb949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 32/35] fix: capm_return works when an asset is called mkt

---
 pypfopt/expected_returns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index 7db3fe7..e6116cb 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -256,6 +256,10 @@ def capm_return(
                 market_prices = pd.DataFrame(market_prices)
 
             market_returns = returns_from_prices(market_prices, log_returns)
+
+    # Number the assets, because one of them may be called "mkt" too
+    tickers = returns.columns
+    returns = returns.set_axis(range(len(tickers)), axis=1)
     # Use the equally-weighted dataset as a proxy for the market
     if market_returns is None:
         # Append market return to right and compute sample covariance matrix
@@ -270,7 +274,7 @@ def capm_return(
     cov = returns.cov()
     # The far-right column of the cov matrix is covariances to market
     betas = cov["mkt"] / cov.loc["mkt", "mkt"]
-    betas = betas.drop("mkt")
+    betas = betas.drop("mkt").set_axis(tickers)
     # Find mean market return on a given time period
     if compounding:
         mkt_mean_ret = (1 + returns["mkt"]).prod() ** (
-- 
2.43.0


From d1b179c724b92d4694d919fdcbbab82b7b78c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 33/35] fix: CLA.efficient_frontier includes every turning
 point when there are many of them

---
 pypfopt/cla.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index a730953..0370258 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -445,13 +445,15 @@ class CLA(base_optimizer.BaseOptimizer):
 
         mu, sigma, weights = [], [], []
         # remove the 1, to avoid duplications
-        a = np.linspace(0, 1, points // len(self.w))[:-1]
+        # at least the turning points themselves
+        points_per_segment = max(points // len(self.w), 2)
+        a = np.linspace(0, 1, points_per_segment)[:-1]
         b = list(range(len(self.w) - 1))
         for i in b:
             w0, w1 = self.w[i], self.w[i + 1]
             if i == b[-1]:
                 # include the 1 in the last iteration
-                a = np.linspace(0, 1, points // len(self.w))
+                a = np.linspace(0, 1, points_per_segment)
             for j in a:
                 w = w1 * j + (1 - j) * w0
                 weights.append(np.copy(w))
-- 
2.43.0


From b830351dac4bbfcf0353260c6be0a65d27ec900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 34/35] fix: the interactive CLA plot shows the Sharpe ratio
 over the optimum instead of a placeholder

---
 pypfopt/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 209c4e4..b59cb2b 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -173,11 +173,12 @@ def _plot_cla(cla, points, ax, show_assets, show_tickers, interactive):
             go.Scatter(
                 x=[optimal_risk],
                 y=[optimal_ret],
-                customdata=[opt_weights, [sharpe_max]],
+                customdata=[[*opt_weights, sharpe_max]],
                 mode="markers",
                 name="Max Sharpe Portfolio",
                 marker=dict(size=12, symbol="x", color="coral"),
-                hovertemplate="Sharpe: %{{customdata[1]:.4}}<br>" + hovertemplate,
+                hovertemplate=f"Sharpe: %{{customdata[{len(opt_weights)}]:.4}}<br>"
+                + hovertemplate,
             )
         )
     else:
-- 
2.43.0


From 5be57ae7ae6a7aada6d38e6ad2680f8a6c5aa4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 35/35] fix: CLA computes in double precision whatever the
 inputs' number type

Single-precision inputs (e.g. estimates from float32 prices) made rounding errors
exceed the tolerance of _purge_num_err, so turning points were dropped and a wrong
portfolio was returned.
---
 pypfopt/cla.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 0370258..8d4cd27 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -66,11 +66,13 @@ class CLA(base_optimizer.BaseOptimizer):
             raise TypeError("cov_matrix is not a dataframe or array")
 
         # Initialize the class
-        self.mean = np.array(expected_returns).reshape((len(expected_returns), 1))
+        self.mean = np.array(expected_returns, dtype=float).reshape(
+            (len(expected_returns), 1)
+        )
         # if (self.mean == np.ones(self.mean.shape) * self.mean.mean()).all():
         #     self.mean[-1, 0] += 1e-5
         self.expected_returns = self.mean.reshape((len(self.mean),))
-        self.cov_matrix = np.asarray(cov_matrix)
+        self.cov_matrix = np.asarray(cov_matrix, dtype=float)
 
         # Bounds
         if len(weight_bounds) == len(self.mean) and not isinstance(
-- 
2.43.0

