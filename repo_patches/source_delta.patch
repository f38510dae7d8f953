From c58fad9919a072258c8f20582e19b73a8d5c98d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 01/55] fix: accept variables without a name when a
 dimensionality is given

The variable name is documented as optional (a default name is generated), but
expanding the configuration accessed it unconditionally and raised KeyError.
---
 GPyOpt/core/task/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..d41f3fb 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -115,8 +115,9 @@ class Design_space(object):
         """
         self.config_space_expanded = []
 
-        for variable in self.config_space:
+        for i, variable in enumerate(self.config_space):
             variable_dic = variable.copy()
+            variable_dic['name'] = variable_dic.get('name', 'var_' + str(i))
             if 'dimensionality' in variable_dic.keys():
                 dimensionality = variable_dic['dimensionality']
                 variable_dic['dimensionality'] = 1
-- 
2.43.0


From 7ee1cce598b8bad571bfd264842a1940768cbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 02/55] fix: accept bandit arms given as a list of tuples

This is the documented form of a bandit domain, but only numpy arrays worked
(AttributeError: 'list' object has no attribute 'shape').
---
 GPyOpt/core/task/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..a34a6dd 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -125,6 +125,9 @@ class BanditVariable(Variable):
         if dimensionality is None:
             dimensionality = len(domain[0])
 
+        # arms may be passed as a list of tuples
+        domain = np.asarray(domain)
+
         super(BanditVariable, self).__init__(name, 'bandit', domain, dimensionality)
 
     def objective_to_model(self, x_objective):
-- 
2.43.0


From eaefde7e906fbb0340f990d117e6a19714559c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 03/55] fix: place every bandit variable in its own columns in
 random designs

With several bandit variables the variable number was used as column number, so
that the arms overlapped and the last columns were left uninitialised.
---
 GPyOpt/experiment_design/random_design.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..7cbda59 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -40,7 +40,8 @@ class RandomDesign(ExperimentDesign):
         """
         init_points_count = samples.shape[0]
 
-        for (idx, var) in enumerate(self.space.space_expanded):
+        idx = 0
+        for var in self.space.space_expanded:
             if isinstance(var, DiscreteVariable) or isinstance(var, CategoricalVariable) :
                 sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))
                 samples[:,idx] = sample_var.flatten()
@@ -51,6 +52,10 @@ class RandomDesign(ExperimentDesign):
                 idx_samples = np.random.randint(var.domain.shape[0], size=init_points_count)
                 bandit_idx = np.arange(idx, idx + var.domain.shape[1])
                 samples[:, bandit_idx] = var.domain[idx_samples,:]
+                idx += var.domain.shape[1]
+                continue
+
+            idx += 1
 
 
     def get_samples_without_constraints(self, init_points_count):
-- 
2.43.0


From f354952a71e90ea34023570c35d7feda05c256e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 04/55] fix: listing continuous or discrete dimensions fails in
 bandit spaces

A bandit variable is a single expanded variable that spans several dimensions,
so indexing the expanded variables by dimension raised IndexError (also when
saving a report or building a grid design).
---
 GPyOpt/core/task/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index d41f3fb..89f0c57 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -366,8 +366,8 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'continuous':
+        for i, variable in enumerate(self.space_expanded):
+            if variable.type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
 
@@ -401,8 +401,8 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'discrete':
+        for i, variable in enumerate(self.space_expanded):
+            if variable.type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
 
-- 
2.43.0


From f1c9b093f1e1b4a31adf72390a0307515b3ca4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 05/55] fix: honour the context in bandit spaces

The recorded positions of a bandit variable covered one column per variable
instead of one per arm coordinate, and anchor points ignored the context, so
suggestions did not keep the values fixed by the context.
---
 GPyOpt/core/task/space.py                      | 9 +++++++++
 GPyOpt/optimization/acquisition_optimizer.py   | 2 +-
 GPyOpt/optimization/anchor_points_generator.py | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 89f0c57..96b7683 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -141,6 +141,15 @@ class Design_space(object):
         counter_model     = 0
 
         for variable in self.space_expanded:
+            if variable.is_bandit():
+                # bandits span one position per coordinate of their arms in both representations
+                width = variable.dimensionality_in_model
+                variable.set_index_in_objective(list(range(counter_objective, counter_objective + width)))
+                variable.set_index_in_model(list(range(counter_model, counter_model + width)))
+                counter_objective += width
+                counter_model += width
+                continue
+
             variable.set_index_in_objective([counter_objective])
             counter_objective +=1
 
diff --git a/GPyOpt/optimization/acquisition_optimizer.py b/GPyOpt/optimization/acquisition_optimizer.py
index 8649942..a8fd473 100644
--- a/GPyOpt/optimization/acquisition_optimizer.py
+++ b/GPyOpt/optimization/acquisition_optimizer.py
@@ -103,7 +103,7 @@ class ContextManager(object):
                 variable = self.space.find_variable(context_variable)
                 self.context_index += variable.index_in_model
                 self.context_index_obj += variable.index_in_objective
-                self.context_value += variable.objective_to_model(context[context_variable])
+                self.context_value += list(variable.objective_to_model(context[context_variable]))
 
             ## --- Get bounds and index for non context
             self.noncontext_index = [idx for idx in self.all_index if idx not in self.context_index]
diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..0c4e337 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -29,6 +29,9 @@ class AnchorPointsGenerator(object):
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
             space = Design_space(space_configuration_without_context, context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
+        elif context_manager:
+            space = self.space
+            add_context = lambda x : context_manager._expand_vector(x[:, context_manager.noncontext_index])
         else:
             space = self.space
             add_context = lambda x: x
-- 
2.43.0


From adf5ac6f8ef86c37464c14a5b26dd7f3db2904ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 06/55] fix: round points of spaces with several bandit
 variables

The rounded arms are rows of different width that were concatenated along the
wrong axis, so no suggestion could be made with more than one bandit variable.
---
 GPyOpt/core/task/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 96b7683..3ca4ecd 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -346,7 +346,7 @@ class Design_space(object):
             var_value = x[value_index : value_index + variable.dimensionality_in_model]
             var_value_rounded = variable.round(var_value)
 
-            x_rounded.append(var_value_rounded)
+            x_rounded.append(np.ravel(var_value_rounded))
             value_index += variable.dimensionality_in_model
 
         return np.atleast_2d(np.concatenate(x_rounded))
-- 
2.43.0


From c38c2434fe54de930b5cd9f3885e153409b09572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 07/55] fix: encode categories by their position in the domain

Categorical values were used directly as one-hot positions and decoded to
positions, so that any domain other than (0, 1, ..., k-1) failed with an
IndexError or was decoded to values outside the domain.
---
 GPyOpt/core/task/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index a34a6dd..2cbccbe 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -201,13 +201,13 @@ class CategoricalVariable(Variable):
 
     def objective_to_model(self, x_objective):
         entry = [0] * self.dimensionality_in_model
-        entry[int(x_objective)] = 1
+        entry[list(self.domain).index(x_objective)] = 1
         return entry
 
     def model_to_objective(self, x_model, index_in_model):
         vardim = self.dimensionality_in_model
         original_entry = x_model[0, index_in_model:(index_in_model+vardim)]
-        entry = sum(x * y for x, y in zip(range(vardim), original_entry))
+        entry = sum(x * y for x, y in zip(self.domain, original_entry))
         return [entry]
 
     def get_bounds(self):
-- 
2.43.0


From a5352aeca3294d0f708a9638de1ca70239f027b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/55] fix: do not require models to expose their parameters

The loop called get_model_parameters on every model although only the GP models
have it, so the warped GP, random forest and user-defined models that follow the
documented model interface could not be used.
---
 GPyOpt/core/bo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..2d1db4c 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -261,6 +261,10 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        if not hasattr(self.model, 'get_model_parameters'):
+            # optional in the models
+            return
+
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
-- 
2.43.0


From e95aa54cb01da52b31a3b4d8e88e3ba7c8d57060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 09/55] fix: make the input warped GP usable

The model was created with the positions of the variables before encoding
(wrong columns when a categorical variable comes first), its predict method was
called with an argument it does not have, its data could not be updated, and the
warping was undefined (NaN) for points of the domain outside the data range.
---
 GPyOpt/models/input_warped_gpmodel.py | 34 ++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 0e88020..3da0d80 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -78,11 +78,39 @@ class InputWarpedGPModel(GPModel):
         # --- define model
         noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
 
-        self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
-                                              warping_indices=self.warping_indices, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
+        # the model works with the encoded inputs, where a categorical variable spans several columns
+        model_warping_indices = [i for var in self.space.space_expanded if var.type in ('continuous', 'discrete')
+                                 for i in var.index_in_model]
+        # the warping is only defined between Xmin and Xmax, so these have to cover the whole domain
+        bounds = np.array(self.space.get_bounds(), dtype=float)
+
+        self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel.copy(), warping_function=self.warping_function,
+                                              warping_indices=model_warping_indices, Xmin=bounds[:,0], Xmax=bounds[:,1])
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
             self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
         else:
-            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
\ No newline at end of file
+            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
+
+    def updateModel(self, X_all, Y_all, X_new, Y_new):
+        """
+        Updates the model with new observations.
+        """
+        # the data of an input warped GP cannot be replaced once the model is created
+        self.model = None
+        super(InputWarpedGPModel, self).updateModel(X_all, Y_all, X_new, Y_new)
+
+    def _predict(self, X, full_cov, include_likelihood):
+        if X.ndim == 1:
+            X = X[None,:]
+        X_warped = self.model.transform_data(X, test_data=True)
+        m, v = GPy.core.GP.predict(self.model, X_warped, full_cov=full_cov, include_likelihood=include_likelihood)
+        v = np.clip(v, 1e-10, np.inf)
+        return m, v
+
+    def get_fmin(self):
+        """
+        Returns the location where the posterior mean is takes its minimal value.
+        """
+        return self.model.predict(self.model.X_untransformed)[0].min()
-- 
2.43.0


From 80841cae09305b5150715549ef0321fd09faa27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 10/55] fix: let the warped GP be updated with more
 observations

GPy's WarpedGP cannot change the number of its observations, so the second
update of the model always raised ValueError.
---
 GPyOpt/models/warpedgpmodel.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..4eecf71 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -41,7 +41,7 @@ class WarpedGPModel(BOModel):
         # --- define model
         noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
 
-        self.model = GPy.models.WarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function, warping_terms=self.warping_terms )
+        self.model = GPy.models.WarpedGP(X, Y, kernel=self.kernel.copy(), warping_function=self.warping_function, warping_terms=self.warping_terms )
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
@@ -50,10 +50,8 @@ class WarpedGPModel(BOModel):
                 self.model.Gaussian_noise.constrain_positive(warning=False)
 
     def updateModel(self, X_all, Y_all, X_new, Y_new):
-        if self.model is None:
-            self._create_model(X_all, Y_all)
-        else:
-            self.model.set_XY(X_all, Y_all)
+        # GPy's warped GP cannot change its number of observations, so it is created again with the new data
+        self._create_model(X_all, Y_all)
 
         self.model.optimize(optimizer = self.optimizer, messages=self.verbose, max_iters=self.max_iters)
 
-- 
2.43.0


From fdc86024b76d040fb999e911aa671b55830c67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 11/55] fix: make the evaluation-time cost usable in the
 optimizers

The main class passed a cost object that was wrapped again as if it were a user
function, so the timed cost model was never updated and the first acquisition
failed. The durations of the initial design were dropped, column vectors of
durations were transposed, and categorical inputs were not encoded.
---
 GPyOpt/core/bo.py                       | 6 +++---
 GPyOpt/core/task/cost.py                | 6 +++++-
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 2d1db4c..6f7f6c9 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +200,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..f7cfabc 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -49,6 +49,10 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.num_updates == 0:
+            # nothing has been timed yet
+            return constant_cost_withGradients(x)
+
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
@@ -61,7 +65,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))
 
             if self.num_updates == 0:
                 X_all = x
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..19c66c3 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From c396f3fd6f7ac524402f2229c18a4497ba419405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 12/55] fix: support GP_MCMC surrogates in Thompson and
 local-penalization batches

Both are documented to work with GP_MCMC, whose predictions are lists with one
entry per hyper-parameter sample, and raised IndexError / TypeError.
---
 GPyOpt/acquisitions/LP.py                      | 7 ++++++-
 GPyOpt/optimization/anchor_points_generator.py | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..19029f1 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -52,7 +52,12 @@ class AcquisitionLP(AcquisitionBase):
         if x0 is None: return None, None
         if len(x0.shape)==1: x0 = x0[None,:]
         m = model.predict(x0)[0]
-        pred = model.predict(x0)[1].copy()
+        pred = model.predict(x0)[1]
+        if isinstance(m, list):
+            # one prediction per sample of the hyper-parameters: use their average
+            m = np.mean(m, axis=0)
+            pred = np.mean(pred, axis=0)
+        pred = pred.copy()
         pred[pred<1e-16] = 1e-16
         s = np.sqrt(pred)
         r_x0 = (m-Min)/L
diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 0c4e337..2a6e5a7 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -88,6 +88,12 @@ class ThompsonSamplingAnchorPointsGenerator(AnchorPointsGenerator):
 
         posterior_means, posterior_stds = self.model.predict(X)
 
+        if isinstance(posterior_means, list):
+            # one prediction per sample of the hyper-parameters: use a random one for each location
+            samples = np.random.randint(len(posterior_means), size=X.shape[0])
+            posterior_means = np.array(posterior_means)[samples, range(X.shape[0])]
+            posterior_stds = np.array(posterior_stds)[samples, range(X.shape[0])]
+
         return np.array([np.random.normal(m, s) for m, s in zip(posterior_means, posterior_stds)]).flatten()
 
 
-- 
2.43.0


From 86be0e62de205729df135956b22d702502fd1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 13/55] fix: penalizer width of local penalization

The models predict standard deviations, of which the square root was taken
again, so the penalized regions did not have the published width (sigma / L).
---
 GPyOpt/acquisitions/LP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 19029f1..3e3b206 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -59,7 +59,7 @@ class AcquisitionLP(AcquisitionBase):
             pred = np.mean(pred, axis=0)
         pred = pred.copy()
         pred[pred<1e-16] = 1e-16
-        s = np.sqrt(pred)
+        s = pred # the models predict standard deviations
         r_x0 = (m-Min)/L
         s_x0 = s/L
         r_x0 = r_x0.flatten()
-- 
2.43.0


From e5907b9342f53bb3b0b890e0947f11832c946cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 14/55] fix: gradient of the local penalization acquisition

The gradient of the penalizer lacked the direction from the batch points, and
the scale of the base acquisition was not broadcast over coordinates when
several locations are evaluated, so the gradient did not match the value.
---
 GPyOpt/acquisitions/LP.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 3e3b206..d942ab2 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -100,12 +100,11 @@ class AcquisitionLP(AcquisitionBase):
         dx = np.atleast_2d(x)[:,None,:]-np.atleast_2d(X_batch)[None,:,:]
         nm = np.sqrt((np.square(dx)).sum(-1))
         z = (nm- r_x0)/s_x0
-        h_func = norm.cdf(z)
-
-        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
-        d[h_func<1e-50] = 0.
-        d = d[:,:,None]
-        return d.sum(axis=1)
+        # derivative of log(cdf(z)) with respect to the distance (the distance is not differentiable at the center)
+        d = np.exp(norm.logpdf(z) - norm.logcdf(z))/s_x0
+        d[nm==0] = 0.
+        direction = dx/np.where(nm==0, 1., nm)[:,:,None]
+        return (d[:,:,None]*direction).sum(axis=1)
 
     def acquisition_function(self, x):
         """
@@ -125,9 +124,10 @@ class AcquisitionLP(AcquisitionBase):
             scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
         elif self.transform=='none':
             fval = -self.acq.acquisition_function(x)[:,0]
-            scale = 1./fval
+            scale = 1./(fval+1e-50)
         else:
-            scale = 1.
+            scale = np.ones(x.shape[0])
+        scale = scale[:,None]
 
         if self.X_batch is None:
             _, grad_acq_x = self.acq.acquisition_function_withGradients(x)
-- 
2.43.0


From e32d41a56703e568f0ce9bf5d323bfc248a3c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 15/55] fix: local penalization honours de-duplication

The duplicate manager was ignored, so batches could contain evaluated, pending,
ignored or repeated configurations although de-duplication was requested.
---
 .../core/evaluators/batch_local_penalization.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..dddf321 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -2,7 +2,9 @@
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
 from .base import EvaluatorBase
+import copy
 import scipy
+from ..errors import FullyExploredOptimizationDomainError
 from ...util.general import samples_multidimensional_uniform
 import numpy as np
 
@@ -28,8 +30,13 @@ class LocalPenalization(EvaluatorBase):
 
         self.acquisition.update_batches(None,None,None)
 
+        # --- Points of the batch must be different from each other if duplicates are not allowed
+        if duplicate_manager:
+            duplicate_manager = copy.copy(duplicate_manager)
+            duplicate_manager.unique_points = duplicate_manager.unique_points.copy()
+
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +47,13 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                duplicate_manager.unique_points.add(tuple(self.acquisition.space.zip_inputs(X_batch[-1:,:]).flatten()))
+            try:
+                new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
+            except FullyExploredOptimizationDomainError:
+                print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, k))
+                break
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
-- 
2.43.0


From db581f26b30900e92602495c86104ca8fd819bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 16/55] fix: de-duplication ignores configurations with all
 coordinates zero

np.any was used to test whether pending points, ignored points or a first batch
element are given, which is False as well when all their coordinates are zero.
---
 GPyOpt/core/evaluators/base.py   | 2 +-
 GPyOpt/util/duplicate_manager.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 4605887c8d20db81a0de6172ef546953baca917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 17/55] fix: batches of size one contain two points with
 de-duplication

The first element already fills the batch, but the size was only checked after
adding another one.
---
 GPyOpt/core/evaluators/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index 8cfa11f..bc248d5 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -62,6 +62,9 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) == self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From b52f236b64a69641f86007768f17f0b97c5ac22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 18/55] fix: grid designs without continuous variables

The number of points per dimension was computed as the 0-th root of the
requested number (ZeroDivisionError).
---
 GPyOpt/experiment_design/grid_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..ed1dc20 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -20,6 +20,9 @@ class GridDesign(ExperimentDesign):
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
+        if continuous_dims == 0:
+            # nothing to arrange in a grid
+            return init_points_count
         self.data_per_dimension = iroot(continuous_dims, init_points_count)
         return self.data_per_dimension**continuous_dims
 
-- 
2.43.0


From 7f39e16a049702465a0928ea5febd23aa6322d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 19/55] fix: never suggest infeasible points

The local optimizer or the rounding of its result may leave the feasible region,
where the masked acquisition (zero) can be better than at feasible points, e.g.
with LCB. Fall back to the feasible starting point in that case.
---
 GPyOpt/optimization/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..6df84ce 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -162,6 +162,10 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     suggested_x_with_context = add_context(optimized_x)
     suggested_x_with_context_rounded = space.round_optimum(suggested_x_with_context)
 
+    ## --- Rounding (or a step out of the feasible region) may violate the constraints: go back to the starting point then
+    if space.has_constraints() and not np.all(space.indicator_constraints(space.zip_inputs(suggested_x_with_context_rounded))):
+        return x0, np.atleast_2d(f(x0))
+
     ## --- Run duplicate_manager
     if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):
         suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
-- 
2.43.0


From 50649966e99e3ce57e8dbfae9b2835387caa8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 20/55] fix: context together with constraints

The constraints were evaluated on configurations without the context variables,
so that a suggestion with a context failed (IndexError) or used the wrong
coordinates.
---
 GPyOpt/optimization/anchor_points_generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 2a6e5a7..8d6c546 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -27,7 +27,9 @@ class AnchorPointsGenerator(object):
         ## --- We use the context handler to remove duplicates only over the non-context variables
         if context_manager and not self.space._has_bandit():
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
-            space = Design_space(space_configuration_without_context, context_manager.space.constraints)
+            # constraints are defined on complete configurations, so with a context they are checked after adding it
+            constraints = None if context_manager.context_index else context_manager.space.constraints
+            space = Design_space(space_configuration_without_context, constraints)
             add_context = lambda x : context_manager._expand_vector(x)
         elif context_manager:
             space = self.space
@@ -48,6 +50,17 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
+        ## --- Keep feasible points only, if this has not been taken care of by the design
+        if context_manager and context_manager.context_index and self.space.has_constraints():
+            is_feasible = lambda X : self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
+            X_feasible = X[is_feasible(X),:]
+            for _ in range(100):
+                if unique or self.design_type != 'random' or len(X_feasible) >= self.num_samples:
+                    break
+                X = add_context(space.unzip_inputs(initial_design(self.design_type, space, self.num_samples)))
+                X_feasible = np.vstack((X_feasible, X[is_feasible(X),:]))
+            X = X_feasible[:self.num_samples,:]
+
         if duplicate_manager:
             is_duplicate = duplicate_manager.is_unzipped_x_duplicate
         else:
-- 
2.43.0


From 0bc918f93d32a9e282fe2c584205436cd01fb571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 21/55] fix: contexts that fix all the variables

There is nothing left for the local optimizer in that case, which failed with an
empty problem instead of returning the context itself.
---
 GPyOpt/optimization/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 6df84ce..8b40357 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -155,8 +155,11 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(x0):
         raise ValueError("The starting point of the optimizer cannot be a duplicate.")
 
-    ## --- Optimize point
-    optimized_x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
+    ## --- Optimize point (unless all the variables are fixed by the context)
+    if context_manager and len(context_manager.noncontext_index) == 0:
+        optimized_x = problem.x0_nocontext
+    else:
+        optimized_x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
 
     ## --- Add context and round according to the type of variables of the design space
     suggested_x_with_context = add_context(optimized_x)
-- 
2.43.0


From c61d38e33ac34e2c2a5451f0a0eafb6e8c747238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 22/55] fix: parallel evaluation hangs with large results and
 failing objectives

The workers were joined before their results were read, which never ends
when a result does not fit in the pipe, and the failure of a worker was
never noticed because the parent kept the worker's end of the pipe open.
---
 GPyOpt/core/task/objective.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..1f5e854 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -86,18 +86,25 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        [p.join() for p in proc]
+        pipe = []
+        proc = []
+        for samples in divided_samples:
+            p, c = Pipe()
+            proc.append(Process(target=spawn(self._eval_func),args=(c,samples)))
+            proc[-1].start()
+            c.close() # only the worker holds this end now: the other one reports EOF if the worker fails
+            pipe.append(p)
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
-        i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
-            i += 1
+        try:
+            # the results need to be read before joining: workers with large results wait until they are read
+            for i, p in enumerate(pipe):
+                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        finally:
+            [p.close() for p in pipe]
+            [p.join() for p in proc]
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
-- 
2.43.0


From 84b1e65eaf97ea6ddbaed388fee2bdc69a1f43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 23/55] fix: num_cores is ignored by BayesianOptimization

The batch size was used as number of processes instead.
---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 19c66c3..6bbdaaa 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 772c9e8bbaa96b91ecd1f9af6138dd91e170e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 24/55] fix: inputs and outputs stay paired when the objective
 fails

---
 GPyOpt/core/bo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 6f7f6c9..0d78fda 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -149,12 +149,12 @@ class BO(object):
 
             self.suggested_sample = self._compute_next_evaluations()
 
-            # --- Augment X
-            self.X = np.vstack((self.X,self.suggested_sample))
-
             # --- Evaluate *f* in X, augment Y and update cost function (if needed)
             self.evaluate_objective()
 
+            # --- Augment X (once its evaluation has succeeded)
+            self.X = np.vstack((self.X,self.suggested_sample))
+
             # --- Update current evaluation time and function evaluations
             self.cum_time = time.time() - self.time_zero
             self.num_acquisitions += 1
-- 
2.43.0


From 5be23e290f3862a7c5b5711fbee3d1643a3839ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 25/55] fix: load_objective needs a module that python has
 removed

The standard library has no 'imp' any more. The main file is looked for in
the current folder, which has just been set to the project's one.
---
 GPyOpt/interface/func_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..62d6d92 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,10 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        import importlib.util
+        spec = importlib.util.spec_from_file_location(config['main-file'][:-3], os.path.join(os.getcwd(),config['main-file']))
+        m = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(m)
         func = m.__dict__[config['main-file'][:-3]]
     return func
 
-- 
2.43.0


From e8c4b2dbccbcbf80f0974629a7f65b7a294e4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 26/55] fix: configurations may replace a plain default by a
 section

---
 GPyOpt/interface/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/config_parser.py b/GPyOpt/interface/config_parser.py
index 7f3bdc6..cb97225 100644
--- a/GPyOpt/interface/config_parser.py
+++ b/GPyOpt/interface/config_parser.py
@@ -66,7 +66,7 @@ def update_config(config_new, config_default):
     '''
     if any([isinstance(v, dict) for v in list(config_new.values())]):
         for k,v in list(config_new.items()):
-            if isinstance(v,dict) and k in config_default:
+            if isinstance(v,dict) and isinstance(config_default.get(k),dict):
                 update_config(config_new[k],config_default[k])
             else:
                 config_default[k] = v
-- 
2.43.0


From 1865cb51fabd6e8d36d9e83ddd9a639be99eeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 27/55] fix: building a design space alters the caller's domain
 and constraints

---
 GPyOpt/core/task/space.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 3ca4ecd..59cf78d 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -81,6 +81,8 @@ class Design_space(object):
         # Because of the misspelling API used to expect "constrain" as a key
         # This fixes the API but also supports the old form
         if constraints is not None:
+            # the dictionaries belong to the caller: work on copies
+            constraints = [dict(c) for c in constraints]
             for c in constraints:
                 if 'constrain' in c:
                     c['constraint'] = c['constrain']
@@ -91,10 +93,13 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        # the configuration belongs to the caller: work on a copy
+        space = deepcopy(space)
         for d in space:
-            if isinstance(d['dimensionality'],six.string_types):
+            if isinstance(d.get('dimensionality'),six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-            d['domain'] = literal_eval(d['domain'])
+            if isinstance(d.get('domain'),six.string_types):
+                d['domain'] = literal_eval(d['domain'])
         return Design_space(space, None if len(constraints)==0 else constraints)
 
     def _expand_config_space(self):
-- 
2.43.0


From b09abb1a19b7d2f3983cd193b37b732ac8adac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 28/55] fix: calls to the objective in runs driven by a
 configuration

The objective's handler has no option to unfold the arguments.
---
 GPyOpt/interface/driver.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..12edd12 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -26,10 +26,29 @@ class BODriver(object):
         """
         Imports the acquisition function.
         """
+        import inspect
         obj_func = self.obj_func
-        
+
+        # columns of the configurations that belong to each one of the variables
+        columns, k = [], 0
+        for variable in space.space:
+            columns.append((variable.name, slice(k, k + variable.dimensionality)))
+            k += variable.dimensionality
+
+        def unfolded_func(x):
+            """
+            Calls the function with one (2-dimensional) argument per variable: by name if it has arguments with those
+            names and in the order of the variables in the configuration otherwise.
+            """
+            args = [(name, x[:, columns_var]) for name, columns_var in columns]
+            try:
+                inspect.signature(obj_func).bind(**dict(args))
+            except (TypeError, ValueError):
+                return obj_func(*[value for _, value in args])
+            return obj_func(**dict(args))
+
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        return SingleObjective(unfolded_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
-- 
2.43.0


From 046b3ca53d88e32c2f529c9655229b4a32fa02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 29/55] fix: limits of the runs driven by a configuration

The maximum running time is in minutes and both limits can be omitted.
---
 GPyOpt/interface/driver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 12edd12..d81b463 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -133,6 +133,11 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
-                              eps = self.config['resources']['tolerance'], verbosity=True)        
+        # --- Limits of the run: 'NA' means that the limit does not apply and the time is given in minutes
+        max_iter = self.config['resources']['maximum-iterations']
+        max_iter = max_iter if max_iter != 'NA' else None
+        max_time = self.config['resources']['max-run-time']
+        max_time = max_time*60. if max_time != 'NA' else np.inf
+
+        bo.run_optimization(max_iter = max_iter, max_time = max_time, eps = self.config['resources']['tolerance'], verbosity=True)
         return bo
-- 
2.43.0


From fa36f02e8dece1a219e2b5966e1995cf3b9316d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 30/55] fix: saved model parameters

The first row was overwritten by the next update of the model, and columns
of fixed or vector valued parameters had no label of their own.
---
 GPyOpt/models/gpmodel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..bc48640 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -162,13 +162,14 @@ class GPModel(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        # copy: the parameters of the model are changed in place when it is updated
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -346,10 +347,11 @@ class GPModel_MCMC(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        # copy: the parameters of the model are changed in place when it is updated
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From 51f93267046fcff11f0b1861512590e66d6ddba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 31/55] fix: copies of the models

The copies of GP models lost the sparse approximation and the mean function
and had their hyper-parameters estimated again (at random), and the one of
GP_MCMC models could not be created.
---
 GPyOpt/models/gpmodel.py              | 16 ++++++++++------
 GPyOpt/models/input_warped_gpmodel.py | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index bc48640..df38657 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -151,11 +151,14 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=None if self.mean_function is None else self.mean_function.copy())
 
-        copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        copied_model._create_model(self.model.X.copy(),self.model.Y.copy())
+        copied_model.model[:] = self.model[:].copy()
         return copied_model
 
     def get_model_parameters(self):
@@ -329,7 +332,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
@@ -339,8 +342,9 @@ class GPModel_MCMC(BOModel):
                                 leapfrog_steps= self.leapfrog_steps,
                                 verbose= self.verbose)
 
-        copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        copied_model._create_model(self.model.X.copy(),self.model.Y.copy())
+        copied_model.model[:] = self.model[:].copy()
+        copied_model.hmc_samples = self.hmc_samples.copy()
         return copied_model
 
     def get_model_parameters(self):
diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 3da0d80..896b3b3 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -114,3 +114,22 @@ class InputWarpedGPModel(GPModel):
         Returns the location where the posterior mean is takes its minimal value.
         """
         return self.model.predict(self.model.X_untransformed)[0].min()
+
+    def copy(self):
+        """
+        Makes a safe copy of the model.
+        """
+        copied_model = InputWarpedGPModel(self.space,
+                                          warping_function=self.warping_function,
+                                          kernel=self.model.kern.copy(),
+                                          noise_var=self.noise_var,
+                                          exact_feval=self.exact_feval,
+                                          optimizer=self.optimizer,
+                                          max_iters=self.max_iters,
+                                          optimize_restarts=self.optimize_restarts,
+                                          verbose=self.verbose,
+                                          ARD=self.ARD)
+
+        copied_model._create_model(self.model.X_untransformed.copy(), self.model.Y.copy())
+        copied_model.model[:] = self.model[:].copy()
+        return copied_model
-- 
2.43.0


From 936e32eaae546700744142dbd120e2792ce30f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 32/55] fix: covariances predicted by the models may be
 negative

---
 GPyOpt/models/gpmodel.py              | 13 ++++++++++++-
 GPyOpt/models/input_warped_gpmodel.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index df38657..7380143 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -96,9 +96,20 @@ class GPModel(BOModel):
         if X.ndim == 1:
             X = X[None,:]
         m, v = self.model.predict(X, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        v = self._clip_variances(v, full_cov)
         return m, v
 
+    @staticmethod
+    def _clip_variances(v, full_cov):
+        """
+        Keeps the variances positive. Covariances between different points may be negative.
+        """
+        if full_cov:
+            v = v.copy()
+            np.fill_diagonal(v, np.clip(np.diag(v), 1e-10, np.inf))
+            return v
+        return np.clip(v, 1e-10, np.inf)
+
     def predict(self, X, with_noise=True):
         """
         Predictions with the model. Returns posterior means and standard deviations at X. Note that this is different in GPy where the variances are given.
diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 896b3b3..032830b 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -106,7 +106,7 @@ class InputWarpedGPModel(GPModel):
             X = X[None,:]
         X_warped = self.model.transform_data(X, test_data=True)
         m, v = GPy.core.GP.predict(self.model, X_warped, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        v = self._clip_variances(v, full_cov)
         return m, v
 
     def get_fmin(self):
-- 
2.43.0


From 4cdbb26c4eed8da29319950a88c4942143ef7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 33/55] fix: covariances between points contain no observation
 noise

GPy adds the noise by default, which breaks entropy search.
---
 GPyOpt/models/gpmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 7380143..e3b7bb9 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -189,7 +189,8 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        # the noise of the observations at different points is independent
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From 5a213462ebdd9d929d728bb0f0d74f328a188805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:57 +0000
Subject: [PATCH 34/55] fix: the acquisition optimizer keeps its starting point
 if rounding makes it worse

In spaces with discrete variables the best known configuration was replaced
by the rounded result of the local optimizer whatever its value was.
---
 GPyOpt/optimization/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 8b40357..a978e24 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -175,6 +175,11 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     else:
         suggested_x, suggested_fx = suggested_x_with_context_rounded, f(suggested_x_with_context_rounded)
 
+        ## --- Rounding may have made things worse: go back to the starting point then
+        x0_rounded = space.round_optimum(x0)
+        if np.array_equal(x0_rounded, x0) and np.all(f(x0) < suggested_fx):
+            suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
+
     return suggested_x, suggested_fx
 
 
-- 
2.43.0


From 4b97876788ad0a5de847eade8dcb3d661912f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 35/55] fix: local optimization with a separate gradient
 function

---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index a978e24..cfc4ee8 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -41,7 +41,7 @@ class OptLbfgs(Optimizer):
         :param f_df: returns both the function to optimize and its gradient.
         """
         import scipy.optimize
-        if f_df is None and df is not None: f_df = lambda x: float(f(x)), df(x)
+        if f_df is None and df is not None: f_df = lambda x: (f(x), df(x))
         if f_df is not None:
             def _f_df(x):
                 return f(x), f_df(x)[1][0]
-- 
2.43.0


From d0113aaacaffe2908935c1825f4c92ff3acc4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 36/55] fix: CMA as acquisition optimizer

The installed versions only accept scalar function values. It also
seeded numpy's generator with the current time.
---
 GPyOpt/optimization/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index cfc4ee8..1558feb 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -119,11 +119,12 @@ class OptCma(Optimizer):
             import cma
             def CMA_f_wrapper(f):
                 def g(x):
-                    return f(np.array([x]))
+                    return np.asarray(f(np.array([x]))).item()
                 return g
             lB = np.asarray(self.bounds)[:,0]
             uB = np.asarray(self.bounds)[:,1]
-            x = cma.fmin(CMA_f_wrapper(f), x0, 0.6, options={"bounds":[lB, uB], "verbose":-1})[0]
+            # seed: keep the state of numpy's generator (by default it would be seeded with the current time)
+            x = cma.fmin(CMA_f_wrapper(f), np.ravel(x0), 0.6, options={"bounds":[lB, uB], "verbose":-1, "seed":np.nan})[0]
             return np.atleast_2d(x), f(np.atleast_2d(x))
         except ImportError:
             print("Cannot find cma library, please install it to use this option.")
-- 
2.43.0


From 60f5275208c31d2e50bc8cc9aa8a776e39bfd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 37/55] fix: options of the evaluator and model choosers

Unknown models and evaluators were silently replaced by None, a local
penalization acquisition given by the user could not be used, the warped GP
got none of the options and the documented name of the input warped GP was
not accepted.
---
 GPyOpt/util/arguments_manager.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..48fcd8c 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -20,6 +20,9 @@ class ArgumentsManager(object):
         """
         acquisition_transformation = self.kwargs.get('acquisition_transformation','none')
 
+        if evaluator_type not in [None, 'sequential', 'random', 'thompson_sampling', 'local_penalization']:
+            raise InvalidConfigError('Invalid evaluator selected.')
+
         if batch_size == 1 or evaluator_type == 'sequential':
             return Sequential(acquisition)
 
@@ -34,8 +37,8 @@ class ArgumentsManager(object):
                 raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
 
             if not isinstance(acquisition, AcquisitionLP):
-                acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
-            return LocalPenalization(acquisition_lp, batch_size)
+                acquisition = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
+            return LocalPenalization(acquisition, batch_size)
 
 
 
@@ -124,12 +127,12 @@ class ArgumentsManager(object):
         # --- Initialize WapedGP in the outputs
         # --------
         elif model_type =='warpedGP':
-            return WarpedGPModel()
+            return WarpedGPModel(kernel, noise_var, exact_feval, model_optimizer_type, max_iters, optimize_restarts, verbose=verbosity_model)
 
         # --------
         # --- Initialize WapedGP in the inputs
         # --------
-        elif model_type == 'input_warped_GP':
+        elif model_type in ['input_warped_GP', 'InputWarpedGP']:
             if 'input_warping_function_type' in self.kwargs:
                 if self.kwargs['input_warping_function_type'] != "kumar_warping":
                     print("Only support kumar_warping for input!")
@@ -140,3 +143,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected.')
-- 
2.43.0


From 52cab44bfb43d00c11848f0240ab5636ed2ac53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 38/55] fix: listing the arms of bandit variables of different
 lengths

---
 GPyOpt/core/task/space.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 59cf78d..f133026 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -441,6 +441,11 @@ class Design_space(object):
         for d in self.space:
             if d.type == 'bandit':
                 arms_bandit += tuple(map(tuple, d.domain))
+        if len(set(map(len, arms_bandit))) > 1:
+            # arms of different lengths do not fit in a matrix: keep them as tuples
+            arms = np.empty(len(arms_bandit), dtype=object)
+            arms[:] = arms_bandit
+            return arms
         return np.asarray(arms_bandit)
 
 
-- 
2.43.0


From 1e806755d09caccd20c67d0a28f1abdbc0527218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 39/55] fix: reports of modular optimizations and of
 constraints

The report failed for modular optimizations, always said that there are no
constraints and took the default size of the design for the number of
initial samples when these are given by the user.
---
 GPyOpt/core/bo.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 0d78fda..21a1ecd 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -56,6 +56,7 @@ class BO(object):
         self.model_parameters_iterations = None
         self.context = None
         self.num_acquisitions = 0
+        self.num_initial_samples = 0 if X_init is None else len(X_init)
 
     def suggest_next_locations(self, context = None, pending_X = None, ignored_X = None):
         """
@@ -320,6 +321,12 @@ class BO(object):
         :param report_file: name of the file in which the results of the optimization are saved.
         """
 
+        # --- Options of the modular optimization are the ones of its components
+        def option(name, value_modular):
+            return str(getattr(self, name, value_modular)).strip('[]')
+
+        acquisition_optimizer = getattr(self, 'acquisition_optimizer', getattr(self.acquisition, 'optimizer', None))
+
         with open(report_file,'w') as file:
             import GPyOpt
             import time
@@ -329,40 +336,37 @@ class BO(object):
             file.write('Date and time:               ' + time.strftime("%c")+'\n')
             if self.num_acquisitions==self.max_iter:
                 file.write('Optimization completed:      ' +'YES, ' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + str(self.num_initial_samples) +' \n')
             else:
                 file.write('Optimization completed:      ' +'NO,' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + str(self.num_initial_samples) +' \n')
 
             file.write('Tolerance:                   ' + str(self.eps) + '.\n')
             file.write('Optimization time:           ' + str(self.cum_time).strip('[]') +' seconds.\n')
 
             file.write('\n')
             file.write('--------------------------------' + ' Problem set up ' + '------------------------------------\n')
-            file.write('Problem name:                ' + self.objective_name +'\n')
+            file.write('Problem name:                ' + option('objective_name', getattr(self.objective, 'objective_name', 'no_name')) +'\n')
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
-            file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
+            file.write('Noiseless evaluations:       ' + option('exact_feval', getattr(self.model, 'exact_feval', False)) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
             file.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
-            file.write('Model type:                  ' + str(self.model_type).strip('[]') + '\n')
+            file.write('Model type:                  ' + option('model_type', type(self.model).__name__) + '\n')
             file.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
-
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
-                file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
+            file.write('Acquisition type:            ' + option('acquisition_type', type(self.acquisition).__name__) + '\n')
+            if hasattr(acquisition_optimizer, 'optimizer_name'):
+                file.write('Acquisition optimizer:       ' + str(acquisition_optimizer.optimizer_name).strip('[]') + '\n')
             else:
                 file.write('Acquisition optimizer:       None\n')
-            file.write('Evaluator type (batch size): ' + str(self.evaluator_type).strip('[]') + ' (' + str(self.batch_size) + ')' + '\n')
-            file.write('Cores used:                  ' + str(self.num_cores) + '\n')
+            file.write('Evaluator type (batch size): ' + option('evaluator_type', type(self.evaluator).__name__) + ' (' + option('batch_size', getattr(self.evaluator, 'batch_size', 1)) + ')' + '\n')
+            file.write('Cores used:                  ' + option('num_cores', getattr(self.objective, 'n_procs', 1)) + '\n')
 
             file.write('\n')
             file.write('---------------------------------' + ' Summary ' + '------------------------------------------\n')
-- 
2.43.0


From ca51c74aac0f5d5e5f1e02ddb18bb381ea920789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 40/55] fix: changes to the optimum or to the argument of the
 objective alter the history

---
 GPyOpt/core/bo.py             | 2 +-
 GPyOpt/core/task/objective.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 21a1ecd..34d3b82 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -209,7 +209,7 @@ class BO(object):
         Computes the optimum and its value.
         """
         self.Y_best = best_value(self.Y)
-        self.x_opt = self.X[np.argmin(self.Y),:]
+        self.x_opt = self.X[np.argmin(self.Y),:].copy()
         self.fx_opt = np.min(self.Y)
 
     def _distance_last_evaluations(self):
diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 1f5e854..1751866 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -71,7 +71,7 @@ class SingleObjective(Objective):
 
         for i in range(x.shape[0]):
             st_time    = time.time()
-            rlt = self.func(np.atleast_2d(x[i]))
+            rlt = self.func(np.array(x[i], ndmin=2)) # copy: the function may change its argument
             f_evals     = np.vstack([f_evals,rlt])
             cost_evals += [time.time()-st_time]
         return f_evals, cost_evals
-- 
2.43.0


From de0dc6a31bb9fcba042057fc4edcfdf2508399fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 41/55] fix: noise of the alpine1 function

The noise of every row was added to all the rows.
---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 2d34b25..5904d56 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -32,7 +32,7 @@ class alpine1:
         if self.sd ==0:
             noise = np.zeros(n).reshape(n,1)
         else:
-            noise = np.random.normal(0,self.sd,n)
+            noise = np.random.normal(0,self.sd,n).reshape(n,1)
         return fval.reshape(n,1) + noise
 
 
-- 
2.43.0


From d00c738b9605e7113252a49cd0ba1613e7498af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 42/55] fix: Beale and drop-wave functions

Beale was the Rosenbrock function, and both had the sign changed.
---
 GPyOpt/objective_examples/experiments2d.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 8264afb..f4c9286 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -85,9 +85,9 @@ class beale(function2d):
     '''
     def __init__(self,bounds=None,sd=None):
         self.input_dim = 2
-        if bounds is  None: self.bounds = [(-1,1),(-1,1)]
+        if bounds is  None: self.bounds = [(-4.5,4.5),(-4.5,4.5)]
         else: self.bounds = bounds
-        self.min = [(0, 0)]
+        self.min = [(3, 0.5)]
         self.fmin = 0
         if sd==None: self.sd = 0
         else: self.sd=sd
@@ -99,12 +99,14 @@ class beale(function2d):
         if X.shape[1] != self.input_dim:
             return 'Wrong input dimension'
         else:
-            fval = 100*(X[:,1]-X[:,0]**2)**2 + (X[:,0]-1)**2
+            x1 = X[:,0]
+            x2 = X[:,1]
+            fval = (1.5 - x1 + x1*x2)**2 + (2.25 - x1 + x1*x2**2)**2 + (2.625 - x1 + x1*x2**3)**2
             if self.sd ==0:
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class dropwave(function2d):
@@ -119,7 +121,7 @@ class dropwave(function2d):
         if bounds is  None: self.bounds = [(-1,1),(-1,1)]
         else: self.bounds = bounds
         self.min = [(0, 0)]
-        self.fmin = 0
+        self.fmin = -1
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'dropwave'
@@ -135,7 +137,7 @@ class dropwave(function2d):
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class cosines(function2d):
-- 
2.43.0


From 1028b1f0413a524366218ba2e4c4546e7d0ec748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 43/55] fix: documented minima of the cosines, Forrester and
 Ackley functions

---
 GPyOpt/objective_examples/experiments1d.py | 4 ++--
 GPyOpt/objective_examples/experiments2d.py | 4 ++--
 GPyOpt/objective_examples/experimentsNd.py | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments1d.py b/GPyOpt/objective_examples/experiments1d.py
index a6c0772..bb98a2b 100644
--- a/GPyOpt/objective_examples/experiments1d.py
+++ b/GPyOpt/objective_examples/experiments1d.py
@@ -29,8 +29,8 @@ class forrester(function1d):
 		self.input_dim = 1		
 		if sd==None: self.sd = 0
 		else: self.sd=sd
-		self.min = 0.78 		## approx
-		self.fmin = -6 			## approx
+		self.min = 0.757249 	## approx
+		self.fmin = -6.020740 	## approx
 		self.bounds = [(0,1)]
 
 	def f(self,X):
diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index f4c9286..6e2d51d 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -151,8 +151,8 @@ class cosines(function2d):
         self.input_dim = 2
         if bounds is  None: self.bounds = [(0,1),(0,1)]
         else: self.bounds = bounds
-        self.min = [(0.31426205,  0.30249864)]
-        self.fmin = -1.59622468
+        self.min = [(0.3125,  0.3125)]
+        self.fmin = -1.6
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'Cosines'
diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 5904d56..0b2fc28 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -112,7 +112,7 @@ class ackley:
         else: 
             self.bounds = bounds
 
-        self.min = [(0.)*self.input_dim]
+        self.min = [(0.)]*self.input_dim
         self.fmin = 0
         
         if sd==None: 
@@ -122,7 +122,6 @@ class ackley:
 
     def f(self,X):
         X = reshape(X,self.input_dim)
-        print(X)
         n = X.shape[0]
         fval = (20+np.exp(1)-20*np.exp(-0.2*np.sqrt((X**2).sum(1)/self.input_dim))-np.exp(np.cos(2*np.pi*X).sum(1)/self.input_dim))
         
-- 
2.43.0


From 766941cdbf4202f10bb0cee23f4b3d16a2b02b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 44/55] fix: savers with an interval miss the final iteration

---
 GPyOpt/interface/output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPyOpt/interface/output.py b/GPyOpt/interface/output.py
index a60e160..262291f 100644
--- a/GPyOpt/interface/output.py
+++ b/GPyOpt/interface/output.py
@@ -91,8 +91,7 @@ class OutputEng(object):
         self.offsets.append(X.shape[0])
         
         for i in range(len(self.data_savers)):
-            if final:
-                if self.clock[i]==-1: self.clock[i] = 0
+            if final and self.clock[i]==-1: self.clock[i] = 0
             elif self.clock[i]>0: self.clock[i] += -1
             if self.clock[i]==0:
                 self.data_savers[i].save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
-- 
2.43.0


From 0ae26b075f3eb83aa1087f0da86d68d62461e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 45/55] fix: constraints on categorical variables with a single
 category

The acquisitions checked the constraints on the indicator instead of on the category.
---
 GPyOpt/acquisitions/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/acquisitions/base.py b/GPyOpt/acquisitions/base.py
index 117f224..bf74deb 100644
--- a/GPyOpt/acquisitions/base.py
+++ b/GPyOpt/acquisitions/base.py
@@ -36,7 +36,7 @@ class AcquisitionBase(object):
         """
         f_acqu = self._compute_acq(x)
         cost_x, _ = self.cost_withGradients(x)
-        x_z = x if self.space.model_dimensionality == self.space.objective_dimensionality else self.space.zip_inputs(x)
+        x_z = self.space.zip_inputs(x) if self.space.has_types['categorical'] else x
         return -(f_acqu*self.space.indicator_constraints(x_z))/cost_x
 
 
@@ -48,7 +48,7 @@ class AcquisitionBase(object):
         cost_x, cost_grad_x = self.cost_withGradients(x)
         f_acq_cost = f_acqu/cost_x
         df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/(cost_x**2)
-        x_z = x if self.space.model_dimensionality == self.space.objective_dimensionality else self.space.zip_inputs(x)
+        x_z = self.space.zip_inputs(x) if self.space.has_types['categorical'] else x
         return -f_acq_cost*self.space.indicator_constraints(x_z), -df_acq_cost*self.space.indicator_constraints(x_z)
 
     def optimize(self, duplicate_manager=None):
-- 
2.43.0


From be713f2169e885d045eb89d7bb3c5552e835320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 46/55] fix: input warped GP fails in spaces without continuous
 or discrete variables

---
 GPyOpt/models/input_warped_gpmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 032830b..0592f19 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -84,7 +84,12 @@ class InputWarpedGPModel(GPModel):
         # the warping is only defined between Xmin and Xmax, so these have to cover the whole domain
         bounds = np.array(self.space.get_bounds(), dtype=float)
 
-        self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel.copy(), warping_function=self.warping_function,
+        warping_function = self.warping_function
+        if warping_function is None and not model_warping_indices:
+            # there is nothing to warp in a space without continuous and discrete variables
+            warping_function = GPy.util.input_warping_functions.IdentifyWarping()
+
+        self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel.copy(), warping_function=warping_function,
                                               warping_indices=model_warping_indices, Xmin=bounds[:,0], Xmax=bounds[:,1])
 
         # --- restrict variance if exact evaluations of the objective
-- 
2.43.0


From bdeeb60133a8f7d557ce7b61a4b33a226ec5f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 47/55] fix: Thompson sampling batches with surrogates or
 acquisitions which do not provide gradients

---
 GPyOpt/core/evaluators/batch_thompson.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/batch_thompson.py b/GPyOpt/core/evaluators/batch_thompson.py
index ec86187..d8cd39e 100644
--- a/GPyOpt/core/evaluators/batch_thompson.py
+++ b/GPyOpt/core/evaluators/batch_thompson.py
@@ -2,6 +2,7 @@
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
 from .base import SamplingBasedBatchEvaluator
+from ...models.base import BOModel
 from ...optimization.anchor_points_generator import ThompsonSamplingAnchorPointsGenerator
 from ...optimization.optimizer import OptLbfgs, apply_optimizer, choose_optimizer
 import numpy as np
@@ -21,7 +22,14 @@ class ThompsonBatch(SamplingBasedBatchEvaluator):
         self.model              = self.acquisition.model
         self.optimizer_name     = 'lbfgs'
         self.f                  = self.acquisition.acquisition_function
-        self.f_df               = self.acquisition.acquisition_function_withGradients
+
+        ### --- gradients are optional, both in the acquisitions and in the models
+        model_gradients = getattr(type(self.model), 'predict_withGradients', None) not in [None, BOModel.predict_withGradients]
+        if self.acquisition.analytical_gradient_prediction and model_gradients:
+            self.f_df           = self.acquisition.acquisition_function_withGradients
+        else:
+            self.f_df           = None
+
         self.space              = self.acquisition.space
 
     def initialize_batch(self, duplicate_manager=None, context_manager=None):
-- 
2.43.0


From e4f96251c3adbcd7cc294676deb3b866bd43218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 48/55] fix: batches without duplicates are not filled although
 fresh anchor points remain

---
 GPyOpt/core/evaluators/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index bc248d5..af5e954 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -80,6 +80,17 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
+        # Anchor points whose optimized version has been taken may still be free
+        for a in anchor_points:
+            if len(batch) == self.batch_size:
+                break
+
+            zipped_a = self.zip_and_tuple(a)
+
+            if zipped_a not in already_suggested_points:
+                batch.append(a)
+                already_suggested_points.add(zipped_a)
+
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From 8633856664cca1c89eca959cef8fc06ffe319294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:40 +0000
Subject: [PATCH 49/55] fix: normalizing constant outputs gives zeros whatever
 the rounding of their mean

---
 GPyOpt/util/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/util/general.py b/GPyOpt/util/general.py
index b280496..1a0bc2c 100644
--- a/GPyOpt/util/general.py
+++ b/GPyOpt/util/general.py
@@ -217,6 +217,9 @@ def normalize(Y, normalization_type='stats'):
     # Only normalize with non null sdev (divide by zero). For only one
     # data point both std and ptp return 0.
     if normalization_type == 'stats':
+        if np.ptp(Y) == 0:
+            # the mean of equal values may differ from them in the last digit
+            return np.zeros_like(Y)
         Y_norm = Y - Y.mean()
         std = Y.std()
         if std > 0:
-- 
2.43.0


From a108cee5fb4e9e187d17d7507a70db1dda1b8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 50/55] fix: latin designs follow the random seed set by the
 user

---
 GPyOpt/experiment_design/latin_design.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/latin_design.py b/GPyOpt/experiment_design/latin_design.py
index 66bfbf0..d896a43 100644
--- a/GPyOpt/experiment_design/latin_design.py
+++ b/GPyOpt/experiment_design/latin_design.py
@@ -37,7 +37,11 @@ class LatinDesign(ExperimentDesign):
             diff = upper_bound - lower_bound
 
             from pyDOE import lhs
-            X_design_aux = lhs(len(self.space.get_continuous_bounds()), init_points_count, criterion=criterion)
+            try:
+                # Recent versions of pyDOE only follow the seed set by the user in numpy if it is handed over
+                X_design_aux = lhs(len(bounds), init_points_count, criterion=criterion, seed=np.random.randint(2**31 - 1))
+            except TypeError:
+                X_design_aux = lhs(len(bounds), init_points_count, criterion=criterion)
             I = np.ones((X_design_aux.shape[0], 1))
             X_design = np.dot(I, lower_bound) + X_design_aux * np.dot(I, diff)
 
-- 
2.43.0


From 06d06c68567c33b440ecd7900ff7b2248f16e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 51/55] fix: ensemble sampler follows the random seed set by
 the user

---
 GPyOpt/util/mcmc_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/mcmc_sampler.py b/GPyOpt/util/mcmc_sampler.py
index 091435a..c727241 100644
--- a/GPyOpt/util/mcmc_sampler.py
+++ b/GPyOpt/util/mcmc_sampler.py
@@ -1,4 +1,5 @@
 import emcee
+import numpy as np
 
 from ..experiment_design import initial_design
 
@@ -49,7 +50,9 @@ class AffineInvariantEnsembleSampler(McmcSampler):
         """
         restarts = initial_design('random', self.space, n_samples)
         sampler = emcee.EnsembleSampler(n_samples, self.space.input_dim(), log_p_function)
-        samples, samples_log, _ = sampler.run_mcmc(restarts, burn_in_steps)
+        # the sampler has a random state of its own: derive it from the one of numpy, so that the user can seed it
+        random_state = np.random.RandomState(np.random.randint(2**31 - 1)).get_state()
+        samples, samples_log, _ = sampler.run_mcmc(restarts, burn_in_steps, rstate0=random_state)
 
         # make sure we have an array of shape (n samples, space input dim)
         if len(samples.shape) == 1:
-- 
2.43.0


From 167dcf476d5e13319528ea280a9549e0156085d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:03 +0000
Subject: [PATCH 52/55] fix: second derivatives of the probabilities of the
 minimum

---
 GPyOpt/util/epmgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/epmgp.py b/GPyOpt/util/epmgp.py
index e9514a4..6d2659d 100644
--- a/GPyOpt/util/epmgp.py
+++ b/GPyOpt/util/epmgp.py
@@ -113,7 +113,7 @@ def joint_min(mu, var, with_derivatives=False, **kwargs):
 
     ff = np.einsum('ki,kj->kij', dlogPdMuold, dlogPdMuold)
     gg = np.einsum('kij,k->ij', dlogPdMudMuold + ff, np.exp(logPold)) / Z
-    Zij = Zm.T * Zm
+    Zij = np.outer(Zm, Zm)
     adds = np.reshape(-gg + Zij, (1, D, D))
     dlogPdMudMu = dlogPdMudMuold + adds
     return logP, dlogPdMu, dlogPdSigma, dlogPdMudMu
-- 
2.43.0


From 28db95aa4776fd04f7be1b71fcc979e9a129ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 53/55] fix: plotting the acquisition keeps the state of the
 run

---
 GPyOpt/core/bo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 34d3b82..fa20846 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -291,13 +291,18 @@ class BO(object):
         else:
             model_to_plot = self.model
 
+        # the suggestion is only shown: it does not start a new run
+        num_acquisitions, model_parameters_iterations = self.num_acquisitions, self.model_parameters_iterations
+        suggested_sample = self.suggest_next_locations(self.context)
+        self.num_acquisitions, self.model_parameters_iterations = num_acquisitions, model_parameters_iterations
+
         return plot_acquisition(self.acquisition.space.get_bounds(),
                                 model_to_plot.model.X.shape[1],
                                 model_to_plot.model,
                                 model_to_plot.model.X,
                                 model_to_plot.model.Y,
                                 self.acquisition.acquisition_function,
-                                self.suggest_next_locations(),
+                                suggested_sample,
                                 filename,
                                 label_x,
                                 label_y)
-- 
2.43.0


From 06e5de58bf980a9398110341d617dd6024ef6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 54/55] fix: plot the acquisition in the coordinates of the
 model

---
 GPyOpt/core/bo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index fa20846..d0d1c9c 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -287,13 +287,13 @@ class BO(object):
                 Y = normalize(self.Y, self.normalization_type)
             else:
                 Y = self.Y
-            model_to_plot.updateModel(self.X, Y, self.X, Y)
+            model_to_plot.updateModel(self.space.unzip_inputs(self.X), Y, None, None)
         else:
             model_to_plot = self.model
 
         # the suggestion is only shown: it does not start a new run
         num_acquisitions, model_parameters_iterations = self.num_acquisitions, self.model_parameters_iterations
-        suggested_sample = self.suggest_next_locations(self.context)
+        suggested_sample = self.space.unzip_inputs(self.suggest_next_locations(self.context))
         self.num_acquisitions, self.model_parameters_iterations = num_acquisitions, model_parameters_iterations
 
         return plot_acquisition(self.acquisition.space.get_bounds(),
-- 
2.43.0


From 6e7a299f3b3037fd8dac4991220c9f74cc8a5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 55/55] fix: the convergence can be plotted before a run has
 finished

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index d0d1c9c..fda31cf 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -314,7 +314,7 @@ class BO(object):
             plot 2: Iterations vs. the mean of the current model in the selected sample.
         :param filename: name of the file where the plot is saved
         """
-        return plot_convergence(self.X,self.Y_best,filename)
+        return plot_convergence(self.X, best_value(self.Y), filename)
 
     def get_evaluations(self):
         return self.X.copy(), self.Y.copy()
-- 
2.43.0

