From 1723413a1f6fee9b938cc96c2663a2c3d347c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 01/93] fix: count traces ending in a dead-end state in the
 single-process loglikelihood

---
 jajapy/base/Model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3741de2..45bf5a1 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -331,8 +331,11 @@ class Model:
 					common += 1
 					
 			alpha_matrix = self._updateAlphaMatrix(sequence,common,alpha_matrix)
-			if alpha_matrix[-1].sum() > 0:
-				loglikelihood += log(alpha_matrix[-1].sum()) * times
+			# the last observation only constrains the state: it doesn't
+			# require this state to have a leaving transition.
+			proba = dot(alpha_matrix[-2],array([self.b(s,sequence[-1]) for s in range(self.nb_states)]))
+			if proba > 0:
+				loglikelihood += log(proba) * times
 
 		return loglikelihood / sum(sequences.times)
 
-- 
2.43.0


From 703e1eb51a98294f1756032168ff7519362524b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 02/93] fix: probability of leaving an absorbing CTMC state is
 0, not nan

---
 jajapy/ctmc/CTMC.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 872e9b4..6a00936 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,7 +131,11 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
-		return self.l(s1,s2, obs)/self.e(s1)
+		e = self.e(s1)
+		if e == 0.0: # s1 is absorbing
+			self._checkStateIndex(s2)
+			return 0.0
+		return self.l(s1,s2, obs)/e
 	
 	def expected_time(self, s:int) -> float:
 		"""
-- 
2.43.0


From d636f49fe3e76840a567281529c760dc6c1a7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 03/93] fix: probability of leaving an absorbing PCTMC state is
 0, not inf

---
 jajapy/pctmc/PCTMC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a90d86c..17f59f0 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -140,8 +140,9 @@ class PCTMC(Parametric_Model):
 		"""
 		try:
 			e = self.e(s1)
-			if e == 0.0:
-				return inf
+			if e == 0.0: # s1 is absorbing
+				self._checkStateIndex(s2)
+				return 0.0
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From 214c4699c7f55a8fc38b8721722d8e140ff11a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 04/93] fix: a timed trace that a PCTMC cannot generate no
 longer aborts its loglikelihood

---
 jajapy/pctmc/PCTMC.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 17f59f0..390e414 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -335,7 +335,11 @@ class PCTMC(Parametric_Model):
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
 		last_arr = prev_arr * (array(self.labelling) == obs_seq[-1])
-		return log(last_arr.sum())*times
+		try:
+			res = log(last_arr.sum())*times
+		except ValueError:
+			return False
+		return res
 
 	def logLikelihood(self,traces: Set) -> float:
 		"""
@@ -365,6 +369,10 @@ class PCTMC(Parametric_Model):
 				temp = [res.get() for res in tasks if res.get() != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
+				while False in temp:
+					temp.remove(False)
+			if len(temp) == 0:
+				return -9999
 			return sum(temp)/sum(traces.times)
 
 	def save(self,file_path:str) -> None:
-- 
2.43.0


From c088be104339ba5f3724b770ebf62f259c25b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 05/93] fix: loglikelihood of untimed traces under a PCTMC
 (missing label probability)

---
 jajapy/base/Parametric_Model.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index a6e29e0..8d8e957 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -334,6 +334,26 @@ class Parametric_Model(Model):
 		self._checkStateIndex(state)
 		return self.labelling[state]
 	
+	def b(self,state: int, label: str) -> float:
+		"""
+		Returns 1.0 if `state` is labelled with `label`, 0.0 otherwise.
+
+		Parameters
+		----------
+		state : int
+			a state ID
+		label : str
+			a label
+
+		Returns
+		-------
+		float
+			1.0 if `state` is labelled with `label`, 0.0 otherwise.
+		"""
+		if self.getLabel(state) == label:
+			return 1.0
+		return 0.0
+
 	def getAlphabet(self) -> list:
 		"""
 		Returns the alphabet of this model.
-- 
2.43.0


From 5c2904603d42d2bd80a2d57ed571937784b19a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 06/93] fix: loglikelihood on a machine with a single CPU

---
 jajapy/base/Model.py  | 2 +-
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/mdp/MDP.py     | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 45bf5a1..594137f 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -340,7 +340,7 @@ class Model:
 		return loglikelihood / sum(sequences.times)
 
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 6a00936..b4aa2b1 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -251,7 +251,7 @@ class CTMC(Base_MC):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 551def5..cabdd43 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -406,7 +406,7 @@ class MDP(Base_MC):
 		return alpha_matrix
 	
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 390e414..5941223 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -362,7 +362,7 @@ class PCTMC(Parametric_Model):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-- 
2.43.0


From b9450e772315649f3368bb823b6efd9de2b93dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 07/93] fix: a timed trace of density exactly 1 is not an
 impossible trace

---
 jajapy/ctmc/CTMC.py   | 5 ++---
 jajapy/pctmc/PCTMC.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index b4aa2b1..4423cf9 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -255,11 +255,10 @@ class CTMC(Base_MC):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+			temp = [i for i in temp if i is not False] # 0.0 is a valid loglikelihood
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 5941223..a830675 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -366,11 +366,10 @@ class PCTMC(Parametric_Model):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+			temp = [i for i in temp if i is not False] # 0.0 is a valid loglikelihood
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From aa5914bb1dac7f1821681e1333798502d26c9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 08/93] fix: single-process learning ignores the traces the
 hypothesis cannot generate

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 43ed06d..7861360 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1646,7 +1646,8 @@ class BW:
 				tasks.append(p.apply_async(self._processWork, [seq, times,]))
 			return [res.get() for res in tasks if res.get() != False]
 		else:
-			return [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			res = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			return [i for i in res if i != False]
 	
 	def _endPrint(self,it,rt):
 		print()
-- 
2.43.0


From 9f7a9a1ed6eb84211376d6a9837d8a84e4cf65e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 09/93] fix: learning no longer inserts 'init' in the training
 set of the user

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 7861360..79e7c7b 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1454,8 +1454,8 @@ class BW:
 			else:
 				self.alphabet = training_set.getAlphabet()
 			if not 'init' in self.alphabet:
-				for s in range(len(training_set.sequences)):
-					training_set.sequences[s].insert(0,'init')
+				# on a copy: the set given by the user is left unchanged
+				training_set = Set([['init']+list(s) for s in training_set.sequences],training_set.times,training_set.type)
 			else:
 				self.alphabet.remove('init')
 
-- 
2.43.0


From 0fe226c6242965ae2644e9e85975c3137037f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 10/93] fix: a BW object can be used for several kinds of
 models one after another

---
 jajapy/base/BW.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 79e7c7b..7f7c3bb 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -178,6 +178,7 @@ class BW:
 			stormpy_output: bool = True,fixed_parameters: ndarray = False,
 			update_constant :bool = True, min_val: float = None, max_val: float = None):	
 
+		self._forgetPreviousLearning()
 		self._getInitialModel(initial_model,nb_states)
 		self._getTrainingSet(training_set)
 		if self.h == None:
@@ -1319,6 +1320,7 @@ class BW:
 			- the dictionary described above,
 			- the `returned_data` (see parameter description).
 		"""
+		self._forgetPreviousLearning()
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
@@ -1413,6 +1415,14 @@ class BW:
 
 
 	# General------------------------------------------------------------------
+	def _forgetPreviousLearning(self):
+		"""
+		Removes the methods selected by a previous call to `fit` (maybe for
+		another kind of model).
+		"""
+		for m in ['_h_tau','_h_e','_h_l','_computeAlphas','_computeBetas','_computeTaus']:
+			self.__dict__.pop(m,None)
+
 	def _getInitialModel(self,initial_model, nb_states: int):
 
 		if initial_model == None:
-- 
2.43.0


From a12877de72e28b59be0005ea8be99da350ba1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 11/93] fix: learning from timed traces whose dwell times are
 not python floats, or without any transition

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 7f7c3bb..86634d3 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -695,7 +695,7 @@ class BW:
 			a tuple containing a sequence of observations and a sequence of
 			waiting times.
 		"""
-		if type(sequence[1]) == float and type(sequence[0]) == str:
+		if self.training_set.type == 4:
 			times_seq = [sequence[i] for i in range(1,len(sequence),2)]
 			obs_seq   = [sequence[i] for i in range(0,len(sequence),2)]
 		else:
-- 
2.43.0


From d1e51875286ce60fd5799ffcad53491a7384fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 12/93] fix: fixed rates leaving a state never visited are no
 longer doubled

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 86634d3..d69777d 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -748,7 +748,7 @@ class BW:
 				num[s] = self.h.matrix[s]
 
 		matrix = num/den[:, newaxis]
-		matrix = self.h.matrix*self.fixed_parameters + matrix
+		matrix = where(self.fixed_parameters,self.h.matrix,matrix)
 
 		self.h.matrix = matrix
 		return currentloglikelihood
-- 
2.43.0


From 1ed4afc783302e393a9602d6b67c69049108e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 13/93] fix: the deviations of a GoHMM state never visited are
 no longer changed by the learning

---
 jajapy/base/BW.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index d69777d..83364f4 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -844,6 +844,7 @@ class BW:
 			if den[s] == 0.0:
 				den[s] = 1.0
 				mu[s], va[s] = self.h.output[s].T
+				va[s] = va[s]**2 # its square root is the standard deviation
 				a[s] = self.h.matrix[s]
 		
 		output_mu = (mu.T/den).T
-- 
2.43.0


From 816280114ca256389bdf7014aee8c3ecca7fb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 14/93] fix: a Set whose first trace contains one observation
 only can be created without giving its type

---
 jajapy/base/Set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b3f0452..b68c92d 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,9 +34,15 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			# a trace with less than two elements doesn't tell if it is timed or not
+			first = sequences[0]
+			for s in sequences:
+				if len(s) > 1:
+					first = s
+					break
+			if len(first) > 1 and (type(first[1])  == float64 or type(first[1])  == float) and type(first[0])  == str:
 				self.type = 4 # timed CTMC
-			elif type(sequences[0][0])  == list:
+			elif len(first) > 0 and type(first[0])  == list:
 				self.type = 3 # GoHMM
 			else:
 				self.type = 0 # HMM or MC or non-timed CTMC
-- 
2.43.0


From f05c7d80e976303e69b637164fe19e7aafa46431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 15/93] fix: PCTMC learning with the default fixed_parameters,
 or with an array of fixed transitions

---
 jajapy/base/BW.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 83364f4..6241bb1 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -250,9 +250,17 @@ class BW:
 				self._computeBetas  = self._computeBetas_timed_matrix
 			self.nb_parameters = self.h.nb_parameters
 			self.update_constant = update_constant
+			self.fixed_transitions = full(self.h.matrix.shape,False)
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
+			if type(fixed_parameters) == bool:
+				fixed_parameters = []
+			elif type(fixed_parameters) == ndarray:
+				# the transitions set to True are fixed, hence all their parameters are.
+				self.fixed_transitions = fixed_parameters
+				fixed_parameters = [p for p in self.h.parameter_str if
+									any([self.fixed_transitions[s,ss] for s,ss in self.h.parameterIndexes(p)])]
 			self._sortParameters(fixed_parameters)
 
 		elif self.type_model == HMM_ID:
@@ -1084,7 +1092,7 @@ class BW:
 			num_cste = array(self.h.transition_expr)
 			den_cste = ones(len(num_cste))
 			for itrans,trans in enumerate(self.h.transition_expr[1:]):
-				if trans.is_real:
+				if trans.is_real and not self.fixed_transitions[self.h.matrix == itrans+1].any():
 					s,ss = where(self.h.matrix == itrans+1)
 					s,ss = s[0],ss[0]
 					if timed:
-- 
2.43.0


From d4e69c382a69e569b9f0c537422ebe12aed64160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 16/93] fix: alpha values of a timed trace have as many columns
 as the beta values (PCTMC learning)

---
 jajapy/base/BW.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 6241bb1..1522272 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -576,10 +576,11 @@ class BW:
 
 		pi = self.h.initial_state
 
-		alpha = empty((n_obs + 1, self.nb_states))
+		alpha = empty((n_obs, self.nb_states))
 		alpha[0] = pi
-		for t in range(1, n_obs + 1):
+		for t in range(1, n_obs):
 			alpha[t] = tau.T @ (phi[t - 1] * alpha[t - 1])
+		alpha[-1] *= phi[-1]
 
 		return alpha.T
 
-- 
2.43.0


From 5cd49dda585686dba01bdd31bea8180397368e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 17/93] fix: PCTMC learning from non-timed traces

---
 jajapy/base/BW.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 1522272..2eea90e 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1509,7 +1509,7 @@ class BW:
 			self.type_model = CTMC_ID
 			self.h = CTMC_random(nb_states,self.alphabet,min_exit_rate_time,max_exit_rate_time,self_loop,random_initial_state)
 
-	def _computeAlphas_matrix(self, sequence: list[str]) -> array:
+	def _computeAlphas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the alpha values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1518,6 +1518,8 @@ class BW:
 		----------
 		sequence : list of str
 			sequence of observations.
+		times_seq : None
+			Not used (the trace is not timed).
 
 		Returns
 		-------
@@ -1582,7 +1584,7 @@ class BW:
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
 		return alpha_matrix.T
 
-	def _computeBetas_matrix(self, sequence: list[str]) -> array:
+	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the beta values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1591,9 +1593,8 @@ class BW:
 		----------
 		sequence : list of str
 			sequence of observations.
-		dtype : numpy.scalar
-			If it set, the output will be a numpy array of this type,
-			otherwise it is a numpy array of float64.
+		times_seq : None
+			Not used (the trace is not timed).
 
 		Returns
 		-------
-- 
2.43.0


From e281e1ecdcff185809160e8ff57a838df00c308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 18/93] fix: PCTMC learning: an absorbing state is left with
 probability 0, not inf

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 2eea90e..8fb469c 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1073,8 +1073,8 @@ class BW:
 		if self.h.labelling[s1] != obs:
 			return 0.0
 		e = self._h_e(s1)
-		if e == 0.0:
-			return inf
+		if e == 0.0: # s1 is absorbing
+			return 0.0
 		return self.hval[s1,s2]/e
 
 	def _processWork_PCTMC(self,sequence: list, times: int):
-- 
2.43.0


From 2dae8dcf0b12826f488c933b15571ba26b1dc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 19/93] fix: PCTMC learning updates a constant from all its
 transitions, keeping the scale of the rates

---
 jajapy/base/BW.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 8fb469c..67b6543 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1090,19 +1090,21 @@ class BW:
 			return False
 		####################
 		if self.update_constant:
-			num_cste = array(self.h.transition_expr)
-			den_cste = ones(len(num_cste))
+			num_cste = zeros(len(self.h.transition_expr))
+			den_cste = zeros(len(self.h.transition_expr))
 			for itrans,trans in enumerate(self.h.transition_expr[1:]):
 				if trans.is_real and not self.fixed_transitions[self.h.matrix == itrans+1].any():
-					s,ss = where(self.h.matrix == itrans+1)
-					s,ss = s[0],ss[0]
-					if timed:
-						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
-					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
-					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
+					# several transitions may share the same constant
+					for s,ss in zip(*where(self.h.matrix == itrans+1)):
+						if self.hval[s,ss] == 0.0:
+							continue
+						if timed:
+							p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
+							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
+						else:
+							p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
+						num_cste[itrans+1] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
 			num_cste = None
@@ -1177,11 +1179,8 @@ class BW:
 		if self.update_constant:
 			den_cste = array([i[0] for i in temp]).sum(axis=0)
 			num_cste = array([i[1] for i in temp]).sum(axis=0)
-			for p in range(len(den_cste)):
-				if den_cste[p] == 0.0:
-					den_cste[p] = 1.0
-					num_cste[p] = self.h.transition_expr[p]
-			self.h.transition_expr = [sympify(i) for i in (num_cste/den_cste).tolist()]
+			self.h.transition_expr = [sympify(float(n/d)) if d != 0.0 else e
+									  for n,d,e in zip(num_cste,den_cste,self.h.transition_expr)]
 	
 		for p in range(len(den_cat1)):
 			if den_cat1[p] == 0.0:
-- 
2.43.0


From a9817ac1695cd990966836271e7f7712a5b7b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 20/93] fix: PCTMC learning with powers of fixed parameters,
 unused parameters or large multiplicities

---
 jajapy/base/BW.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 67b6543..c4663bc 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -882,7 +882,7 @@ class BW:
 		fixed_parameters : list
 			list of all fixed parameters (the one we are not estimating).
 		"""
-		self.a_pis = zeros((self.h.nb_states,self.h.nb_states,len(self.h.parameter_str)),dtype=float16)
+		self.a_pis = zeros((self.h.nb_states,self.h.nb_states,len(self.h.parameter_str)))
 		for iparam,param in enumerate(self.h.parameter_str):
 			if not param in fixed_parameters:
 				for s,ss in self.h.parameterIndexes(param):
@@ -890,7 +890,7 @@ class BW:
 
 		self.parameters_cat = [[],[],[]]
 		for ip,p in enumerate(self.h.parameter_str):
-			if not p in fixed_parameters:
+			if not p in fixed_parameters and len(self.h.parameterIndexes(p)) > 0:
 				apis = [self.a_pis[x,y,ip] for x,y in self.h.parameterIndexes(p)]
 				cs = [self._C(x,y) for x,y in self.h.parameterIndexes(p)]
 				if min(apis) == 1 and max(apis) == 1 and min(cs) == 1 and max(cs) == 1:
@@ -978,14 +978,9 @@ class BW:
 				print(p,'not in transition',s1,s2)
 				input()
 		if t.is_Mul:
-			res = 1.0
-			for a in t.args:
-				if a.is_Symbol:
-					if not a.name == p:
-						res *= self.h.parameterValue(a.name)
-				else:
-					res *= a
-			return float(res)
+			values = dict(self.h.parameter_values)
+			values[p] = 1.0
+			return float(t.evalf(subs=values))
 		else:
 			return 1
 
-- 
2.43.0


From eafb572f77cdd1499dc78145aa3f87a2b83fc849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 21/93] fix: PCTMC learning: parameters of several degrees take
 the positive root, or stay unchanged if never used

---
 jajapy/base/BW.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index c4663bc..d60adf8 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1148,6 +1148,8 @@ class BW:
 				c = self._C(s,ss)
 				for _ in range(1+c-len(temp)):
 					temp.append(0.0)
+				if self.h.parameter_values[param] == 0.0:
+					continue
 				if timed:
 					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self.h.parameter_values[param]**c)
 				else:
@@ -1194,9 +1196,12 @@ class BW:
 				num_cat2[ip] = self.h.parameter_values[p]*num_cat2[ip]**(1/c)
 		values += (num_cat2/den_cat2).tolist()
 
-		for p in range(len(terms_cat3[0])):
-			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
-			values.append(max(polyroots(temp)))
+		for ip,p in enumerate(self.parameters_cat[2]):
+			temp = array([i[ip] for i in terms_cat3], dtype=float).sum(axis=0)
+			if not temp[1:].any(): # p is never used
+				values.append(self.h.parameter_values[p])
+			else: # this polynomial has exactly one non-negative real root
+				values.append(max([r.real for r in polyroots(temp) if abs(r.imag) <= 1e-8*abs(r)]))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From 1803633f488c1734e7fe8484e0c242ce2f4454a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 22/93] fix: fit_nonInstantiatedParameters leaves the
 instantiated parameters unchanged

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index d60adf8..47020ce 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1266,7 +1266,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		to_update = []
 		for p in initial_model.parameter_str:
-			to_update.append(p)
+			if not initial_model.isInstantiated(param=p):
+				to_update.append(p)
 		
 		return self.fit_parameters(traces,initial_model,to_update,epsilon,
 								max_it,pp,verbose,return_data,min_val,max_val)
-- 
2.43.0


From c688223ff8eb59a91ef08f65d4db6f0d9c7b117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 23/93] fix: fit_parameters on a new BW object and on
 non-instantiated models

---
 jajapy/base/BW.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 47020ce..dd3d56a 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1331,6 +1331,11 @@ class BW:
 			- the `returned_data` (see parameter description).
 		"""
 		self._forgetPreviousLearning()
+		self.verbose = 2 if verbose else 0
+		if platform == "win32" or platform == "darwin":
+			self.processes = 1
+		else:
+			self.processes = max(1,cpu_count()-1)
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
@@ -1399,12 +1404,15 @@ class BW:
 				self.h.randomInstantiation(min_val=min_val)
 		elif max_val != None:
 			self.h.randomInstantiation(max_val=max_val)
+		else:
+			self.h.randomInstantiation()
 		
 		if self.training_set.type == 4:
 			self._computeAlphas = self._computeAlphas_timed
 			self._computeBetas  = self._computeBetas_timed
 		self.nb_parameters = self.h.nb_parameters
 		self.update_constant = update_constant
+		self.fixed_transitions = full(self.h.matrix.shape,False)
 		self._processWork = self._processWork_PCTMC
 		self._update = self._update_PCTMC
 		self._computeTaus = self._computeTaus_PCTMC
-- 
2.43.0


From b21e8b41cea5f4f6fb04e20da971591bb5f8c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 24/93] fix: fit_parameters keeps the states that the used ones
 can move to

---
 jajapy/base/BW.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index dd3d56a..83b15fc 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1357,14 +1357,18 @@ class BW:
 		# remove all the states never used in the training set:
 		# we only care here about the values of some parameters,
 		# the structure of the model is out of scope.
-		if type(traces) != Set:
-			traces = Set(traces)
-		alphabet = traces.getAlphabet()
+		# The successors of the used states are kept too: the time spent in the
+		# used states depends on the rates of all the transitions leaving them.
+		self._getTrainingSet(traces)
+		alphabet = self.training_set.getAlphabet()
+		used = array([l in alphabet for l in initial_model.labelling])
+		used = used | (initial_model.matrix[used] != 0).any(axis=0)
 		print("Removing unused states: ", end='')
 		print('from',initial_model.nb_states,'states to',end=' ')
 		s = 0
 		while s < initial_model.nb_states:
-			if initial_model.getLabel(s) not in alphabet:
+			if not used[s]:
+				used = delete(used,s)
 				initial_model.nb_states -= 1
 				initial_model.labelling = initial_model.labelling[:s]+initial_model.labelling[s+1:]
 				initial_model.initial_state = delete(initial_model.initial_state,s)
@@ -1394,8 +1398,6 @@ class BW:
 				t += 1
 		#initial_model.alphabet = alphabet
 		print(initial_model.nb_states)
-
-		self._getTrainingSet(traces)
 		
 		if min_val != None:
 			if max_val != None:
-- 
2.43.0


From 03a655806238f8a3986b6ea58f0c673c822f2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 25/93] fix: PCTMC learning from non-timed traces when a state
 becomes absorbing

---
 jajapy/base/BW.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 83b15fc..3baaa2e 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1097,7 +1097,7 @@ class BW:
 							p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 						else:
-							p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+							p = array([self._h_tau(s,ss,o) for o in obs_seq])
 							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
 						num_cste[itrans+1] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
@@ -1113,7 +1113,7 @@ class BW:
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+					p = array([self._h_tau(s,ss,o) for o in obs_seq])
 
 				if p.sum()>0.0:
 					if timed:
@@ -1127,11 +1127,13 @@ class BW:
 		for iparam,param in enumerate(self.parameters_cat[1]):
 			p_index = self.h.parameter_str.index(param)
 			for s,ss in self.h.parameterIndexes(param):
+				if self.hval[s,ss] == 0.0: # never fired
+					continue
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+					p = array([self._h_tau(s,ss,o) for o in obs_seq])
 					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/(proba_seq*self._h_e(s))).sum()
 				num_cat2[iparam] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
 
@@ -1143,12 +1145,12 @@ class BW:
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+					p = array([self._h_tau(s,ss,o) for o in obs_seq])
 				temp[0] -= dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
 				c = self._C(s,ss)
 				for _ in range(1+c-len(temp)):
 					temp.append(0.0)
-				if self.h.parameter_values[param] == 0.0:
+				if self.hval[s,ss] == 0.0: # never fired
 					continue
 				if timed:
 					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self.h.parameter_values[param]**c)
-- 
2.43.0


From 9a084d810bdda7a48aaac2c8281443277e4553f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 26/93] fix: multiplicities stay integers when merging in an
 empty Set

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b68c92d..98b5dcd 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -204,7 +204,7 @@ class Set:
 		for i in range(len(s2.sequences)):
 			if not s2.sequences[i] in self.sequences:
 				self.sequences.append(s2.sequences[i])
-				self.times = append(self.times, s2.times[i])
+				self.times = append(array(self.times,dtype=int), s2.times[i])
 			else:
 				self.times[self.sequences.index(s2.sequences[i])] += s2.times[i]
 	
-- 
2.43.0


From 25098ee5603daa121ec46852ed92f431617c7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 27/93] fix: merging sets no longer extends the list the Set
 was created from

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 98b5dcd..8986572 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -50,7 +50,7 @@ class Set:
 		if type(times) == type(None):
 			self.setFromList(sequences)
 		else:
-			self.sequences = sequences
+			self.sequences = list(sequences)
 			self.times = array(times)
 	
 	def save(self,file_path: str) -> None:
-- 
2.43.0


From 98da12309298fc14dce7fa23e3843d129641fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 28/93] fix: equality of sets in which a trace is given several
 times

---
 jajapy/base/Set.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 8986572..1125224 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -123,15 +123,10 @@ class Set:
 			return False
 		if sum(self.times) != sum(set2.times):
 			return False
-		if len(self.sequences) != len(set2.sequences):
-			return False
-		if len([i for i in self.sequences if i in set2.sequences]) != len(set2.sequences):
-			return False
-		for s,t1 in zip(self.sequences,self.times):
-			try:
-				t2 = set2.times[set2.sequences.index(s)]
-			except ValueError:
-				return False
+		for s in self.sequences:
+			# a trace can be given several times
+			t1 = sum([t for seq,t in zip(self.sequences,self.times) if seq == s])
+			t2 = sum([t for seq,t in zip(set2.sequences,set2.times) if seq == s])
 			if t1 != t2:
 				return False
 		return True
-- 
2.43.0


From 65ffec7460236033d29690901283e10d3793df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 29/93] fix: multiplicities of a sorted Set are still an array

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 1125224..20bdcbd 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -209,7 +209,7 @@ class Set:
 		"""
 		x = sorted(zip(self.sequences,self.times))
 		self.sequences = [s for s,_ in x]
-		self.times = [t for _,t in x]
+		self.times = array([t for _,t in x],dtype=int)
 		
 
 def loadSet(file_path: str) -> Set:
-- 
2.43.0


From 3269e1f69308669a16616e9cfc6159c5a93cc644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 30/93] fix: MDP loglikelihood of a set in which a trace is
 given several times

---
 jajapy/mdp/MDP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index cabdd43..3120452 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -332,15 +332,16 @@ class MDP(Base_MC):
 		output: float
 			loglikelihood of ``sequences`` under this model.
 		"""
-		sequences_sorted = sequences.sequences[:]
-		sequences_sorted.sort()
+		sequence_times = sorted(zip(sequences.sequences,sequences.times))
+		times_sorted = [t for _,t in sequence_times]
+		sequences_sorted = [s for s,_ in sequence_times]
 		loglikelihood = 0.0
 		alpha_matrix = self._initAlphaMatrix(len(sequences_sorted[0])//2)
 		for seq in range(len(sequences_sorted)):
 			sequence_actions = [sequences_sorted[seq][i+1] for i in range(0,len(sequences_sorted[seq])-1,2)]
 			sequence_obs = [sequences_sorted[seq][i] for i in range(0,len(sequences_sorted[seq])-1,2)]
 			sequence = sequences_sorted[seq]
-			times = sequences.times[sequences.sequences.index(sequence)]
+			times = times_sorted[seq]
 			common = 0
 			if seq > 0:
 				while common < min(len(sequences_sorted[seq-1]),len(sequence)):
-- 
2.43.0


From 70fa808e27c083b52c8c13c5673199c609f485d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 31/93] fix: learned CTMCs and GoHMMs have double precision
 parameters, as the saved ones

---
 jajapy/base/BW.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 3baaa2e..ad8cc80 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -759,7 +759,7 @@ class BW:
 		matrix = num/den[:, newaxis]
 		matrix = where(self.fixed_parameters,self.h.matrix,matrix)
 
-		self.h.matrix = matrix
+		self.h.matrix = matrix.astype(float64)
 		return currentloglikelihood
 
 
@@ -864,9 +864,9 @@ class BW:
 
 		initial_state = array([init[s]/init.sum() for s in range(self.nb_states)])
 		
-		self.h.matrix = matrix
-		self.h.output = output
-		self.h.initial_state = initial_state
+		self.h.matrix = matrix.astype(float64)
+		self.h.output = output.astype(float64)
+		self.h.initial_state = initial_state.astype(float64)
 		return currentloglikelihood
 
 
-- 
2.43.0


From 42517bbd955ed8eedf44853ac3bf92bfa7a4ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 32/93] fix: saving a PCTMC keeps all the digits of its
 constants

---
 jajapy/base/Parametric_Model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 8d8e957..53a9ef2 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,8 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify
+from sympy import sympify, Float
+from mpmath.libmp import prec_to_dps
 
 class Parametric_Model(Model):
 	"""
@@ -464,7 +465,8 @@ class Parametric_Model(Model):
 		f.write('\n')
 		f.write(str(self.parameter_str))
 		f.write('\n')
-		f.write(str([str(i) for i in self.transition_expr]))
+		# 15 digits (the default precision) don't identify a float, 17 do
+		f.write(str([str(i.xreplace({c:Float(c,max(17,prec_to_dps(c._prec))) for c in i.atoms(Float)})) for i in self.transition_expr]))
 		f.write('\n')
 		f.close()
 
-- 
2.43.0


From 75b4f84e9a8530f4a549af55e68e78c226131988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 33/93] fix: loadCTMC, loadHMM and loadGoHMM refuse the files
 of other models

---
 jajapy/ctmc/CTMC.py   | 3 ++-
 jajapy/gohmm/GoHMM.py | 3 ++-
 jajapy/hmm/HMM.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 4423cf9..bbe44cc 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -338,7 +338,8 @@ def loadCTMC(file_path: str) -> CTMC:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "CTMC":
-		print("ERROR: this file doesn't describe an CTMC: it describes a "+l)
+		msg = "ERROR: this file doesn't describe an CTMC: it describes a "+l
+		raise ValueError(msg)
 	labelling = literal_eval(f.readline()[:-1])
 	name = f.readline()[:-1]
 	initial_state = array(literal_eval(f.readline()[:-1]))
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 21e134a..5d83fe7 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -208,7 +208,8 @@ def loadGoHMM(file_path: str) -> GoHMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "GoHMM":
-		print("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
+		msg = "ERROR: this file doesn't describe an GoHMM: it describes a "+l
+		raise ValueError(msg)
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
 	name = f.readline()[:-1]
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 2b40bff..7ba0ae7 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -169,7 +169,8 @@ def loadHMM(file_path: str) -> HMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "HMM":
-		print("ERROR: this file doesn't describe an HMM: it describes a "+l)
+		msg = "ERROR: this file doesn't describe an HMM: it describes a "+l
+		raise ValueError(msg)
 	alphabet = literal_eval(f.readline()[:-1])
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
-- 
2.43.0


From d602dd3550e5bb3065c9715f5ea710ee1c1e9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 34/93] fix: synchronous transitions are saved with the CTMCs
 and PCTMCs

---
 jajapy/ctmc/CTMC.py   | 7 ++++++-
 jajapy/pctmc/PCTMC.py | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index bbe44cc..217a560 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -298,6 +298,9 @@ class CTMC(Base_MC):
 		f = open(file_path, 'w')
 		f.write("CTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			with open(file_path, 'a') as f:
+				f.write(str(self.synchronous_transitions)+'\n')
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -345,8 +348,10 @@ def loadCTMC(file_path: str) -> CTMC:
 	initial_state = array(literal_eval(f.readline()[:-1]))
 	matrix = literal_eval(f.readline()[:-1])
 	matrix = array(matrix)
+	synchronous_transitions = f.readline()[:-1] # only if there are some
+	synchronous_transitions = literal_eval(synchronous_transitions) if synchronous_transitions else []
 	f.close()
-	return CTMC(matrix, labelling, name)
+	return CTMC(matrix, labelling, name, synchronous_transitions)
 
 def CTMC_random(nb_states: int, labelling: list, min_exit_rate_time : int,
 				max_exit_rate_time: int, self_loop: bool = True,
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a830675..8ffa787 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -389,6 +389,10 @@ class PCTMC(Parametric_Model):
 		f = open(file_path, 'w')
 		f.write("PCTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			sync = [(s,a,d,r if type(r) in [int,float] else str(r)) for s,a,d,r in self.synchronous_transitions]
+			with open(file_path, 'a') as f:
+				f.write(str(sync)+'\n')
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -462,9 +466,11 @@ def loadPCTMC(file_path: str) -> PCTMC:
 		msg = "This file doesn't describe a PCTMC: it describes a "+l
 		raise ValueError(msg)
 	matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name = loadParametricModel(f)
+	synchronous_transitions = f.readline()[:-1] # only if there are some
+	synchronous_transitions = literal_eval(synchronous_transitions) if synchronous_transitions else []
 	f.close()
 	return PCTMC(matrix,labelling,transition_expr,parameter_values,
-				 parameter_indexes,parameter_str,name)
+				 parameter_indexes,parameter_str,name,synchronous_transitions)
 
 def createPCTMC(transitions: list, labelling: list, parameters: list,
 				initial_state, parameter_instantiation: dict={},
-- 
2.43.0


From ed28bf4256787257791ec02dd8282956194fbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 35/93] fix: updateLabelling updates the initial states too and
 keeps the given list unchanged

---
 jajapy/base/Base_MC.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a2a8ca3..d0963d8 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -1,5 +1,5 @@
 from .Model import Model, MC_ID, MDP_ID, CTMC_ID
-from numpy import ndarray, where
+from numpy import ndarray, where, array
 from random import choices, seed
 
 class Base_MC(Model):
@@ -48,10 +48,11 @@ class Base_MC(Model):
 			must be equal to the number of states.
 		""" 
 		if len(new_labels) == self.nb_states-1:
-			new_labels.append("init")
+			new_labels = new_labels+["init"]
 		if 'init' in new_labels:
-			self.labelling = new_labels
+			self.labelling = list(new_labels)
 			self.alphabet = list(set(new_labels))
+			self.initial_state = array([1.0/new_labels.count("init") if i=='init' else 0.0 for i in new_labels])
 		else:
 			print("No initial state given: at least one state must be labelled by 'init'.")
 			print("The labels have not been updated.")
-- 
2.43.0


From 81401d06302ea55576c40913c75487bae8dcbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 36/93] fix: CTMC compositions can have more than 255 different
 rates

---
 jajapy/ctmc/CTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 217a560..f0b268b 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -535,7 +535,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint8')
+	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -596,8 +596,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint8')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint8')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
-- 
2.43.0


From 0766ebdc81c4e04ba22e7ba69e91d46499a8807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 37/93] fix: rates of the self loops in the CTMC compositions

---
 jajapy/ctmc/CTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index f0b268b..7328f38 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -587,7 +587,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			for j in m2_sids:
 				if m2.matrix[j,j] != 0.0:
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
-					t_e.append(sympify("p"+str(i)+'_'+str(i)+'+q'+str(j)+'_'+str(j)))
+					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
-- 
2.43.0


From 7376e2d0ca561c8f250ab9b88a4413a06e5d85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 38/93] fix: composition of CTMCs in which the initial state is
 not the last one

---
 jajapy/ctmc/CTMC.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 7328f38..e417fb6 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -532,8 +532,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -626,13 +626,14 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			p_i.append([])
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
+			s = get_state_index(m1_sids[i],m2_sids[j])
 			if si*sj <= 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][s] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(t_e)
+				matrix[-1][s] = len(t_e)
 				t_e.append(sympify('initp_'+str(i)+'*initq_'+str(j)))
-				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(i,j)])
-				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(i,j)])
+				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,s])
+				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,s])
 	
 	i = 0
 	while i < len(matrix): # removing unreachable states
-- 
2.43.0


From 7517e49d349c1685362f28bd76511107c2784d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 39/93] fix: compositions contain the reachable states only

---
 jajapy/ctmc/CTMC.py   | 10 +++++-----
 jajapy/pctmc/PCTMC.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index e417fb6..26d572c 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -635,9 +635,11 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,s])
 				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,s])
 	
-	i = 0
-	while i < len(matrix): # removing unreachable states
-		if (matrix.T[i] == 0).all() == True and labelling[i] != 'init':
+	reachable = [len(matrix)-1] # the initial state
+	for s in reachable:
+		reachable += [d for d in where(matrix[s] != 0)[0] if not d in reachable]
+	for i in range(len(matrix)-1,-1,-1): # removing unreachable states
+		if not i in reachable:
 			nb_states -= 1
 			matrix = delete(matrix,i,0)
 			matrix = delete(matrix,i,1)
@@ -653,8 +655,6 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 						if p_i[j][k][1] > i:
 							p_i[j][k][1] -= 1
 						k += 1
-			i = -1
-		i += 1
 	
 	return PCTMC(matrix, labelling, t_e, p_v, p_i, p_str, name)
 
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 8ffa787..de73753 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -577,9 +577,11 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 		Synchronous composition of `m1` and `m2`.
 	"""
 	def removeUnreachableState(m):
-		i = 0
-		while i < len(m.matrix): # removing unreachable state
-			if (m.matrix.T[i] == 0).all() == True and m.labelling[i] != 'init':
+		reachable = [len(m.matrix)-1] # the initial state
+		for s in reachable:
+			reachable += [d for d in where(m.matrix[s] != 0)[0] if not d in reachable]
+		for i in range(len(m.matrix)-1,-1,-1): # removing unreachable state
+			if not i in reachable:
 				m.nb_states -= 1
 				m.matrix = delete(m.matrix,i,0)
 				m.matrix = delete(m.matrix,i,1)
@@ -596,8 +598,7 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 							if m.parameter_indexes[j][k][1] > i:
 								m.parameter_indexes[j][k][1] -= 1
 							k += 1
-				i = -1
-			i += 1
+		m.alphabet = list(set(m.labelling))
 
 	def removeUnusedTrans(m):
 		to_remove = list(set(range(len(m.transition_expr))) - set(m.matrix.flatten()) )
-- 
2.43.0


From b43f6689e0992659ca82c70a4b50825965a56885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 40/93] fix: PCTMC composition keeps the values of the
 parameters of every component

---
 jajapy/pctmc/PCTMC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index de73753..5bd8d55 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -662,8 +662,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-	p_v = m1.parameter_values #TODO m2.parameter_values
-	p_str = list(set(m1.parameter_str+m2.parameter_str))
+	p_v = dict(m2.parameter_values)
+	p_v.update(m1.parameter_values)
+	p_str = m1.parameter_str+[p for p in m2.parameter_str if not p in m1.parameter_str]
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
 
-- 
2.43.0


From 8f8b31f6c83856b7f745e94a29f686e9f6ad1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 41/93] fix: self loops of the first component in PCTMC
 compositions

---
 jajapy/pctmc/PCTMC.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 5bd8d55..53bb971 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -685,7 +685,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				x,y = get_state_index(i,s1),get_state_index(i,s2)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]: # self loop in both models
+						p_i[ind].append([x,y])
 	
 	def add_transition(i,j,model):
 		if model == 1:
@@ -718,10 +719,12 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			labelling.append(m1.labelling[s1]+','+m2.labelling[s2])
 	for i in m1_sids: # m1 transitions
 		for j in m1_sids:
-			add_transition(i,j,1)
+			if m1.matrix[i,j] != 0:
+				add_transition(i,j,1)
 	for i in m2_sids: # m2 transitions
 		for j in m2_sids:
-			add_transition(i,j,2)
+			if m2.matrix[i,j] != 0:
+				add_transition(i,j,2)
 	for i in m1_sids: # self loops
 		if m1.matrix[i,i] != 0:
 			for j in m2_sids:
-- 
2.43.0


From 362fcf304df56c07c1f8886f3588cbfe81bc9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 42/93] fix: initial states in PCTMC compositions

---
 jajapy/pctmc/PCTMC.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 53bb971..7a7a407 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -657,8 +657,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -744,28 +744,15 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	labelling.append('init')
 	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
 	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
-	m1_init_trans = zeros(m1_nb_states)
-	for i in m1_init:
-		tmp = [m1.transitionValue(i,j) for j in m1_sids]
-		for j in range(m1_nb_states):
-			if m1_init_trans[j]*tmp[j]>0.0:
-				m1_init_trans[j] *= tmp[j]
-			else:
-				m1_init_trans[j] += tmp[j]
-	m2_init_trans = zeros(m2_nb_states)
-	for i in m2_init:
-		tmp = [m2.transitionValue(i,j) for j in m2_sids]
-		for j in range(m2_nb_states):
-			if m2_init_trans[j]*tmp[j]>0.0:
-				m2_init_trans[j] *= tmp[j]
-			else:
-				m2_init_trans[j] += tmp[j]
+	m1_init_trans = [sum([m1.transitionExpression(i,j) for i in m1_init]) for j in m1_sids]
+	m2_init_trans = [sum([m2.transitionExpression(i,j) for i in m2_init]) for j in m2_sids]
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
-			if si*sj == 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
-			else:
-				matrix[-1][get_state_index(i,j)] = len(trans_expr)
-				trans_expr.append(sympify(str(si*sj)))
+			s = get_state_index(m1_sids[i],m2_sids[j])
+			if si*sj != 0.0:
+				matrix[-1][s] = len(trans_expr)
+				trans_expr.append(si*sj)
+				for p in (si*sj).free_symbols:
+					p_i[p_str.index(p.name)].append([len(matrix)-1,s])
 
 	return PCTMC(matrix,labelling,trans_expr,p_v,p_i,p_str,name), sync_trans
-- 
2.43.0


From 990d0d23b605b924d5718993a76cb25b131b15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 43/93] fix: synchronisation of three PCTMCs or more, on
 actions of some of them

---
 jajapy/pctmc/PCTMC.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 7a7a407..5b23d8a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -617,21 +617,25 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 	elif len(ms) == 1:
 		return ms[0]
 	m1 = ms[0]
-	sync_trans = []
 	for i in range(1,len(ms)):
-		for t in sync_trans:
-			m1.synchronous_transitions.append(t)
 		m1, sync_trans = synchronousComposition2PCTMCs(m1, ms[i], name)
+		m1.synchronous_transitions = sync_trans
 	# add sync trans
+	m1.synchronous_transitions = []
+	actions = [a for m in ms for a in set([t[1] for t in m.synchronous_transitions])]
 	for t in sync_trans:
-		i, _, d, expr = t
+		i, a, d, expr = t
+		if actions.count(a) < 2: # nothing to synchronise with
+			continue
 		if m1.matrix[i,d] != 0.0:
 			expr = expr + m1.transitionExpression(i,d)
 		if not expr in m1.transition_expr:
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p)].append([i,d])
+			indexes = m1.parameter_indexes[m1.parameter_str.index(p.name)]
+			if not [i,d] in indexes:
+				indexes.append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -708,8 +712,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		expr2 = sympify(expr2)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
-			if not p in p_str:
-				p_str.append(p)
+			if not p.name in p_str:
+				p_str.append(p.name)
 				p_i.append([])
 		x, y = get_state_index(s1,s2), get_state_index(d1, d2)
 		return [x,a,y,expr]
@@ -740,6 +744,17 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			sj,aj,dj,pj = sync_2
 			if ai == aj:
 				sync_trans.append(add_sync_transition(ai,si,di,pi,sj,dj,pj))
+	# actions of only one of the models: may be synchronised with a third one
+	m1_actions = [t[1] for t in m1.synchronous_transitions]
+	m2_actions = [t[1] for t in m2.synchronous_transitions]
+	for si,ai,di,pi in m1.synchronous_transitions:
+		if not ai in m2_actions:
+			for j in m2_sids:
+				sync_trans.append(add_sync_transition(ai,si,di,pi,j,j,1))
+	for sj,aj,dj,pj in m2.synchronous_transitions:
+		if not aj in m1_actions:
+			for i in m1_sids:
+				sync_trans.append(add_sync_transition(aj,i,i,1,sj,dj,pj))
 				
 	labelling.append('init')
 	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-- 
2.43.0


From 053b980d8cc6af4f7aaec58fee81532f4501364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 44/93] fix: loaded PCTMCs have the same constants as the saved
 ones, with the same precision

---
 jajapy/base/Parametric_Model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 53a9ef2..4c0cf80 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
 from sympy import sympify, Float
-from mpmath.libmp import prec_to_dps
+from mpmath.libmp import prec_to_dps, dps_to_prec
 
 class Parametric_Model(Model):
 	"""
@@ -466,7 +466,7 @@ class Parametric_Model(Model):
 		f.write(str(self.parameter_str))
 		f.write('\n')
 		# 15 digits (the default precision) don't identify a float, 17 do
-		f.write(str([str(i.xreplace({c:Float(c,max(17,prec_to_dps(c._prec))) for c in i.atoms(Float)})) for i in self.transition_expr]))
+		f.write(str([str(i.xreplace({c:Float(c,prec_to_dps(c._prec)+2) for c in i.atoms(Float)})) for i in self.transition_expr]))
 		f.write('\n')
 		f.close()
 
@@ -493,4 +493,6 @@ def loadParametricModel(f):
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
 	transition_expr = [sympify(i) for i in transition_expr]
+	# the constants are written with two digits more than their precision
+	transition_expr = [i.xreplace({c:Float(c,precision=max(53,dps_to_prec(prec_to_dps(c._prec)-2))) for c in i.atoms(Float)}) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
-- 
2.43.0


From fe8443699e9877b2122d2a5c232c5b781a81ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 45/93] fix: constants are saved with all their digits inside
 products too

---
 jajapy/base/Parametric_Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 4c0cf80..4d03f59 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,7 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify, Float
+from sympy import sympify, Float, sstr
 from mpmath.libmp import prec_to_dps, dps_to_prec
 
 class Parametric_Model(Model):
@@ -466,7 +466,7 @@ class Parametric_Model(Model):
 		f.write(str(self.parameter_str))
 		f.write('\n')
 		# 15 digits (the default precision) don't identify a float, 17 do
-		f.write(str([str(i.xreplace({c:Float(c,prec_to_dps(c._prec)+2) for c in i.atoms(Float)})) for i in self.transition_expr]))
+		f.write(str([sstr(i.xreplace({c:Float(c,prec_to_dps(c._prec)+2) for c in i.atoms(Float)}),full_prec=True) for i in self.transition_expr]))
 		f.write('\n')
 		f.close()
 
-- 
2.43.0


From ac83f5cf4625e649ed27124d847eec889b060b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 46/93] fix: instantiate checks the rates under the requested
 values

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 5b23d8a..b8c3aef 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -175,7 +175,7 @@ class PCTMC(Parametric_Model):
 			values = self.parameter_values
 		xs,ys = where(self.matrix != 0)
 		for x,y in zip(xs,ys):
-			v = self.evaluateTransition(x,y)
+			v = self.evaluateTransition(x,y,values)
 			if type(v) == float:
 				if v < 0.0:
 					return False
-- 
2.43.0


From c2372fde58ab8912a4668c810f71ac5f5605e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 47/93] fix: rates that cancel out are exactly 0

---
 jajapy/base/Parametric_Model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 4d03f59..7e70250 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -145,7 +145,12 @@ class Parametric_Model(Model):
 			instantiated, returns the symbolic representation of the
 			transition.
 		"""
-		return self.transition_expr[self.matrix[i,j]].evalf(subs=self.parameter_values)
+		return self._evaluate(self.transition_expr[self.matrix[i,j]],self.parameter_values)
+
+	def _evaluate(self,expr,values: dict):
+		# evalf(subs=values) returns tiny numbers instead of 0 (p-q with p == q)
+		values = {p:sympify(values[p.name]) for p in expr.free_symbols if p.name in values}
+		return expr.xreplace(values).evalf()
 
 	def transitionExpression(self,i:int,j:int):
 		"""
@@ -277,7 +282,7 @@ class Parametric_Model(Model):
 		"""
 		if parameter_values == None:
 			parameter_values = self.parameter_values
-		v =  self.transitionExpression(i,j).evalf(subs=parameter_values)
+		v = self._evaluate(self.transitionExpression(i,j),parameter_values)
 		try:
 			v = float(v)
 		except TypeError:
-- 
2.43.0


From 868a5654a36b232fef24333c45c8c73c1f7bb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 48/93] fix: resolveRandom works when the sum of the
 probabilities is slightly lower than 1

---
 jajapy/base/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 9ea2ab4..c48d1ab 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -56,7 +56,7 @@ def resolveRandom(m: list) -> int:
 	"""
 	m = array(m).cumsum()
 	mi = nonzero(m)[0]
-	r = random()
+	r = random()*m[-1] # the sum can be slightly different from 1
 	i = 0
 	while r > m[mi[i]]:
 		i += 1
-- 
2.43.0


From cbc252cac446d7c5fc65693f8a9e2a18f4d1a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 49/93] fix: CTMC transitions with rate 0 never fire

---
 jajapy/ctmc/CTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 26d572c..7bf4e50 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -177,7 +177,7 @@ class CTMC(Base_MC):
 		exps = []
 		for exp_lambda in self.matrix[state]:
 			if exp_lambda <= 0.0:
-				exps.append(1024)
+				exps.append(numpy.inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
 		next_state= exps.index(min(exps))
-- 
2.43.0


From ab01f342262bc7382085d9a2d3f03519ad486b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 50/93] fix: absorbing states end the simulations of CTMCs and
 PCTMCs

---
 jajapy/ctmc/CTMC.py   | 7 +++++--
 jajapy/pctmc/PCTMC.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 7bf4e50..67cd076 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -180,6 +180,8 @@ class CTMC(Base_MC):
 				exps.append(numpy.inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
+		if min(exps) == numpy.inf:
+			raise ValueError("state "+str(state)+" is absorbing: it has no successor.")
 		next_state= exps.index(min(exps))
 		next_obs = self.labelling[state]
 		return (next_obs, next_state, min(exps))
@@ -193,7 +195,8 @@ class CTMC(Base_MC):
 		Parameters
 		----------
 		number_steps: int
-			length of the simulation.
+			length of the simulation. The simulation is shorter if it reaches
+			an absorbing state.
 		timed: bool, optional
 			Wether or not it returns also the waiting times. Default is False.
 
@@ -205,7 +208,7 @@ class CTMC(Base_MC):
 		output = []
 		current = resolveRandom(self.initial_state)
 		c = 0
-		while c < number_steps:
+		while c < number_steps and self.matrix[current].any(): # an absorbing state ends the run
 			[symbol, next_state, time_spent] = self.next(current)
 			output.append(symbol)
 			if timed:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index b8c3aef..6487fc0 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -288,6 +288,8 @@ class PCTMC(Parametric_Model):
 				exps.append(inf)
 			else:
 				exps.append(exponential(1/exp_lambda))
+		if min(exps) == inf:
+			raise ValueError("state "+str(state)+" is absorbing: it has no successor.")
 		next_state= exps.index(min(exps))
 		next_obs  = self.labelling[state]
 		return (next_obs, next_state, min(exps))
@@ -301,7 +303,8 @@ class PCTMC(Parametric_Model):
 		Parameters
 		----------
 		number_steps: int
-			length of the simulation.
+			length of the simulation. The simulation is shorter if it reaches
+			an absorbing state.
 		timed: bool, optional
 			Wether or not it returns also the waiting times. Default is False.
 
@@ -313,7 +316,7 @@ class PCTMC(Parametric_Model):
 		output = []
 		current = resolveRandom(self.initial_state)
 		c = 0
-		while c < number_steps:
+		while c < number_steps and self.e(current) > 0.0: # an absorbing state ends the run
 			[symbol, next_state, time_spent] = self.next(current)
 			output.append(symbol)
 			if timed:
-- 
2.43.0


From 3cf0e9123f914ebd1b7f227c48a4c26b33402f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 51/93] fix: FiniteMemoryScheduler.getSequenceStates calls
 addObservation

---
 jajapy/mdp/Scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Scheduler.py b/jajapy/mdp/Scheduler.py
index adadd28..78377d8 100644
--- a/jajapy/mdp/Scheduler.py
+++ b/jajapy/mdp/Scheduler.py
@@ -180,7 +180,7 @@ class FiniteMemoryScheduler:
 		self.reset()
 		res = [0]
 		for o in seq_obs:
-			self.add_observation(o)
+			self.addObservation(o)
 			res.append(self.s)
 		return res
 
-- 
2.43.0


From 8a70e781cd2c839ad43f78f461de7706dccd6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 52/93] fix: memoryless schedulers can be used in simulations

---
 jajapy/mdp/MDP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 3120452..2b4e3c7 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -2,7 +2,7 @@ from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
-from .Scheduler import Scheduler
+from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
@@ -205,10 +205,12 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
-			action = scheduler.getAction()
+			# the memoryless schedulers need to know the current state
+			param = [current] if isinstance(scheduler,MemorylessScheduler) else []
+			action = scheduler.getAction(*param)
 
 			while action not in self.getActions(current):
-				action = scheduler.getAction()
+				action = scheduler.getAction(*param)
 			
 			next_state, observation = self.next(current,action)
 			res.append(observation)
-- 
2.43.0


From 22732c2275e996cf0c7fcfd301e6e0cbe9b5b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 53/93] fix: Alergia does not modify the training set and
 counts repeated entries

---
 jajapy/mc/Alergia.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 0f915c3..167b3dc 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -239,10 +239,7 @@ class Alergia:
 		self.createPTA(traces)
 
 	def createPTA(self,traces):
-		temp1 = traces.sequences[:]
-		temp2 = traces.times[:]
-		traces.sequences.sort()
-		traces.times = [temp2[temp1.index(i)] for i in traces.sequences]
-		self.T = PTA(traces)
+		# the PTA sorts the set: work on a copy
+		self.T = PTA(Set(traces.sequences,traces.times,traces.type))
 		
 		
-- 
2.43.0


From 308fcc8903304c541042b22b996a68436b6a5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 54/93] fix: Alergia can write the learnt model

---
 jajapy/mc/Alergia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 167b3dc..06c9ba0 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -215,7 +215,7 @@ class Alergia:
 			stormpy_output = False
 		
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From 4058b320c5cc7bf3132ba46efcee232debc7602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 55/93] fix: IOAlergia can write the learnt model

---
 jajapy/mdp/IOAlergia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d26bec4..2f03f1e 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -553,7 +553,7 @@ class IOAlergia:
 
 
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 		
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From fa6181d91da75b9b913790965329f351b697fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 56/93] fix: IOAlergia compares the frequency of the
 observations seen from only one of the two states

---
 jajapy/mdp/IOAlergia.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2f03f1e..56289ac 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -279,15 +279,16 @@ class IOFPTA:
 		bool
 			True if the distance of distributions are in the Hoeffding bound.
 		"""
+		if not (self.states[s1].actionAllowed(a) and self.states[s2].actionAllowed(a)):
+			return True
+
 		i1 = self.successor(s1, a, o)
 		i2 = self.successor(s2, a, o)
 
-		if i1 == None or i2 == None:
-			return True
-				
-		f1 = self.states[s1].getTransitionProb(a, i1)
+		# an observation never seen after this action has frequency 0
+		f1 = 0 if i1 == None else self.states[s1].getTransitionProb(a, i1)
 		n1 = sum(self.states[s1].transitions[a][0])
-		f2 = self.states[s2].getTransitionProb(a, i2)
+		f2 = 0 if i2 == None else self.states[s2].getTransitionProb(a, i2)
 		n2 = sum(self.states[s2].transitions[a][0])
 
 		if n1*n2 == 0:
-- 
2.43.0


From 2f7533485fb530b4c44a0983b58eb6ec6e5b572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 57/93] fix: IOAlergia adds up the frequencies of merged
 transitions

---
 jajapy/mdp/IOAlergia.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 56289ac..57bd06c 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -114,6 +114,21 @@ class IOFPTA_state:
 		"""
 		self.transitions[action][1][self.transitions[action][1].index(old_state)] = new_state
 
+	def transitionAddCount(self, action: str, state: int, count: float) -> None:
+		"""
+		Increases the counter of a given transition.
+
+		Parameters
+		----------
+		action : str
+			An action.
+		state : int
+			A state ID (the destination of the transition).
+		count : float
+			The value to add.
+		"""
+		self.transitions[action][0][self.transitions[action][1].index(state)] += count
+
 	def getTransitionProb(self,action: str,s2: int) -> float:
 		"""
 		Returns the probability that we reach ``s2`` from this state executing
@@ -347,6 +362,7 @@ class IOFPTA:
 				if succ2 != None:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
+						self.states[s1].transitionAddCount(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						self.merge(succ1,succ2)
 						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
-- 
2.43.0


From 3c47c56c6cf5b1ce425ee2738db182617a9eb4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 58/93] fix: IOAlergia keeps the actions of the transitions

---
 jajapy/mdp/IOAlergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 57bd06c..43bb159 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -424,7 +424,9 @@ class IOFPTA:
 		transitions = zeros((len(states)+1,len(actions),len(states)+1))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
-			for ai,a in enumerate([a for a in actions if s.actionAllowed(a)]):
+			for ai,a in enumerate(actions):
+				if not s.actionAllowed(a):
+					continue
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-- 
2.43.0


From 18383a9caa1ae8528abff674406ae82b3ea7197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 59/93] fix: IOAlergia initial state

---
 jajapy/mdp/IOAlergia.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 43bb159..abde7be 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -201,6 +201,7 @@ class IOFPTA:
 		self.observations = o
 		self.actions = a
 		self.initial = []
+		self.initial_counters = []
 
 	def __str__(self) -> str:
 		res = ""
@@ -211,6 +212,7 @@ class IOFPTA:
 	def addInitialState(self,state:int) -> None:
 		if not state in self.initial:
 			self.initial.append(state)
+			self.initial_counters.append(self.states[state].counter)
 
 	def successor(self, state: int, action: str, obs: str) -> int:
 		"""
@@ -420,8 +422,16 @@ class IOFPTA:
 
 		actions = self.actions
 		states = red
-		labelling = [self.states[i].observation for i in states]+['init']
-		transitions = zeros((len(states)+1,len(actions),len(states)+1))
+		labelling = [self.states[i].observation for i in states]
+		roots = [states.index(i) for i in self.initial]
+		add_init = True
+		if 'init' in [labelling[i] for i in roots]:
+			if len(roots) > 1:
+				msg =  "The label 'init' cannot be used: it is reserved for initial states."
+				raise SyntaxError(msg)
+			add_init = False
+
+		transitions = zeros((len(states)+add_init,len(actions),len(states)+add_init))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
 			for ai,a in enumerate(actions):
@@ -430,7 +440,11 @@ class IOFPTA:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-		transitions[-1][0][0] = 1.0
+		if add_init:
+			labelling.append('init')
+			tot = sum(self.initial_counters)
+			for i,c in zip(roots,self.initial_counters):
+				transitions[-1,:,i] = c/tot
 		return MDP(transitions, labelling, actions)
 
 
@@ -532,7 +546,7 @@ class IOAlergia:
 		"""
 		self.actions, self.observations = sample.getActionsObservations()
 		self._initialize(sample,epsilon,self.actions,self.observations)
-		red = [0]
+		red = self.a.initial[:]
 		blue = []
 		for i in self.a.initial:
 			blue += self.a.states[i].successors()
-- 
2.43.0


From 10cde3a19d1d7b67ff2259eb70f71262264c015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 60/93] fix: Alergia compatibility test considers every label

---
 jajapy/mc/Alergia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 06c9ba0..380143d 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -50,10 +50,11 @@ class PTA:
 		for trace,time in zip(traces.sequences,traces.times):
 			node = self.root
 			curr = 0
-			while curr < len(trace):
-				char = trace[curr]
+			for char in trace:
 				if not char in self.alphabet:
 					self.alphabet.append(char)
+			while curr < len(trace):
+				char = trace[curr]
 				nnext = node.incKid(char,time)
 				if nnext == None:
 					node = self.addKids(node,trace,curr,time)
-- 
2.43.0


From 10af4d749a718365e36487de802220bd445aa8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 61/93] fix: the learning rate of the active learning is taken
 into account

---
 jajapy/mdp/Active_BW_MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bd5516a..f0a54d3 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -6,6 +6,7 @@ from multiprocessing import Pool
 from random import random
 from numpy import zeros, dot, array, inf
 from time import perf_counter
+from copy import deepcopy
 
 class ActiveLearningScheduler:
 	"""
@@ -235,7 +236,7 @@ class Active_BW_MDP(BW):
 					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
 				else:
 					lr_it = lr
-				old_h = self.h
+				old_h = deepcopy(self.h) # fit updates self.h in place
 				_, info = super().fit(traces, initial_model=self.h,
 							output_file=output_file, epsilon=epsilon,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
-- 
2.43.0


From 88383ec103bb768ba6d20c7132a5b167b35b20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 62/93] fix: dynamic learning rate not higher than 1

---
 jajapy/mdp/Active_BW_MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index f0a54d3..23a896f 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -233,7 +233,8 @@ class Active_BW_MDP(BW):
 				counter += info['learning_rounds']
 			else:
 				if lr == "dynamic":
-					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
+					# the weight of the new hypothesis cannot be higher than 1
+					lr_it = min(1.0,sum(traces.times)/(sum(total_traces.times)-sum(traces.times)))
 				else:
 					lr_it = lr
 				old_h = deepcopy(self.h) # fit updates self.h in place
-- 
2.43.0


From fc7f2b209c1d3a9d0fe205ef303a3c57fe990fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 63/93] fix: active learning with one process, or when the
 hypothesis cannot generate a trace

---
 jajapy/mdp/Active_BW_MDP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 23a896f..cb875a4 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -333,10 +333,10 @@ class Active_BW_MDP(BW):
 			tasks = []
 			for seq,times in zip(traces.sequences,traces.times):
 				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks if res != False]
+			temp = [res.get() for res in tasks]
+			p.close()
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
-			temp = [i for i in temp if i!=False]
 		res = sum(temp)
 		return res
 
@@ -346,9 +346,9 @@ class Active_BW_MDP(BW):
 		alpha_matrix = self._computeAlphas(sequence_obs,sequence_actions)
 		beta_matrix  = self._computeBetas( sequence_obs,sequence_actions)
 		proba_seq = alpha_matrix.T[-1].sum()
-		if proba_seq <= 0.0:
-			return False
 		res = zeros(shape=(self.nb_states,len(self.actions)))
+		if proba_seq <= 0.0:
+			return res
 
 		for s in range(self.nb_states):
 			for i,a in enumerate(self.actions):
-- 
2.43.0


From 6765287972ad604cbff0bf15554fc419e97a22ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 64/93] fix: ActiveLearningScheduler with states never seen, a
 single action or unavailable actions

---
 jajapy/mdp/Active_BW_MDP.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index cb875a4..b09bc92 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -4,7 +4,7 @@ from ..base.Set import Set
 from ..base.tools import resolveRandom
 from multiprocessing import Pool
 from random import random
-from numpy import zeros, dot, array, inf
+from numpy import zeros, ones, dot, array, inf
 from time import perf_counter
 from copy import deepcopy
 
@@ -31,6 +31,7 @@ class ActiveLearningScheduler:
 		Resets the scheduler. Should be done before genereting a new trace.
 		"""
 		self.last_act = None
+		self.refused = []
 		self.alpha_matrix = array([self.m.pi(s) for s in range(self.nb_states)])
 	
 	def getActionState(self,s:int) -> str:
@@ -49,8 +50,13 @@ class ActiveLearningScheduler:
 			Action chosen by the scheduler.
 		"""
 		tot = self.mat[s].sum()
-		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
-		return resolveRandom(acts)
+		acts = array([tot-i for i in self.mat[s]])
+		acts[self.refused] = 0.0
+		if acts.sum() <= 0.0:
+			# no information about the remaining actions in this state
+			acts = ones(self.m.nb_actions)
+			acts[self.refused] = 0.0
+		return resolveRandom(acts/acts.sum())
 
 
 	def getAction(self) -> str:
@@ -62,6 +68,9 @@ class ActiveLearningScheduler:
 		str
 			Action chosen by the scheduler.
 		"""
+		if self.last_act != None and len(self.refused) < self.m.nb_actions-1:
+			# no observation since the last choice: this action is not allowed
+			self.refused.append(self.last_act)
 		tot = self.alpha_matrix.sum()
 		if tot <= 0.0:
 			t = [1/len(self.alpha_matrix)]*len(self.alpha_matrix)
@@ -82,6 +91,7 @@ class ActiveLearningScheduler:
 			An observation.
 		"""
 		tot = sum(self.alpha_matrix)
+		self.refused = []
 		if tot > 0.0:
 			for s in range(self.m.nb_states):
 				self.mat[s,self.last_act] += self.alpha_matrix[s]/tot
@@ -90,6 +100,7 @@ class ActiveLearningScheduler:
 				p = array([self.m.tau(ss,self.m.actions[self.last_act],s,obs) for ss in range(self.nb_states)])
 				alpha_matrix[s] = dot(self.alpha_matrix,p)
 			self.alpha_matrix = alpha_matrix
+		self.last_act = None
 
 
 class Active_BW_MDP(BW):
-- 
2.43.0


From dda42e6955fca395536145f31c37d60350e7e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 65/93] fix: active learning can return its data with a stormpy
 output

---
 jajapy/mdp/Active_BW_MDP.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index b09bc92..b1f041b 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -210,7 +210,7 @@ class Active_BW_MDP(BW):
 			fitted MDP.
 		"""
 		if stormpy_output and not self.stormpy_installed:
-			if self.verbose > 0:
+			if verbose > 0:
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
@@ -269,13 +269,15 @@ class Active_BW_MDP(BW):
 		if verbose == 3:
 			self._endPrint(counter,running_time)
 
-		if stormpy_output :
-			self.h = self.jajapyModeltoStormpy(self.h)
-			
 		if return_data:
 			info = {"learning_rounds":counter,
 					"learning_time":running_time,
 					"training_set_loglikelihood":self.h.logLikelihood(total_traces)}
+
+		if stormpy_output :
+			self.h = self.jajapyModeltoStormpy(self.h)
+			
+		if return_data:
 			return self.h, info
 	
 
-- 
2.43.0


From e2322d68a363fc07f74713f7e22697f9d515baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 66/93] fix: active learning accepts a list or an array of
 traces

---
 jajapy/mdp/Active_BW_MDP.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index b1f041b..cc4a4cf 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -4,7 +4,7 @@ from ..base.Set import Set
 from ..base.tools import resolveRandom
 from multiprocessing import Pool
 from random import random
-from numpy import zeros, ones, dot, array, inf
+from numpy import zeros, ones, dot, array, inf, ndarray
 from time import perf_counter
 from copy import deepcopy
 
@@ -214,6 +214,11 @@ class Active_BW_MDP(BW):
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
+		if type(traces) == ndarray:
+			traces = traces.tolist()
+		if type(traces) == list:
+			traces = Set(traces,t=1)
+
 		counter = 0
 		self.sul = sul
 		start_time = perf_counter()
-- 
2.43.0


From 9fc487c7ddee77f1f613ec94dc7180764ebf5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 67/93] fix: every execution of Baum-Welch in the active
 learning runs at most max_it iterations

---
 jajapy/mdp/Active_BW_MDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index cc4a4cf..46aa305 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -243,7 +243,7 @@ class Active_BW_MDP(BW):
 			
 			if lr == 0:
 				_,info = super().fit(total_traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
@@ -255,7 +255,7 @@ class Active_BW_MDP(BW):
 					lr_it = lr
 				old_h = deepcopy(self.h) # fit updates self.h in place
 				_, info = super().fit(traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
-- 
2.43.0


From f5c0315981f3529fffbdfd92c679e10d4689bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 68/93] fix: the Storm CTMC equivalent to a CTMC has its rates
 (no nan in absorbing states)

---
 jajapy/with_stormpy/model_converter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index ac7a3b4..fb20b84 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -4,11 +4,10 @@ from ..mc.MC import MC
 from ..mdp.MDP import MDP
 from ..ctmc.CTMC import CTMC
 from ..pctmc.PCTMC import PCTMC
-from copy import deepcopy
 import os
 from sympy import symbols, sympify
 
-def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
+def stormpyModeltoJajapy(h,actions_name:list = []):
 	"""
 	Given a stormpy.SparseCtmc, stormpy.SparseDtmc, stormpy.SparseMdp, or
 	stormpy.SparseParametricCtmc, it returns the equivalent jajapy model.
@@ -107,8 +106,6 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 						t_expr.append(t_val)
 					else:
 						matrix[c][dest] = t_expr.index(t_val)
-		if ty == 1 and not from_prism:
-			matrix[c] *= h.exit_rates[si]
 	
 	if add_init_state != None:
 		#matrix = vstack((matrix,matrix[add_init_state]))
@@ -251,10 +248,8 @@ def CTMCtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	transition_matrix = deepcopy(h.matrix)
+	transition_matrix =  st.build_sparse_matrix(h.matrix)
 	e = array([h.e(s) for s in range(h.nb_states)])
-	transition_matrix /= e[:,newaxis]
-	transition_matrix =  st.build_sparse_matrix(transition_matrix)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
 										  rate_transitions=True)
@@ -322,5 +317,5 @@ def loadPrism(path: str):
 	else:
 		os.system('cls')
 
-	jajapy_model = stormpyModeltoJajapy(stormpy_model,from_prism=True)
+	jajapy_model = stormpyModeltoJajapy(stormpy_model)
 	return jajapy_model
\ No newline at end of file
-- 
2.43.0


From cd049434cedb43dcd455b055d4777c17a2f3fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 69/93] fix: an absorbing state of a CTMC read from a Prism
 file has no transition

---
 jajapy/with_stormpy/model_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index fb20b84..d230fd2 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -83,6 +83,8 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 			for t in a.transitions:
 				dest = t.column
 				t_val = t.value()
+				if ty in [1,4] and 'deadlock' in s.labels and dest == c:
+					continue # Storm adds a self loop to the absorbing states.
 				if ty == 2:
 					matrix[c][int(str(a))][dest] = t_val
 				elif ty == 1 or ty == 0:
-- 
2.43.0


From 26bb3e329839937603d957e52e79ebeba72f2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 70/93] fix: the actions of an MDP are preserved by the
 conversions from/to Storm and Prism

---
 jajapy/with_stormpy/model_converter.py | 77 +++++++++++++++++++-------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index d230fd2..127106e 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -21,8 +21,9 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	
 	actions_name : list of str, optional.
 		If the model is an MDP, the name of the actions in the output
-		model will be the one in this list. Otherwise they will be
-		`a0,a1,a2,...`.
+		model will be the one in this list. Otherwise they will be the
+		labels of the choices of `h` or, if the choices available in a state
+		cannot be distinguished by their labels, `a0,a1,a2,...`.
 
 	Returns
 	-------
@@ -44,14 +45,7 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	
 	labelling = [None for _ in range(len(h.states))]
 	if ty == 2:
-		actions = []
-		for s in h.states:
-			for a in s.actions:
-				if len(actions_name) <= int(str(a)):
-					actions.append('a'+str(a))
-				else:
-					actions.append(actions_name[int(str(a))])
-		actions = list(set(actions))
+		actions, action_index = _actionsOfStormpyMDP(h,actions_name)
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
@@ -83,10 +77,10 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 			for t in a.transitions:
 				dest = t.column
 				t_val = t.value()
-				if ty in [1,4] and 'deadlock' in s.labels and dest == c:
+				if ty != 0 and 'deadlock' in s.labels and dest == c:
 					continue # Storm adds a self loop to the absorbing states.
 				if ty == 2:
-					matrix[c][int(str(a))][dest] = t_val
+					matrix[c][action_index[c][a.id]][dest] = t_val
 				elif ty == 1 or ty == 0:
 					matrix[c][dest] = t_val
 				else:
@@ -137,6 +131,33 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	elif ty == 4:
 		return PCTMC(matrix,labelling,t_expr,p_v,p_i,p_str)
 
+def _actionsOfStormpyMDP(h,actions_name: list):
+	"""
+	Returns the list of the actions of `h` and, for each state, the list of
+	the indexes (in this list) of the actions corresponding to its choices.
+	"""
+	if h.has_choice_labeling():
+		labels = []
+		for s in h.states:
+			labels.append([])
+			for a in s.actions:
+				l = h.choice_labeling.get_labels_of_choice(h.get_choice_index(s.id,a.id))
+				if len(l) == 1:
+					labels[-1].append(list(l)[0])
+				elif len(a.transitions) > 0 and not 'deadlock' in s.labels:
+					labels[-1].append(None)
+		if not any(None in l or len(set(l)) < len(l) for l in labels):
+			actions = sorted(h.choice_labeling.get_labels())
+			if set(actions).issubset(actions_name):
+				actions = list(actions_name)
+			index = [[actions.index(a) for a in l] for l in labels]
+			if set(actions).isdisjoint(actions_name):
+				actions[:len(actions_name)] = actions_name[:len(actions)]
+			return actions, index
+	nb = max(len(s.actions) for s in h.states)
+	actions = list(actions_name[:nb])+['a'+str(i) for i in range(len(actions_name),nb)]
+	return actions, [list(range(len(s.actions))) for s in h.states]
+
 def jajapyModeltoStormpy(h):
 	"""
 	Given a jajapy.MC, a jajapy.CTMC, a jajapy.MDP or an instantiated
@@ -193,16 +214,25 @@ def MDPtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	nb_actions = len(h.getActions())
-	transition_matrix = h.matrix
-	transition_matrix = reshape(transition_matrix.flatten(),(h.nb_states*nb_actions,h.nb_states))
-	transition_matrix =  st.build_sparse_matrix(transition_matrix,[nb_actions*i for i in range(h.nb_states)])
-	choice_labelling = st.storage.ChoiceLabeling(h.nb_states*nb_actions)
-	for ia,a in enumerate(h.getActions()):
+	rows, row_groups, choice_labels = [], [], []
+	for s in range(h.nb_states):
+		row_groups.append(len(rows))
+		for ia,a in enumerate(h.getActions()):
+			if h.matrix[s,ia].any():
+				rows.append(h.matrix[s,ia])
+				choice_labels.append(a)
+		if len(rows) == row_groups[-1]: #no action is available in this state
+			rows.append(zeros(h.nb_states))
+			choice_labels.append(None)
+	transition_matrix =  st.build_sparse_matrix(array(rows),row_groups)
+	choice_labelling = st.storage.ChoiceLabeling(len(rows))
+	for a in h.getActions():
 		choice_labelling.add_label(a)
-		choice_labelling.add_label_to_choice(a,ia)
+	for i,a in enumerate(choice_labels):
+		if a != None:
+			choice_labelling.add_label_to_choice(a,i)
 	reward_models = {}
-	action_reward = [-1.0 for _ in range(len(transition_matrix))]
+	action_reward = [-1.0 for _ in range(len(rows))]
 	reward_models["nb_executed_actions"] = st.SparseRewardModel(optional_state_action_reward_vector = action_reward)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
@@ -310,7 +340,12 @@ def loadPrism(path: str):
 	except RuntimeError:
 		prism_program = st.parse_prism_program(path,True)
 	try:
-		stormpy_model = st.build_model(prism_program)
+		if prism_program.model_type == st.PrismModelType.MDP:
+			options = st.BuilderOptions(True,True)
+			options.set_build_choice_labels()
+			stormpy_model = st.build_sparse_model_with_options(prism_program,options)
+		else:
+			stormpy_model = st.build_model(prism_program)
 	except RuntimeError:
 		stormpy_model = st.build_parametric_model(prism_program)
 
-- 
2.43.0


From cce10238fdd2149938aac1fddc0cc9d51797ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 71/93] fix: the Prism file of a model can be loaded whatever
 the name of the model

---
 jajapy/base/Base_MC.py | 18 +++++++++++++++++-
 jajapy/pctmc/PCTMC.py  |  3 ++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index d0963d8..946d7ee 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -1,6 +1,22 @@
 from .Model import Model, MC_ID, MDP_ID, CTMC_ID
 from numpy import ndarray, where, array
 from random import choices, seed
+from re import sub
+
+PRISM_KEYWORDS = ['A','bool','clock','const','ctmc','C','double','dtmc','E','endinit','endinvariant','endmodule',
+				  'endobservables','endrewards','endsystem','false','formula','filter','func','F','global','G',
+				  'init','invariant','I','int','label','max','mdp','min','module','X','nondeterministic','observable',
+				  'observables','of','Pmax','Pmin','P','pomdp','popta','probabilistic','prob','pta','rate','rewards',
+				  'Rmax','Rmin','R','S','stochastic','system','true','U','W','ceil','endplayer','floor','ma','player','smg']
+
+def prismIdentifier(name: str) -> str:
+	"""
+	Returns the closest string to `name` which is a valid Prism identifier.
+	"""
+	name = sub('[^a-zA-Z0-9_]','_',name)
+	if name == '' or name[0].isdigit() or name in PRISM_KEYWORDS:
+		name = '_'+name
+	return name
 
 class Base_MC(Model):
 	"""
@@ -101,7 +117,7 @@ class Base_MC(Model):
 		return self.alphabet
 
 	def _savePrism(self,f) -> None:
-		f.write("module "+self.name+'\n')
+		f.write("module "+prismIdentifier(self.name)+'\n')
 		f.write("\ts: [0.."+str(self.nb_states-1)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		self._savePrismMatrix(f)
 		f.write('endmodule\n\n')
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 6487fc0..b35f66c 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -1,5 +1,6 @@
 from ..base.tools import resolveRandom
 from ..base.Parametric_Model import *
+from ..base.Base_MC import prismIdentifier
 from numpy import  zeros, dot, newaxis, hstack, inf, vstack, delete
 from numpy.random import exponential, rand, seed
 from math import exp, log
@@ -415,7 +416,7 @@ class PCTMC(Parametric_Model):
 				f.write(' = '+str(self.parameterValue(p)))
 			f.write(';\n')
 
-		f.write("\nmodule "+self.name+'\n')
+		f.write("\nmodule "+prismIdentifier(self.name)+'\n')
 		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		
 		for s1 in range(self.nb_states):
-- 
2.43.0


From 1055895c9df7b7e797ebc1bdba677ba21570d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 72/93] fix: the Prism file of a PCTMC with rates greater than
 1e15 can be loaded

---
 jajapy/pctmc/PCTMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index b35f66c..c092f01 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -6,6 +6,7 @@ from numpy.random import exponential, rand, seed
 from math import exp, log
 from multiprocessing import cpu_count, Pool
 from sys import platform
+import re
 
 class PCTMC(Parametric_Model):
 	"""
@@ -424,7 +425,7 @@ class PCTMC(Parametric_Model):
 				res = '\t[] s='+str(s1)+' ->'
 				for s2 in where(self.matrix[s1] != 0)[0]:
 					t = str(self.transition_expr[self.matrix[s1,s2]])
-					t = t.replace('**','^')
+					t = re.sub(r'\.(?!\d)','.0',t.replace('**','^'))
 					res += ' '+t+" : (s'="+str(s2)+") +"
 				res = res[:-2]+';\n'
 				f.write(res)
-- 
2.43.0


From 8f7af61d2ae64b00784e0d6e80778ccde9d4397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 73/93] fix: the Prism file of a PCTMC with a parameter named s
 can be loaded

---
 jajapy/pctmc/PCTMC.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index c092f01..31a42e8 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -408,6 +408,10 @@ class PCTMC(Parametric_Model):
 		file_path : str
 			Path of the output file.
 		"""
+		var = 's' # name of the Prism variable for the current state
+		while var in self.parameter_str:
+			var += '_'
+
 		f = open(file_path,'w')
 		f.write("ctmc\n\n")
 
@@ -418,15 +422,15 @@ class PCTMC(Parametric_Model):
 			f.write(';\n')
 
 		f.write("\nmodule "+prismIdentifier(self.name)+'\n')
-		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		f.write("\t"+var+": [0.."+str(self.nb_states-1)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		
 		for s1 in range(self.nb_states):
 			if (self.matrix[s1]!=0).any():
-				res = '\t[] s='+str(s1)+' ->'
+				res = '\t[] '+var+'='+str(s1)+' ->'
 				for s2 in where(self.matrix[s1] != 0)[0]:
 					t = str(self.transition_expr[self.matrix[s1,s2]])
 					t = re.sub(r'\.(?!\d)','.0',t.replace('**','^'))
-					res += ' '+t+" : (s'="+str(s2)+") +"
+					res += ' '+t+" : ("+var+"'="+str(s2)+") +"
 				res = res[:-2]+';\n'
 				f.write(res)
 		f.write('endmodule\n\n')
@@ -441,7 +445,7 @@ class PCTMC(Parametric_Model):
 		for l in labels:
 			res = 'label "'+l+'" ='
 			for s in labels[l]:
-				res += ' s='+s+' |'
+				res += ' '+var+'='+s+' |'
 			res = res[:-1]+';\n'
 			f.write(res)
 		f.close()
-- 
2.43.0


From 90502241ca0ca2edf0f162391e1177cf7cb07b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 74/93] fix: the parameters of a PCTMC can have the name of a
 sympy object (beta, gamma, E, I, ...)

---
 jajapy/base/Parametric_Model.py        | 4 ++--
 jajapy/pctmc/PCTMC.py                  | 7 ++++---
 jajapy/with_stormpy/model_converter.py | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 7e70250..5019900 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,7 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify, Float, sstr
+from sympy import sympify, Float, Symbol, sstr
 from mpmath.libmp import prec_to_dps, dps_to_prec
 
 class Parametric_Model(Model):
@@ -497,7 +497,7 @@ def loadParametricModel(f):
 	parameter_indexes = literal_eval(f.readline()[:-1])
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
-	transition_expr = [sympify(i) for i in transition_expr]
+	transition_expr = [sympify(i,{p: Symbol(p) for p in parameter_str}) for i in transition_expr]
 	# the constants are written with two digits more than their precision
 	transition_expr = [i.xreplace({c:Float(c,precision=max(53,dps_to_prec(prec_to_dps(c._prec)-2))) for c in i.atoms(Float)}) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 31a42e8..9ca222c 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -553,7 +553,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	matrix = zeros((nb_states,nb_states),dtype='uint16')
 	for t in transitions:
 		val = str(t[2])
-		expr = sympify(val)
+		expr = sympify(val,{p: Symbol(p) for p in parameters})
 		if expr.is_real or not expr in transition_expr:
 			transition_expr.append(expr)
 		matrix[t[0],t[1]] = transition_expr.index(expr)
@@ -717,8 +717,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		add_in_matrix(trans_expr.index(expr),i,j,model,add_index)
 	
 	def add_sync_transition(a,s1, d1, expr1, s2, d2, expr2):
-		expr1 = sympify(expr1)
-		expr2 = sympify(expr2)
+		names = {p: Symbol(p) for p in p_str}
+		expr1 = sympify(expr1,names)
+		expr2 = sympify(expr2,names)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
 			if not p.name in p_str:
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 127106e..e2f3d30 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -96,7 +96,7 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 							p_i.append([])
 							p_v[v] = nan
 						p_i[p_str.index(v)].append([c,dest])
-					t_val = sympify(str(t_val))
+					t_val = sympify(str(t_val),{v.name: v for v in ps})
 					if t_val.is_real or not t_val in t_expr:
 						matrix[c][dest] = len(t_expr)
 						t_expr.append(t_val)
-- 
2.43.0


From 1ab7e5e218bd8428d2e6fe3a4789e8e9056ac5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 75/93] fix: pi rejects the states outside the model

---
 jajapy/base/Model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 594137f..45dda13 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -104,6 +104,7 @@ class Model:
 		output : float
 			the probability of starting in state s.
 		"""
+		self._checkStateIndex(s)
 		return self.initial_state[s]
 
 	def run(self, number_steps: int, current: int = -1) -> list:
-- 
2.43.0


From e497d2c8fdd5dccc3c11514b99594f61681b62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 76/93] fix: the queries accept the states returned by next

---
 jajapy/base/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 45dda13..e0cd910 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -1,7 +1,7 @@
 from math import  log
 from .tools import resolveRandom
 from .Set import Set
-from numpy import array, where, append, dot, zeros, vsplit
+from numpy import array, where, append, dot, zeros, vsplit, integer
 from numpy.random import geometric
 from multiprocessing import cpu_count, Pool
 from sys import platform
@@ -385,7 +385,7 @@ class Model:
 		return res
 	
 	def _checkStateIndex(self,s:int) -> None:
-		if type(s) != int:
+		if type(s) != int and not isinstance(s,integer):
 			raise TypeError('The parameter must be a valid state ID')
 		elif s < 0:
 			raise IndexError('The parameter must be a valid state ID')
-- 
2.43.0


From 484ab85ae1e5390257d20ac0205a2a196d39fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 77/93] fix: MDP.getActions rejects the states outside the
 model

---
 jajapy/mdp/MDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 2b4e3c7..1d5df6d 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -70,6 +70,7 @@ class MDP(Base_MC):
 		if state == -1:
 			return self.actions
 		else:
+			self._checkStateIndex(state)
 			return list(set(self.actions[i] for i in where(self.matrix[state].sum(axis=1) > 0.0)[0]))
 
 
-- 
2.43.0


From 1866615df5b3e6b12f7228bc23a3992abb31566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 78/93] fix: the queries on the distributions of a GoHMM reject
 the states outside the model

---
 jajapy/gohmm/GoHMM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 5d83fe7..1b32f62 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -61,6 +61,7 @@ class GoHMM(Base_HMM):
 		ndarray
 			the mu parameters.
 		"""
+		self._checkStateIndex(s)
 		return self.output[s].T[0]
 			
 	def mu_n(self,s: int, n: int) -> float:
@@ -79,6 +80,7 @@ class GoHMM(Base_HMM):
 		float
 			the mu parameter of the `n`th distribution in `s`.
 		"""
+		self._checkStateIndex(s)
 		return self.output[s][n][0]
 
 	
@@ -123,6 +125,7 @@ class GoHMM(Base_HMM):
 			Likelihood of generating, from the `n`th distribution of this
 			state, observation `l`.
 		"""
+		self._checkStateIndex(s)
 		mu, sigma  = self.output[s][n]
 		if sigma <= 0.0:
 			return float(l == mu)
-- 
2.43.0


From 37bc13b1933130579b31dc966a05249c42ee7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 79/93] fix: lkl rejects the states outside the model for every
 duration

---
 jajapy/ctmc/CTMC.py   | 1 +
 jajapy/pctmc/PCTMC.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 67cd076..1549d57 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -108,6 +108,7 @@ class CTMC(Base_MC):
 		float
 			A Likelihood.
 		"""
+		self._checkStateIndex(s)
 		if t < 0.0:
 			return 0.0
 		return self.e(s)*exp(-self.e(s)*t)
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 9ca222c..254d368 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -114,6 +114,7 @@ class PCTMC(Parametric_Model):
 		float
 			A Likelihood.
 		"""
+		self._checkStateIndex(s)
 		if t < 0.0:
 			return 0.0
 		try:
-- 
2.43.0


From f5d64c93d9c90098b72f7777966d9ac03f1df6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 80/93] fix: the queries on the transitions of a parametric
 model reject the states outside the model

---
 jajapy/base/Parametric_Model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 5019900..0b2555e 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -118,6 +118,7 @@ class Parametric_Model(Model):
 			if type(state2) == type(None):
 				parameters = self.involvedParameters(state1)
 			else:
+				self._checkStateIndex(state2)
 				parameters = self.involvedParameters(state1,state2)
 			for i in parameters:
 				if not self.isInstantiated(param=i):
@@ -145,7 +146,7 @@ class Parametric_Model(Model):
 			instantiated, returns the symbolic representation of the
 			transition.
 		"""
-		return self._evaluate(self.transition_expr[self.matrix[i,j]],self.parameter_values)
+		return self._evaluate(self.transitionExpression(i,j),self.parameter_values)
 
 	def _evaluate(self,expr,values: dict):
 		# evalf(subs=values) returns tiny numbers instead of 0 (p-q with p == q)
@@ -168,6 +169,8 @@ class Parametric_Model(Model):
 		symbolic representation
 			The symbolic representation of the transition.
 		"""
+		self._checkStateIndex(i)
+		self._checkStateIndex(j)
 		return self.transition_expr[self.matrix[i,j]]
 	
 	def parameterValue(self, p:str)-> float:
-- 
2.43.0


From 9750ca94db625e93898d53d70c20e650e02a7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 81/93] fix: toMC leaves the CTMC as it was

---
 jajapy/ctmc/CTMC.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 1549d57..4ee0d9b 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -281,11 +281,12 @@ class CTMC(Base_MC):
 		MC
 			An equivalent untimed model.
 		"""
-		new_matrix = self.matrix
+		new_matrix = array(self.matrix,dtype=float)
 		for i in range(self.nb_states):
-			new_matrix[i] /= self.e(i)
+			if self.e(i) > 0.0: # otherwise i is absorbing
+				new_matrix[i] /= self.e(i)
 
-		return MC(new_matrix,self.labelling,name)
+		return MC(new_matrix,list(self.labelling),name)
 
 	def save(self,file_path:str) -> None:
 		"""Save the model into a text file.
-- 
2.43.0


From c4e824c5c6efb3da41262b28bef33c22743ff576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 82/93] fix: the functions creating a model leave their
 arguments as they were

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/mc/MC.py       | 2 +-
 jajapy/mdp/MDP.py     | 2 +-
 jajapy/pctmc/PCTMC.py | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 4ee0d9b..9bfb1f4 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -502,7 +502,7 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index a7834b0..328d5c7 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -335,7 +335,7 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 1d5df6d..f9976e8 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -589,7 +589,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	for t in transitions:
 		res[states.index(t[0])][actions.index(t[1])][states.index(t[2])] = t[3]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
 	if type(initial_state) == int:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 254d368..93c1b63 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -528,7 +528,8 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 	
-	labelling.append('init')
+	labelling = labelling+['init']
+	transitions = list(transitions)
 	
 	states = [i[0] for i in transitions]+[i[1] for i in transitions]
 	states += [i[0] for i in synchronous_transitions]+[i[2] for i in synchronous_transitions]
@@ -546,7 +547,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	elif nb_states < len(labelling):
 		print("WARNING: the labelling list is bigger than the number of states")
 	
-	parameter_str = parameters
+	parameter_str = list(parameters)
 	parameter_values = {}
 	parameter_indexes = [[] for _ in parameter_str]
 	transition_expr = [sympify('0.0')]
-- 
2.43.0


From 47692b5ed5f61fa21b42b7404800f548117eb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 83/93] fix: the models do not share their synchronous
 transitions

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 9bfb1f4..1dd6bcf 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -43,7 +43,7 @@ class CTMC(Base_MC):
 			Default is an empty list.
 		"""
 		self.model_type = CTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 
 		super().__init__(matrix,labelling,name)
 		for s in range(self.nb_states):
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 93c1b63..30897e9 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -54,7 +54,7 @@ class PCTMC(Parametric_Model):
 			Default is an empty list.
 		"""
 		self.model_type = PCTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 		super().__init__(matrix,labelling,transition_expr,parameter_values,parameter_indexes,parameter_str,name)
 
 	def e(self,s: int) -> float:
-- 
2.43.0


From 257fa2ab7b9f2024c4e243318639b53a6148a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 84/93] fix: createGoHMM

---
 jajapy/gohmm/GoHMM.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 1b32f62..d1b26c3 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -316,14 +316,8 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	"""
 	states = list(set([i[0] for i in transitions]+[i[1] for i in transitions]))
 	states.sort()
-	nb_distributions = len(output[0])
 	nb_states = len(states)
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	output = array((nb_states,nb_distributions,2))
-	for s,ts in enumerate(output):
-		for i,t in enumerate(ts):
-			output[s,i][0] = t[0]
-			output[s,i][1] = t[1]
-	return GoHMM(matrix, output,initial_state,name)
+	return GoHMM(matrix, output, initial_state, name)
-- 
2.43.0


From fc040f8572e299f8c4ac1574df4b76a48d0c741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 85/93] fix: the initial distribution of a model is checked

---
 jajapy/base/Model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index e0cd910..6e1534c 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -40,10 +40,14 @@ class Model:
 		self.nb_states = len(matrix)
 		# initial_state can be a list of probability or an int
 		if type(initial_state) == int:
+			if initial_state < 0 or initial_state >= self.nb_states:
+				raise ValueError("Error: the initial state "+str(initial_state)+" is not a valid state ID")
 			self.initial_state = array([0.0 for i in range(self.nb_states)])
 			self.initial_state[initial_state] = 1.0
 		else:
-			if round(sum(initial_state)) != 1.0:
+			if len(initial_state) != self.nb_states:
+				raise ValueError("Error: the size of initial_state must be equal to the number of states")
+			if round(sum(initial_state),3) != 1.0:
 				msg = "Error: the sum of initial_state should be 1.0, here it's"
 				msg+= str(sum(initial_state))
 				raise ValueError(msg)
-- 
2.43.0


From 5dfba89c8a8fc0416b78d211cc381c8d51993110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 86/93] fix: the emissions of an HMM can be given as a list

---
 jajapy/hmm/HMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 7ba0ae7..b874d1c 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -35,8 +35,8 @@ class HMM(Base_HMM):
 		self.output = array(output)
 		super().__init__(matrix,initial_state,name)
 		for i in range(self.nb_states):
-			if not checkProbabilities(output[i]):
-				raise ValueError("The probability to generate an observation in state",i,"should be 1.0, here it's",output[i].sum())
+			if not checkProbabilities(self.output[i]):
+				raise ValueError("The probability to generate an observation in state",i,"should be 1.0, here it's",self.output[i].sum())
 
 	def b(self, s: int, l: str) -> float:
 		"""
-- 
2.43.0


From 2d9ce3540710f0a00f7a302d1ac8dbe3ed4d69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 87/93] fix: the initial state given to the functions creating
 a model is checked

---
 jajapy/base/tools.py  | 29 +++++++++++++++++++++++++++++
 jajapy/ctmc/CTMC.py   |  9 ++-------
 jajapy/mc/MC.py       | 11 ++---------
 jajapy/mdp/MDP.py     | 12 +++---------
 jajapy/pctmc/PCTMC.py |  5 +++--
 5 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index c48d1ab..775d02b 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -134,6 +134,35 @@ def checkProbabilities(l: ndarray) -> bool:
 	"""
 	return round(l.sum(),3) == 1.0 or round(l.sum(),3) == 0.0
 
+def initialDistribution(initial_state, nb_states: int) -> list:
+	"""
+	Returns the probability of starting in each state.
+
+	Parameters
+	----------
+	initial_state : int or list of float
+		Determine which state is the initial one (then it's the id of the
+		state), or what are the probability to start in each state (then it's
+		a list of probabilities).
+	nb_states : int
+		number of states.
+
+	Returns
+	-------
+	list of float
+		the probability of starting in each state.
+	"""
+	if type(initial_state) == int:
+		if initial_state < 0 or initial_state >= nb_states:
+			raise ValueError("The initial state "+str(initial_state)+" is not a valid state ID")
+		return [1.0 if i == initial_state else 0.0 for i in range(nb_states)]
+	initial_state = list(initial_state)
+	if len(initial_state) != nb_states:
+		raise ValueError('The size of the initial_state list must be equal to the number of states')
+	if round(sum(initial_state),3) != 1.0:
+		raise ValueError("The sum of initial_state should be 1.0, here it's "+str(sum(initial_state)))
+	return initial_state
+
 def hoeffdingBound(f1,n1,f2,n2,alpha):
 	if n1*n2 == 0.0:
 		return True
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 1dd6bcf..742ec94 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -1,6 +1,6 @@
 import numpy.random
 from ast import literal_eval
-from ..base.tools import resolveRandom, randomProbabilities
+from ..base.tools import resolveRandom, randomProbabilities, initialDistribution
 from ..base.Set import Set
 from ..mc.MC import MC
 from ..pctmc.PCTMC import PCTMC
@@ -505,12 +505,7 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
-	if type(initial_state) == int:
-		res[-1][initial_state] = 1.0
-	else:
-		if type(initial_state) == ndarray:
-			initial_state = initial_state.tolist()
-		res[-1] = array(initial_state+[0.0])
+	res[-1] = array(initialDistribution(initial_state,nb_states)+[0.0])
 	return CTMC(res, labelling, name,synchronous_transitions)
 
 
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index 328d5c7..7eb49ce 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -1,4 +1,4 @@
-from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
+from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities, initialDistribution
 from ..base.Base_MC import *
 from ast import literal_eval
 from numpy import ndarray, array, zeros, vstack, hstack, newaxis, append, where
@@ -338,13 +338,6 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
-	if type(initial_state) == int:
-		res[-1][initial_state] = 1.0
-	else:
-		if type(initial_state) == ndarray:
-			initial_state = initial_state.tolist()
-		if len(initial_state) != nb_states:
-			raise ValueError('The size of the initial_state list must be equal to the number of states')
-		res[-1] = array(initial_state+[0.0])
+	res[-1] = array(initialDistribution(initial_state,nb_states)+[0.0])
 
 	return MC(res, labelling, name)
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index f9976e8..a22d0f2 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -1,4 +1,4 @@
-from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
+from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities, initialDistribution
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
@@ -592,13 +592,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
-	if type(initial_state) == int:
-		for a in range(nb_actions):
-			res[-1][a][initial_state] = 1.0
-	else:
-		if type(initial_state) == ndarray:
-			initial_state = initial_state.tolist()
-		for a in range(nb_actions):
-			res[-1][a] = array(initial_state+[0.0])
+	for a in range(nb_actions):
+		res[-1][a] = array(initialDistribution(initial_state,nb_states)+[0.0])
 	
 	return MDP(res,labelling,actions,name)
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 30897e9..63fd95f 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -1,4 +1,4 @@
-from ..base.tools import resolveRandom
+from ..base.tools import resolveRandom, initialDistribution
 from ..base.Parametric_Model import *
 from ..base.Base_MC import prismIdentifier
 from numpy import  zeros, dot, newaxis, hstack, inf, vstack, delete
@@ -537,9 +537,10 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	states.sort()
 	nb_states = len(states)
 	if type(initial_state) == int:
+		initialDistribution(initial_state,nb_states) # checks the state ID
 		transitions.append((nb_states,initial_state,1.0))
 	else:
-		for i,j in enumerate(initial_state):
+		for i,j in enumerate(initialDistribution(initial_state,nb_states)):
 			transitions.append((nb_states,i,j))
 	nb_states += 1
 	if nb_states > len(labelling):
-- 
2.43.0


From 164a545fa1a4e0b4eb8f1baec343e97cd8965cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 88/93] fix: MDP_random builds deterministic models with more
 labels than states, identical for a given seed

---
 jajapy/mdp/MDP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index a22d0f2..4ae1ded 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -508,7 +508,8 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(set(labelling))
+	state_labels = labelling[:nb_states]
+	alphabet = list(dict.fromkeys(state_labels))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
@@ -518,7 +519,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 		else:
 			matrix.append([])
 			for a in actions:
-				dest = [choices(where(array(labelling) == o)[0]) for o in alphabet]
+				dest = [choices(where(array(state_labels) == o)[0]) for o in alphabet]
 				p = zeros(nb_states)
 				probs = randomProbabilities(len(alphabet))
 				for i,j in zip(dest,probs):
-- 
2.43.0


From 38c86ee22dd5357d6c1bc1e4d79548ca824e309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 89/93] fix: GoHMM_random respects the bounds given

---
 jajapy/gohmm/GoHMM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index d1b26c3..905c73f 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -257,6 +257,10 @@ def GoHMM_random(nb_states:int,nb_distributions:int,
 	GoHMM
 		A pseudo-randomly generated GoHMM.
 	"""
+	def randomParameter(low,high):
+		# the rounding must not cross the bounds
+		return min(max(round(random.uniform(low,high),3),low),high)
+
 	matrix = []
 	output = []
 	if sseed != None:
@@ -265,7 +269,7 @@ def GoHMM_random(nb_states:int,nb_distributions:int,
 	for s in range(nb_states):
 		p1 = array(randomProbabilities(nb_states))
 		matrix.append(p1)
-		p2 = [[round(random.uniform(min_mu,max_mu),3),round(random.uniform(min_sigma,max_sigma),3)] for i in range(nb_distributions)]
+		p2 = [[randomParameter(min_mu,max_mu),randomParameter(min_sigma,max_sigma)] for i in range(nb_distributions)]
 		p2 = array(p2)
 		output.append(p2)
 	matrix = array(matrix)
-- 
2.43.0


From c7657619a97aae13d8016e62a6cc1228bbc2e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 90/93] fix: Alergia accepts traces longer than the recursion
 limit

---
 jajapy/mc/Alergia.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 380143d..8bbb843 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -73,9 +73,18 @@ class PTA:
 		return n
 
 	def compatible(self,s1,s2,alpha):
-		if s1 == None or s2 == None:
-			return True
-		
+		# not recursive: the traces can be longer than the recursion limit
+		pairs = [(s1,s2)]
+		for s1,s2 in pairs:
+			if s1 == None or s2 == None:
+				continue
+			if not self.locallyCompatible(s1,s2,alpha):
+				return False
+			for char in self.alphabet:
+				pairs.append((s1.findKid(char),s2.findKid(char)))
+		return True
+
+	def locallyCompatible(self,s1,s2,alpha):
 		if s1.label != s2.label:
 			return False
 		
@@ -99,9 +108,6 @@ class PTA:
 			f2 = leaving2[o] if o in leaving2 else 0
 			if not hoeffdingBound(f1,n1,f2,n2,alpha):
 				return False
-		for char in self.alphabet:
-			if not self.compatible(s1.findKid(char),s2.findKid(char),alpha):
-				return False
 		return True
 		
 	def merge(self,s1,s2):
@@ -110,6 +116,16 @@ class PTA:
 		self.fold(s1,s2)
 
 	def fold(self,s1,s2):
+		# not recursive: the traces can be longer than the recursion limit
+		todo = [self.foldSteps(s1,s2)]
+		while len(todo) > 0:
+			pair = next(todo[-1],None)
+			if pair == None:
+				todo.pop()
+			else:
+				todo.append(self.foldSteps(pair[0],pair[1]))
+
+	def foldSteps(self,s1,s2):
 		for (k2,c) in s2.kids:
 			k1 = s1.findKid(k2.label)
 			if k1 == None:
@@ -118,7 +134,7 @@ class PTA:
 			else:
 				k1.count += k2.count
 				s1.incKid(k1,c)
-				self.fold(k1,k2)
+				yield (k1,k2)
 
 	def pprint(self):
 		print(self.toMC())
-- 
2.43.0


From 13a83df0af97d444d7556c436e29f8aae43a1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 91/93] fix: IOAlergia accepts traces longer than the recursion
 limit

---
 jajapy/mdp/IOAlergia.py | 49 ++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index abde7be..c3971a6 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -258,18 +258,20 @@ class IOFPTA:
 		bool
 			True if s1 and s2 are epsilon compatible.
 		"""
-		if s1 == None or s2 == None:
-			return True
-		
-		if self.states[s1].observation != self.states[s2].observation:
-			return False
-
-		for a in self.actions:
-			for o in self.observations:
-				if not self.hoeffding(s1, s2, a, o, epsilon):
-					return False
-				if not self.compatible(self.successor(s1, a, o), self.successor(s2, a, o), epsilon):
-					return False
+		# not recursive: the traces can be longer than the recursion limit
+		pairs = [(s1,s2)]
+		for s1,s2 in pairs:
+			if s1 == None or s2 == None:
+				continue
+
+			if self.states[s1].observation != self.states[s2].observation:
+				return False
+
+			for a in self.actions:
+				for o in self.observations:
+					if not self.hoeffding(s1, s2, a, o, epsilon):
+						return False
+					pairs.append((self.successor(s1, a, o), self.successor(s2, a, o)))
 		return True
 				
 	def hoeffding(self, s1: int, s2: int, a: str, o: str, epsilon: float) -> bool:
@@ -340,6 +342,27 @@ class IOFPTA:
 		"""
 		Merges state ``s2`` into state ``s1``.
 
+		Parameters
+		----------
+		s1 : int
+			A state ID.
+		s2 : int
+			A state ID.
+		"""
+		# not recursive: the traces can be longer than the recursion limit
+		todo = [self.mergeSteps(s1,s2)]
+		while len(todo) > 0:
+			pair = next(todo[-1],None)
+			if pair == None:
+				todo.pop()
+			else:
+				todo.append(self.mergeSteps(pair[0],pair[1]))
+
+	def mergeSteps(self,s1:int ,s2: int):
+		"""
+		Merges state ``s2`` into state ``s1``, except for their successors: yields
+		each pair of successors that has to be merged before resuming.
+
 		Parameters
 		----------
 		s1 : int
@@ -365,7 +388,7 @@ class IOFPTA:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
 						self.states[s1].transitionAddCount(a,succ1,self.states[s2].getTransitionProb(a,succ2))
-						self.merge(succ1,succ2)
+						yield (succ1,succ2)
 						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
 						#self.states[succ2].counter = 0 #useless but meaningfull
-- 
2.43.0


From b6dc21bd5dd2f104e27c72429775d58e618de10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 92/93] fix: composition of CTMCs with more than 65535
 transitions

---
 jajapy/ctmc/CTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 742ec94..3426314 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -535,7 +535,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint16')
+	matrix= zeros((nb_states,nb_states),dtype='uint32')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -596,8 +596,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint32')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint32')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
-- 
2.43.0


From ba79cd84d286a13f3cbe00c259f16d98e8a64311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 93/93] fix: parametric models with more than 65535 transition
 expressions

---
 jajapy/pctmc/PCTMC.py                  | 8 ++++----
 jajapy/with_stormpy/model_converter.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 63fd95f..d51df25 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -553,7 +553,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	parameter_indexes = [[] for _ in parameter_str]
 	transition_expr = [sympify('0.0')]
 
-	matrix = zeros((nb_states,nb_states),dtype='uint16')
+	matrix = zeros((nb_states,nb_states),dtype='uint32')
 	for t in transitions:
 		val = str(t[2])
 		expr = sympify(val,{p: Symbol(p) for p in parameters})
@@ -676,7 +676,7 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint16')
+	matrix= zeros((nb_states,nb_states),dtype='uint32')
 	labelling = []
 	p_v = dict(m2.parameter_values)
 	p_v.update(m1.parameter_values)
@@ -770,8 +770,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				sync_trans.append(add_sync_transition(aj,i,i,1,sj,dj,pj))
 				
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint32')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint32')[:,newaxis]))
 	m1_init_trans = [sum([m1.transitionExpression(i,j) for i in m1_init]) for j in m1_sids]
 	m2_init_trans = [sum([m2.transitionExpression(i,j) for i in m2_init]) for j in m2_sids]
 	for i,si in enumerate(m1_init_trans):
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index e2f3d30..cfbb8fb 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -50,7 +50,7 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
 	elif ty == 3 or ty == 4:
-		matrix = zeros((len(h.states),len(h.states)),dtype='uint16')
+		matrix = zeros((len(h.states),len(h.states)),dtype='uint32')
 		p_str = []
 		p_v = {}
 		p_i = []
@@ -114,11 +114,11 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 			matrix[-1][add_init_state] = 1.0
 			matrix = hstack((matrix,zeros(len(matrix))[:,newaxis]))
 		else:
-			matrix = vstack((matrix,zeros((matrix.shape[0]),dtype='uint16')))
+			matrix = vstack((matrix,zeros((matrix.shape[0]),dtype='uint32')))
 			t_val = sympify('1.0')
 			matrix[-1][add_init_state] = len(t_expr)
 			t_expr.append(t_val)
-			matrix = hstack((matrix,zeros(len(matrix),dtype=('uint16'))[:,newaxis]))
+			matrix = hstack((matrix,zeros(len(matrix),dtype=('uint32'))[:,newaxis]))
 
 	if ty == 0:
 		return MC(matrix, labelling)
-- 
2.43.0

