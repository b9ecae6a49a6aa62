From fba5c23da03051d409abd857454e2d9781d4c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 01/21] fix: apply the parity sign of transform along the axis
 of the transformed argument

The sandwich kernel has four axes (R, v, R, out); the mask was broadcast
against the second R axis.
---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..5efaaaf 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -541,7 +541,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 17c0566d1876bf9921f703e300944cfe86a9eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 02/21] fix: let inverse_transform and reverse_transform be
 evaluated

inverse_transform hands an operator to transform, which only accepted a
subspace; multivector.reverse_transform named an operator that does not exist.
---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5efaaaf..21d0f18 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -538,9 +538,9 @@ class OperatorFactory:
 		That is, transform(R, v) ^ transform(R, u) == transform(R, v ^ u)
 		Note; R is assumed normalized/motorized
 		"""
-		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		parity = match(R.subspace.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
-		sign_mask = parity_to_sign(v.grades() * parity)
+		sign_mask = parity_to_sign(v.subspace.grades() * parity)
 		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
-- 
2.43.0


From a142f4439deac517b91d279facb1bda724439153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 03/21] fix: zero outputs without terms in the python sparse
 operator

The default multivector is the scalar 1, so selecting a scalar part that
receives no term returned 1 rather than 0.
---
 numga/backend/python/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..a0d943b 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,7 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From ae14e2356663b2ec518dd833d47f489dcb68f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 04/21] fix: make the dense torch operator callable, with and
 without batch axes

---
 numga/backend/torch/operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..96989ce 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -106,6 +106,8 @@ class TorchDenseOperator(TorchOperator):
 		super(TorchDenseOperator, self).__init__(*args, **kwargs)
 		# precompute reshape operations
 		self.shapes = self.broadcasting_shapes
+		# contraction over all kernel input axes
+		self.sum_axes = tuple(-(a + 2) for a in range(self.arity))
 
 	def __call__(self, *inputs: Tuple[TorchMultiVector]) -> TorchMultiVector:
 		# kernel, shapes = self.precompute
@@ -113,8 +115,8 @@ class TorchDenseOperator(TorchOperator):
 		kernel = self.context.coerce_array(self.kernel)
 		return self.context.multivector(
 			values=torch.sum(
-				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				math.prod((i.values.reshape(i.shape + s) for i, s in zip(inputs, self.shapes)), start=kernel),
+				dim=self.sum_axes
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From 47a0b1d8d21c838adfaa59b6a1838388be430275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 05/21] fix: invalidate resolved dispatch when a new
 implementation is registered

---
 numga/dynamic_dispatch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..40084df 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -43,6 +43,8 @@ class DynamicDispatch:
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
 			self.options.insert(position, (condition, func))
+			# earlier resolutions may no longer be the first match
+			self.cache.clear()
 			return func
 		return wrap
 
-- 
2.43.0


From b82e9232a56d83f0637ebafecde3e0c4f6403d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 06/21] fix: do not silently truncate signatures of more than
 26 generators

Blades support up to 32 generators, but from_pqr and from_signature ran out
of names after 26 and dropped the rest of the signature.
---
 numga/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/util.py b/numga/util.py
index 635ceca..f82e87e 100644
--- a/numga/util.py
+++ b/numga/util.py
@@ -1,6 +1,6 @@
 """Some assorted utility function"""
 
-chars = 'abcdefghijklmnopqrstuvwxyz'
+chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 try:
 	from functools import cache
-- 
2.43.0


From 0301f00c54597bdfb3063175f96b25468c7e4597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 07/21] fix: only use 1 + b as exponential of elements that
 square to zero

With two or more null directions a degenerate bivector need not square to
zero, as in (xu + yv)^2 = 2xuyv.
---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..036d269 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,7 +34,7 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-- 
2.43.0


From fefefc92f1dce44f8be1b56a33e15f69e371c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 08/21] fix: no nan from the optimized exponential of a pure
 translation

---
 numga/multivector/extension/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..9497614 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,7 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	t = np.where(a > 1e-20, m * (c - s) / np.where(a > 1e-20, l, 1), 0)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From cffef70d8c09936557dbafeab7b55f828444b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 09/21] fix: count bits of non-contiguous blade arrays

---
 numga/algebra/bitops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/algebra/bitops.py b/numga/algebra/bitops.py
index 670caf7..b43cddc 100644
--- a/numga/algebra/bitops.py
+++ b/numga/algebra/bitops.py
@@ -40,6 +40,7 @@ def bit_count(b: np.ndarray, nbytes=None) -> np.ndarray:
 	ndarray, [...], uint8
 		bitcounts of each element
 	"""
+	b = np.asarray(b, order='C')    # the buffer below needs to be contiguous
 	# print(b.dtype.byteorder)
 	bytes = np.ndarray(
 		buffer=b.data,
-- 
2.43.0


From fe81eddc7923b6b2f927cae139dceff4291d5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 10/21] fix: accept a single grade in subspace selection

subspace.select[2], as documented in the module, raised.
---
 numga/subspace/namespaces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..7847f71 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -54,6 +54,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
+		item = [item] if isinstance(item, int) else item
 		subspace = self.factory.from_grades(item)
 		return self.subspace.select_subspace(subspace)
 
-- 
2.43.0


From 3a536b8b909fb568e31a000b34425a9387ae040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 11/21] fix: restrict subspaces in all forms of the restrict
 namespace

subspace.restrict[...] and subspace.restrict(other) were inherited from
select, and returned the full selection.
---
 numga/subspace/namespaces.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index 7847f71..372481f 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -70,3 +70,11 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		item = [item] if isinstance(item, int) else item
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From ef4a4f2e72f51e8ccb11f979a0e4855ac6019feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 12/21] fix: commutators of composed multi-argument operators

---
 numga/operator/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 21d0f18..8d968ae 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -373,7 +373,9 @@ class OperatorFactory:
 	# FIXME: https://projectivegeometricalgebra.org/wiki/index.php?title=Commutators
 	def make_commutator(self, op, sign):
 		def bind(l, r):
-			return (op(l, r) + ((sign * op(r, l)).swapaxes(0, 1))).div(2).squeeze()
+			# the two orders of the product only line up before binding any other operators
+			V, W = l.subspace, r.subspace
+			return (op(V, W) + ((sign * op(W, V)).swapaxes(0, 1))).div(2)._build((l, r)).squeeze()
 		return bind
 	def commutator_product(self, l: SubSpace, r: SubSpace) -> Operator:
 		"""Commutator of the geometric product"""
-- 
2.43.0


From 65bbe12d37bbcc06e9bfcfde1742ab1d899644a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 13/21] fix: select, restrict and (non)degenerate of composed
 operators keep the composition

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 8d968ae..5f550d7 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -85,12 +85,12 @@ class OperatorFactory:
 		# NOTE: dont squeeze here; broadcasting to zero blades is part of intended functionality
 		return Operator.build(
 			identity.take(i.subspace.blades, axis=0).take(o.subspace.blades, axis=1),
-			(i.subspace, o.subspace)
+			(i, o.subspace)
 		)
 	@cache
 	def restrict(self, i: SubSpace, o: SubSpace) -> Operator:
 		"""Restrict i to o; drop terms not in o"""
-		return self.select(i, o.intersection(i))
+		return self.select(i, o.intersection(i.subspace))
 
 	# @cache
 	# def grade_negation(self, subspace, grades: Tuple[int]) -> "Operator":
-- 
2.43.0


From da248cba0f57cdcd245db5bd59fe81b0be4ae17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 14/21] fix: identity and study conjugate of composed operators

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5f550d7..129d532 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -66,7 +66,7 @@ class OperatorFactory:
 	@cache
 	def identity(self, output: SubSpace) -> "Operator":
 		"""Identity operator"""
-		identity = np.identity(len(output), self.algebra.blade_dtype)
+		identity = np.identity(len(output.subspace), self.algebra.blade_dtype)
 		return self.build(identity, (output, output.subspace))
 	def diagonal(self, output: SubSpace, weights) -> "Operator":
 		"""Diagonal scaling operator"""
@@ -477,7 +477,7 @@ class OperatorFactory:
 	@cache
 	def study_conjugate(self, subspace) -> "Operator":
 		# assert subspace in self.algebra.subspace.study()
-		sign = parity_to_sign(subspace.grades() > 0)
+		sign = parity_to_sign(subspace.subspace.grades() > 0)
 		return self.diagonal(subspace, sign)
 	@cache
 	def study_norm_squared(self, subspace) -> "Operator":
-- 
2.43.0


From bf1a0882a0bae3926a8a6708b68e4d4ec16c2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 15/21] fix: generate a valid body for operators without terms

---
 numga/backend/python/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index a0d943b..4504214 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -35,7 +35,8 @@ class PythonCodegenOperator(AbstractConcreteOperator):
 		def make_line(ci, term):
 			return f'\to[{ci}] = ' + '+'.join(make_term(idx, scalar) for idx, scalar in term)
 
-		return text + '\n'.join(make_line(ci, term) for ci, term in terms)
+		lines = [make_line(ci, term) for ci, term in terms] or ['\tpass']
+		return text + '\n'.join(lines)
 
 # def partial(self, inputs: Dict[int, PythonMultiVector]) -> "PythonSparseOperator":
 	# 	expr = self.precompute_einsum_partial(tuple(inputs.keys()))
-- 
2.43.0


From 41df819a26119b313733445036bc54d7a3711415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 16/21] fix: index several batch axes at once in the torch
 backend

---
 numga/backend/torch/context.py     | 9 +++++----
 numga/backend/torch/multivector.py | 9 +++++----
 numga/backend/torch/operator.py    | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..2d712cf 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -23,10 +23,11 @@ class TorchContext(AbstractContext):
 		return torch.zeros(shape, dtype=self.dtype, device=self.device)
 
 	def set_array(self, arr, idx, values):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):     # a tuple indexes one axis per element
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 
 		arr = torch.clone(arr)
 		arr[idx] = values
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..85184f0 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -30,10 +30,11 @@ class TorchMultiVector(AbstractMultiVector):
 
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):     # a tuple indexes one axis per element
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		v = self.values[idx]
 		return self.copy(values=v)
 
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 96989ce..9565d47 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -39,10 +39,11 @@ class TorchOperator(AbstractConcreteOperator):
 
 
 	def __getitem__(self, idx):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):     # a tuple indexes one axis per element
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		k = self.kernel[idx]
 		slice = self.copy(self.operator.copy(k))
 		return slice
-- 
2.43.0


From ae223d9fa766451ac2176fdbe9d65246b11184ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 17/21] fix: partial application of no arguments

---
 numga/operator/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/abstract.py b/numga/operator/abstract.py
index 2478820..26ed5f5 100644
--- a/numga/operator/abstract.py
+++ b/numga/operator/abstract.py
@@ -96,9 +96,9 @@ class AbstractConcreteOperator:
 		i = tuple(self.broadcast_einsum(chars[a]) for a in axes)
 		# output axes characters
 		o = (c for c in k if c not in i)
-		i = ','.join(i)
+		i = ''.join(f',{a}' for a in i)
 		o = self.broadcast_einsum(''.join(o))
-		expr = f'{self.broadcast_einsum(k)},{i}->{o}'
+		expr = f'{self.broadcast_einsum(k)}{i}->{o}'
 		return expr
 
 	@staticmethod
-- 
2.43.0


From 0a82743e5598e27c96681635e283a6df96245c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 18/21] fix: register the polar decomposition for bivectors
 with a study square

---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From a8fd8a029345503c9525689925c08fbcfa1a59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 19/21] fix: motor_log_linear_normalized had no implementation
 in fully degenerate algebras

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 036d269..f8c85bb 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -79,7 +79,7 @@ def exp_linear(b: BiVector) -> Motor:
 mv.motor_log_linear_normalized = SubspaceDispatch("""
 	Logarithm approximation for motors close to 1
 	Exact inverse to exp_linear_normalized.""")
-@mv.motor_log_linear_normalized.register(lambda s: s.inside.quadreflection())
+@mv.motor_log_linear_normalized.register(lambda s: s.inside.even_grade() and (s.grades() <= 4).all())
 def motor_log_linear_normalized(m: Motor) -> BiVector:
 	# 'denormalize' the motor to have scalar == 1 and quadvector == 0
 	denormalize = m.restrict.self_reverse().inverse()
-- 
2.43.0


From 90617cf22bc2cd7d2ee60e8e4b1d8c97682f2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 20/21] fix: euclidian_factorization returned the inverse
 translator in signatures with an odd number of negative generators

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 129d532..0c65b57 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -632,7 +632,7 @@ class OperatorFactory:
 		t = (m * ~m.select.rotor()).select.translator()
 		"""
 		op = self.product(m, self.dual(m))
-		return self.dual(op).select_grade(2).symmetry((0, 1))
+		return self.dual_inverse(op).select_grade(2).symmetry((0, 1))
 
 	# # projections according to erik lengyel
 	# @cache
-- 
2.43.0


From 53004c82e4f1a94fce2a51a2359d278185d92ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 21/21] fix: transpose of batched linear maps

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0

