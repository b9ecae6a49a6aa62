import dv.env
from dv.core import *
from dv.families import *
from dv.arrays import *
from dv.checks import c11
from dv import mcontracts

MOD = __name__


make = c11.make


def vals(x):
	return np.asarray(x.values, dtype=object)


def kern(op):
	return np.asarray(op.kernel, dtype=object)


# ---- partial application
def partials(led, which, name, sig, k, seed):
	r = rng('c21p', which, name, sig, seed)
	ctx = make(which, sig, name)
	f = ctx.algebra.operator
	n = len(sig)
	S = lambda m=4: sub(ctx, order(random_subset(r, n))[:m])
	for _ in range(k):
		q = r.random()
		if q < .2:
			R, V = S(), S()
			op = getattr(f, r.choice(['sandwich', 'full_sandwich', 'inertia']))(R, V)
		elif q < .3:
			V = S(3)
			op = r.choice([f.cubed, f.inverse_factor])(V)
		elif q < .6:
			op = getattr(f, r.choice(['product', 'wedge', 'inner', 'regressive', 'commutator']))(S(), S())
		else:
			ar = r.choice([1, 2, 3, 4])
			axes = [S(3) for _ in range(ar + 1)]
			K = np.array([r.choice([-2, -1, 1, 2, 3]) if r.random() < .4 else 0 for _ in range(int(np.prod([len(a) for a in axes])))], dtype=np.int8).reshape([len(a) for a in axes])
			op = c11.Operator(K, axes)
		if not len(op.output) or not all(len(a) for a in op.inputs):
			continue
		ar = op.arity
		first = r.sample(range(ar), r.randint(0, ar))       # in an arbitrary order
		rest = [i for i in range(ar) if i not in first]
		second = [i for i in rest if r.random() < .5]
		third = [i for i in rest if i not in second]
		shapes = [r.choice([(), (2,), (3, 1), (1, 2), (3, 2)]) + (len(a),) for a in op.inputs]
		label = f'{which}/{name} arity {ar} bind {first} then {second} then {third} sig={sig} axes={[list(map(int, a.blades)) for a in op.axes]} batches={[s[:-1] for s in shapes]}'

		def code(*arrs):
			xs = [ctx.multivector(values=a, subspace=s) for a, s in zip(arrs, op.inputs)]
			p = ctx.operator(op).partial({i: xs[i] for i in first})
			assert all(a is b for a, b in zip(p.inputs, [op.inputs[i] for i in rest])) and len(p.inputs) == len(rest) and p.output is op.output, 'axes of the partial'
			p2 = p.partial({rest.index(i): xs[i] for i in second}) if second else p
			o = p2(*[xs[i] for i in third]) if third else p2
			if o is p2:
				return kern(p2)
			assert o.subspace is op.output
			return vals(o)
		prove_arrays(led, f'{which} partial', label, shapes, code, lambda *arrs: contract_kernel(op.kernel, arrs), signature=sig, ctx=ctx)
		if which == 'numpy' and name == 'einsum' and ar > 1:
			# subspaces in the argument list leave those arguments open
			def code2(*arrs):
				xs = [ctx.multivector(values=a, subspace=s) for a, s in zip(arrs, op.inputs)]
				o = ctx.operator(op)(*[x if i in first else op.inputs[i] for i, x in enumerate(xs)])
				if not rest:
					return vals(o)
				return vals(o(*[xs[i] for i in rest]))
			prove_arrays(led, 'operator called on subspaces', label, shapes, code2, lambda *arrs: contract_kernel(op.kernel, arrs), signature=sig, ctx=ctx)


# ---- maps
def maps(led, which, sig, seed):
	r = rng('c21m', which, sig, seed)
	ctx = make(which, sig)
	f = ctx.algebra.operator
	n = len(sig)
	for V, W in [(order(random_subset(r, n))[:3], order(random_subset(r, n))[:3]) for _ in range(3)] + [([1, 2][:n], [0, 3][:n])]:
		v, w = sub(ctx, V), sub(ctx, W)
		lab = f'{which} sig={sig} on <{V}> <{W}>'
		mv_ = lambda a, s: ctx.multivector(values=a, subspace=s)
		sw = f.sandwich(v, w)
		if len(sw.output):
			prove_arrays(led, 'sandwich_map / inertia_map', lab + ' sandwich_map', [(2, 1, len(V)), (3, len(W))],
			             lambda a, b: vals(mv_(a, v).sandwich_map(w)(mv_(b, w))), lambda a, b: contract_kernel(sw.kernel, [a, b, a]), signature=sig, ctx=ctx)
		ine = f.inertia(v, w)
		if len(ine.output):
			prove_arrays(led, 'sandwich_map / inertia_map', lab + ' inertia_map', [(2, 1, len(V)), (3, len(W))],
			             lambda a, b: vals(mv_(a, v).inertia_map(w)(mv_(b, w))), lambda a, b: contract_kernel(ine.kernel, [a, a, b]), signature=sig, ctx=ctx)
		if which == 'numpy' and n > 1:
			vec, biv = ctx.subspace.vector(), ctx.subspace.bivector()
			prove_arrays(led, 'sandwich_map / inertia_map', lab + ' default subspaces', [(len(V),), (n,), (len(biv),)],
			             lambda a, b, c: np.concatenate([vals(mv_(a, v).sandwich_map()(mv_(b, vec))), vals(mv_(a, v).inertia_map()(mv_(c, biv)))]),
			             lambda a, b, c: np.concatenate([contract_kernel(f.sandwich(v, vec).kernel, [a, b, a]), contract_kernel(f.inertia(v, biv).kernel, [a, a, c])]), signature=sig, ctx=ctx)
		# unary maps obtained by binding: A[in, out], a batch of matrices
		pr = f.product(v, w)
		o = pr.output
		if not len(o):
			continue
		A = lambda a: batch(ctx.operator(pr).partial({0: mv_(a, v)}), a.shape[:-1])
		M = lambda a: contract_matrix(pr.kernel, a)
		app = lambda K, b: contract_apply(K, b)
		B = (2, 3)
		prove_arrays(led, f'{which} maps', lab + ' sum over a batch axis', [B + (len(V),), (3, len(W)), (2, len(W))],
		             lambda a, b, c: np.concatenate([vals(batch(A(a).sum(0), (3,))(mv_(b, w))), vals(batch(A(a).sum(1), (2,))(mv_(c, w)))]),
		             lambda a, b, c: np.concatenate([app(M(a).sum(0), b), app(M(a).sum(1), c)]), signature=sig, ctx=ctx)
		prove_arrays(led, f'{which} maps', lab + ' indexing', [B + (len(V),), (len(W),)],
		             lambda a, b: np.concatenate([x.reshape(-1) for x in (vals(batch(A(a)[1], (3,))(mv_(b, w))), vals(batch(A(a)[0, 2], ())(mv_(b, w))), vals(batch(A(a)[:, 1], (2,))(mv_(b, w))), vals(batch(A(a)[np.array([1, 0, 1])], (3, 3))(mv_(b, w))), kern(batch(A(a)[1:], (1, 3))))]),
		             lambda a, b: np.concatenate([x.reshape(-1) for x in (app(M(a)[1], b), app(M(a)[0, 2], b), app(M(a)[:, 1], b), app(M(a)[[1, 0, 1]], b), M(a)[1:])]), signature=sig, ctx=ctx)
		prove_arrays(led, f'{which} maps', lab + ' concatenate', [B + (len(V),), (1, 3, len(V)), (len(W),)],
		             lambda a, a2, b: vals(batch(A(a).concatenate(A(a2), 0), (3, 3))(mv_(b, w))), lambda a, a2, b: app(np.concatenate([M(a), M(a2)]), b), signature=sig, ctx=ctx)
		def upd(a, a2, b):
			x, y = A(a), A(a2)
			z = x.at[1, 0].set(y.kernel)
			u = x.at[:, 2].set(0)
			batch(z, (2, 3)), batch(u, (2, 3))
			return np.concatenate([q.reshape(-1) for q in (vals(z(mv_(b, w))), vals(u(mv_(b, w))), vals(x(mv_(b, w))))])
		def upd_(a, a2, b):
			K, Z, U = M(a), M(a), M(a)
			Z[1, 0] = M(a2)
			U[:, 2] = 0
			return np.concatenate([app(q, b).reshape(-1) for q in (Z, U, K)])
		prove_arrays(led, f'{which} maps', lab + ' update', [B + (len(V),), (len(V),), (len(W),)], upd, upd_, signature=sig, ctx=ctx)
		# maps applied to maps' results: composition is the matrix product
		if len(o) <= 4:
			p2 = f.product(o, v)
			if len(p2.output):
				prove_arrays(led, f'{which} maps', lab + ' composition', [(2, len(V)), (2, 1, len(V)), (len(W),)],
				             lambda a, b, c: vals(ctx.operator(p2).partial({1: mv_(b, v)})(A(a)(mv_(c, w)))),
				             lambda a, b, c: contract_kernel(p2.kernel, [contract_kernel(pr.kernel, [a, np.broadcast_to(c, (2, len(W)))]), b]), signature=sig, ctx=ctx)
	# square maps
	for U in ([0], [1, 2], [0, 3], [0, 1, 2]):
		if max(U) >> n:
			continue
		u = sub(ctx, U)
		m = len(U)
		def full(K):
			return type(ctx.operator(f.identity(u)))(ctx, c11.Operator(ctx.coerce_array(K), (u, u)))
		if which == 'numpy':
			prove_arrays(led, 'numpy transpose', f'{which} batched {U} {sig}', [(2, m, m), (m,)], lambda K, b: vals(full(K).transpose()(mv_(b, u))), lambda K, b: app(np.swapaxes(K, -1, -2), b), signature=sig, ctx=ctx)
			prove_arrays(led, 'numpy transpose', f'{which} {U} {sig}', [(m, m), (m,)], lambda K, b: vals(full(K).transpose()(mv_(b, u))), lambda K, b: app(np.swapaxes(K, -1, -2), b), signature=sig, ctx=ctx)
		if m > 2:
			prove_arrays(led, f'{which} maps', f'{which} inverse {U} {sig}', [(m, m), (m,)],
			             lambda K, b: np.asarray(full(K).inverse().kernel, dtype=object), lambda K, b: c11.Linalg().inv(K), signature=sig, ctx=ctx)
			continue
		bs = (2,) if m == 1 else ()
		prove_arrays(led, f'{which} maps', f'{which} inverse after map {U} {sig}', [bs + (m, m), (m,)],
		             lambda K, b: vals(full(K).inverse()(full(K)(mv_(b, u)))), lambda K, b: np.broadcast_to(b, bs + (m,)), signature=sig, ctx=ctx)
		prove_arrays(led, f'{which} maps', f'{which} map after inverse {U} {sig}', [bs + (m, m), (m,)],
		             lambda K, b: vals(full(K)(full(K).inverse()(mv_(b, u)))), lambda K, b: np.broadcast_to(b, bs + (m,)), signature=sig, ctx=ctx)
		# rectangular identification: between two different subspaces
		if len(U) == 2 and n >= 2:
			a1, a2 = sub(ctx, [1, 2]), sub(ctx, [0, 3])
			op = lambda K: type(ctx.operator(f.identity(u)))(ctx, c11.Operator(ctx.coerce_array(K), (a1, a2)))
			def axes(K):
				i = op(K).inverse()
				assert i.inputs == (a2,) and i.output is a1, 'axes of the inverse'
				return vals(i(op(K)(mv_(np.array([3, 5], dtype=object), a1))))
			prove_arrays(led, f'{which} maps', f'{which} axes of the inverse {sig}', [(2, 2)], axes, lambda K: np.array([3, 5], dtype=object), signature=sig, ctx=ctx)


def batch(m, shape):
	"""the map, whose reported batch shape is the one of the matrices it holds"""
	assert tuple(m.shape) == tuple(shape), f'the map reports the batch shape {tuple(m.shape)}, its matrices have {tuple(shape)}'
	return m


def contract_matrix(K, a):
	"""matrices [..., in, out] of x -> K(a, x)"""
	out = np.empty(a.shape[:-1] + K.shape[1:], dtype=object)
	for i in np.ndindex(*a.shape[:-1]):
		for j in np.ndindex(*K.shape[1:]):
			out[i + j] = sum((int(K[(k,) + j]) * a[i + (k,)] for k in range(K.shape[0])), 0)
	return out


def contract_apply(M, b):
	"""row vector times matrix, over broadcast batches"""
	sh = np.broadcast_shapes(M.shape[:-2], b.shape[:-1])
	M = np.broadcast_to(M, sh + M.shape[-2:])
	b = np.broadcast_to(b, sh + b.shape[-1:])
	out = np.empty(sh + M.shape[-1:], dtype=object)
	for i in np.ndindex(*sh):
		for o in range(M.shape[-1]):
			out[i + (o,)] = sum((b[i + (k,)] * M[i + (k, o)] for k in range(M.shape[-2])), 0)
	return out


# ---- batched containers
def containers(led, which, sig, seed):
	r = rng('c21c', which, sig, seed)
	ctx = make(which, sig)
	n = len(sig)
	c = f'{which} containers'
	for V in [order(random_subset(r, n))[:4] for _ in range(3)]:
		v = sub(ctx, V)
		k = len(V)
		X = lambda a: ctx.multivector(values=a, subspace=v)
		def P(label, shapes, code, want):
			def run(*arrs):
				o = code(*[X(a) for a in arrs])
				assert o.subspace is v, 'subspace'
				assert tuple(o.shape) == np.asarray(o.values, dtype=object).shape[:-1], 'shape'
				return vals(o)
			prove_arrays(led, c, f'{which} {label} on <{V}> sig={sig}', shapes, run, want, signature=sig, ctx=ctx)
		A, B = (2, 3, k), (4, 3, k)
		for idx in (0, -1, slice(None, None, 2), (1, 2), (slice(None), 1), (0, slice(1, 3)), Ellipsis, (Ellipsis, 0, slice(None)), [1, 0, 1], np.array([0, 1, 1])) + ((None, (slice(None), None), (np.array([0, 1]), np.array([2, 0]))) if which != 'torch' else ()):
			P(f'[{idx}]', [A], lambda x, idx=idx: x[idx], lambda a, idx=idx: a[idx])
		P('mask', [A], lambda x: x[np.array([False, True])], lambda a: a[1:])
		P('concatenate 0', [A, B], lambda x, y: x.concatenate(y, 0), lambda a, b: np.concatenate([a, b], 0))
		P('concatenate 1', [A, (2, 1, k)], lambda x, y: x.concatenate(y, 1), lambda a, b: np.concatenate([a, b], 1))
		P('sum 0', [A], lambda x: x.sum(0), lambda a: a[0] + a[1])
		P('sum 1', [A], lambda x: x.sum(1), lambda a: a[:, 0] + a[:, 1] + a[:, 2])
		P('sum axis=', [A], lambda x: x.sum(axis=1), lambda a: a[:, 0] + a[:, 1] + a[:, 2])
		P('mean', [A], lambda x: x.mean(0), lambda a: (a[0] + a[1]) * Fraction(1, 2))
		P('mean', [(4, 2, k)], lambda x: x.mean(axis=0), lambda a: (a[0] + a[1] + a[2] + a[3]) * Fraction(1, 4))
		P('concatenate -2', [A, (2, 1, k)], lambda x, y: x.concatenate(y, -2), lambda a, b: np.concatenate([a, b], 1))
		P('sum -2', [A], lambda x: x.sum(-2), lambda a: a[:, 0] + a[:, 1] + a[:, 2])
		P('sum -3', [A], lambda x: x.sum(-3), lambda a: a[0] + a[1])
		P('mean -3', [A], lambda x: x.mean(-3), lambda a: (a[0] + a[1]) * Fraction(1, 2))
		P('take_along_axis -2', [A], lambda x: x.take_along_axis(np.array([[2, 0], [1, 1]]), -2), lambda a: np.stack([a[0][[2, 0]], a[1][[1, 1]]]))
		P('set row', [A, (3, k)], lambda x, y: x.at[1].set(y), lambda a, b: np.stack([a[0], b]))
		P('set row by values', [A, (3, k)], lambda x, y: x.at[1].set(y.values), lambda a, b: np.stack([a[0], b]))
		def set1(a, b):
			a = a.copy(); a[0, 2] = b; return a
		P('set element', [A, (k,)], lambda x, y: x.at[0, 2].set(y), set1)
		def set2(a, b):
			a = a.copy(); a[:, 1:] = b; return a
		P('set slice', [A, (2, k)], lambda x, y: x.at[:, 1:].set(y), set2)
		P('set leaves the operand', [A, (3, k)], lambda x, y: (x.at[1].set(y), x)[1], lambda a, b: a)
		def chain(x, y):
			z = x[0]
			w = z.at[1].set(y)
			return x
		P('set on a view leaves the operand', [A, (k,)], chain, lambda a, b: a)
		P('set on a copy leaves the operand', [A, (3, k)], lambda x, y: (x.copy().at[0].set(y), x)[1], lambda a, b: a)
		if which != 'torch':
			P('take_along_axis', [A], lambda x: x.take_along_axis(np.array([[2, 0], [1, 1]]), 1), lambda a: np.stack([a[0][[2, 0]], a[1][[1, 1]]]))
		else:
			P('take_along_axis', [A], lambda x: x.take_along_axis(np.array([[2, 0], [1, 1]]), 1), lambda a: np.stack([a[0][[2, 0]], a[1][[1, 1]]]))
		P('rearrange', [A], lambda x: x.rearrange('a b c -> b a c'), lambda a: a.swapaxes(0, 1))
		P('rearrange merge', [A], lambda x: x.rearrange('a b c -> (b a) c'), lambda a: a.swapaxes(0, 1).reshape(6, k))
		P('repeat', [A], lambda x: x.repeat('a b c -> a r b c', r=2), lambda a: np.stack([a, a], 1))
		P('repeat tile', [A], lambda x: x.repeat('a b c -> (r a) b c', r=2), lambda a: np.concatenate([a, a], 0))
		if which == 'numpy':
			P('reshape', [A], lambda x: x.reshape((3, 2)), lambda a: a.reshape(3, 2, k))
			P('reshape -1', [A], lambda x: x.reshape((1, -1)), lambda a: a.reshape(1, 6, k))
			P('flatten', [A], lambda x: x.flatten(), lambda a: a.reshape(6, k))
			P('len', [A], lambda x: x[:len(x) - 1], lambda a: a[:1])


def real_containers(led, which):
	"""the unmodified jax and torch (bounded)"""
	g = np.random.default_rng(3)
	if which == 'jax':
		from numga.backend.jax.context import JaxContext as C
	else:
		from numga.backend.torch.context import TorchContext as C
	ctx = C(algebra((1, 1, 0)))
	N = NumpyContext(algebra((1, 1, 0)))
	def f(ctx, a, b, wide):
		x, y = ctx.multivector(values=a, subspace=wide), ctx.multivector(values=b, subspace=wide)
		o = [x[0], x[0, 1], x[:, 1], x[np.array([1, 0])], x.concatenate(y, 0), x.sum(0), x.mean(1), x.at[1].set(y[0]), x.at[0, 2].set(y[0, 0]), x, x.rearrange('a b c -> b a c'), x.repeat('a b c -> (r a) b c', r=2)]
		m = x.sandwich_map(ctx.subspace.vector())
		vec = ctx.multivector.vector([1., 2., 3.])
		o += [m(vec), m.sum(0)(vec), m[1](vec), m[0, 1](vec), m.at[1].set(m[0].kernel)(vec), m.concatenate(m, 0)(vec), m.inverse()(m(vec))]
		return [np.asarray(q.values, dtype=float) for q in o]
	W = [[0, 3, 5, 6], [0, 3], [0, 1, 2, 4, 3, 5, 6, 7]]
	for w in W[:2]:
		a, b = g.integers(1, 4, size=(2, 3, len(w))).astype(float), g.integers(1, 4, size=(2, 3, len(w))).astype(float)
		got, want = f(ctx, a, b, sub(ctx, w)), f(N, a, b, sub(N, w))
		for i, (p, q) in enumerate(zip(got, want)):
			led.num(f'{which} as shipped', p.shape == q.shape and np.allclose(p, q, rtol=1e-3, atol=1e-3), f'{which}: step {i} differs from numpy: {p.tolist()} {q.tolist()} on {a.tolist()} {b.tolist()}')


def main():
	ch = Check('C21', MOD)
	T = env.THOROUGH
	for w in ('numpy', 'jax', 'torch'):
		W = w.capitalize()
		ch.contract(f'{w} partial', [f'{W}Operator.partial', 'AbstractConcreteOperator.precompute_einsum_partial', f'{W}EinsumOperator.__call__'], 'ensures binding any operands first, in any order and in several steps, gives the value of the full application, batches broadcast')
		ch.contract(f'{w} maps', [f'{W}Operator.{k}' for k in ('sum', '__getitem__', 'at', 'concatenate', 'inverse')], 'ensures the map denotes the corresponding matrix')
		ch.contract(f'{w} containers', [f'{W}MultiVector.{k}' for k in ('__getitem__', 'concatenate', 'sum', 'mean', 'take_along_axis', 'rearrange', 'repeat', 'shape') + (('reshape', 'flatten', '__len__') if w == 'numpy' else ())] + ['AbstractMultiVector.at', 'IndexHelper.set', f'{W}Context.set_array'], 'ensures the batch operation on every component, operands unchanged')
	ch.contract('numpy transpose', ['NumpyOperator.transpose'], 'the transposed matrix')
	ch.contract('operator called on subspaces', ['NumpyEinsumOperator.__call__'], 'subspaces in the argument list stay open')
	ch.contract('sandwich_map / inertia_map', ['AbstractMultiVector.sandwich_map', 'AbstractMultiVector.inertia_map'], 'map(b) == operator(self, b, ..)')
	for w in ('jax', 'torch'):
		ch.contract(f'{w} as shipped', [f'{w} containers and maps'], 'bounded runs of the unmodified backend against numpy')
		ch.task('real_containers', w)
	ch.trusted.append('numpy.linalg.inv / jnp.linalg.inv / torch.linalg.inv under the assumed contract "two-sided inverse" (replaced by cofactors in the symbolic runs); einops; jax and torch array functions read with numpy semantics')
	sigs = [(1, 0), (1, -1), (1, 1, 0), (1, -1, 1), (1, 1, 1, 0)] + (pqr_signatures(3) + pqr_signatures(4) if T else [])
	for w in ('numpy', 'jax', 'torch'):
		for i, sig in enumerate(sigs):
			for nm in (('einsum', 'sparse') if w == 'numpy' else ('einsum', 'sparse', 'dense')):
				ch.task('partials', w, nm, sig, (30 if T else 8) if nm == 'einsum' else 4, i)
			if i < 4 or T:
				ch.task('maps', w, sig, i)
			if i in (0, 2) or T:
				ch.task('containers', w, sig, i)
	mcontracts.attach(ch, 'C21', 23)
	ch.run_isolated()
	return ch.finish()
